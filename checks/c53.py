"""C53: semaphores, condition variables, wait groups."""
from vf.build import Tree
from vf.thr import Rig

TECH = 'runtime monitoring: counting monitors, exact wake-up rounds and hang detection, native and with delays compiled in before every memory access'
NOTE = 'a signal is only judged when every counted waiter is known to have entered the wait with the mutex held; sampled schedules'


def check(ck):
    tree = Tree('std')
    rig = Rig(ck, tree)
    r = ck.sub('jobs')
    jobs = []

    def seed():
        return r.getrandbits(40) | 1

    def cpus():
        return r.choice([None, None, None, '0', '0,1'])
    for i in range(ck.n(18, 700)):
        noisy = i % 3 != 0
        nw, np = r.choice([(1, 1), (2, 1), (1, 2), (4, 3), (3, 4), (8, 1), (6, 6)])
        it = (16000 if not noisy else 900) // nw
        v0 = r.choice([0, 0, 1, 3, 10])

        def fn(lines, nw=nw, it=it, v0=v0):
            l = [x for x in lines if x.startswith('left')]
            want = 'left %d passed %d' % (max(0, v0 - nw * it), nw * it)
            ck.count('semaphore passes', nw * it)
            if l != [want]:
                return 'expected "%s", got %s' % (want, l)
        jobs.append(('semaphore', noisy, ['sem', nw, np, it, v0, r.choice([0, 0, 30]), seed()], cpus(), fn))
    for i in range(ck.n(14, 700)):
        noisy = i % 3 != 0
        np, nc = r.choice([(1, 1), (2, 1), (1, 3), (3, 3), (5, 2)])
        it = (8000 if not noisy else 600) // np
        jobs.append(('bounded buffer', noisy, ['cvbuf', np, nc, it, r.choice([1, 2, 4]), r.choice([0, 50, 100]), seed()],
                     cpus(), None))
        ck.count('items through the bounded buffer', np * it)
    for i in range(ck.n(18, 700)):
        noisy = i % 3 != 0
        n = r.choice([1, 2, 3, 5, 9])
        rounds = (300 if not noisy else 60) // n + 3
        jobs.append(('wakeups', noisy, ['cvexact', n, rounds, i % 3, 0, 0, seed()], cpus(), None))
        ck.count('wake-up rounds', rounds)
    for i in range(ck.n(10, 400)):
        noisy = i % 3 != 0
        jobs.append(('waitgroup', noisy, ['wg', r.choice([1, 2, 4, 7]), r.choice([1, 2, 4]), 60, 0, 0, seed()], cpus(), None))
        ck.count('wait group rounds', 60)
    rig.judge(jobs, 'wakeups')
    ck.rule = 'no more passes than posts, every post/signal/broadcast lets its waiters through, wait returns after all members and does return'
