"""C56: spawned threads and thread local data."""
from vf.build import Tree
from vf.thr import Rig

TECH = 'runtime monitoring: run counters, stack canaries, thread local monitors and resource accounting over waves of threads, native and with delays compiled in'
NOTE = 'includes spawns that fail for lack of address space; thread-local keys are allocated before the threads that use them, as required'


def check(ck):
    tree = Tree('std')
    rig = Rig(ck, tree)
    r = ck.sub('jobs')
    jobs = []

    def fn(n, waves, limit):
        def f(lines):
            l = [x.split() for x in lines if x.startswith('threads')][0]
            ck.count('threads run', n * waves - int(l[6]))
            ck.count('failed spawns', int(l[6]))
            if l[1] != '1':
                return '%s threads left after all exited' % l[1]
            if int(l[4]) > int(l[3]) + 2200:
                return 'address space grew from %s to %s pages over %d waves' % (l[3], l[4], waves)
            if not limit and l[6] != '0':
                return '%s spawns failed' % l[6]
            if limit and l[6] == '0':
                return 'no spawn failed under the limit'
        return f
    for i in range(ck.n(16, 700)):
        noisy = i % 3 != 0
        n = r.choice([1, 3, 10, 40, 100] if not noisy else [1, 3, 10, 30])
        nk = r.choice([1, 3, 7, 8, 9, 17, 40, 120])
        waves = (300 if not noisy else 60) // n + 2
        jobs.append(('spawn', noisy, ['spawn', n, nk, r.choice([5, 50, 400] if not noisy else [5, 50]), waves, i % 2], r.choice([None, None, '0', '0,1']),
                     fn(n, waves, False)))
    rig.judge(jobs, 'spawn')
    # many threads one after another: stacks must be given back
    rig.judge([('many', 0, ['spawn', 100, 9, 5, ck.n(20, 200), 0], None, fn(100, ck.n(20, 200), False))], 'many')
    # address space exhausted: spawn says so and nothing else is disturbed
    for noisy in (0, 1):
        rc, out = rig.run(noisy, ['spawn', 60, 9, 5, 4, 1], pre=['prlimit', '--as=%d' % (200 << 20)])
        lines = out.split('\n')
        ck.saw(('limited', noisy))
        msg = None
        if rc != 0 or 'OK' not in lines:
            msg = 'exit %s: %s' % (rc, out[-300:])
        else:
            msg = fn(60, 4, True)(lines)
        if msg:
            ck.violation('limited: ' + msg[:60], msg, {'out.txt': out})
    # the number of processors does not depend on what the stack held before
    import os
    for cpus in (None, '0', '0,3', '1,2,5'):
        for noisy in (0, 1):
            rc, out = rig.run(noisy, ['ncpu'], cpus=cpus)
            want = len(os.sched_getaffinity(0)) if cpus is None else len(cpus.split(','))
            ck.saw(('ncpu', cpus, noisy))
            if 'ncpu %d 1' % want not in out.split('\n'):
                ck.violation('ncpu', 'expected %d processors on %s, got %s' % (want, cpus, out), {'out.txt': out})
    ck.rule = 'every spawn runs once with its captured values and stack, thread-local data stays with its thread, resources are returned'
