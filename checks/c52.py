"""C52: mutexes and reader/writer locks."""
from vf.build import Tree
from vf.thr import Rig

TECH = 'runtime monitoring: in-lock invariants, hang detection and lost update checks, native and with delays compiled in before every memory access'
NOTE = 'exclusion by an inside counter and paired plain variables, liveness by completion; sampled schedules, not exhaustive'


def check(ck):
    tree = Tree('std')
    rig = Rig(ck, tree)
    r = ck.sub('jobs')
    jobs = []

    def seed():
        return r.getrandbits(40) | 1

    def tryfn(lines):
        if 'try 0 0 0 0 1 0 1 1' not in lines or 'truetrue' not in lines:
            return 'try variants answered %s' % lines[:2]

    def rd(lines):
        n = [l for l in lines if l.startswith('n ')]
        ck.count('write sections', int(n[0].split()[1]))
        ck.count('runs with concurrent readers', int(n[0].split()[3]) > 1)

    def mt(lines):
        ck.count('critical sections', int(next(l for l in lines if l.startswith('n ')).split()[1]))
    for i in range(ck.n(26, 900)):
        noisy = i % 3 != 0
        nt = r.choice([2, 2, 3, 4, 6, 8, 16])
        it = (30000 if not noisy else 1500) // nt * (1 if i % 4 else 3)
        jobs.append(('mutex', noisy, ['mutex', nt, it, r.choice([1, 1, 2, 4]), r.choice([0, 0, 20, 70]),
                                      r.choice([0, 1, 5]), seed()], r.choice([None, None, None, '0', '0,1']), mt))
    for i in range(ck.n(26, 900)):
        noisy = i % 3 != 0
        nr, nw = r.choice([(1, 1), (2, 1), (1, 2), (3, 2), (0, 3), (4, 4), (8, 2), (2, 6)])
        it = (20000 if not noisy else 1200) // (nr + nw)
        jobs.append(('rwlock', noisy, ['rw', nr, nw, it, r.choice([0, 0, 20, 70]), r.choice([0, 1, 5]), seed()],
                     r.choice([None, None, None, '0', '0,1']), rd))
    for noisy in (0, 1):
        jobs.append(('try', noisy, ['try'], None, tryfn))
        for n in (2, 5, 9):
            jobs.append(('rdbar', noisy, ['rdbar', n], None, None))
    rig.judge(jobs, 'locks')
    ck.rule = 'critical sections exclude each other, updates are visible to the next holder, all threads finish'
