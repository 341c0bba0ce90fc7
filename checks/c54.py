"""C54: queues and futures."""
from vf.build import Tree
from vf.thr import Rig

TECH = 'runtime monitoring: unique ids through queues and futures, consumer logs judged offline for exactly-once and per-producer order'
NOTE = 'native and with delays compiled in before every memory access; futures have one reader, as futget frees them'


def qoracle(ck, np, nc, ni):
    def fn(lines):
        logs = [[int(x, 16) for x in l.split()[1:]] for l in lines if l.startswith('log')]
        if len(logs) != nc:
            return 'logs missing'
        seen = [x for l in logs for x in l]
        ck.count('values delivered', len(seen))
        want = {(p << 32) | k for p in range(np) for k in range(ni)}
        if len(seen) != len(set(seen)):
            return 'a value was delivered twice'
        if set(seen) != want:
            return 'values lost or invented: %s' % sorted(set(seen) ^ want)[:4]
        for l in logs:
            last = {}
            for x in l:
                p = x >> 32
                if last.get(p, -1) >= x & 0xffffffff:
                    return 'values of producer %d out of order' % p
                last[p] = x & 0xffffffff
            ck.saw(('interleaving', tuple(x >> 32 for x in l[:200])))
    return fn


def check(ck):
    tree = Tree('std')
    rig = Rig(ck, tree)
    r = ck.sub('jobs')
    jobs = []

    def seed():
        return r.getrandbits(40) | 1

    def cpus():
        return r.choice([None, None, None, '0', '0,1'])
    for i in range(ck.n(30, 1200)):
        noisy = i % 3 != 0
        np, nc = r.choice([(1, 1), (2, 1), (1, 2), (4, 1), (1, 4), (3, 3), (6, 6)])
        ni = (9000 if not noisy else 700) // np
        jobs.append(('queue', noisy, ['queue', np, nc, ni, i % 2, 0, seed()], cpus(), qoracle(ck, np, nc, ni)))
    for i in range(ck.n(12, 500)):
        noisy = i % 3 != 0
        n, k = r.choice([(1, 20), (5, 10), (20, 5), (60, 2)])
        jobs.append(('future', noisy, ['future', n, k, 0, 0, 0, seed()], cpus(), None))
        ck.count('futures read', n * k * 3)
    rig.judge(jobs, 'queues')
    ck.rule = 'every value delivered exactly once, per producer in order, futures deliver what was put or computed'
