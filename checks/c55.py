"""C55: atomic operations."""
from vf.build import Tree
from vf.thr import Rig

TECH = 'runtime monitoring: linearizability of exchange/cas/add histories from unique values, litmus tests, bytes around the target'
NOTE = 'x86-64 only; sequential consistency by store-buffering and message-passing litmus tests on real cores'


def oracle(ck, nt, ni, op):
    def fn(lines):
        logs = [[int(x, 16) for x in l.split()[1:]] for l in lines if l.startswith('log')]
        final = [int(l.split()[1], 16) for l in lines if l.startswith('final')]
        if len(logs) != nt or len(final) != 1:
            return 'logs missing'
        ev = [(l[i], l[i + 1]) for l in logs for i in range(0, len(l), 2)]
        ck.count('atomic operations judged', len(ev))
        if op == 2:
            olds = sorted(o for n, o in ev)
            if final[0] != nt * ni or olds != list(range(nt * ni)):
                return 'an addition was lost: final %d of %d, %d distinct results' % (final[0], nt * ni, len(set(olds)))
            for l in logs:
                if any(l[i + 1] >= l[i + 3] for i in range(0, len(l) - 2, 2)):
                    return 'a thread saw the counter go backwards'
            return None
        # every value was replaced by exactly one later one: the operations form a chain from 0 to final
        nxt = {}
        for n, o in ev:
            if o in nxt:
                return 'two operations replaced the same value %x' % o
            nxt[o] = n
        v, k = 0, 0
        pos = {}
        while v in nxt:
            v = nxt[v]
            pos[v] = k
            k += 1
        if k != len(ev) or v != final[0]:
            return 'operations do not form one chain (%d of %d, final %x)' % (k, len(ev), final[0])
        sw = 0
        for l in logs:
            ps = [pos[l[i]] for i in range(0, len(l), 2)]
            if ps != sorted(ps):
                return 'a thread\'s operations took effect out of order'
            sw += sum(b != a + 1 for a, b in zip(ps, ps[1:]))
        ck.count('switches between threads in the chains', sw)
    return fn


def check(ck):
    tree = Tree('std')
    rig = Rig(ck, tree)
    r = ck.sub('jobs')
    jobs = []
    for rep in range(ck.n(2, 60)):
        for op in (0, 1, 2):
            for ty in (0, 1, 2, 3):
                noisy = (op + ty + rep) % 2
                nt = r.choice([2, 3, 4, 8])
                ni = (24000 if not noisy else 3000) // nt
                jobs.append(('atomics op%d type%d' % (op, ty), noisy, ['atom', nt, ni, op, ty],
                             None, oracle(ck, nt, ni, op)))
        for noisy in (0, 1):
            nt = r.choice([2, 4, 7])
            jobs.append(('pointer stack', noisy, ['ptr', nt, 4000 // nt // (1 + noisy), 0, 0, 0, r.getrandbits(30) | 1], None, None))
    lit = []
    for rep in range(ck.n(2, 60)):
        for kind in range(6):
            def fn(lines):
                s = [l for l in lines if l.startswith('seen')]
                a = [int(x) for x in s[0].split()[1:]]
                ck.count('litmus outcomes first/second/both', sum(a))
                ck.count('litmus outcomes both stores seen', a[2])
            lit.append(('litmus%d' % kind, 0, ['litmus', ck.n(60000, 300000), kind], r.choice([None, '0,1', '2,3', '0,4']), fn))
    rig.judge(lit, 'litmus', workers=2)
    jobs += [('values', n, ['atom1'], None, None) for n in (0, 1)]
    rig.judge(jobs, 'atomics')
    ck.rule = 'histories are linearizable, documented values returned, neighbours untouched, no forbidden litmus outcome'
