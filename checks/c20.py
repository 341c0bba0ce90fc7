"""C20: the allocator under long histories and concurrent use."""
from bisect import bisect_right, insort
from vf.core import *
from vf.build import Tree
from vf.thr import Rig

TECH = 'runtime monitoring: allocation histories with patterned contents against an interval map of live blocks and a bound on the process size; the same with threads, native and with delays compiled into the allocator'
NOTE = 'bounded-growth bound: 60 MB above the peak of the first quarter of a history with bounded live bytes; blocks up to 8 MB, up to 16 threads'

ELT = [1, 2, 3, 8, 24, 100]
ONE = [1, 3, 8, 24, 100, 5000, 140000]


def size(r, prof):
    x = r.random()
    if prof == 'small' or x < .5:
        return r.choice([0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, r.randrange(1, 300)])
    if prof == 'mid' or x < .8:
        k = r.randrange(8, 18)
        return max(1, (1 << k) + r.choice([-17, -16, -8, -1, 0, 0, 1, 8, 16, 17]))
    return r.choice([131072, 131073, 131056, 135168, 135169, 200000, 262144, r.randrange(131073, 1 << 20), r.randrange(131073, 3 << 20)])


def history(r, n, prof):
    """Commands and what the oracle has to know about each."""
    live = {}
    free = list(range(400))
    cmds = []
    maxlive = r.choice([5, 40, 300])
    budget = 24 << 20
    used = 0
    mode = 1

    def put(i, sz, how):
        nonlocal used
        live[i] = (sz, how)
        used += sz

    def drop(i):
        nonlocal used
        used -= live.pop(i)[0]
        free.append(i)
    for step in range(n):
        if r.random() < .01:
            mode = r.choice([.2, .5, .8])
        if step % max(1, n // 16) == 0:
            cmds.append(('v', None))
            continue
        full = len(live) >= maxlive or used > budget
        if live and (full or r.random() > mode * .9 + .05):
            order = list(live)
            i = order[0] if r.random() < .3 else order[-1] if r.random() < .4 else r.choice(order)
            sz, h = live[i]
            if h[0] == 's' and r.random() < .45 and not full:
                k = h[1]
                old = sz // k
                new = r.choice([0, old, old + 1, old + r.randrange(1, 20), old * 2, old // 2, size(r, prof) // k, old + 1, old + 1])
                new = min(new, 3000000 // k)
                z = r.randrange(2)
                cmds.append(('g %d %d %d %d' % (i, k, new, z), ('grow', i, sz, new * k)))
                used += new * k - sz
                live[i] = (new * k, h)
            elif h[0] == 's' and r.random() < .15 and not full and sz:
                k = h[1]
                a = r.randrange(sz // k + 1)
                m = r.randrange(sz // k - a + 1)
                j = free.pop(r.randrange(len(free)))
                cmds.append(('d %d %d %d %d %d' % (i, k, j, a, m), ('alloc', j, m * k)))
                put(j, m * k, h)
            else:
                cmds.append(({'b': 'x %d' % i, 'o': 'p %d %d' % (i, h[1]), 's': 'f %d %d' % (i, h[1])}[h[0]], ('free', i)))
                drop(i)
        else:
            i = free.pop(r.randrange(len(free)))
            x = r.random()
            if x < .4:
                s = size(r, prof)
                cmds.append(('b %d %d %d' % (i, s, r.randrange(2)), ('alloc', i, s)))
                put(i, s, ('b', 0))
            elif x < .55:
                k = r.choice(ONE[:5] if prof == 'small' else ONE)
                cmds.append(('o %d %d %d' % (i, k, r.randrange(3)), ('alloc', i, k)))
                put(i, k, ('o', k))
            else:
                k = r.choice(ELT)
                m = size(r, prof) // k
                cmds.append(('s %d %d %d %d' % (i, k, m, r.randrange(2)), ('alloc', i, m * k)))
                put(i, m * k, ('s', k))
    for i in list(live):
        sz, h = live[i]
        cmds.append(({'b': 'x %d' % i, 'o': 'p %d %d' % (i, h[1]), 's': 'f %d %d' % (i, h[1])}[h[0]], ('free', i)))
    return cmds


class Map:
    """Live address ranges."""

    def __init__(self):
        self.starts, self.end, self.who = [], {}, {}
        self.at = {}

    def add(self, i, a, n):
        if not n:
            return None
        if a % 16:
            return 'block at %#x is not aligned to 16' % a
        k = bisect_right(self.starts, a)
        if k and self.end[self.starts[k - 1]] > a:
            return 'block %#x+%d overlaps live block %#x+%d' % (a, n, self.starts[k - 1], self.end[self.starts[k - 1]] - self.starts[k - 1])
        if k < len(self.starts) and self.starts[k] < a + n:
            return 'block %#x+%d overlaps live block %#x' % (a, n, self.starts[k])
        insort(self.starts, a)
        self.end[a] = a + n
        self.at[i] = a
        return None

    def drop(self, i):
        a = self.at.pop(i, None)
        if a is not None:
            self.starts.remove(a)
            del self.end[a]


def judge(cmds, outs):
    m = Map()
    pages = []
    for (c, e), o in zip(cmds, outs):
        if o.startswith('!'):
            return c, o[1:]
        f = o.split()
        if e is None:
            pages.append(int(f[0]))
            continue
        if e[0] == 'free':
            if f != ['1']:
                return c, 'contents changed before the block was freed'
            m.drop(e[1])
            continue
        if e[0] == 'grow':
            m.drop(e[1])
            if f[2] != '1':
                return c, 'contents not kept across growth'
            if f[3] != '1':
                return c, 'grown part is not zero'
            if int(f[1]) != e[3]:
                return c, 'length is %s bytes, expected %d' % (f[1], e[3])
            if e[3] and f[0] == '0':
                return c, 'null pointer'
            bad = m.add(e[1], int(f[0]), e[3])
        else:
            if int(f[1]) != e[2]:
                return c, 'length is %s bytes, expected %d' % (f[1], e[2])
            if f[2] != '1':
                return c, 'contents are not what was promised (zero, or the copied value)'
            if e[2] and f[0] == '0':
                return c, 'null pointer'
            bad = m.add(e[1], int(f[0]), e[2])
        if bad:
            return c, bad
    q = max(2, len(pages) // 4)
    if max(pages) > max(pages[:q + 1]) + 15360:
        return 'v', 'the process grew from %d to %d pages though live memory is bounded: %s' % (max(pages[:q + 1]), max(pages), pages)
    return None


def check(ck):
    tree = Tree('std')
    d = Driver(ck, tree, 'c20')
    r = ck.sub('hist')
    hs = [history(r, r.choice([100, 600, 2500, 6000]), r.choice(['small', 'mid', 'mid', 'all', 'all'])) for _ in range(ck.n(32, 600))]

    def one(a):
        h = a[1]
        return d.batch([c for c, _ in h], 60, None, None)
    for k, (h, outs) in enumerate(zip(hs, pmap(one, list(enumerate(hs))))):
        bad = judge(h, outs)
        ck.saw(repr([c for c, _ in h]))
        ck.count('allocator calls', len(h))
        ck.count('growths', sum(1 for _, e in h if e and e[0] == 'grow'))
        if bad:
            ck.violation('history: ' + re.sub(r'0x[0-9a-f]+|\d+', '#', bad[1])[:80], 'at %s: %s' % bad, {'commands.txt': '\n'.join(c for c, _ in h) + '\n'})
    # churn: the same few sizes over and over must not use more and more memory
    for name, step, lim in CHURN:
        cs = []
        for i in range(ck.n(400, 3000)):
            cs += step(i)
            if i % 20 == 0:
                cs.append('v')
        outs = d.batch(cs, 60, None, None)
        ck.saw(('churn', name, len(cs)))
        pg = [int(o.split()[0]) for c, o in zip(cs, outs) if c == 'v' and not o.startswith('!')]
        bad = next((o for o in outs if o.startswith('!')), None)
        if bad:
            ck.violation('churn ' + name, bad[1:], {'commands.txt': '\n'.join(cs) + '\n'})
        elif pg[-1] > pg[3] + lim:
            ck.violation('churn ' + name, 'repeating the same allocations grew the process from %d to %d pages' % (pg[3], pg[-1]), {'commands.txt': '\n'.join(cs[:200]) + '\n'})
    rig = Rig(ck, tree, 'mem', ('lib/std/bytealloc.myr', 'lib/std/alloc.myr'))
    r = ck.sub('thr')
    jobs = []

    def fn(lines):
        l = [x.split() for x in lines if x.startswith('n ')][0]
        ck.count('concurrent allocator calls', int(l[1]))
        ck.count('blocks freed by another thread', int(l[2]))
        if int(l[4]) > int(l[3]) + 20000:
            return 'the process grew from %s to %s pages though live memory is bounded' % (l[3], l[4])
    for i in range(ck.n(28, 900)):
        noisy = i % 3 != 0
        nt = r.choice([2, 2, 3, 4, 8, 16])
        # threads, operations, biggest size, slots, seed
        jobs.append(('threads', noisy, ['mem', nt, (900 if noisy else 15000) // nt + 50, r.choice([16, 64, 2000, 130000, 600000]), r.choice([1, 3, 20, 60]),
                                       r.getrandbits(40)], r.choice([None, None, '0', '0,1']), fn))
    rig.judge(jobs, 'threads')
    ck.rule = 'no two live blocks overlap, every block is aligned, zeroed when promised and keeps its bytes until it is freed, also across growth and threads; memory is reused'


def rep(n, f):
    return [f(i) for i in range(n)]


CHURN = [
    ('three blocks of 128 KiB', lambda i: rep(3, lambda j: 'b %d 131072 0' % j) + rep(3, lambda j: 'x %d' % j), 600),
    ('grow from empty', lambda i: ['s 0 8 %d 0' % (500 + i % 7), 'g 0 8 0 0', 'g 0 8 9000 0', 'f 0 8'], 600),
    ('grow one by one', lambda i: ['s 0 1 1 0'] + rep(40, lambda j: 'g 0 1 %d 0' % (j * 300 + 2)) + ['f 0 1'], 600),
    ('large and larger', lambda i: rep(6, lambda j: 'b %d %d 0' % (j, 140000 + 5000 * ((i + j) % 9))) + rep(6, lambda j: 'x %d' % ((j * 5) % 6)), 20000),
    ('empty slices', lambda i: ['s 0 8 0 0', 'f 0 8', 'b 1 0 0', 'x 1', 'd 2 8 3 0 0', 'f 3 8'] if i else ['s 2 8 5 0'], 600),
    ('objects', lambda i: rep(30, lambda j: 'o %d %d %d' % (j, ONE[j % 7], j % 3)) + rep(30, lambda j: 'p %d %d' % (j, ONE[j % 7])), 3000),
]
