"""C35: random numbers."""
import math
import numpy as np
from vf.core import *
from vf.build import Tree

TECH = 'runtime monitoring: range monitors, chi-square and coverage tests over many ranges, replayed sequences with interleaved other generators'
NOTE = 'the statistical thresholds make a false alarm less likely than 1e-6 per run; quality beyond uniformity of single draws, pairs of bits of short buffers and adjacent numbers is not judged'

BITS = {'int8': (8, 1), 'int16': (16, 1), 'int32': (32, 1), 'int': (32, 1), 'int64': (64, 1), 'uint8': (8, 0),
        'uint16': (16, 0), 'uint32': (32, 0), 'uint': (32, 0), 'uint64': (64, 0), 'byte': (8, 0), 'size': (64, 1)}
ZMAX = 7.0


def wrap(v):
    return v - (1 << 64) if v >= 1 << 63 else v


def chi(counts, probs, n):
    """z score of the chi-square statistic (Wilson-Hilferty)."""
    k = len(counts) - 1
    if k <= 0:
        return 0.0
    x = sum((c - n * p) ** 2 / (n * p) for c, p in zip(counts, probs))
    return ((x / k) ** (1 / 3) - (1 - 2 / (9 * k))) / math.sqrt(2 / (9 * k))


def hist(ck, src, g, ty, lo, hi, n):
    span = hi - lo
    w = (span + 63) // 64
    exp = []
    left = span
    while left > 0:
        exp.append(min(w, left))
        left -= w

    def judge(out):
        t = out.split()
        if len(t) != 67:
            return 'malformed result %r' % out[:80]
        t = [int(x) for x in t]
        ck.count('draws judged', n)
        if t[0]:
            return '%d of %d draws of %s from [%d, %d) are out of range' % (t[0], n, ty, lo, hi)
        c = t[3:]
        if sum(c) != n or any(c[len(exp):]):
            return 'draws counted wrongly'
        mn, mx = t[1], t[2]
        if not BITS[ty][1]:
            mn, mx = mn % (1 << 64), mx % (1 << 64)
        if span <= n // 40 and (mn != lo or mx != hi - 1):
            return 'draws of %s from [%d, %d) only reach [%d, %d]' % (ty, lo, hi, mn, mx)
        if len(exp) > 1:
            p = [e / span for e in exp]
            # merge a tiny last bucket
            if p[-1] * n < 20:
                p[-2] += p.pop()
                c[len(p) - 1] += c[len(p)]
                c = c[:len(p)]
            z = chi(c[:len(p)], p, n)
            if z > ZMAX:
                return 'draws of %s from [%d, %d) are biased (z=%.1f): %s' % (ty, lo, hi, z, c[:len(p)])
        return None
    return ('h %d %d %s %d %d %d %d' % (src, g, ty, wrap(lo), wrap(hi), w, n), judge)


def ranges(r, ty):
    b, sg = BITS[ty]
    mn, mx = (-(1 << b - 1), (1 << b - 1) - 1) if sg else (0, (1 << b) - 1)
    yield 0, 1
    yield 0, 2
    yield 5, 11
    yield mn, mx
    yield mn, mn + 3
    yield mx - 5, mx
    yield 0, mx
    yield 1, mx
    yield mn + (mx - mn) // 8, mx - (mx - mn) // 10
    yield 0, int((mx + 1) * 0.66) if b > 8 else 100
    if sg:
        yield -10, 10
        yield -20, -3
        yield mn, 0
        yield mn // 2 - 9, mx // 2 + 9
        yield mn, mx - mx // 3
    for _ in range(6):
        lo = r.randint(mn, mx - 1)
        yield lo, r.randint(lo + 1, mx)
        lo = r.randint(mn, mx - 1)
        yield lo, min(mx, lo + 1 + r.getrandbits(r.randint(0, b - 1)))


def cases(ck):
    r = ck.sub('hist')
    cs = []
    n = ck.n(6000, 120000)
    for src in (0, 1, 2):
        for ty in BITS:
            for i, (lo, hi) in enumerate(ranges(r, ty)):
                if hi > lo:
                    cs.append(hist(ck, src, i % 8, ty, lo, hi, n if src < 2 else n // 2))
        for ty in ('byte', 'uint8', 'int8'):
            for span in (255, 200, 171, 129, 100, 86) if ty != 'int8' else (127, 100, 86, 255):
                lo = 0 if ty != 'int8' or span < 128 else -128
                cs.append(hist(ck, src, 5, ty, lo, lo + span, 20 * n))
    # bytes: every position of every length takes many values
    for src in (0, 1, 2):
        for ln in list(range(0, 34)) + [63, 64, 65, 71, 72, 73, 80, 100, 255, 256, 1000, 4055, 4056, 4057, 4096, 4097, 9000]:
            cs.append(bytecase(ck, src, 6, ln))
    for src in (0, 1, 2):
        cs.append(('n %d 4 4000' % src, nums(ck)))
    return cs


def bytecase(ck, src, g, ln):
    def judge(out):
        if 'overrun' in out:
            return 'bytes beside the buffer written'
        d = bytes.fromhex(out.strip().replace('-', ''))
        ck.count('random bytes judged', ln)
        if len(d) != ln:
            return 'wrong length'
        run = best = 1
        for a, b in zip(d, d[1:]):
            run = run + 1 if a == b else 1
            best = max(best, run)
        if best >= 9:
            return '%d equal bytes in a row in %d random bytes' % (best, ln)
        if ln >= 1000:
            c = [0] * 64
            for x in d:
                c[x >> 2] += 1
            z = chi(c, [1 / 64] * 64, ln)
            if z > ZMAX:
                return 'bytes biased (z=%.1f)' % z
        return None
    return ('b %d %d %d' % (src, g, ln), judge)


def nums(ck):
    def judge(out):
        v = [int(x, 16) for x in out.split()]
        if len(set(v)) != len(v):
            return 'numbers repeat'
        for bit in range(64):
            k = sum(x >> bit & 1 for x in v)
            if abs(k - len(v) / 2) > ZMAX * math.sqrt(len(v)) / 2:
                return 'bit %d set in %d of %d numbers' % (bit, k, len(v))
        c = [0] * 64
        for a, b in zip(v, v[1:]):
            c[(a >> 61) * 8 + (b >> 61)] += 1
        z = chi(c, [1 / 64] * 64, len(v) - 1)
        if z > ZMAX:
            return 'consecutive numbers are related (z=%.1f)' % z
    return judge


def related(ck, d):
    """no bit of a short buffer depends on another bit of it, or of the next buffer"""
    n = ck.n(1200, 20000)
    jobs = [(src, ln) for src in (0, 1, 2) for ln in list(range(1, 18)) + [23, 31]]
    outs = pmap(lambda j: d.batch(['b %d 7 %d' % j] * n, 60, None, None), jobs)
    for (src, ln), out in zip(jobs, outs):
        ck.saw(('related', src, ln))
        ck.count('buffers tested for related bits', n)
        try:
            b = b''.join(bytes.fromhex(o.strip()) for o in out)
        except ValueError:
            b = b''
        if len(b) != n * ln:
            ck.violation('bytes: no answer', 'source %d, length %d: %s' % (src, ln, [o for o in out if len(o) != 2 * ln][:2]))
            continue
        x = np.unpackbits(np.frombuffer(b, dtype=np.uint8).reshape(n, ln), axis=1).astype(np.float64) * 2 - 1
        c = x.T @ x / math.sqrt(n)
        np.fill_diagonal(c, 0)
        for name, m in (('bits %d and %d of one buffer', c), ('bit %d of a buffer and %d of the next', x[:-1].T @ x[1:] / math.sqrt(n - 1))):
            i, j = np.unravel_index(np.argmax(abs(m)), m.shape)
            if abs(m[i, j]) > 7:
                ck.violation('related bytes', 'source %d, buffers of %d bytes: %s are related (z=%.1f)' % (src, ln, name % (i, j), m[i, j]))
                break


def check(ck):
    tree = Tree('all')
    d = Driver(ck, tree, 'c35')
    d.check(cases(ck), sigf=lambda cmd, m: re.sub(r'-?\d+', '#', m)[:70], timeout=40)
    # reproducibility: the same seed gives the same sequence whatever else is drawn meanwhile
    r = ck.sub('seq')
    for k in range(ck.n(40, 800)):
        seed = r.choice([0, 1, 2, 0x10000, 0xffff, 0xffffffff, r.getrandbits(32), r.getrandbits(16)])
        ty = r.choice(['int8', 'int16', 'int', 'uint32', 'int64', 'uint64'])
        n = r.choice([1, 10, 300])
        cmds = ['m 0 %d' % seed, 'm 1 %d' % seed, 'm 2 %d' % (seed ^ 1), 'm 3 %d' % seed]
        half = n // 2
        cmds += ['s 0 %s %d 0' % (ty, n), 's 1 %s %d %d' % (ty, half, r.randrange(4)), 's 2 %s %d 0' % (ty, n),
                 's 1 %s %d %d' % (ty, n - half, r.randrange(4)), 'b 0 3 100', 'm 3 %d' % seed, 'b 0 3 100', 'f 3']
        out = d.batch(cmds, 60, None, None)
        ck.saw(('seq', seed, ty, n))
        o = [x.split() for x in out]
        ck.count('replayed draws', n)
        if o[4] != o[5] + o[7]:
            ck.violation('not reproducible', 'seed %d: %s\nthen %s' % (seed, o[4], o[5] + o[7]), {'cmds.txt': '\n'.join(cmds)})
        if o[8] != o[10]:
            ck.violation('bytes not reproducible', 'seed %d: %s\nthen %s' % (seed, o[8], o[10]), {'cmds.txt': '\n'.join(cmds)})
        if n == 300 and o[4] == o[6]:
            ck.violation('seeds ignored', 'seeds %d and %d give the same sequence' % (seed, seed ^ 1), {'cmds.txt': '\n'.join(cmds)})
    related(ck, d)
    # first draws over seeds
    cmds = []
    N = ck.n(3000, 20000)
    for s in range(N):
        cmds += ['m 0 %d' % s, 'h 0 0 int 0 64 1 1']
    out = d.batch(cmds, 60, None, None)
    c = [0] * 64
    for o in out[1::2]:
        for i, x in enumerate(o.split()[3:]):
            c[i] += int(x)
    z = chi(c, [1 / 64] * 64, N)
    ck.count('seeds tried', N)
    if z > ZMAX:
        ck.violation('first draws over seeds', 'first draws of seeds 0..%d are not uniform (z=%.1f): %s' % (N, z, c))
    ck.rule = 'draws in range, uniform and covering; sequences determined by the seed alone; random bytes fill exactly the buffer'


def streams(r, n):
    cs = []
    for _ in range(n):
        cs.append('b %d 0 %d' % (r.randrange(3), r.choice([0, 1, 7, 8, 9, 30, 71, 100, 5000])))
    yield 'c35', [], cs
