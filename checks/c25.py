"""C25: hash tables against a dictionary, over operation histories."""
from vf.core import *


def siphash(data, key):
    M = 2**64 - 1
    k0, k1 = int.from_bytes(key[:8], 'little'), int.from_bytes(key[8:], 'little')
    v = [k0 ^ 0x736f6d6570736575, k1 ^ 0x646f72616e646f6d, k0 ^ 0x6c7967656e657261, k1 ^ 0x7465646279746573]

    def rot(x, n):
        return (x << n | x >> (64 - n)) & M

    def rnd():
        v[0] = (v[0] + v[1]) & M
        v[1] = rot(v[1], 13) ^ v[0]
        v[0] = rot(v[0], 32)
        v[2] = (v[2] + v[3]) & M
        v[3] = rot(v[3], 16) ^ v[2]
        v[0] = (v[0] + v[3]) & M
        v[3] = rot(v[3], 21) ^ v[0]
        v[2] = (v[2] + v[1]) & M
        v[1] = rot(v[1], 17) ^ v[2]
        v[2] = rot(v[2], 32)
    b = data + bytes(7 - len(data) % 8) + bytes([len(data) & 255])
    for i in range(0, len(b), 8):
        m = int.from_bytes(b[i:i + 8], 'little')
        v[3] ^= m
        rnd()
        rnd()
        v[0] ^= m
    v[2] ^= 0xff
    for _ in range(4):
        rnd()
    return v[0] ^ v[1] ^ v[2] ^ v[3]


def hist(r):
    t = r.choice('llllbxgss')
    m = {}
    cmd, want = [], []
    nk = r.choice([2, 4, 8, 20, 40, 100]) if t != 'b' else r.choice([4, 30, 255])
    base = r.choice([0, 0, 1000, -5]) if t != 'b' else 0
    stride = r.choice([1, 1, 32, 64, 1 << 32]) if t in 'lx' else 1
    steps = r.choice([10, 30, 80, 200, 500])
    w = r.choice(['pppdg', 'ppdg', 'pdg', 'pddg', 'pdgvhcki'])
    for _ in range(steps):
        k = r.choice(w) if r.random() > .06 else r.choice('vhckiPDn')
        x = base + stride * r.randrange(nk)
        if k == 'p':
            v = r.randrange(-99, 99)
            cmd.append('p %d %d' % (x, v))
            m[x] = v
        elif k == 'd':
            cmd.append('d %d' % x)
            m.pop(x, None)
        elif k == 'g':
            cmd.append('g %d' % x)
            want.append(str(m.get(x, 'none')))
        elif k == 'v':
            f = r.randrange(1000, 2000)
            cmd.append('v %d %d' % (x, f))
            want.append(str(m.get(x, f)))
        elif k == 'h':
            cmd.append('h %d' % x)
            want.append(str(int(x in m)))
        elif k == 'c':
            cmd.append('c')
            want.append(str(len(m)))
        elif k == 'k':
            cmd.append('k')
            want.append(sorted(m))
        elif k == 'i':
            cmd.append('i')
            want.append(dict(m))
        elif k == 'n':
            if r.random() < .9:
                continue
            cmd.append('n')
            m = {}
        else:
            n = r.choice([3, 20, 60, 200]) if t != 'x' else 12
            s = stride
            x = base
            if t == 'b':
                n = min(n, 255)
            cmd.append('%s %d %d %d' % (k, x, n, s))
            for i in range(n):
                y = x + i * s
                if k == 'P':
                    m[y] = y
                else:
                    m.pop(y, None)
    cmd += ['c', 'k', 'i']
    want += [str(len(m)), sorted(m), dict(m)]
    allk = sorted(set([base + stride * i for i in range(nk)]))
    cmd += ['g %d' % x for x in allk]
    want += [str(m.get(x, 'none')) for x in allk]

    def f(out):
        p = out.split()
        i = 0
        for w in want:
            if isinstance(w, str):
                if p[i] != w:
                    return 'answer %d is %s, expected %s' % (i, p[i], w)
                i += 1
                continue
            if p[i] != '{':
                return 'answer %d is %s, expected a list' % (i, p[i])
            j = p.index('}', i)
            l = list(map(int, p[i + 1:j]))
            if isinstance(w, dict):
                ps = list(zip(l[::2], l[1::2]))
                if sorted(ps) != sorted(w.items()):
                    return 'iteration gave %s, expected %s' % (sorted(ps)[:40], sorted(w.items())[:40])
            elif sorted(l) != w:
                return 'keys are %s, expected %s' % (sorted(l)[:60], w[:60])
            i = j + 1
        if i != len(p):
            return 'extra answers'
    return (t + ' ' + ' '.join(cmd), f)


def cases(r, n):
    for i in range(n):
        if r.random() < .1:
            b = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 8, 9, 15, 16, 63, 255, 256, 300, r.randrange(70)])))
            k = bytes(r.randrange(256) for _ in range(16))
            yield ('S %s %s' % (hx(b), k.hex()), '%016x' % siphash(b, k))
        else:
            yield hist(r)


def streams(r, n):
    yield 'c25', (), [c for c, _ in cases(r, n)]


def check(ck):
    d = Driver(ck, Tree('std'), 'c25')
    d.check(list(cases(ck.sub('c'), ck.n(5000, 80000))))
    ck.rule = ('put/delete/get/getv/has/count/keys/iterate histories over int, byte, string and badly hashing '
               'struct keys, each answer compared with a dictionary; siphash24 against a reference')


TECH = 'runtime monitoring: model-based oracle over generated operation histories with colliding keys, tombstones and growth'
NOTE = 'modifying a table while iterating over it is not specified and not tested'
