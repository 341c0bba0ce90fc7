"""C26: bit sets against Python sets, over operation histories."""
from vf.core import *


def hist(r):
    S = [set() for _ in range(4)]
    cmd, want = [], []
    u = r.choice([8, 64, 65, 130, 200, 1000, 5000])

    def el():
        if r.random() < .3:
            return min(u, r.choice([0, 1, 62, 63, 64, 65, 127, 128, 129, u, u - 1]))
        return r.randrange(u)
    for _ in range(r.choice([10, 30, 100, 200])):
        k = r.choice('pppppPddhhHcimzunxseqqDRunxse')
        a, b = r.randrange(4), r.randrange(4)
        v = el()
        if k == 'P':
            v &= 255
        if k in 'pP':
            want.append(v not in S[a])
            S[a].add(v)
        elif k == 'd':
            if r.random() < .1:
                v = r.choice([-1, -64, u * 3, 1 << 40])
            want.append(v in S[a])
            S[a].discard(v)
        elif k in 'hH':
            if k == 'h' and r.random() < .1:
                v = r.choice([-1, -63, -64, -65, u * 3, 1 << 40, 1 << 62])
            want.append(v in S[a])
        elif k == 'c':
            want.append(len(S[a]))
            cmd.append('c %d' % a)
            continue
        elif k == 'i':
            want.append(sorted(S[a]))
            cmd.append('i %d' % a)
            continue
        elif k == 'm':
            # only a bound on what is in the set
            want.append(('max', max(S[a], default=-1)))
            cmd.append('m %d' % a)
            continue
        elif k == 'z':
            if r.random() < .7:
                continue
            S[a].clear()
            cmd.append('z %d' % a)
            continue
        elif k == 'R':
            n = r.choice([0, 5, 64, 70, 130])
            S[a].update(range(v, v + n))
            cmd.append('R %d %d %d' % (a, v, n))
            continue
        else:
            v = b
            if k == 'u':
                S[a] |= S[b]
            elif k == 'n':
                S[a] &= S[b]
            elif k == 'x':
                S[a] -= S[b] if a != b else set(S[b])
            elif k == 's':
                want.append(S[b] <= S[a])
            elif k == 'e':
                want.append(S[a] == S[b])
            elif k == 'q':
                if S[a] != S[b]:
                    # make them equal by a different route
                    x = sorted(S[a] ^ S[b])
                    r.shuffle(x)
                    for y in x:
                        want.append(True)
                        if y in S[b]:
                            cmd.append('p %d %d' % (a, y))
                            S[a].add(y)
                        else:
                            cmd.append('d %d %d' % (a, y))
                            S[a].discard(y)
                want.append(True)
            elif k == 'D':
                S[a] = set(S[b])
        cmd.append('%s %d %d' % (k, a, v))
    for a in range(4):
        cmd += ['i %d' % a, 'c %d' % a]
        want += [sorted(S[a]), len(S[a])]

    def f(out):
        p = out.split()
        i = 0
        for n, w in enumerate(want):
            if isinstance(w, list):
                j = p.index('}', i)
                if p[i] != '{' or list(map(int, p[i + 1:j])) != w:
                    return 'observation %d: elements %s, expected %s' % (n, ' '.join(p[i + 1:j])[:300], w[:60])
                i = j
            elif isinstance(w, tuple):
                if int(p[i]) <= w[1]:
                    return 'bsmax %s is not above the element %d' % (p[i], w[1])
            elif int(p[i]) != w:
                return 'observation %d: %s, expected %s' % (n, p[i], w)
            i += 1
        if i != len(p):
            return 'extra answers'
    return (' '.join(cmd), f)


def cases(r, n):
    for i in range(n):
        yield hist(r)


def streams(r, n):
    yield 'c26', (), [c for c, _ in cases(r, n)]


def check(ck):
    d = Driver(ck, Tree('std'), 'c26')
    d.check(list(cases(ck.sub('c'), ck.n(8000, 150000))))
    ck.rule = ('histories of put/delete/has/union/intersect/difference/subset/equality/hash/dup/iterate over '
               'four bit sets of different lengths, each answer compared with Python sets')


TECH = 'runtime monitoring: model-based oracle over generated operation histories'
NOTE = 'bsissubset(a, b) is taken to ask whether b is a subset of a, as the code does; bsmax is only checked to be an upper bound'
