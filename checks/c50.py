"""C50: library iterators against the sequences they describe."""
from vf.core import *

TECH = 'runtime monitoring: reference sequences over generated inputs of several element types'
NOTE = 'a chunk size below one counts as one, as the library does'

RNG = {'b': (0, 255), 'h': (0, 65535), 'i': (-2**31, 2**31 - 1), 'q': (-2**62, 2**62), 't': (-2**40, 2**40), 'r': (-2**40, 2**40), 's': (-2**40, 2**40)}


def seq(r, t, n, lim=None):
    lo, hi = RNG[t]
    if lim:
        lo, hi = max(lo, 0), lim
    return [r.choice([lo, hi, r.randint(lo, hi)]) if not lim else r.randint(lo, hi) for _ in range(n)]


def perms(s):
    s = sorted(s)
    out = [list(s)]
    while True:
        j = len(s) - 2
        while j >= 0 and s[j] >= s[j + 1]:
            j -= 1
        if j < 0:
            return out
        i = len(s) - 1
        while s[i] <= s[j]:
            i -= 1
        s[i], s[j] = s[j], s[i]
        s[j + 1:] = s[j + 1:][::-1]
        out.append(list(s))


def wrap(t, v):
    lo, hi = RNG[t]
    return (v - lo) % (hi - lo + 1) + lo if t in 'bhi' else v


def case(r):
    t = r.choice('bhiqtrs')
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100])
    op = r.choice('ceffrpz')
    s = seq(r, t, n)
    pre, post, o = [], [], []
    if op == 'c':
        sz = r.choice([-1, 0, 1, 2, 3, 4, 5, 7, 8, n - 1, n, n + 1, 2**62, 2**63 - 1])
        k = max(sz, 1)
        for i in range(0, n, k):
            o += [len(s[i:i + k])] + s[i:i + k]
        o += ['='] + [wrap(t, v + 1) for v in s]
        pre = [sz]
    elif op == 'e':
        for i, v in enumerate(s):
            o += [i, v]
    elif op == 'f':
        o = ['='] + [wrap(t, v + 3) for v in s]
    elif op == 'r':
        o = s[::-1]
    elif op == 'p':
        n = r.choice([0, 1, 2, 3, 4, 4, 5, 5, 6])
        s = seq(r, t, n, r.choice([1, 2, 3, 5, 200]) if r.random() < .8 else None)
        for p in perms(s):
            o += [n] + p
    else:
        u = r.choice('bstq')
        m = r.choice([0, 1, 2, n, n, max(n - 1, 0), n + 1, 20])
        s2 = seq(r, u, m)
        for a, b in zip(s, s2):
            o += [a, b]
        post = [u, m] + s2
    return ' '.join(map(str, [op, t] + pre + [n] + s + post)), ' '.join(map(str, o))


def cases(r, n):
    return [case(r) for _ in range(n)]


def streams(r, n):
    yield 'c50', (), [c for c, _ in cases(r, n)]


def check(ck):
    d = Driver(ck, Tree('all'), 'c50')
    d.check(cases(ck.sub('c'), ck.n(12000, 200000)), timeout=200)
    ck.rule = ('generated sequences of seven element types; every iterator; chunk sizes around the length and huge; permutations of sequences with '
               'repeats up to length 6, in lexicographic order; chunks and references checked to alias the input')
