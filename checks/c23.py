"""C23: UTF-8 coding and character tables, every code point."""
import json
from bisect import bisect_right
from vf.core import *

T = json.load(open(os.path.join(VERIF, 'data/chartype.json')))


def expand(ranges):
    s = set()
    for lo, hi in ranges:
        s.update(range(lo, hi + 1))
    return s


ALPHA, SPACE, NUM = expand(T['alpha']), expand(T['space']), expand(T['num'])
LOWER = {int(a): b for a, b in (T['lower'].items() if isinstance(T['lower'], dict) else T['lower'])}   # upper case -> its lower case
UPPER = {int(a): b for a, b in (T['upper'].items() if isinstance(T['upper'], dict) else T['upper'])}   # lower case -> its upper case
TITLE = {int(a): b for a, b in (T['title'].items() if isinstance(T['title'], dict) else T['title'])}
BAD = 0xffffffff
W0, W2 = [sorted(map(tuple, T[k])) for k in ('w0', 'w2')]
W0LO, W2LO = [a for a, _ in W0], [a for a, _ in W2]


def inr(c, rs, los):
    i = bisect_right(los, c) - 1
    return i >= 0 and c <= rs[i][1]


def cellwidth(c):
    if c == 0:
        return 0
    if c < 0x20 or 0x7f <= c <= 0x9f:
        return -1
    if inr(c, W0, W0LO):
        return 0
    if inr(c, W2, W2LO):
        return 2
    return 1


def enc(c):
    return chr(c).encode('utf-8', 'surrogatepass')


def expect(c):
    up, lo = c in LOWER, c in UPPER
    al = up or lo or c in ALPHA
    f = al * 1 | (48 <= c <= 57) * 2
    f |= (48 <= c <= 57 or 97 <= c <= 102 or 65 <= c <= 70) * 4
    nu = c in NUM
    bl = c in SPACE
    f |= nu * 8 | (al or nu) * 16 | (bl or c == 10) * 32 | bl * 64
    f |= lo * 128 | up * 256 | (up and not lo) * 512 | (c < 128) * 1024
    e = enc(c)
    return '%d %d %d %d %d %d %s 0' % (f, LOWER.get(c, c) - c, UPPER.get(c, c) - c, TITLE.get(c, c) - c,
                                       cellwidth(c), len(e), e.hex())


def block(lo, n):
    want = ' '.join(expect(c) for c in range(lo, lo + n))

    def f(out):
        if out == want:
            return None
        o, w = out.split(), want.split()
        for i in range(0, len(w), 8):
            if o[i:i + 8] != w[i:i + 8]:
                return 'U+%04x: got %s, expected %s (class bits, lower, upper, title, width, length, bytes, decoded)' % (
                    lo + i // 8, o[i:i + 8], w[i:i + 8])
        return 'answer of different length'
    return ('block %d %d' % (lo, n), f)


INTEREST = sorted(set(list(range(0, 0x250)) + [c + d for r in W0 + W2 for c in r for d in (-1, 0, 1)] +
                      [0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xfffd, 0xd7ff, 0xe000]))
INTEREST = [c for c in INTEREST if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000]


def rcp(r):
    k = r.random()
    if k < .35:
        return r.choice(INTEREST)
    if k < .5:
        return r.randrange(0x20, 0x7f)
    if k < .6:
        a, b = r.choice(W0)
        return r.randint(a, b)
    while True:
        c = r.randrange(r.choice([0x80, 0x800, 0x10000, 0x110000]))
        if not 0xd800 <= c < 0xe000:
            return c


def steps(out):
    p = [x.split() for x in out.split('|')]
    if len(p) != 4:
        raise ValueError('sections')
    p = [list(map(int, x)) for x in p]
    return p


def valid(cs):
    b = ''.join(map(chr, cs)).encode()

    def f(out):
        st, em, by, off = steps(out)
        want, o = [], []
        at = 0
        for c in cs:
            n = len(enc(c))
            want += [c, n]
            o += [c, at]
            at += n
        if st != want:
            return 'charstep: expected %s' % want
        if em != [BAD, 0]:
            return 'charstep of the empty string: expected -1 0'
        if by != list(cs):
            return 'bychar: expected %s' % list(cs)
        if off != o:
            return 'bycharoff: expected %s' % o
    return ('step ' + hx(b), f)


def invalid(b):
    def f(out):
        st, em, by, off = steps(out)
        at = 0
        cs = []
        for c, n in zip(st[::2], st[1::2]):
            if n < 1 or at + n > len(b):
                return 'step of %d bytes at offset %d of %d' % (n, at, len(b))
            l = b[at]
            need = 1 if l < 0x80 else 2 if l & 0xe0 == 0xc0 else 3 if l & 0xf0 == 0xe0 else 4 if l & 0xf8 == 0xf0 else 0
            if need == 1 and (c, n) != (l, 1):
                return 'ASCII byte at offset %d decoded as %d, %d bytes' % (at, c, n)
            if need == 0 and c != BAD:
                return 'impossible first byte at offset %d decoded as %d' % (at, c)
            if need > len(b) - at and c != BAD:
                return 'truncated sequence at offset %d decoded as %d' % (at, c)
            cs.append(c)
            at += n
        if at != len(b):
            return 'stopped at offset %d of %d' % (at, len(b))
        if by != cs:
            return 'bychar and charstep differ'
    return ('step ' + hx(b), f)


def graphemes(cs):
    out, cur = [], []
    for c in cs:
        if c in (13, 10, 9):
            if cur:
                out.append(cur)
            out.append([c])
            cur = []
        elif cellwidth(c) > 0 and cur:
            out.append(cur)
            cur = [c]
        else:
            cur.append(c)
    return out + ([cur] if cur else [])


def graph(cs):
    b = ''.join(map(chr, cs)).encode()
    w = 0
    for c in cs:
        w += 0 if c < 0x20 or c == 0x7f else abs(cellwidth(c))
    g = graphemes(cs)
    want = ' '.join([str(w)] + [str(len(''.join(map(chr, x)).encode())) for x in g] + ['|'] +
                    [' '.join(map(str, x)) + ' ,' for x in g])
    return ('graph ' + hx(b), want)


def cval(c):
    v = c - 48 if 48 <= c <= 57 else c - 87 if 97 <= c <= 122 else c - 55 if 65 <= c <= 90 else -1
    return ('val %d' % c, ' '.join(str(v if 0 <= v < b else -1) for b in range(2, 37)))


def small(c, n):
    e = enc(c)
    return ('enc %d %d' % (c, n), '-1 %s' % hx(b'\x55' * n) if n < len(e) else
            '%d %s' % (len(e), hx(e + b'\x55' * (n - len(e)))))


def cases(r, n):
    for i in range(n):
        k = r.random()
        cs = [rcp(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20]))]
        if k < .3:
            yield valid(cs)
        elif k < .55:
            b = bytearray(''.join(map(chr, cs)).encode())
            for _ in range(r.choice([1, 1, 2, 5])):
                q = r.random()
                if q < .35 and b:
                    b[r.randrange(len(b))] = r.choice([0x80, 0xbf, 0xc0, 0xc3, 0xe0, 0xf0, 0xf8, 0xfe, 0xff, r.randrange(256)])
                elif q < .6:
                    b = b[:r.randrange(len(b) + 1)]
                elif q < .8 and b:
                    del b[r.randrange(len(b))]
                else:
                    b.insert(r.randrange(len(b) + 1), r.randrange(128, 256))
            yield invalid(bytes(b))
        elif k < .9:
            if r.random() < .7:
                cs = [r.choice([c, c, 9, 10, 13]) if r.random() < .1 else c for c in cs]
                cs = [c if r.random() < .6 else r.choice([0x300, 0x301, 0x20d4, 0x200d, 0xfe0f]) for c in cs]
            # how control characters combine is not specified
            cs = [c for c in cs if c in (9, 10, 13) or not (c < 0x20 or 0x7f <= c <= 0x9f)]
            yield graph(cs)
        elif k < .95:
            c = rcp(r)
            yield small(c, r.randrange(0, 6))
        else:
            yield cval(rcp(r) if r.random() < .3 else r.randrange(128))


def streams(r, n):
    yield 'c23', (), [c for c, _ in cases(r, n)]


def check(ck):
    t = Tree('std')
    d = Driver(ck, t, 'c23')
    n = 512
    bl = [block(lo, n) for lo in range(0, 0x110000, n)]
    d.check(bl)
    ck.extra['code_points'] = 0x110000
    d.check([cval(c) for c in range(256)] + [small(c, n) for c in INTEREST for n in range(5)])
    d.check(list(cases(ck.sub('c'), ck.n(16000, 300000))))
    ck.rule = ('every code point is classified, case mapped, measured, encoded and decoded and compared with a '
               'frozen copy of the character tables; random valid and damaged strings are stepped through')
    ck.assumptions.append('the tables of lib/std/chartype.myr at the pinned commit are the intended ones')


TECH = 'runtime monitoring: exhaustive execution over all code points against an independent table model; generated strings against a Python UTF-8 oracle'
NOTE = 'invalid UTF-8 is only checked for progress, bounds and the Badchar reports the decoder defines'
