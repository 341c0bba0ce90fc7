"""C24: slices, sorting, searching, copies, byte order."""
from vf.core import *

TY = {'b': (0, 255), 'h': (-32768, 32767), 'w': (-2**31, 2**31 - 1), 'l': (-2**63, 2**63 - 1),
      'r': (0, 65535), 's': (0, 2**40 - 1), 't': (-2**63, 2**63 - 1), 'a': (0, 16383)}


def dmp(s):
    return ' '.join([str(len(s)), ':'] + [str(x) for x in s])


def val(r, t):
    lo, hi = TY[t]
    return r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi), r.randint(max(lo, -9), 9)])


def seq(r):
    t = r.choice('bhwlrsta')
    s, cmd, out = [], [], []
    big = r.random() < .08
    for _ in range(r.choice([3, 8, 20, 40, 80])):
        k = r.choice(['push', 'push', 'push', 'push', 'pop', 'pop', 'put', 'put', 'del', 'join', 'joinself', 'grow', 'zgrow',
                      'fill', 'cp', 'cp', 'swap', 'dup', 'free', 'dump', 'zalloc', 'clear'])
        v = val(r, t)
        n = len(s)
        if k == 'push':
            cmd.append('push %d' % v)
            s.append(v)
        elif k == 'pop':
            if not s:
                continue
            cmd.append('pop')
            out.append(str(s.pop()))
        elif k == 'put':
            i = r.choice([0, n, r.randint(0, n)])
            cmd.append('put %d %d' % (i, v))
            s.insert(i, v)
        elif k == 'del':
            if not s:
                continue
            i = r.choice([0, n - 1, r.randrange(n)])
            cmd.append('del %d' % i)
            del s[i]
        elif k == 'join':
            m = r.choice([0, 1, 2, 5, 30] + ([3000, 20000] if big else []))
            b = r.randint(0, 100)
            lo, hi = TY[t]
            x = [b + i for i in range(m)]
            x = [i & (hi - lo) if t in 'bra' else ((i - lo) & (hi - lo)) + lo for i in x]
            cmd.append('join %d %d' % (m, b))
            out.append(dmp(x))
            s += x
        elif k == 'joinself':
            if n > 200:
                continue
            cmd.append('joinself')
            s += s
        elif k in ('grow', 'zgrow'):
            m = max(0, n + r.choice([0, 1, -1, 2, 10, -10, 40, -n] + ([5000] if big else [])))
            if k == 'grow':
                cmd.append('grow %d %d' % (m, v))
            else:
                cmd.append('zgrow %d' % m)
                v = 0
            s = s[:m] + [v] * (m - n)
        elif k == 'fill':
            i = r.randint(0, n)
            j = r.randint(i, n)
            cmd.append('fill %d %d %d' % (i, j, v))
            s[i:j] = [v] * (j - i)
        elif k == 'cp':
            m = r.randint(0, n)
            i, j = r.randint(0, n - m), r.randint(0, n - m)
            cmd.append('cp %d %d %d' % (i, j, m))
            s[i:i + m] = s[j:j + m]
        elif k == 'swap':
            if not s:
                continue
            i, j = r.randrange(n), r.randrange(n)
            cmd.append('swap %d %d' % (i, j))
            s[i], s[j] = s[j], s[i]
        elif k == 'dup':
            cmd.append('dup')
        elif k == 'free':
            if r.random() < .7:
                continue
            cmd.append('free')
            s = []
        elif k == 'zalloc':
            if r.random() < .7:
                continue
            m = r.choice([0, 1, 2, 3, 10, 100] + ([9000] if big else []))
            cmd.append('zalloc %d' % m)
            s = [0] * m
        elif k == 'clear':
            if not s:
                continue
            i = r.randrange(n)
            cmd.append('clear %d' % i)
            s[i] = 0
        else:
            if n > 100:
                continue
            cmd.append('dump')
            out.append(dmp(s))
    out.append(dmp(s))
    return ('seq %s ' % t + ' '.join(cmd), ' '.join(out))


def key(mode, x):
    return -x if mode == 1 else x & 3 if mode == 2 else 0 if mode == 3 else x


def sort(r):
    t = r.choice('bwlrst')
    mode = r.choice([0, 0, 0, 1, 2, 3])
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 33, 100, 100, 600])
    lo, hi = TY[t]
    if r.random() < .5:
        lo, hi = max(lo, -5), min(hi, r.choice([1, 5, 50]))
    if t != 't' and t != 'l':
        pass
    elif mode == 1:
        lo = max(lo, -2**63 + 1)
    x = [r.randint(lo, hi) for _ in range(n)]
    q = r.random()
    if q < .15:
        x.sort()
    elif q < .3:
        x.sort(reverse=True)
    elif q < .4 and n:
        x.sort()
        x[r.randrange(n)] = r.randint(lo, hi)

    def f(out):
        p = out.split()
        if p[0] == '!ret':
            return 'did not return its argument'
        if int(p[0]) != n or p[-1] != '1':
            return 'length or surroundings changed'
        y = list(map(int, p[2:-1]))
        if sorted(y) != sorted(x):
            return 'not a permutation of the input'
        ks = [key(mode, v) for v in y]
        if any(a > b for a, b in zip(ks, ks[1:])):
            return 'not ordered by the comparison'
    return (('sort %s %d %d ' % (t, mode, n) + ' '.join(map(str, x))).strip(), f)


def search(r):
    mode = r.choice([0, 0, 0, 1, 2])
    n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 100])
    hi = r.choice([3, 20, 200, 10000])
    x = sorted((r.randint(0, hi) for _ in range(n)), key=lambda v: key(mode, v))
    qs = [r.choice(x) if x and r.random() < .5 else r.randint(-1, hi + 1) for _ in range(10)]

    def f(out):
        p = out.split()
        if len(p) != 40:
            return 'wrong number of answers'
        for i, q in enumerate(qs):
            b, l, b2, l2 = p[4 * i:4 * i + 4]
            m = [j for j, v in enumerate(x) if key(mode, v) == key(mode, q)]
            if b != b2 or l != l2:
                return 'index type changes the answer for key %d' % q
            if l != (str(m[0]) if m else 'none'):
                return 'lsearch for key %d gave %s, expected %s' % (q, l, m[:1])
            if not (b == 'none' if not m else b != 'none' and int(b) in m):
                return 'bsearch for key %d gave %s, equal elements are at %s' % (q, b, m)
    return ('search x %d %d ' % (mode, n) + ' '.join(map(str, x + qs)), f)


def mem(r):
    n = r.choice([1, 7, 8, 9, 16, 17, 31, 64, 100, 300])
    al = r.choice([b'ab', bytes(range(256))])
    b = bytearray(r.choice(al) for _ in range(n))
    hb = hx(bytes(b))
    m = r.choice([0, r.randrange(n), r.randrange(n), n - 1])
    d, s = r.randrange(n - m), r.randrange(n - m)
    if r.random() < .5:
        s = max(0, min(n - m - 1, d + r.choice([-9, -8, -7, -2, -1, 0, 1, 2, 3, 7, 8, 9])))
    k = r.random()
    if k < .5:
        b[d:d + m] = b[s:s + m]
        return ('blit x %s %d %d %d' % (hb, d, s, m), hx(bytes(b)))
    if k < .7:
        v = r.randrange(256)
        b[d:d + m] = bytes([v]) * m
        return ('bfill x %s %d %d %d' % (hb, d, v, m), hx(bytes(b)))
    if r.random() < .6:
        # equal apart from at most one byte
        m = r.randrange(0, 40)
        x = bytearray(r.randrange(256) for _ in range(m))
        y = bytearray(x)
        if m and r.random() < .6:
            i = r.choice([0, m - 1, r.randrange(m)])
            y[i] ^= 1 << r.randrange(8)
        pad = bytes(r.randrange(9))
        b = bytes(x) + pad + bytes(y) + b'z'
        return ('beq x %s %d %d %d' % (hx(b), 0, m + len(pad), m), '1' if x == y else '0')
    return ('beq x %s %d %d %d' % (hb, d, s, m), '1' if b[d:d + m] == b[s:s + m] else '0')


def num(r):
    t = r.choice(['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64'])
    w = int(t[1:])
    sg = t[0] == 'i'
    lo, hi = (-2**(w - 1), 2**(w - 1) - 1) if sg else (0, 2**w - 1)

    def p():
        return r.choice([lo, hi, 0, 1, hi - 1, lo + 1, hi // 2, hi // 2 + 1, r.randint(lo, hi), r.randint(lo, hi)])
    a, b, c = p(), p(), p()
    if b > c:
        b, c = c, b
    if r.random() < .2:
        a = b

    def s64(v):
        return (v + 2**63) % 2**64 - 2**63
    sw = int.from_bytes((a % 2**w).to_bytes(w // 8, 'little'), 'big')
    if sg and sw >= 2**(w - 1):
        sw -= 2**w
    ab = -a if a < 0 else a
    if ab > hi:
        ab = lo
    cl = b if a < b else c if a > c else a
    o = [min(a, b), max(a, b), cl, ab, b, a, '<' if a < b else '>' if a > b else '=', int(a == b), sw, a]
    return ('num %s %d %d %d' % (t, s64(a), s64(b), s64(c)),
            ' '.join(x if isinstance(x, str) else str(s64(x)) for x in o))


def eq(r):
    t = r.choice('bhwlocuvis')
    n = r.choice([0, 1, 2, 3, 7, 8, 9, 20])
    W = {'b': 8, 'h': 16, 'w': 32, 'l': 64, 'c': 20, 'u': 16, 'v': 63, 'i': 8}
    x = [r.randrange(2**W.get(t, 1)) for _ in range(n)] if t != 's' else [r.randrange(16) for _ in range(n)]
    y = list(x)
    q = r.random()
    if q < .5 and n:
        i = r.choice([0, n - 1, r.randrange(n)])
        y[i] ^= 1 << r.randrange(W.get(t, 1)) if t != 's' else r.randrange(1, 8)
    elif q < .65:
        y = y[:-1] if r.random() < .5 else y + [1]

    def norm(v):
        return v if t != 's' else (v & 1, v & 7)
    e = int([norm(v) for v in x] == [norm(v) for v in y])

    def s(v):
        return (v + 2**63) % 2**64 - 2**63
    return (' '.join(['eq', t] + [str(s(v)) for v in [n] + x + [len(y)] + y]), '%d %d' % (e, e))


def get(r):
    b = bytes(r.choice([0, 0x7f, 0x80, 0xff, r.randrange(256), r.randrange(256)]) for _ in range(8))
    o = []
    for n in (8, 4, 2, 1):
        le, be = int.from_bytes(b[:n], 'little'), int.from_bytes(b[:n], 'big')
        o += [le, be, le]
    le = lambda n: int.from_bytes(b[:n], 'little')
    be = lambda n: int.from_bytes(b[:n], 'big')
    o += [le(8) % 2**32, be(8) % 2**32, le(8) % 2**16, be(4) % 2**16, le(4) % 256, be(8) % 256]
    return ('get x ' + b.hex(), ' '.join('%016x' % x for x in o))


def put(r):
    v = r.choice([0, 1, -1, 2**63 - 1, -2**63, r.randint(-2**63, 2**63 - 1), r.randint(-2**31, 2**31), 0x8080808080])
    o = []
    for w, sg in ((64, 0), (64, 1), (32, 1), (32, 0), (16, 1), (8, 0)):
        x = v % 2**w
        if sg and x >= 2**(w - 1):
            x -= 2**w
        for n in (8, 4, 2, 1):
            le = (x % 2**(8 * n)).to_bytes(n, 'little')
            be = (x % 2**(8 * n)).to_bytes(n, 'big')
            for e in (le, be, le):
                o += [str(n), (e + b'\x5a' * (9 - n)).hex()]
    return ('put x %d' % v, ' '.join(o))


def cases(r, n):
    for i in range(n):
        yield r.choice([seq, seq, seq, seq, sort, sort, sort, search, mem, mem, mem, num, eq, get, put])(r)


def streams(r, n):
    yield 'c24', (), [c for c, _ in cases(r, n)]


def check(ck):
    d = Driver(ck, Tree('std'), 'c24')
    # every relative position of short overlapping copies
    ex = []
    src = bytes(range(1, 41))
    for m in range(0, 20):
        for dd in range(0, 19):
            b = bytearray(src)
            b[dd:dd + m] = b[9:9 + m]
            ex.append(('blit x %s %d %d %d' % (src.hex(), dd, 9, m), hx(bytes(b))))
    # every short slice over a two or three letter alphabet is sorted
    import itertools
    for n in range(0, 7 if ck.quick else 8):
        for x in itertools.product(range(3), repeat=n):
            w = ' '.join(map(str, sorted(x)))
            ex.append((('sort w 0 %d ' % n + ' '.join(map(str, x))).strip(), ('%d : %s 1' % (n, w)).replace('  ', ' ')))
    d.check(ex)
    d.check(list(cases(ck.sub('c'), ck.n(16000, 250000))))
    ck.rule = ('operation histories on slices of eight element types, sorts, searches, overlapping copies, '
               'byte-order helpers, each compared with a Python list / integer model')


TECH = 'runtime monitoring: model-based oracle over generated operation histories and exhaustive short sorts and overlapping copies'
NOTE = 'element sizes 1, 2, 3, 4, 5, 8, 16 and 24; sort is not required to be stable'
