"""C27: big integers against Python integers, over operation histories on four registers."""
from vf.core import *

TY = {'b': (8, 1), 'w': (16, 1), 'l': (32, 1), 'q': (64, 1), 'B': (8, 0), 'W': (16, 0), 'L': (32, 0), 'Q': (64, 0)}


def rnd(r, big):
    """A non-negative value with digits that stress carries, borrows and quotient estimates."""
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 8, 13] + ([20, 33, 63, 64, 65, 66, 100, 128, 129, 200] if big else []))
    k = r.randrange(5)
    d = []
    while len(d) < n:
        if k == 0:
            x = r.getrandbits(32)
        elif k == 1:
            x = r.choice([0, 0xffffffff, 0x80000000, 0x7fffffff, 1, 0xfffffffe])
        elif k == 2:
            run = r.choice([1, 2, 5, 20, 40])
            d += [r.choice([0, 0xffffffff, r.getrandbits(32)])] * run
            continue
        elif k == 3:
            x = 0 if d and r.random() < .85 else r.getrandbits(32)
        else:
            x = r.choice([r.getrandbits(32), 0xffffffff, 0])
        d.append(x)
    v = 0
    for x in d[:n]:
        v = v << 32 | x
    if n and r.random() < .6:
        v |= r.choice([1, 1 << 31, 0xffffffff, 0x80000001]) << 32 * (n - 1)
    return v


def showv(v):
    if v == 0:
        return '-'
    a = abs(v)
    n = (a.bit_length() + 31) // 32
    return ('-' if v < 0 else '+') + a.to_bytes(4 * n, 'big').hex()


def quo(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def digits(v, base):
    a = abs(v)
    if base == 10:
        return str(v)
    s = ''
    D = '0123456789abcdefghijklmnopqrstuvwxyz'
    while a:
        a, x = divmod(a, base)
        s = D[x] + s
    return ('-' if v < 0 else '') + (s or '0')


def order(a, b):
    return 'B' if a < b else 'A' if a > b else 'E'


def sh(v, n):
    """Shifts of the magnitude."""
    m = abs(v) << n if n >= 0 else abs(v) >> -n
    return -m if v < 0 else m


def num(r, big):
    v = rnd(r, big)
    return -v if r.random() < .4 else v


def litr(r):
    """A literal and its value, or None when it is not a number."""
    base = r.choice([2, 8, 10, 10, 10, 16])
    v = rnd(r, False)
    s = digits(v, base)
    if r.random() < .3:
        s = s.upper()
    if r.random() < .3:
        s = '0' * r.randrange(5) + s
    if r.random() < .3:
        p = r.randrange(1, len(s) + 1)
        s = s[:p] + '_' * r.randrange(1, 3) + s[p:]
    bad = False
    if r.random() < .25:
        p = r.randrange(len(s) + 1)
        s = s[:p] + r.choice({2: ['2', '9', 'a', '.', ' ', '+', '-'], 8: ['8', '9', 'z', 'é'], 10: ['a', 'f', ' ', '-', ':', '/', '٣'],
                              16: ['g', 'G', '/', ':', '@', '`', '-', ',']}[base]) + s[p:]
        bad = True
    pre = {2: ['0b', '0B'], 8: ['0o', '0O'], 16: ['0x', '0X'], 10: ['']}[base]
    neg = r.random() < .4
    if bad and base == 10 and s[0] == '-':
        # a leading minus is fine
        bad = False
        if neg:
            bad = True      # two of them are not
        else:
            neg = True
            s = s[1:]
    return ('-' if neg else '') + r.choice(pre) + s, None if bad else (-v if neg else v)


def hist(r, big):
    V = [0] * 4
    cmd, want = [], []

    def load(i):
        v = num(r, big)
        neg = v < 0
        b = abs(v).to_bytes((abs(v).bit_length() + 7) // 8 + r.choice([0, 0, 0, 1, 3, 5]), 'little')
        cmd.append('L %d %d %s' % (i, neg, hx(b)))
        V[i] = v
        want.append(showv(v))

    for i in range(3):
        load(i)
    for _ in range(r.choice([4, 8, 16])):
        k = r.choice('LPP++--***//%%mm&|<>eccfnAVTCDiiiiiii')
        a, b = r.randrange(4), r.randrange(4)
        x, y = V[a], V[b]
        if x.bit_length() > 16000 or k == 'L':
            load(a)
            continue
        if k == 'P':
            s, v = litr(r)
            cmd.append('P %d %s' % (a, hx(s)))
            if v is None:
                want.append('none')
            else:
                V[a] = v
                want.append(showv(v))
            continue
        if k in '+-*':
            V[a] = x + y if k == '+' else x - y if k == '-' else x * y
            want.append(showv(V[a]))
        elif k in '/%m':
            if y == 0:
                continue
            if r.random() < .3 and abs(y) > 1 and a != b:
                # a dividend next to a multiple of the divisor
                q = rnd(r, False)
                V[a] = x = q * abs(y) + r.choice([0, -1, 1, abs(y) - 1])
                neg = x < 0
                cmd.append('L %d %d %s' % (a, neg, hx(abs(x).to_bytes((abs(x).bit_length() + 7) // 8, 'little'))))
                want.append(showv(x))
            q = quo(x, y)
            m = x - q * y
            if k == 'm':
                want += [showv(q), showv(m), showv(x), showv(y)]
                V[2], V[3] = q, m
            else:
                V[a] = q if k == '/' else m
                want.append(showv(V[a]))
        elif k in '&|':
            if x < 0 or y < 0:
                continue
            V[a] = x & y if k == '&' else x | y
            want += [showv(V[a]), showv(V[b])]
        elif k in '<>':
            n = r.choice([0, 1, 31, 32, 33, 63, 64, 65, 96, r.randrange(500), 5000])
            if a == b:
                continue
            cmd.append('i %d q' % b + 'k %d' % n)
            want.append(showv(n))
            V[b] = n
            V[a] = sh(x, n if k == '<' else -n)
            want.append(showv(V[a]))
        elif k == 'e':
            c = r.randrange(4)
            if len({a, b, c}) < 3 or not V[c] or x < 0:
                continue
            if y < 0 or y.bit_length() > 160 or V[c] < 0 or V[c].bit_length() > 500:
                continue
            cmd.append('e %d %d %d' % (a, b, c))
            V[a] = pow(x, y, V[c])
            V[b] = 0
            want += [showv(V[a]), showv(V[c])]
            continue
        elif k == 'c':
            if r.random() < .3:
                cmd.append('D %d %d' % (a, b))
                V[b] = y = x
                want.append(showv(x))
                if r.random() < .5:
                    cmd.append('i %d b* -1' % b)
                    V[b] = y = -x
                    want.append(showv(y))
            want += [order(x, y) if a != b else 'E', order(abs(x), abs(y)) if a != b else 'E']
            y = V[b]
            x = V[a]
            want += [str(int(t)) for t in (x == y, x < y, x <= y, x > y, x >= y)]
        elif k == 'f':
            if x.bit_length() > 3000:
                continue
            base = r.choice([0, 10, 10, 16, 16, 2, 8, 36, 7])
            cmd.append('f %d %d' % (a, base))
            want.append(digits(x, base or 10))
            continue
        elif k == 'n':
            cmd.append('n %d' % a)
            want += [str(x.bit_length()), str(int(x == 0)), str(int(x % 2 == 0))]
            continue
        elif k == 'A':
            if a == b:
                continue
            V[a] = y
            want.append(showv(y))
        elif k == 'V':
            if a == b:
                continue
            V[a], V[b] = y, 0
            want += [showv(y), '-']
        elif k == 'T':
            V[a] = y
            want.append(showv(y))
        elif k == 'C':
            cmd.append('C %d' % a)
            V[a] = 0
            want.append('-')
            continue
        elif k == 'D':
            if a == b:
                continue
            V[b] = x
            want.append(showv(x))
        elif k == 'i':
            t = r.choice('bwlqBWLQ')
            bits, sg = TY[t]
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)
            n = r.choice([lo, hi, 0, 1, hi - 1, lo + 1, r.randint(lo, hi), r.randint(lo, hi) >> r.randrange(bits)])
            n = max(lo, min(hi, n))
            o = r.choice('kkk+-*/%&|<>ccc')
            if o == 'k':
                V[a] = n
            elif o in '+-*':
                V[a] = x + n if o == '+' else x - n if o == '-' else x * n
            elif o in '/%':
                if n == 0:
                    continue
                q = quo(x, n)
                V[a] = q if o == '/' else x - q * n
            elif o in '&|':
                if x < 0 or n < 0:
                    continue
                V[a] = x & n if o == '&' else x | n
            elif o in '<>':
                n = min(hi, r.choice([0, 1, 5, 31, 32, 33, 64, 100]))
                V[a] = sh(x, n if o == '<' else -n)
            else:
                if r.random() < .3:
                    cmd.append('i %d %sk %d' % (a, t, n))
                    V[a] = x = n
                    want.append(showv(n))
                want += [order(x, n)] + [str(int(z)) for z in (x == n, x < n, x <= n, x > n, x >= n)]
                cmd.append('i %d %sc %d' % (a, t, n))
                continue
            want.append(showv(V[a]))
            cmd.append('i %d %s%s %d' % (a, t, o, n))
            continue
        cmd.append('%s %d %d' % (k, a, b))

    def f(out):
        p = out.split()
        for i, w in enumerate(want):
            if i >= len(p) or p[i] != w:
                return 'observation %d: %s, expected %s' % (i, p[i][:300] if i < len(p) else 'missing', w[:300])
        if len(p) != len(want):
            return 'extra answers'
    return ' '.join(cmd), f


def cases(r, n):
    for i in range(n):
        yield hist(r, i % 4 == 0)


def streams(r, n):
    yield 'c27', (), [c for c, _ in cases(r, n)]


def check(ck):
    d = Driver(ck, Tree('std'), 'c27')
    d.check(list(cases(ck.sub('c'), ck.n(12000, 200000))), timeout=120)
    ck.rule = ('histories of operations on four big integers (loaded from bytes, literals and typed integers; digits '
               'and lengths chosen for carries, borrows, quotient corrections and the Karatsuba path; aliased operands), '
               'each result compared digit for digit, sign and normalisation included, with Python integers')


TECH = 'runtime monitoring: differential oracle (exact integers) over generated operation histories'
NOTE = ('bitwise and/or of negative numbers and aliasing of modpow operands are left out: no sign rule is documented; '
        'division truncates and the remainder has the sign of the dividend')
