"""C28: formatted output and integer parsing against a model of the format language."""
from vf.core import *
from vf.progs import Packer, Test
from vf import ints
from checks.c23 import cellwidth

TY = {'b': (8, 1), 'w': (16, 1), 'l': (32, 1), 'q': (64, 1), 'B': (8, 0), 'W': (16, 0), 'L': (32, 0), 'Q': (64, 0),
      'i': (32, 1), 'u': (32, 0), 'y': (8, 0), 'z': (64, 1), 't': (16, 1), 'T': (16, 1)}
D = '0123456789abcdefghijklmnopqrstuvwxyz'
PADS = [' ', '0', 'x', '_', '.', '=', ',', '}', '{', '\\', 'é', '多', '-', '7', '\U0001f600']
CH = 'abcxyz ABC 0189_-+*/.,;:!?(){}[]<>"\'\\~`@#$%^&|éöüß即是多ΩЖ€\U0001f600'


def todigits(v, b):
    s = ''
    while v:
        v, x = divmod(v, b)
        s = D[x] + s
    return s or '0'


def escopt(s):
    """An option value as written inside braces."""
    return ''.join('\\' + c if c in ',}\\' else c for c in s)


def limits(t):
    bits, sg = TY[t]
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if sg else (0, (1 << bits) - 1)


def intval(r, t):
    lo, hi = limits(t)
    v = r.choice([lo, hi, 0, 1, lo + 1, hi - 1, 9, 10, 16, 99, 100, r.randint(lo, hi), r.randint(lo, hi) >> r.randrange(TY[t][0]),
                  10 ** r.randrange(19), 10 ** r.randrange(19) - 1, 1 << r.randrange(63)])
    if lo and r.random() < .3:
        v = -v
    return max(lo, min(hi, v))


def intopts(r, allowarg=True):
    """(options text, base, width or None for an argument, pad)."""
    o, base, w, pad = [], 10, 0, ' '
    if r.random() < .6:
        k = r.random()
        if k < .4:
            o.append('x')
            base = 16
        elif k < .7:
            base = r.randrange(2, 17)
            o.append('b=%d' % base)
    if r.random() < .6:
        if allowarg and r.random() < .3:
            w = None
            o.append('w=?')
        else:
            w = r.choice([0, 1, 2, 3, 5, 8, 10, 20, 40, 64, 65, 100])
            o.append('w=%d' % w)
    if r.random() < .5:
        pad = r.choice(PADS)
        o.append('p=' + escopt(pad))
    r.shuffle(o)
    return ','.join(o), base, w, pad


def fmtint(v, base, w, pad):
    s = todigits(abs(v), base)
    n = max(0, w - len(s) - (v < 0))
    if pad == '0':
        return ('-' if v < 0 else '') + '0' * n + s
    return pad * n + ('-' if v < 0 else '') + s


def width(s):
    return sum(cellwidth(ord(c)) for c in s)


def rstr(r, n=None):
    return ''.join(r.choice(CH) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 60]) if n is None else n))


def literal(r):
    """Literal text of a format string and what it prints."""
    s = rstr(r, r.randrange(4))
    return s.replace('{', '{{').replace('}', '}}'), s


def intcase(r):
    t = r.choice('bwlqBWLQiuyzztT')
    v = intval(r, t)
    o, base, w, pad = intopts(r)
    cmd = 'i %s %%s %d' % (t, v)
    if w is None:
        w = r.choice([0, 1, 5, 12, 70, -1, -40])
        cmd += ' %d' % w
        w = max(w, 0)
    a, b = literal(r), literal(r)
    return cmd % hx(a[0] + '{%s}' % o + b[0]), hx(a[1] + fmtint(v, base, w, pad) + b[1])


def unescape(b):
    """Reads an escaped string back; None when it is not one."""
    out, i = bytearray(), 0
    M = {ord('n'): 10, ord('r'): 13, ord('t'): 9, ord('b'): 8, ord('"'): 34, ord("'"): 39, ord('\\'): 92, ord('0'): 0}
    while i < len(b):
        c = b[i]
        if c < 32 or c > 126 or c in b'"\'':
            return None
        i += 1
        if c == 92:
            c = b[i]
            i += 1
            if c == ord('x'):
                out.append(int(b[i:i + 2], 16))
                i += 2
            elif c in M:
                out.append(M[c])
            else:
                return None
        else:
            out.append(c)
    return bytes(out)


def strcase(r):
    k = r.random()
    if k < .25:
        b = bytes(r.choice([r.randrange(256), r.choice(b'\\"\'\n\r\t\b\0~\x7f az')]) for _ in range(r.choice([0, 1, 3, 20, 100])))
        if r.random() < .4:
            return 's %s %s' % (hx('{r}'), hx(b)), hx(b.hex())
        if r.random() < .4:
            f = r.choice(['{r,e}', '{e,r}'])
            return 's %s %s' % (hx(f), hx(b)), hx(''.join('\\x%02x' % c for c in b))

        def f(out):
            e = unhx(out)
            if unescape(e) != b:
                return 'escaped form %r does not denote the string' % e
        return 's %s %s' % (hx('{e}'), hx(b)), f
    s = rstr(r)
    o, w, pad = [], 0, ' '
    cmd = ''
    if r.random() < .8:
        w = r.choice([0, 1, 2, 5, 10, 30, width(s), width(s) + 1, 70])
        if r.random() < .3:
            o.append('w=?')
            cmd = ' %d' % w
        else:
            o.append('w=%d' % w)
    if r.random() < .5:
        pad = r.choice(PADS)
        o.append('p=' + escopt(pad))
    r.shuffle(o)
    a, b = literal(r), literal(r)
    return ('s %s %s%s' % (hx(a[0] + '{%s}' % ','.join(o) + b[0]), hx(s), cmd),
            hx(a[1] + pad * max(0, w - width(s)) + s + b[1]))


def slcase(r):
    n = r.choice([0, 1, 2, 3, 10])
    if r.random() < .5:
        vs = [rstr(r) for _ in range(n)]
        el = vs
        tail = ''.join(' ' + hx(v) for v in vs)
        op = 'S'
    else:
        vs = [intval(r, 'q') for _ in range(n)]
        el = [str(v) for v in vs]
        tail = ''.join(' %d' % v for v in vs)
        op = 'I'
    a, b = literal(r), literal(r)
    if r.random() < .5:
        return op + ' ' + hx(a[0] + '{}' + b[0]) + tail, hx(a[1] + '[' + ', '.join(el) + ']' + b[1])
    j = r.choice([',', ', ', '', ':', '}', '{', '\\', '=', '--', 'é', ' | ', '\n'])
    return op + ' ' + hx(a[0] + '{j=%s}' % escopt(j) + b[0]) + tail, hx(a[1] + j.join(el) + b[1])


def two(r, ascii=False):
    """A format of a string and an int64."""
    v = intval(r, 'q')
    s = ''.join(r.choice('abc {}\\x') for _ in range(r.choice([0, 1, 4, 30, 300]))) if ascii else rstr(r)
    o, base, w, pad = intopts(r, False)
    if ascii and ord(pad) > 126:
        o, base, w, pad = '', 10, 0, ' '
    parts = [literal(r) if not ascii else ('{{', '{') for _ in range(3)]
    f = parts[0][0] + '{}' + parts[1][0] + '{%s}' % o + parts[2][0]
    return f, s, v, (parts[0][1] + s + parts[1][1] + fmtint(v, base, w, pad) + parts[2][1]).encode()


def outcase(r):
    k = r.choice('bbbBw')
    if k == 'b':
        f, s, v, e = two(r, r.random() < .7)
        n = r.choice([len(e), len(e), max(0, len(e) - 1), len(e) + 1, 0, r.randrange(len(e) + 2), len(e) + 40])
        plain = all(c < 128 for c in e)

        def ok(out):
            h, g = out.split()
            h = unhx(h)
            if g != '1':
                return 'wrote outside the buffer'
            if len(h) > n:
                return 'longer than the buffer'
            if n >= len(e) and h != e:
                return 'expected %r' % e[:300]
            if n < len(e) and plain and h != e[:n]:
                return 'expected the first %d bytes of %r' % (n, e[:300])
        return 'b %d %s %s %d' % (n, hx(f), hx(s), v), ok
    f, s, v, e = two(r)
    if k == 'B':
        n = len(s.encode()) + len(e)
        return 'B %s %s %d' % (hx(f), hx(s), v), '%d %s' % (n, hx(s.encode() + e))
    return 'w %s %s %d' % (hx(f), hx(s), v), '%d %s' % (len(e), hx(e))


def many(r):
    s, v = rstr(r), intval(r, 'q')
    b8 = (v + 128) % 256 - 128
    vals = [str(b8), s, str(v), 'true' if v == 0 else 'false', str(v & 255), s]
    f = e = ''
    for x in vals:
        a = literal(r)
        f += a[0] + '{}'
        e += a[1] + x
    return 'k %s %s %d' % (hx(f), hx(s), v), hx(e)


def parsecase(r):
    t = r.choice('bwlqBWLQiuyztT')
    v = intval(r, t)
    base = r.choice([2, 8, 10, 10, 16, 16])
    own = r.random() < .4
    if own:
        base = r.randrange(2, 37)
    s = todigits(abs(v), base)
    if r.random() < .4:
        s = ''.join(c.upper() if r.random() < .5 else c for c in s)
    if r.random() < .2:
        s = '0' * r.randrange(1, 30) + s
    if r.random() < .2:
        for _ in range(r.randrange(1, 3)):
            p = r.randrange(1, len(s) + 1)
            s = s[:p] + '_' + s[p:]
    if own:
        pre = ''
    else:
        pre = {2: '0b', 8: '0o', 10: '', 16: '0x'}[base]
    bad = r.random() < .3
    if bad:
        out = [c for c in D[base:] + ' +-./:@[`{~\x00\t\né٣１\U0001d7ce' + D.upper()[max(base, 10):]]
        k = r.randrange(len(s) + 1)
        c = r.choice(out)
        if not own and base == 10:
            # not a prefix
            while s[:k] in ('0', '-0') and c in 'xob' or (k == 0 and c == '-'):
                k = r.randrange(len(s) + 1)
                c = r.choice(out)
        elif own and k == 0 and c == '-':
            c = '+'
        s = s[:k] + c + s[k:]
    s = ('-' if v < 0 else '') + pre + s
    if bad:
        want = 'N'
        if v >= 0 and s.startswith('-'):
            s = '+' + s
    else:
        want = 'S %d' % v
    return ('P %s %d %s' % (t, base, hx(s)) if own else 'p %s %s' % (t, hx(s))), want


def cases(r, n):
    k = [intcase, intcase, strcase, slcase, outcase, outcase, many, parsecase, parsecase]
    for i in range(n):
        yield r.choice(k)(r)
    for t in TY:
        for x in ('', '-', '--1', '- 1', '+1', ' 1', '1 ', '1-', '1.0', '1e3', '0x-1', '-', '/', ':'):
            yield 'p %s %s' % (t, hx(x)), 'N'


def streams(r, n):
    yield 'c28', (), [c for c, _ in cases(r, n) if c[0] != 'w']


# ---- values of composite types ------------------------------------------------

class V:
    """type text, expression text, printed text"""

    def __init__(self, ty, ex, out):
        self.ty, self.ex, self.out = ty, ex, out


def strlit(b):
    return '"' + ''.join(chr(c) if 32 <= c < 127 and c not in b'"\\' else '\\x%02x' % c for c in b) + '"'


class G:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.decls, self.n = [], 0

    def id(self, p):
        self.n += 1
        return '%s%s_%d' % (p, self.name, self.n)

    def ty(self, d, k=None):
        """A type: (text, fn -> (expression, printed))."""
        r = self.r
        if k is None:
            k = r.randrange(4) if d <= 0 or r.random() < .3 else r.randrange(4, 11)
        if k <= 1:
            t = r.choice(ints.TYPES)
            while t.name == 'char':
                t = r.choice(ints.TYPES)

            def f():
                v = ints.value(r, t)
                return ints.lit(None, t, v), str(v)
            return t.name, f
        if k == 2:
            c = r.randrange(2)
            if c:
                def f():
                    b = r.random() < .5
                    return ('true', 'true') if b else ('false', 'false')
                return 'bool', f

            def f():
                c = r.choice('azAZ09 ~!@#$%^&*()')
                return "'%s'" % c, c
            return 'char', f
        if k == 3:
            def f():
                s = rstr(r)
                return strlit(s.encode()), s
            return 'byte[:]', f
        if k == 4:
            n, fs = self.id('S'), []
            for i in range(r.choice([1, 2, 3, 4, 4, 30, 60]) if d == 1 else r.randrange(1, 5)):
                fs.append((r.choice('abcdefgh') + '%d' % i + '_z' * r.randrange(2),) + self.ty(d - 1))
            self.decls.append('type %s = struct\n%s\n;;' % (n, '\n'.join('\t%s : %s' % x[:2] for x in fs)))

            def f():
                v = [(x[0],) + x[2]() for x in fs]
                ini = v[:]
                r.shuffle(ini)
                return ('[' + ', '.join('.%s=%s' % x[:2] for x in ini) + ']',
                        '[' + ', '.join('.%s=%s' % (x[0], x[2]) for x in v) + ']')
            return n, f
        if k == 5:
            n, cs = self.id('U'), []
            for i in range(r.randrange(1, 6)):
                cs.append(('%s%s_%d' % (r.choice(['Aa', 'B', 'Cx']), n, i),) + (self.ty(d - 1) if r.random() < .75 else (None, None)))
            self.decls.append('type %s = union\n%s\n;;' % (n, '\n'.join('\t`%s %s' % (x[0], x[1] or '') for x in cs)))

            def f():
                c = r.choice(cs)
                if c[1] is None:
                    return '(`%s : %s)' % (c[0], n) if r.random() < .2 else '`' + c[0], '`' + c[0]
                e, o = c[2]()
                return '(`%s %s)' % (c[0], self.wrapneg(e)), '`%s %s' % (c[0], o)
            return n, f
        if k == 6:
            t, g = self.ty(d - 1)
            m = r.choice([1, 2, 3, 4, 4, 9, 130, 200] if d == 1 else [1, 2, 3, 4])

            def f():
                v = [g() for _ in range(m)]
                return '[' + ', '.join(x[0] for x in v) + ']', '[' + ', '.join(x[1] for x in v) + ']'
            return '%s[%d]' % (t, m), f
        if k == 7:
            t, g = self.ty(d - 1)
            if t in ('byte', 'uint8'):
                return self.ty(d)

            def f():
                v = [g() for _ in range(r.randrange(1, 4))]
                if r.random() < .1:
                    return '[][:]', '[]'
                return '[' + ', '.join(x[0] for x in v) + '][:]', '[' + ', '.join(x[1] for x in v) + ']'
            return t + '[:]', f
        if k == 8:
            fs = [self.ty(d - 1) for _ in range(r.randrange(2, 5))]

            def f():
                v = [x[1]() for x in fs]
                c = ',' if len(v) == 1 else ''
                return '(' + ', '.join(x[0] for x in v) + c + ')', '(' + ', '.join(x[1] for x in v) + c + ')'
            return '(' + ', '.join(x[0] for x in fs) + (',' if len(fs) == 1 else '') + ')', f
        if k == 9:
            t, g = self.ty(d - 1, r.choice([0, 1, 2, 3, 4, 5]))
            n = self.id('N')
            self.decls.append('type %s = %s' % (n, t))
            return n, lambda: self.cast(g, n)
        t, g = self.ty(d - 1)
        n = self.id('G')
        self.decls.append('type %s(@a) = struct\n\tx : @a\n\ty : @a[:]\n;;' % n)

        def f():
            a, b = g(), g()
            return ('[.x=%s, .y=[%s][:]]' % (a[0], b[0]), '[.x=%s, .y=%s]' % (a[1], b[1] if False else '[' + b[1] + ']'))
        if t in ('byte', 'uint8'):
            return self.ty(d)
        return '%s(%s)' % (n, t), f

    def wrapneg(self, e):
        return '(%s)' % e if e.startswith('-') else e

    def cast(self, g, n):
        e, o = g()
        # the type of a struct literal does not follow from a cast
        return (e if e.startswith('[') else '(%s : %s)' % (e, n)), o


def progtest(r, name):
    g = G(r, name)
    body, expect = [], []
    nv = 0
    for _ in range(r.randrange(2, 6)):
        args, f, e = [], '', ''
        for _ in range(r.randrange(1, 6)):
            t, fn = g.ty(r.randrange(4))
            ex, out = fn()
            v = 'v%d' % nv
            nv += 1
            a = literal(r)
            f += a[0] + '{}'
            e += a[1] + out
            if r.random() < .2 and t.endswith('[:]') is False and not ex.startswith('['):
                body.append('var %s : %s' % (v, t))
                body.append('%s = %s' % (v, ex))
            else:
                body.append('var %s : %s = %s' % (v, t, ex))
            args.append(v)
        a = literal(r)
        f += a[0]
        e += a[1]
        fn = r.choice(['std.fmt(', 'wr_%s(' % name, 'wr_%s(' % name])
        if 'wr' in fn and not any('const wr_' in x for x in g.decls):
            x = ', '.join('p%d : %s' % (i, r.choice(['int8', 'int64', 'byte[:]'])) for i in range(r.randrange(3)))
            g.pre = x
            g.decls.append('const wr_%s = {%sfmt : byte[:], args : ...\n\tvar ap = std.vastart(&args)\n\t-> std.fmtv(fmt, &ap)\n}' %
                           (name, x + ', ' if x else ''))
        pre = ''
        if 'wr' in fn and g.pre:
            pre = ''.join({'int8': '-3, ', 'int64': '7, ', 'byte[:]': '"q", '}[x.split(' : ')[1]] for x in g.pre.split(', '))
        body.append('dio.hex(%s%s%s, %s))' % (fn, pre, strlit(f.encode()), ', '.join(args)))
        body.append('dio.endl()')
        expect.append(hx(e))
    return Test(name, '\n'.join(g.decls), body, expect)


NET = '''
const netstr = {a : std.netaddr
	-> std.fmt("<{}>", a)
}
const main = {
	var a : std.netaddr
	a = `std.Ipv4 [1, 20, 255, 0]
	dio.hex(netstr(a))
	a = `std.Ipv6 [0, 1, 0x20, 0xff, 0, 0, 0, 0, 0xfe, 0x80, 0, 0, 1, 2, 3, 4]
	dio.hex(netstr(a))
	dio.endl()
}
'''


def check(ck):
    t = Tree('std')
    d = Driver(ck, t, 'c28')
    d.check(list(cases(ck.sub('c'), ck.n(60000, 800000))), timeout=120)
    r = ck.sub('p')
    pk = Packer(ck, t)
    pk.check([progtest(r, 'a%d' % i) for i in range(ck.n(700, 8000))], per=30)
    # library formatters: big integers, sets and addresses
    ls, rows = [], []
    for i in range(ck.n(60, 600)):
        v = r.getrandbits(r.choice([1, 8, 32, 64, 200, 2000])) * r.choice([1, -1])
        st = sorted(set(r.randrange(r.choice([3, 64, 300])) for _ in range(r.randrange(6))))
        ip4 = [r.choice([0, 1, 9, 10, 99, 100, 255, r.randrange(256)]) for _ in range(4)]
        ip6 = [r.choice([0, 1, 15, 16, 255, r.randrange(256)]) for _ in range(16)]
        body = ['var b%d = std.get(std.bigparse("%d"))' % (i, v), 'var s%d = std.mkbs()' % i]
        body += ['std.bsput(s%d, %d)' % (i, x) for x in st]
        body += ['var a%d : std.netaddr = `std.Ipv4 [%s]' % (i, ', '.join(map(str, ip4))),
                 'var c%d : std.netaddr = `std.Ipv6 [%s]' % (i, ', '.join(map(str, ip6))),
                 'dio.hex(std.fmt("{}|{}|{}|{}|{}", b%d, s%d, a%d, c%d, b%d))' % ((i,) * 5), 'dio.endl()']
        x6 = ':'.join('%02x%02x' % (ip6[k], ip6[k + 1]) for k in range(0, 16, 2))
        e = '%d|bitset{%s}|%s|%s|%d' % (v, ', '.join(map(str, st)), '.'.join(map(str, ip4)), x6, v)
        rows.append(Test('l%d' % i, '', body, [hx(e)]))
    pk.check(rows, per=20)
    ck.rule = ('format strings with every verb option (base, width literal and as argument, pad, join, escape, raw) and '
               'literal braces, over typed integers, strings, slices and generated composite types passed directly and '
               'through variadic wrappers; output through fmt, bfmt into guarded buffers, sbfmt and fput to a pipe; '
               'integer parsing of formatted and corrupted numbers; all compared with a model of the format language')


TECH = 'runtime monitoring: model oracle over generated format calls and programs'
NOTE = 'floating-point verbs belong to C29; overflowing numbers given to intparse are not specified and not generated'
