"""C29: float printing and parsing against exact rational arithmetic."""
import re
import struct
from fractions import Fraction as F
from vf.core import *

TECH = 'runtime monitoring: exact rational oracle over float printing and parsing of adversarial values'
NOTE = 'both widths; halfway cases, denormals, long digit strings, precision and padding options, assembling'

P = {64: (53, -1074, 971, 11, 0x7ff), 32: (24, -149, 104, 8, 0xff)}


def value(bits, w):
    """exact |value| of finite bits"""
    p, lo, hi, eb, em = P[w]
    m = bits & ((1 << (p - 1)) - 1)
    e = (bits >> (p - 1)) & em
    if e:
        m |= 1 << (p - 1)
        e -= 1
    return F(m) * F(2) ** (e + lo)


def isfin(bits, w):
    p, lo, hi, eb, em = P[w]
    return (bits >> (p - 1)) & em != em


def inside(v, b, w):
    """strictly between the halfway points around the positive finite bits"""
    x = value(b, w)
    lo = (x + value(b - 1, w)) / 2
    hi = (x + value(b + 1, w)) / 2 if isfin(b + 1, w) else 2 * x - lo
    return lo < v < hi


def neg(bits, w):
    return bits >> (w - 1) != 0


def rnd(x, w):
    """bits of the float nearest to x >= 0, ties to even"""
    p, lo, hi, eb, em = P[w]
    if x == 0:
        return 0
    n, d = x.numerator, x.denominator
    k = n.bit_length() - d.bit_length() - p
    k = max(k, lo)
    while True:
        s = x / F(2) ** k
        q = s.numerator // s.denominator
        if q.bit_length() > p:
            k += 1
            continue
        break
    r = s - q
    if r > F(1, 2) or (r == F(1, 2) and q & 1):
        q += 1
    # subnormals have q < 2^(p-1) and k == lo
    bits = q + ((k - lo) << (p - 1))
    inf = em << (p - 1)
    return min(bits, inf) if k <= hi else inf


DEC = re.compile(r'^([+-]?)([0-9_]*)(\.([0-9_]*))?([eE]([+-]?)([0-9_]*[0-9][0-9_]*))?$')


def denote(s):
    """(sign, exact value | 'inf' | 'nan') or None"""
    sg = s[:1] == '-'
    body = s[1:] if s[:1] in ('-', '+') else s
    if body in ('inf', 'Inf'):
        return sg, 'inf'
    if body in ('nan', 'NaN'):
        return sg, 'nan'
    m = DEC.match(s)
    if not m:
        return None
    a, b = m.group(2).replace('_', ''), (m.group(4) or '').replace('_', '')
    if not a and not b:
        return None
    e = int((m.group(7) or '0').replace('_', ''))
    if m.group(6) == '-':
        e = -e
    ip = int(a + b)
    e -= len(b)
    if ip == 0:
        return sg, F(0)
    nd = len(str(ip))
    if nd + e > 400:
        return sg, F(10) ** 400
    if nd + e < -400:
        return sg, F(1, 10 ** 400)
    return sg, F(ip) * F(10) ** e


def pbits(s, w):
    d = denote(s)
    if d is None:
        return None
    sg, v = d
    p, lo, hi, eb, em = P[w]
    if v == 'nan':
        return 'nan'
    b = (em << (p - 1)) if v == 'inf' else rnd(v, w)
    return b | (1 << (w - 1)) if sg else b


def pwant(s):
    def f(out):
        for w, o in zip((64, 32), out.split()):
            want = pbits(s, w)
            if want is None:
                if o != 'none':
                    return 'flt%dparse(%r) accepted malformed text' % (w, s[:100])
            elif o == 'none':
                return 'flt%dparse(%r) rejected' % (w, s[:100])
            elif want == 'nan':
                if isfin(int(o, 16), w) or int(o, 16) & ((1 << (P[w][0] - 1)) - 1) == 0:
                    return 'flt%dparse(%r) gave %s, not a NaN' % (w, s, o)
            elif int(o, 16) != want:
                return 'flt%dparse(%r) gave %s, nearest is %x' % (w, s[:200], o, want)
    return f


def texact(v):
    """plain decimal text of v = k*2^-n exactly, or None"""
    n, d = v.numerator, v.denominator
    e = d.bit_length() - 1
    n *= 5 ** e
    s = str(n).rjust(e + 1, '0')
    return (s[:-e] + '.' + s[-e:]) if e else s


def sci(v, digs):
    """v truncated to digs significant digits as (int, exp10)"""
    n, d = v.numerator, v.denominator
    e = len(str(n)) - len(str(d))
    if F(10) ** e > v:
        e -= 1
    x = v / F(10) ** (e - digs + 1)
    return x.numerator // x.denominator, e - digs + 1


def rbits(r, w):
    p, lo, hi, eb, em = P[w]
    k = r.randrange(9)
    m = r.choice([0, 1, 2, 3, (1 << (p - 1)) - 1, (1 << (p - 1)) - 2, r.getrandbits(p - 1),
                  r.getrandbits(p - 1), 1 << r.randrange(p - 1)])
    if k <= 2:
        e = r.randrange(em)
    elif k == 3:
        e = 0
    elif k == 4:
        e = r.choice([0, 1, 2, em - 1, em - 2])
    elif k == 5:
        e = (em >> 1) + r.randrange(-30, 70)
        e = min(em - 1, e)
    elif k == 6:
        b = rnd(F(r.randrange(1, 10 ** r.randrange(1, 18)), 10 ** r.randrange(0, 12)), w)
        return b | (r.getrandbits(1) << (w - 1))
    elif k == 7:
        b = rnd(F(10) ** r.randrange(-46, 39), w) + r.choice([0, 0, 1, -1])
        return max(b, 0) | (r.getrandbits(1) << (w - 1))
    else:
        b = rnd(F(r.randrange(0, 1 << r.randrange(1, 64))), w)
        return b | (r.getrandbits(1) << (w - 1))
    b = m | e << (p - 1)
    return b | (r.getrandbits(1) << (w - 1))


def mess(r, s):
    """spellings of the same decimal"""
    k = r.randrange(8)
    if k == 0:
        return s + ('0' * r.randrange(1, 30) if '.' in s else '.' + '0' * r.randrange(0, 20))
    if k == 1:
        return '0' * r.randrange(1, 20) + s
    if k == 2:
        # move the point
        m = re.match(r'^(\d*)(?:\.(\d*))?$', s)
        if not m:
            return s
        a, b = m.group(1), m.group(2) or ''
        d = a + b
        at = r.randrange(0, len(d) + 1)
        e = len(a) - at
        return (d[:at] + '.' + d[at:] + r.choice(['e', 'E']) +
                (('+' if r.random() < .5 else '') if e >= 0 else '-') + str(abs(e)))
    if k == 3 and len(s) > 2:
        i = r.randrange(1, len(s))
        return s[:i] + '_' + s[i:]
    if k == 4:
        return '+' + s
    if k == 5:
        return '-' + s
    return s


def ptext(r):
    k = r.randrange(12)
    w = r.choice([64, 32])
    if k <= 3:
        # halfway between neighbours, or next to it
        b = rbits(r, w) & ((1 << (w - 1)) - 1)
        if r.random() < .15:
            b = r.choice([0, 1, 2, (P[w][4] << (P[w][0] - 1)) - 1])
        v = value(b, w)
        nx = value(b + 1, w) if isfin(b + 1, w) else v + (v - value(b - 1, w))
        h = (v + nx) / 2
        t = texact(h)
        z = r.randrange(4)
        if z == 1:
            t = t + ('' if '.' in t else '.') + '0' * r.randrange(0, 30) + '1'
        elif z == 2:
            i = len(t) - 1
            while t[i] == '0' and i > 0:
                i -= 1
            if t[i] in '123456789':
                # just below: decrement the last non-zero digit and append nines
                t = t[:i] + str(int(t[i]) - 1) + t[i + 1:].replace('0', '9') + ('.' if '.' not in t else '') + '9' * 5
        elif z == 3:
            n, e = sci(h, r.randrange(15, 25)) if h else (0, 0)
            t = '%de%d' % (n + r.choice([0, 1]), e)
        return mess(r, t)
    if k == 4:
        return mess(r, str(r.randrange(10 ** r.randrange(1, 60))))
    if k == 5:
        return mess(r, '%d.%s' % (r.randrange(10 ** r.randrange(0, 20)), ''.join(r.choice('0123456789')
                                 for _ in range(r.choice([1, 3, 10, 40, 200])))))
    if k == 6:
        return '%s%s%d' % (mess(r, str(r.randrange(10 ** r.randrange(1, 25)))) if r.random() < .5 else
                           '%d.%d' % (r.randrange(10), r.randrange(10 ** 17)), 'e',
                           r.randrange(-400, 400)) if r.random() < .9 else '1e5'
    if k == 7:
        return '%de%s%d' % (r.randrange(1, 10 ** 6), r.choice(['', '+', '-']),
                            r.choice([0, 1, 22, 23, 38, 39, 45, 46, 300, 307, 308, 309, 310, 323, 324, 325, 330,
                                      400, 1000, 10 ** 6, 10 ** 9, 10 ** 12, 10 ** 20, 10 ** 30, 2 ** 31, 2 ** 32,
                                      2 ** 63, 2 ** 64]))
    if k == 8:
        return r.choice(['0', '-0', '0.0', '-0.0', '.5', '5.', '-.5', '+5.', '0e0', '0e999999', '-0e-99999',
                         'inf', '-inf', '+inf', 'Inf', '-Inf', 'nan', '-nan', 'NaN', '0.' + '0' * 340 + '1',
                         '1' + '0' * 400 + 'e-400', '0.' + '0' * 400 + '1e401', '1' + '0' * 30 + '.0',
                         '2.2250738585072011e-308', '2.2250738585072014e-308', '1.7976931348623157e308',
                         '1.7976931348623159e308', '1.797693134862315808e308', '4.9e-324', '2.5e-324', '2.4e-324',
                         '9007199254740993', '9007199254740992.9999999', '16777217', '3.4028235e38',
                         '3.4028236e38', '1.4e-45', '7e-46', '7.1e-46'])
    if k == 9:
        return r.choice(['', '.', '-', '+', 'e5', '.e5', '1e', '1e+', '1e-', '1.2.3', '--1', '-+1', '+-1', '1-', '1 ',
                         ' 1', '0x10', '1f', '1e5x', '1e5.', '1e5e5', '1..', '..1', 'infi', 'in', 'na', 'nanx',
                         '1,5', '1e--5', '1e+-5', 'x', '1x', '-e1', '1\0', '\0', 'e', 'E', '-.', '+.', '.e', '1.5.'])
    if k == 10:
        # damaged
        t = ptext(r)
        i = r.randrange(len(t) + 1)
        return t[:i] + r.choice('xz-+. #') + t[i:]
    return mess(r, '%.*g' % (r.randrange(1, 19), struct.unpack('<d', struct.pack('<Q', rbits(r, 64)))[0])) \
        if w == 64 else repr(r.random() * 10 ** r.randrange(-5, 20))


def parts(t):
    """a printed number -> (neg, digits before, digits after, exp)"""
    m = re.match(r'^(-?)(\d+)\.(\d*)(?:e(-?\d+))?$', t)
    if not m:
        return None
    return m.group(1) == '-', m.group(2), m.group(3), m.group(4)


def fwant(bits, w, opt, n=None):
    def f(out):
        o = out.split()
        t = unhx(o[0]).decode('latin1')
        p, lo, hi, eb, em = P[w]
        if not isfin(bits, w):
            if bits & ((1 << (p - 1)) - 1):
                return None if t.strip() in ('NaN', 'nan', '-NaN', '-nan') else 'NaN printed %r' % t
            want = '-Inf' if neg(bits, w) else 'Inf'
            if t != want:
                return 'infinity printed %r' % t
            return None if o[1] == '%016x' % bits else '%s does not read back' % t
        q = parts(t)
        if q is None:
            return 'not a decimal: %r' % t
        if q[0] != neg(bits, w):
            return 'sign wrong in %r' % t
        if opt == 'e':
            if q[3] is None or len(q[1]) != 1 or (q[1] == '0' and value(bits, w)):
                return 'not scientific notation: %r' % t
        elif q[3] is not None:
            return 'exponent not asked for: %r' % t
        if len(q[1]) > 1 and q[1][0] == '0':
            return 'leading zero in %r' % t
        if opt != 'e' and not q[2]:
            return 'no digit after the point: %r' % t
        v = denote(t)[1]
        x = value(bits, w)
        if opt in ('', 'e'):
            if o[1] != '%016x' % bits or pbits(t, w) != bits:
                return '%s reads back as %s instead of %x' % (t, o[1], bits)
            if x == 0:
                return None
            # the digits are the shortest that read back, or the correctly rounded ones
            digs = (q[1] + q[2]).strip('0')
            nd = len(digs)
            # is there a shorter one that reads back?
            if nd > 1:
                a, e = sci(x, nd - 1)
                for c in (a, a + 1):
                    if inside(F(c) * F(10) ** e, bits & ((1 << (w - 1)) - 1), w):
                        return '%s is not shortest: %de%d reads back too' % (t, c, e)
            a, e = sci(x, nd)
            if v not in (F(a) * F(10) ** e, F(a + 1) * F(10) ** e):
                return '%s is not next to the exact value in its digits' % t
        else:
            # n significant digits
            if x == 0:
                return None if v == 0 else '0 printed %s' % t
            a, e = sci(x, n)
            half = F(10) ** e / 2
            # the rounding of a cut-off result works in whole units of the last bit
            ulp = F(2) ** max(lo, ((bits >> (p - 1)) & em) - 1 + lo)
            if abs(v - x) > half + ulp / 2 and pbits(t, w) != bits:
                return '%s is further than half a unit of digit %d from the value' % (t, n)
            digs = (q[1] + q[2]).strip('0')
            if len(digs) > n:
                return '%s shows more than %d significant digits' % (t, n)
        return None
    return f


def cases(r, n):
    out = []
    for _ in range(n):
        k = r.randrange(20)
        w = r.choice([64, 64, 32])
        op = 'f' if w == 64 else 'g'
        if k < 8:
            s = ptext(r)
            out.append(('p %s' % hx(s.encode('latin1')), pwant(s)))
        elif k < 13:
            b = rbits(r, w)
            if r.random() < .02:
                b = (P[w][4] << (P[w][0] - 1)) | (r.getrandbits(1) << (w - 1)) | r.choice([0, 0, 1, 1 << (P[w][0] - 2)])
            out.append(('%s %s %d' % (op, hx('{}'), b), fwant(b, w, '')))
        elif k < 15:
            b = rbits(r, w)
            out.append(('%s %s %d' % (op, hx('{e}'), b), fwant(b, w, 'e')))
        elif k < 17:
            b = rbits(r, w)
            d = r.choice([1, 2, 3, 5, 8, 12, 15, 17, 20])
            out.append(('%s %s %d' % (op, hx('{s=%d}' % d), b), fwant(b, w, 's', d)))
        elif k == 17:
            b = rbits(r, w)
            wd = r.choice([1, 5, 10, 25, 40])
            pc = r.choice([None, '0', '*'])
            fmt = '{w=%d}' % wd if pc is None else '{w=%d,p=%s}' % (wd, pc)

            def f(o, b=b, w=w, wd=wd, pc=pc or ' '):
                t = unhx(o.split()[0]).decode('latin1')
                sg = neg(b, w)
                if pc == '0':
                    body = t[1:] if sg and t[:1] == '-' else t
                    if sg and t[:1] != '-':
                        return 'no sign in front of %r' % t
                    core = re.sub(r'^0+(?=\d)', '', body)
                    full = ('-' if sg else '') + core
                else:
                    full = core = t.lstrip(pc)
                bad = fwant(b, w, '')('%s %016x' % (hx(full), b))
                if bad:
                    return bad
                if len(t) != max(wd, len(full)):
                    return '%r is not padded to %d' % (t, wd)
            out.append(('%s %s %d' % (op, hx(fmt), b), f))
        elif k == 18:
            b = rbits(r, 64)
            if r.random() < .3:
                b = b & ~0xffffffff | rbits(r, 32)
            exp = []
            for ww, bb in ((64, b), (32, b & 0xffffffff)):
                p, lo, hi, eb, em = P[ww]
                e = (bb >> (p - 1)) & em
                m = bb & ((1 << (p - 1)) - 1) | ((1 << (p - 1)) if e else 0)
                exp.append('%d %d %d %016x' % (neg(bb, ww), e - (em >> 1), m, bb))
            out.append(('x %d' % b, ' '.join(exp)))
            nn = [(bb >> (P[ww][0] - 1)) & P[ww][4] == P[ww][4] and bb & ((1 << (P[ww][0] - 1)) - 1) != 0
                  for ww, bb in ((64, b), (32, b & 0xffffffff))]
            out.append(('n %d' % b, '%d %d' % tuple(nn)))
            nb = r.choice([0x7f800001, 0x7ff0000000000001, 0x7fffffff7fffffff, 0xfff0000000000000,
                           0xfff8000000000000, 0xffffffffffffffff, 0x7fefffffff800000])
            nn = [(bb >> (P[ww][0] - 1)) & P[ww][4] == P[ww][4] and bb & ((1 << (P[ww][0] - 1)) - 1) != 0
                  for ww, bb in ((64, nb), (32, nb & 0xffffffff))]
            out.append(('n %d' % nb, '%d %d' % tuple(nn)))
        else:
            p, lo, hi, eb, em = P[w]
            m = (1 << (p - 1)) | r.choice([0, 1, (1 << (p - 1)) - 1, r.getrandbits(p - 1), r.getrandbits(p - 1),
                                           (1 << r.randrange(p - 1)), (r.getrandbits(p) << r.randrange(p))
                                           & ((1 << (p - 1)) - 1)])
            mine = lo + p - 1
            e = r.choice([r.randrange(mine, hi + p), mine - r.randrange(0, p + 6), mine - r.randrange(0, p + 6),
                          mine - 1, mine - p, mine - p - 1, mine - 64, mine - 65, mine - 100])
            s = r.getrandbits(1)
            want = rnd(F(m) * F(2) ** (e - p + 1), w) | (s << (w - 1))
            out.append(('a %d %d %d %d' % (w == 32, s, e, m), '%016x' % want))
    out.append(('c', '7ff0000000000000 000000007f800000 1 1'))
    return out


def streams(r, n):
    return [('c29', (), [c for c, _ in cases(r, n)])]


def check(ck):
    d = Driver(ck, Tree('std'), 'c29')
    d.check(cases(ck.sub('c'), ck.n(24000, 600000)))
    ck.rule = ('decimal texts (halfway cases between neighbours, denormals, overflow, long digit strings, huge '
               'exponents, malformed) parsed at both widths against exact rational rounding; values of every '
               'magnitude printed with and without options, read back and checked to be shortest; bits, '
               'explode and assemble')
