"""C40: the JSON parser and formatter against Python's parser in strict mode."""
import json, struct
from vf.core import *


sys.setrecursionlimit(20000)


class Bad(Exception):
    pass


def const(x):
    raise Bad(x)


def ref(text):
    """The token dump of the value, or None when the text is not JSON."""
    try:
        v = json.loads(text, object_pairs_hook=lambda p: ('obj', p), parse_constant=const, parse_int=float, parse_float=float)
    except (ValueError, Bad):
        return None
    return ' '.join(dump(v))


def bits(x):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', x))[0]


def dump(v):
    if v is None:
        return ['n']
    if v is True:
        return ['t']
    if v is False:
        return ['f']
    if isinstance(v, float):
        return ['#' + bits(v)]
    if isinstance(v, str):
        return ['s', hx(v)]
    if isinstance(v, list):
        return ['['] + [t for x in v for t in dump(x)] + [']']
    return ['{'] + [t for k, x in v[1] for t in ['k', hx(k)] + dump(x)] + ['}']


CH = ['a', 'b', ' ', '"', '\\', '/', '\b', '\f', '\n', '\r', '\t', '\0', '\x1f', '\x7f', '\x80', 'é', '€', '\ud7ff', '\ue000', '\uffff', '\U00010000',
      '😀', '\U0010ffff', '{', '}', '[', ']', ':', ',', '1']


def rstr(r):
    return ''.join(r.choice(CH) for _ in range(r.choice([0, 1, 2, 3, 8])))


def rnum(r):
    k = r.randrange(7)
    if k == 0:
        return float(r.choice([0, -0.0, 1, -1, 10, 123456789, 1e21, 1e22, 1e23, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, .1]))
    if k == 1:
        x = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
        return x if x == x and abs(x) != float('inf') else 0.5
    if k == 2:
        return float(r.randrange(-10**r.randrange(1, 19), 10**r.randrange(1, 19)))
    return round(r.uniform(-1000, 1000), r.randrange(6))


def rval(r, d):
    k = r.random()
    if d <= 0 or k < .35:
        return r.choice([None, True, False, rnum(r), rnum(r), rstr(r), rstr(r)])
    n = r.choice([0, 0, 1, 2, 3, 5])
    if k < .7:
        return [rval(r, d - 1) for _ in range(n)]
    return ('obj', [(rstr(r), rval(r, d - 1)) for _ in range(n)])


def ws(r):
    return '' if r.random() < .6 else ''.join(r.choice(' \t\r\n') for _ in range(r.randrange(1, 4)))


def strtext(r, s):
    o = '"'
    short = {'"': '"', '\\': '\\', '/': '/', '\b': 'b', '\f': 'f', '\n': 'n', '\r': 'r', '\t': 't'}
    for c in s:
        if c in short and (c in '"\\' or ord(c) < 32 or r.random() < .4) and r.random() < .8:
            o += '\\' + short[c]
        elif c in '"\\' or ord(c) < 32 or r.random() < .2:
            u = c.encode('utf-16-be')
            for i in range(0, len(u), 2):
                h = u[i:i + 2].hex()
                o += '\\u' + (h.upper() if r.random() < .5 else h)
        else:
            o += c
    return o + '"'


def numtext(r, x):
    k = r.randrange(5)
    if k == 0 and x == int(x) and abs(x) < 1e40:
        return ('-' if str(x)[0] == '-' else '') + str(abs(int(x)))
    if k == 1:
        return '%.*e' % (r.choice([0, 3, 16, 17, 30]), x)
    if k == 2 and abs(x) < 1e60:
        return '%.*f' % (r.choice([1, 5, 20, 60]), x)
    s = repr(x)
    if k == 3:
        s = s.replace('e', 'E')
    return s


def text(r, v):
    if v is None:
        return 'null'
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, float):
        return numtext(r, v)
    if isinstance(v, str):
        return strtext(r, v)
    if isinstance(v, list):
        return '[' + ws(r) + (ws(r) + ',' + ws(r)).join(text(r, x) for x in v) + ws(r) + ']'
    return '{' + ws(r) + ','.join(ws(r) + strtext(r, k) + ws(r) + ':' + ws(r) + text(r, x) + ws(r) for k, x in v[1]) + ws(r) + '}'


def mutate(r, t):
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        i = r.randrange(len(t) + 1)
        k = r.randrange(5)
        if k == 0:
            t = t[:i] + t[i + 1:]
        elif k == 1:
            t = t[:i] + r.choice(list('{}[]:,"\\/-+.eE0123456789tfnu \t\n\x0b\x00\xa0') + ['null', 'true', 'NaN', 'Infinity', '\\u', '\\ud83d', '\\udc00', ',]', ',}', '00', '\ufeff', '/**/', '\\x41', '١', '²']) + t[i:]
        elif k == 2 and len(t) > 1:
            j = r.randrange(len(t))
            t = t[:i] + t[min(i, j):max(i, j)] + t[i:]
        elif k == 3:
            t = t[:i]
        elif i < len(t):
            t = t[:i] + r.choice('{}[]:,"\\-+.eE01 \n') + t[i + 1:]
    return t


SOUP = ['{', '}', '[', ']', ':', ',', '"a"', '""', '1', '-', '0', '.', 'e', 'true', 'null', ' ', '\n', '"', '\\', 'E+', '12']


def lone(t):
    """Holds unpaired surrogate escapes: what value they denote is not specified."""
    import re
    s = re.sub(r'\\\\', '', t)
    s = re.sub(r'(?i)\\ud[89ab][0-9a-f]{2}\\ud[c-f][0-9a-f]{2}', '', s)
    return re.search(r'(?i)\\ud[89a-f]', s) is not None


def judge(t):
    w = ref(t)
    unspec = w is not None and lone(t)

    def f(out):
        if w is None:
            p = out.split()
            if p[0] != 'E':
                return 'accepted: not JSON'
            b = t.split('\n')
            if not 1 <= int(p[1]) <= len(b) or not 1 <= int(p[2]) <= len(t.encode()) + 2:
                return 'error position %s:%s is outside of the input' % (p[1], p[2])
        elif out.startswith('E'):
            return 'rejected: JSON'
        elif out != w and not unspec:
            return 'expected %s' % w[:600]
    return f


def cases(r, n):
    for _ in range(n):
        k = r.randrange(10)
        v = rval(r, r.choice([0, 1, 2, 3, 4]))
        if k < 4:
            t = ws(r) + text(r, v) + ws(r)
            yield ('j ' + hx(t), judge(t))
        elif k < 7:
            t = mutate(r, text(r, v))
            yield ('j ' + hx(t), judge(t))
        elif k < 8:
            t = ''.join(r.choice(SOUP) for _ in range(r.randrange(9)))
            yield ('j ' + hx(t), judge(t))
        elif k < 9:
            yield built(v)
        else:
            t = text(r, v)
            w = ref(t)

            def f(out, w=w, t=t):
                p = out.split(' ', 1)
                if p[0] == 'E' or p[1] != w:
                    return 'formatting and parsing again: expected %s' % w
                if ref(unhx(p[0]).decode()) != w:
                    return 'formatted as %r, which does not denote the value' % unhx(p[0])
            yield ('f ' + hx(t), f)


def built(v):
    d = ' '.join(dump(v))

    def f(out):
        p = out.split(' ', 1)
        if p[1] != d + ' ' + d:
            return 'the value built, formatted and parsed is not the same'
        if ref(unhx(p[0]).decode()) != d:
            return 'formatted as %r, which does not denote the value' % unhx(p[0])
    import re
    return ('b ' + re.sub(r'#(\w+)', lambda m: '# %d' % int(m.group(1), 16), d), f)


def fixed():
    T = ['', ' ', '[' * 1000 + ']' * 1000, '{"a":' * 900 + '1' + '}' * 900, '[' + '[],' * 3000 + '{}]', '[' + ','.join(['{}'] * 3000) + ']', '-', '-0', '-0.0',
         '01', '1.', '.5', '1e', '1e+', '+1', '1e400', '-1e400', '1e-400', '0e0', '00', '-01', '1.5e3', '1E3', '0x10', '[1,]', '[,1]', '{"a":1,}',
         '{"x":{"a":1,}', '{"x":{"a":1,}}', '[{"a":1,}]', '{,}', '{"a"}', '{"a":}', '{1:2}', '{"a":1 "b":2}', '[1 2]', '"\t"', '"\\u12"', '"\\u12g4"', '"\\ud83d\\ude00"',
         '"\\u0000"', '"\x7f"', 'nul', 'nulll', 'truefalse', 'true false', '[1]]', '"a" "b"', '\ufeff1', '1\0', '\v1', '"\\ud83d', '"\\ud83d\\u"', '"\\', '"', '[', '{', '{"a', '{"a":', '[1', '[1,',
         '1' * 400, '0.' + '0' * 400 + '1', '1' + '0' * 400 + 'e-400', '\n\n\n  x', '[\n1,\n2\n3]', '"\n"']
    return [('j ' + hx(t), judge(t)) for t in T]


def streams(r, n):
    yield 'c40', (), [c for c, _ in cases(r, n)] + ['j ' + bytes(r.randrange(256) for _ in range(r.randrange(1, 20))).hex() for _ in range(n)]


def check(ck):
    d = Driver(ck, Tree('all'), 'c40')
    d.check(fixed())
    d.check(list(cases(ck.sub('c'), ck.n(30000, 600000))))
    # any bytes: an answer, never a crash
    r = ck.sub('b')
    raw = []
    for _ in range(ck.n(5000, 50000)):
        b = bytearray(text(r, rval(r, 2)).encode())
        for _ in range(r.randrange(1, 4)):
            b.insert(r.randrange(len(b) + 1), r.randrange(256))
        raw.append(('j ' + bytes(b).hex(), lambda out: None))
    d.check(raw)
    # nesting is refused beyond a limit, never a stack overflow
    d.check([('j ' + hx(c * n), lambda o: None if o.startswith('E') else 'accepted') for c in ('[', '{"a":') for n in (2000, 100000)])
    ck.rule = ('generated values in every textual form, mutated texts and token soup judged by a strict parser, values built, formatted and parsed '
               'again, random bytes (crash only), deep nesting')


TECH = 'runtime monitoring: differential oracle (a strict reference parser) over generated, mutated and built JSON'
NOTE = ('nesting of up to 1000 levels must be accepted, more may be refused; the value of unpaired surrogate escapes and of invalid UTF-8 is not '
        'judged; numbers beyond the range of doubles are expected to be infinite or zero')
