"""C22: byte-string functions against their definitions."""
from vf.core import *

BLANK = [9, 0x20, 0x85, 0xa0, 0x1680, 0x180e] + list(range(0x2000, 0x200c)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000, 0xfeff]
SPACE = set(BLANK + [10])
BLANK = set(BLANK)


def outs(l):
    return ' '.join([str(len(l))] + [hx(x) for x in l])


def o(i):
    return 'none' if i < 0 else str(i)


def cmp3(a, b):
    return '<' if a < b else '>' if a > b else '='


def split(a, d):
    return a.split(d) if a else []


def bsplit(a, d, n):
    l = split(a, d)
    if len(l) <= n:
        return l
    return a.split(d, n - 1)


def bysplit(a, d):
    l = a.split(d)
    # what is left after the last separator is reported only when it is not empty
    return l[:-1] if l[-1] == b'' else l


def tok(s):
    out, cur = [], ''
    for c in s:
        if ord(c) in SPACE:
            if cur:
                out.append(cur)
            cur = ''
        else:
            cur += c
    return out + ([cur] if cur else [])


def btok(s, n):
    l = tok(s)
    if len(l) <= n:
        return l
    # the last entry is the rest of the string without trailing space
    out, i = [], 0
    while len(out) < n - 1:
        while ord(s[i]) in SPACE:
            i += 1
        j = i
        while j < len(s) and ord(s[j]) not in SPACE:
            j += 1
        out.append(s[i:j])
        i = j
    while ord(s[i]) in SPACE:
        i += 1
    return out + [rstrip(s[i:])]


def fstrip(s):
    while s and ord(s[0]) in BLANK:
        s = s[1:]
    return s


def rstrip(s):
    while s and ord(s[-1]) in SPACE:
        s = s[:-1]
    return s


def rbytes(r):
    k = r.random()
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 12, 20, 40, 100])
    if k < .6:
        al = r.choice([b'a', b'ab', b'ab', b'abc', b'a,', b', ', b'ab\0', b'\x7f\x80\xff'])
    elif k < .8:
        return bytes(r.randrange(256) for _ in range(n))
    else:
        al = bytes(range(97, 123))
    return bytes(r.choice(al) for _ in range(n))


WS = ' \t\n  \t \x85\xa0\u2003\u3000\u200b\ufeff\r\x0b\x0c'
WORD = 'abcxyz019_.é世😀'


def rtext(r, caseless=False):
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 12, 20, 50])
    p = r.choice([.1, .3, .5, .8])
    ws = ' ' if r.random() < .3 else ' \t\n' if r.random() < .5 else WS
    return ''.join(r.choice(ws) if r.random() < p else r.choice(WORD) for _ in range(n))


def needle(r, a):
    if a and r.random() < .6:
        i = r.randrange(len(a) + 1)
        j = r.randrange(i, min(len(a), i + r.choice([1, 2, 3, 10, 100])) + 1)
        b = a[i:j]
        if r.random() < .2 and b:
            b = b[:-1] + bytes([(b[-1] + 1) % 256])
        return b
    return rbytes(r) if r.random() < .5 else rbytes(r)[:2]


def upc(c):
    return c.upper()


class SB:
    def __init__(self, cap=None):
        self.b, self.cap = b'', cap

    def put(self, x, partial):
        if self.cap is not None and len(self.b) + len(x) > self.cap:
            if partial:
                self.b += x[:self.cap - len(self.b)]
            return '0'
        self.b += x
        return '1'


def cases(r, n):
    for i in range(n):
        k = r.choice(['find', 'find', 'cmp', 'split', 'split', 'tok', 'tok', 'join', 'strip', 'chomp', 'repl', 'cstr', 'sb', 'fsb'])
        a = rbytes(r)
        ok = ' 1'
        if k == 'find':
            b = needle(r, a)
            if r.random() < .1:
                b = a + b[:1]
            yield '%s %s %s' % (k, hx(a), hx(b)), '%s %s %d %d %d' % (o(a.find(b)), o(a.rfind(b)), b in a, a.startswith(b), a.endswith(b)) + ok
        elif k == 'cmp':
            b = a if r.random() < .2 else rbytes(r)
            if r.random() < .5:
                c = a[:r.randrange(len(a) + 1)]
                a, b = c + rbytes(r)[:3], c + rbytes(r)[:3]
            ascii_only = all(x < 128 for x in a + b)
            if not ascii_only:
                a, b = bytes(x & 127 for x in a), bytes(x & 127 for x in b)
            if r.random() < .4:
                b = bytes(x ^ 32 if chr(x).isalpha() and r.random() < .5 else x for x in a) + (b'' if r.random() < .6 else b[:2])
            m = r.choice([0, 1, 2, len(a), len(b), len(a) + 1, r.randrange(50), 2**40])
            exp = [cmp3(a, b), cmp3(a.upper(), b.upper()), cmp3(a[:m], b[:m]), str(int(a == b)), str(int(a == b))]
            yield 'cmp %s %s %d' % (hx(a), hx(b), m), ' '.join(exp) + ok
        elif k == 'split':
            b = needle(r, a) or b','
            m = r.choice([1, 1, 2, 3, 5, 100])
            exp = '%s | %s | %s' % (outs(split(a, b)), outs(bsplit(a, b, m)), ' '.join(hx(x) for x in bysplit(a, b)))
            yield 'split %s %s %d' % (hx(a), hx(b), m), exp.rstrip(' ') + ok
        elif k == 'tok':
            s = rtext(r)
            m = r.choice([1, 1, 2, 3, 5, 100])
            e = lambda l: [x.encode() for x in l]
            exp = '%s | %s | %s' % (outs(e(tok(s))), outs(e(btok(s, m))), ' '.join(hx(x) for x in e(tok(s))))
            yield 'tok %s - %d' % (hx(s), m), exp.rstrip(' ') + ok
        elif k == 'join':
            b = rbytes(r)[:4]
            l = [a] + [rbytes(r) for _ in range(r.choice([0, 0, 1, 2, 5]))]
            yield 'join %s %s%s' % (hx(a), hx(b), ''.join(' ' + hx(x) for x in l[1:])), '%s %s' % (hx(b.join(l)), hx(a + b)) + ok
        elif k == 'strip':
            s = rtext(r)
            yield 'strip %s -' % hx(s), '%s %s %s' % (hx(rstrip(fstrip(s))), hx(fstrip(s)), hx(rstrip(s))) + ok
        elif k == 'chomp':
            b = needle(r, a) if r.random() < .4 else a[:r.randrange(len(a) + 1)]
            h = a.startswith(b)
            yield 'chomp %s %s' % (hx(a), hx(b)), '%d %s' % (h, hx(a[len(b):] if h else a)) + ok
        elif k == 'repl':
            b = needle(r, a) or b'a'
            c = rbytes(r)[:r.choice([0, 1, 2, 10])]
            if r.random() < .2:
                c = b + c
            yield 'repl %s %s %s' % (hx(a), hx(b), hx(c)), hx(a.replace(b, c)) + ok
        elif k == 'cstr':
            z = a.find(b'\0')
            if z < 0 and r.random() < .7:
                a += b'\0' + rbytes(r)[:5]
                z = a.find(b'\0')
            exp = [hx(a if z < 0 else a[:z])]
            if z >= 0:
                exp = [str(z), hx(a[:z])] + exp
            yield 'cstr %s %s' % (hx(a), '01' if z >= 0 else '-'), ' '.join(exp) + ok
        else:
            sb = SB(None if k == 'sb' else r.choice([0, 1, 2, 5, 16, 40]))
            cmd, exp = [], []
            for _ in range(r.randrange(1, 14)):
                p = r.choice('cbsstp')
                if p == 'c':
                    c = r.choice([0, 65, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, r.randrange(0x110000)])
                    cmd.append('c %d' % c)
                    exp.append(sb.put(chr(c).encode('utf-8', 'surrogatepass'), False))
                elif p == 'b':
                    c = r.randrange(256)
                    cmd.append('b %d' % c)
                    exp.append(sb.put(bytes([c]), False))
                elif p == 's':
                    x = rbytes(r)
                    cmd.append('s ' + hx(x))
                    exp.append(sb.put(x, True))
                elif p == 't':
                    # a negative length removes that many bytes from the end
                    t = r.choice([0, 1, 3, 8, 1000, -1, -2])
                    if t < 0 and len(sb.b) < -t:
                        t = 2
                    cmd.append('t %d' % t)
                    sb.b = sb.b[:t]
                else:
                    cmd.append('p')
                    exp.append(hx(sb.b))
            exp.append(hx(sb.b))
            yield '%s %s - %s' % (k, hx(b'\0' * sb.cap) if sb.cap is not None else '-', ' '.join(cmd)), ' '.join(exp) + ok


def streams(r, n):
    """(driver, commands) for the allocation monitor"""
    return 'c22', (), [c for c, _ in cases(r, n)]


def check(ck):
    ck.rule = ('random subjects over small and full alphabets with needles cut out of them, all separators, limits and '
               'buffers; one evaluation is one command, and inputs are compared with copies afterwards')
    t = Tree('std')
    d = Driver(ck, t, 'c22')
    d.check(list(cases(ck.sub('c'), ck.n(24000, 400000))))


TECH = 'runtime check of the compiled library against reference definitions'
NOTE = ('Held on the generated arguments only. Empty separators and invalid UTF-8 in the space-sensitive functions are '
        'not generated; cstrlen is only asked about terminated strings.')
