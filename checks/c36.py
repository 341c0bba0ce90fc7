"""C36: buffered reading against the byte stream it reads."""
from vf.core import *

TECH = 'runtime monitoring: stream reference over generated read histories, chunkings and source errors'
NOTE = ('undecodable text only at the level of single bytes; a delimited read ending at the end of the input or at '
        'an error returns what is left and the error comes next; input already buffered when a seek fails is not looked at')

BUF = 16384


class Src:
    """The stream as an operation sequence sees it."""

    def __init__(self, data, errpos, once):
        self.d, self.err, self.once = data, errpos, once
        self.p = 0

    def lim(self):
        return self.err if self.err is not None else len(self.d)

    def fail(self):
        """the answer when nothing is left before the end or the error"""
        if self.err is not None:
            if self.once:
                self.err = None
            return 'X'
        return 'E'

    def take(self, n):
        b = self.d[self.p:self.p + n]
        self.p += n
        return b

    def left(self):
        return self.lim() - self.p


def chlen(b):
    if b & 0x80 == 0:
        return 1
    if b & 0xe0 == 0xc0:
        return 2
    if b & 0xf0 == 0xe0:
        return 3
    if b & 0xf8 == 0xf0:
        return 4
    return 1


SP = {9, 10, 0x20, 0xa0, 0x1680, 0x2002, 0x2003, 0x202f, 0x3000}  # of the characters generated


def getc(s, peek=False):
    if s.left() < 1:
        return None
    n = chlen(s.d[s.p])
    if s.left() < n:
        return None
    b = s.d[s.p:s.p + n]
    if not peek:
        s.p += n
    try:
        return ord(b.decode('utf-8'))
    except UnicodeDecodeError:
        return 0xffffffff


def step(s, op):
    """-> answer tokens"""
    k = op[0]
    if k == 'r':
        if op[1] == 0:
            return ['-']
        if s.left() == 0:
            return [s.fail()]
        return [hx(s.take(min(op[1], s.left())))]
    if k in 'bp':
        if s.left() < 1:
            return [s.fail()]
        c = s.d[s.p]
        if k == 'b':
            s.p += 1
        return [str(c)]
    if k in 'cq':
        c = getc(s, k == 'q')
        return [s.fail() if c is None else str(c)]
    if k == 'l':
        if s.left() == 0:
            return [s.fail()]
        i = s.p
        while i < s.lim() and s.d[i] not in b'\r\n':
            i += 1
        ln = s.take(i - s.p)
        if s.left():
            c = s.take(1)
            if c == b'\r' and s.left() and s.d[s.p] == 10:
                s.p += 1
        elif not ln:
            return [s.fail()]
        return [hx(ln)]
    if k in 'tks':
        d = op[1]
        if not d:
            return ['-'] if k != 's' else ['1']
        i = s.d.find(d, s.p, s.lim())
        if i < 0:
            b = s.take(s.left())
            if k == 's':
                s.fail()
                return ['0']
            if not b:
                return [s.fail()]
            return [hx(b)]
        b = s.take(i - s.p)
        s.p += len(d)
        return [hx(b + d if k == 'k' else b)] if k != 's' else ['1']
    if k == 'w':
        while True:
            c = getc(s, True)
            if c is None:
                s.fail()
                return ['0']
            if c not in SP:
                return ['1']
            getc(s)
    if k in 'BL':
        n = abs(op[1])
        if s.left() < n:
            return [s.fail()]
        v = int.from_bytes(s.take(n), 'big' if k == 'B' else 'little', signed=op[1] < 0)
        if n == 8 and v >= 1 << 63:
            v -= 1 << 64
        return [str(v)]
    if k == 'S':
        s.p = op[1]
        return [str(op[1])]
    if k == 'i':
        out = []
        while True:
            a = step(s, ('l',))
            if a[0] in 'EX':
                return out + [';']
            out += a
    if k == 'j':
        out = []
        while len(out) < op[1]:
            c = getc(s)
            if c is None:
                s.fail()
                break
            out.append(str(c))
        return out + [';']
    raise ValueError(k)


def text(r):
    k = r.randrange(6)
    n = r.choice([0, 1, 2, 5, 20, 60, 200, 1000])
    if r.random() < .12:
        n = r.choice([BUF - 3, BUF - 1, BUF, BUF + 1, BUF + 5, 2 * BUF, 2 * BUF + 7, 40000])
    if k == 0:
        unit = [bytes([i]) for i in range(256)]
    elif k == 1:
        unit = [b'a', b'\n', b'\r', b'\r\n', b'b']
    elif k == 2:
        unit = [b'a', b'b', b'ab', b'aab', b',']
    elif k == 3:
        unit = [b'a', 'é'.encode(), '漢'.encode(), '𝄞'.encode(), b' ', b'\n']
    elif k == 4:
        unit = [b' ', b'\t', b'\n', b' ', b'x', '\u00a0'.encode(), '\u2003'.encode()]
        unit = unit[:5]
    else:
        unit = [b'word', b' ', b'line of text', b'\n', b'--', b'-', b'\r\n', b'\x00', b'\xff', b'\x80']
    out = b''
    if n > 3000:
        u = b''.join(r.choice(unit) * r.choice([1, 1, 3, 50]) for _ in range(60))
        out = u * (n // max(1, len(u)) + 1)
    while len(out) < n:
        out += r.choice(unit)
    out = out[:n]
    if n > 10 and r.random() < .3:
        # what a whole buffer ends with
        b = r.choice([b'\r\n', b'\r', '漢'.encode(), b'aab', b'\n'])
        at = min(n - len(b), BUF - 1)
        out = out[:at] + b + out[at + len(b):]
    return out


def safe(data, p, lim):
    """getc at p decodes something well-formed, or a byte that is no lead byte"""
    if p >= lim:
        return True
    n = chlen(data[p])
    if p + n > lim:
        return True
    b = data[p:p + n]
    if n == 1:
        return True
    try:
        return len(b.decode('utf-8')) == 1
    except UnicodeDecodeError:
        return False


def case(r):
    data = text(r)
    mem = r.random() < .15
    err, once = None, False
    if not mem and r.random() < .3:
        err = r.randrange(len(data) + 1)
        once = r.random() < .5
    ch = [r.choice([1, 1, 2, 3, 7, 100, 511, 512, 4096, BUF, 1 << 20]) for _ in range(r.choice([1, 1, 2, 5, 20]))]
    if len(data) > 3000 and sum(ch) / len(ch) < 50:
        ch.append(3000)
    s = Src(data, err, once)
    ops, want = [], []
    pool = r.choice(['rbcpqltkswBLSij', 'rrrb', 'lllbp', 'ttkksb', 'ccqqjw', 'BBLLb', 'rlrtrkb', 'wcwl', 'rS' 'bltc'])
    nop = r.choice([3, 8, 20, 40])
    for _ in range(3 * nop):
        if len(ops) >= nop:
            break
        k = r.choice(pool)
        op = (k,)
        if k == 'S':
            if err is not None:
                continue
            op = (k, r.choice([0, len(data), r.randrange(len(data) + 1)]))
        elif k == 'r':
            op = (k, r.choice([0, 1, 2, 5, 10, 100, 511, 512, 513, 1000, 5000, BUF, BUF + 1, 2 * BUF, 50000]))
        elif k in 'tks':
            i = r.randrange(len(data) + 1)
            d = data[i:i + r.choice([1, 1, 2, 3, 5])] if r.random() < .6 else \
                r.choice([b'\n', b'ab', b'aab', b',', b'--', b'\r\n', b'zz', b'a\n', b'', b'aa'])
            if s.once and s.err is not None and not d:
                continue
            op = (k, d)
        elif k in 'BL':
            op = (k, r.choice([1, 2, 4, 8]) * r.choice([1, -1]))
        elif k == 'j':
            op = (k, r.choice([1, 3, 20, 100]))
        elif k == 'i' and r.random() < .7:
            continue
        if k in 'cqwj':
            # stay within text that has a meaning
            q, ok = s.p, True
            for _ in range(op[1] if k == 'j' else 1 if k in 'cq' else 1 << 30):
                if not safe(data, q, s.lim()):
                    ok = False
                    break
                if q >= s.lim() or (k == 'w' and data[q] not in SP):
                    break
                q += chlen(data[q])
            if not ok:
                continue
        ops.append(op)
        want += step(s, op)
    cmd = ['m' if mem else 'h', hx(data), str(len(ch))] + [str(c) for c in ch]
    cmd += [str(-1 if err is None else err), str(int(once))]
    for op in ops:
        cmd.append(op[0])
        if len(op) > 1:
            cmd.append(hx(op[1]) if isinstance(op[1], bytes) else str(op[1]))
    want += ['1'] if mem else ['1', '1']
    return ' '.join(cmd), ' '.join(want)


def cases(r, n):
    return [case(r) for _ in range(n)]


def streams(r, n):
    return [('c36', (), [c for c, _ in cases(r, n)])]


def check(ck):
    d = Driver(ck, Tree('std'), 'c36')
    d.check(cases(ck.sub('c'), ck.n(9000, 200000)))
    ck.rule = 'every answer of every read operation, then close, for each (bytes, chunking, error point, operations)'
