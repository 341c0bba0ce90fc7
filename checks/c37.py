"""C37: buffered writing against the bytes written."""
from vf.core import *

TECH = 'runtime monitoring: byte-sequence reference over generated write histories and sink behaviours'
NOTE = 'after a sink error has been reported nothing more is required of the contents beyond the part before it'

BUF = 16384


PAT = {}


def pattern(n, v):
    b = PAT.get(v)
    if b is None:
        b = bytearray(50000)
        x = v
        for i in range(50000):
            b[i] = x & 255
            x = (x * 5 + 3 + (x >> 3)) & 0xffff
        b = PAT[v] = bytes(b)
    return b[:n]


class Sink:
    def __init__(self):
        self.b = bytearray()
        self.p = 0

    def put(self, d):
        if d and len(self.b) < self.p + len(d):
            self.b += bytes(self.p + len(d) - len(self.b))
        self.b[self.p:self.p + len(d)] = d
        self.p += len(d)


def case(r):
    ch = [r.choice([1, 2, 3, 7, 100, 4096, BUF - 1, BUF, 1 << 20]) for _ in range(r.choice([1, 1, 2, 5]))]
    if sum(ch) / len(ch) < 50:
        ch.append(5000)
    pool = r.choice(['wbcpBLfSW', 'bbbbw', 'WWb', 'WwbcBL', 'cccccp', 'BBBL', 'wS', 'Wbf'])
    s = Sink()
    ops, want = [], []
    full = b''
    err = -1
    seeks = 'S' in pool and r.random() < .5
    if not seeks and r.random() < .3:
        err = r.choice([0, 1, 5, 100, BUF - 1, BUF, BUF + 1, 2 * BUF, r.randrange(40000)])
    if r.random() < .5:
        # start near the end of the buffer
        n = BUF - r.choice([0, 1, 2, 3, 4, 7, 8, 9, 20])
        ops.append('W %d %d' % (n, 7))
        full += pattern(n, 7)
        s.put(pattern(n, 7))
        want.append(str(n))
    for _ in range(r.choice([1, 3, 10, 40])):
        k = r.choice(pool)
        if k == 'w':
            d = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 2, 10, 100])))
            ops.append('w ' + hx(d))
        elif k == 'W':
            n, v = r.choice([0, 1, 500, 5000, BUF - 1, BUF, BUF + 1, 2 * BUF + 3, r.randrange(40000)]), r.randrange(40)
            d = pattern(n, v)
            ops.append('W %d %d' % (n, v))
        elif k == 'b':
            d = bytes([r.getrandbits(8)])
            ops.append('b %d' % d[0])
        elif k == 'c':
            c = r.choice(['a', '\x00', '\x7f', '\x80', 'é', '\u07ff', '\u0800', '漢', '\ufffd', '\U00010000', '\U0010ffff'])
            d = c.encode()
            ops.append('c %d' % ord(c))
        elif k == 'p':
            t, v = bytes(r.choice(b'abc{}%') for _ in range(r.choice([0, 3, 50]))), r.randrange(1 << 40)
            d = b'<' + t + b':%x>' % v
            ops.append('p %s %d' % (hx(t), v))
        elif k in 'BL':
            n = r.choice([1, 2, 4, 8])
            v = r.choice([0, -1, 1, 0x80, 0x1234567890abcdef, r.getrandbits(63), -r.getrandbits(62)])
            d = (v & ((1 << 8 * n) - 1)).to_bytes(n, 'big' if k == 'B' else 'little')
            ops.append('%s %d %d' % (k, n * r.choice([1, -1]), v))
        elif k == 'f':
            ops.append('f')
            want.append('1')
            continue
        else:
            if not seeks:
                continue
            o = r.choice([0, 1, len(s.b), len(s.b) // 2, r.randrange(len(s.b) + 1), len(s.b) + 5])
            ops.append('S %d' % o)
            want.append(str(o))
            s.p = o
            continue
        s.put(d)
        full += d
        want.append(str(len(d)))
    if r.random() < .15:
        ops.append('X')
        want.append('0')
        freed = True
    else:
        ops.append('x')
        want += ['1', '1']
        freed = False
    cmd = 'w %d %s %d 0 %s' % (len(ch), ' '.join(map(str, ch)), err, ' '.join(ops))
    if err < 0:
        return cmd, ' '.join(want + [hx(bytes(s.b))])

    def f(out):
        t = out.split()
        got = unhx(t[-1])
        t = t[:-1]
        if len(t) != len(want):
            return 'malformed answer'
        bad = next((i for i, (a, b) in enumerate(zip(t, want)) if a != b), None)
        if bad is None and not freed and got != full:
            return 'the sink failed, but no error was reported'
        if bad is not None:
            a, b = t[bad], want[bad]
            if a not in ('X', 'E', 'B') and not (a == '0' and bad >= len(want) - 2) and \
                    not (a == '0' and ops[bad] == 'f'):
                return 'answer %d is %s instead of %s' % (bad, a, b)
            if len(full) <= err:
                return 'an error was reported, but the sink did not fail'
        if not freed and t[-1] != '1':
            return 'close closed %s times' % t[-1]
        # up to the failure everything has arrived in order
        if got[:err] != full[:err][:len(got)] or (bad is not None and len(got) < min(err, len(full))):
            return 'the sink got the wrong bytes before the failure'
        if len(got) > max(err, 0):
            # the failing sink accepts a whole write begun before the limit
            pass
        return None
    return cmd, f


def cases(r, n):
    return [case(r) for _ in range(n)]


def streams(r, n):
    return [('c36', (), [c for c, _ in cases(r, n)])]


def check(ck):
    d = Driver(ck, Tree('std'), 'c36')
    d.check(cases(ck.sub('c'), ck.n(2500, 50000)), sigf=lambda c, o: 'c37: ' + c[:300])
    ck.rule = 'the answers of every write operation and the bytes the sink received, for each (operations, acceptance pattern, error point)'
