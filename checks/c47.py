"""C47: inflate against zlib, over compressed, hand-built, mutated and damaged streams."""
import zlib
from vf.core import *

TECH = 'runtime monitoring: differential oracle (zlib) over compressed, generated, mutated and truncated DEFLATE streams, with read chunking and faults'
NOTE = ('incomplete code sets, which zlib refuses and the tests of the repository use, may be taken or refused; what was written before an '
        'error is reported is not judged')

BASEL = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
EXTL = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
BASED = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
EXTD = [0, 0, 0, 0] + [i // 2 for i in range(2, 28)]
ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]


class Bits:
    def __init__(self):
        self.b, self.acc, self.n = bytearray(), 0, 0

    def put(self, v, n):
        self.acc |= v << self.n
        self.n += n
        while self.n >= 8:
            self.b.append(self.acc & 255)
            self.acc >>= 8
            self.n -= 8

    def code(self, c):
        v, n = c
        self.put(int(format(v, '0%db' % n)[::-1], 2), n)

    def align(self, fill=0):
        if self.n:
            self.put(fill & (1 << 8 - self.n) - 1, 8 - self.n)

    def done(self, fill=0):
        self.align(fill)
        return bytes(self.b)


def canon(lens):
    code, out = 0, {}
    for l in range(1, 16):
        for s, x in enumerate(lens):
            if x == l:
                out[s] = (code, l)
                code += 1
        code <<= 1
    return out


def codelens(r, n, maxl):
    """Lengths of a complete code with n leaves."""
    if n == 1:
        return [1]
    style = r.randrange(3)
    leaves = [0]
    while len(leaves) < n:
        ok = [i for i in range(len(leaves)) if leaves[i] < maxl]
        # never paint ourselves into a corner: the capacity left must be enough
        i = r.choice(ok) if style == 0 else (max if style == 1 and r.random() < .8 else min)(ok, key=lambda i: leaves[i])
        l = leaves.pop(i)
        leaves += [l + 1, l + 1]
    r.shuffle(leaves)
    return leaves


class Gen:
    """Builds one valid stream (then perhaps broken on purpose)."""
    def __init__(self, r, size):
        self.r, self.w, self.out, self.left = r, Bits(), bytearray(), size

    def alloc(self, syms, maxl, total):
        lens = [0] * total
        for s, l in zip(syms, codelens(self.r, len(syms), maxl)):
            lens[s] = l
        return lens

    def body(self, lc, dc):
        r = self.r
        lits = [s for s in lc if s < 256]
        refs = [s for s in lc if 256 < s < 286]
        dists = [s for s in dc if s < 30]
        n = r.choice([0, 1, 3, 10, 40, 200, 600])
        pref = r.choice([.1, .5, .9])
        for _ in range(n):
            if self.left <= 0:
                break
            ds = [d for d in dists if BASED[d] <= len(self.out)] if refs else []
            if ds and (r.random() < pref or not lits):
                s, d = r.choice(refs), r.choice(ds if r.random() < .7 else [ds[-1]])
                x = r.choice([0, (1 << EXTL[s - 257]) - 1, r.randrange(1 << EXTL[s - 257])])
                y = r.choice([0, (1 << EXTD[d]) - 1, r.randrange(1 << EXTD[d])])
                y = min(y, len(self.out) - BASED[d])
                self.w.code(lc[s])
                self.w.put(x, EXTL[s - 257])
                self.w.code(dc[d])
                self.w.put(y, EXTD[d])
                dist = BASED[d] + y
                for _ in range(BASEL[s - 257] + x):
                    self.out.append(self.out[-dist])
                self.left -= BASEL[s - 257] + x
            elif lits:
                s = r.choice(lits)
                self.w.code(lc[s])
                self.out.append(s)
                self.left -= 1
            else:
                break

    def block(self, last, brk=None):
        r, w = self.r, self.w
        kind = r.choice('sffdddd') if brk is None else brk[0]
        w.put(last, 1)
        if kind == 's':
            w.put(0, 2)
            w.align(r.randrange(256))
            n = min(r.choice([0, 1, 2, r.randrange(300), r.randrange(70000) if r.random() < .1 else 7]), 65535)
            b = r.randbytes(n)
            w.put(n, 16)
            w.put(n ^ 65535 if brk is None else (n ^ 65535) ^ 1 << r.randrange(16), 16)
            for x in b:
                w.put(x, 8)
            self.out += b
            self.left -= n
        elif kind == 'f':
            w.put(1, 2)
            lc, dc = canon([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8), canon([5] * 32)
            self.body(lc, dc)
            if brk == 'flen':
                w.code(lc[r.choice([286, 287])])
                w.code(dc[0])
            elif brk == 'fdist':
                w.code(lc[65])
                w.code(lc[257])
                w.code(dc[r.choice([30, 31])])
            elif brk == 'ffar':
                w.code(lc[r.randrange(257, 286)])
                w.put(0, 5)
                d = min([d for d in range(30) if BASED[d] + (1 << EXTD[d]) - 1 > len(self.out)], default=29)
                w.code(dc[d])
                w.put((1 << EXTD[d]) - 1, EXTD[d])
            w.code(lc[256])
        elif kind == 'd':
            w.put(2, 2)
            lits = r.sample(range(256), r.choice([0, 1, 2, 10, 60, 256]))
            refs = r.sample(range(257, 286), r.choice([0, 1, 3, 29]))
            dists = r.sample(range(30), r.choice([0, 1, 2, 8, 30])) if refs else r.sample(range(30), r.choice([0, 0, 1, 4]))
            ll = self.alloc(sorted(lits + [256] + refs), 15, 286)
            dl = self.alloc(sorted(dists), 15, 30) if dists else [0] * 30
            nl = max(257, max(i for i, x in enumerate(ll) if x) + 1, r.choice([0, 286]))
            nd = max(1, max([i for i, x in enumerate(dl) if x], default=0) + 1, r.choice([0, 30]))
            if brk == 'dend':
                ll[256] = 0
            elif brk == 'dover':
                t = r.choice([ll, dl])
                t[r.randrange(nl if t is ll else nd)] = r.randrange(1, 16)
                if r.random() < .5:
                    t[r.randrange(nl if t is ll else nd)] = r.randrange(1, 4)
            elif brk == 'dinc':
                t = r.choice([ll, dl])
                i = r.choice([i for i, x in enumerate(t) if x] or [0])
                t[i] = r.choice([0, min(15, t[i] + 1)])
            seq = ll[:nl] + dl[:nd]
            rle = []
            i = 0
            while i < len(seq):
                run = 1
                while i + run < len(seq) and seq[i + run] == seq[i]:
                    run += 1
                if seq[i] == 0 and run >= 3 and r.random() < .9:
                    k = min(run, r.choice([3, 10, 11, 138, 138, run]))
                    if k >= 11:
                        k = min(k, 138)
                        rle.append((18, k - 11, 7))
                    else:
                        rle.append((17, k - 3, 3))
                elif i and seq[i - 1] == seq[i] and run >= 3 and r.random() < .9:
                    k = min(run, r.choice([3, 6, 5]))
                    rle.append((16, k - 3, 2))
                else:
                    k = 1
                    rle.append((seq[i], 0, 0))
                i += k
            if brk == 'drep':
                if r.random() < .3:
                    rle.insert(0, (16, 0, 2))
                else:
                    s, b = r.choice([(16, 2), (17, 3), (18, 7)])
                    rle[-1] = (s, (1 << b) - 1, b)
                    while sum(1 if a < 16 else v + (11 if a == 18 else 3) for a, v, _ in rle) <= nl + nd:
                        rle.insert(0, (1, 0, 0))
            used = sorted({a for a, _, _ in rle})
            extra = [s for s in range(19) if s not in used]
            used = sorted(used + r.sample(extra, r.choice([0, 0, min(1, len(extra)), len(extra)])))
            if len(used) == 1:
                used = sorted(used + [extra[0] if extra[0] not in used else extra[-1]])
            cl = self.alloc(used, 7, 19)
            if brk == 'dcl':
                cl[r.randrange(19)] = r.randrange(8)
            ncl = 19
            while ncl > 4 and cl[ORDER[ncl - 1]] == 0 and r.random() < .97:
                ncl -= 1
            if brk == 'dhlit':
                nl, nd = r.choice([(r.choice([287, 288]), nd), (nl, r.choice([31, 32]))])
            w.put(nl - 257, 5)
            w.put(nd - 1, 5)
            w.put(ncl - 4, 4)
            for s in ORDER[:ncl]:
                w.put(cl[s], 3)
            cc = canon(cl)
            for a, v, b in rle:
                if a in cc:
                    w.code(cc[a])
                    w.put(v, b)
            lc, dc = canon(ll), canon(dl)
            if not brk:
                self.body(lc, dc)
                w.code(lc[256])
            else:
                w.put(r.getrandbits(64), 64)
        else:
            w.put(3, 2)
            w.put(r.getrandbits(32), 32)


BREAK = ['s', 'flen', 'fdist', 'ffar', 'dend', 'dover', 'dinc', 'drep', 'dcl', 'dhlit', 'x']


def text(r, n):
    k = r.randrange(6)
    if k == 0:
        return r.randbytes(n)
    if k == 1:
        return bytes(r.choices(b'abcdefgh \n', k=n))
    if k == 2:
        return bytes([r.randrange(256)]) * n
    ws = [r.randbytes(r.randint(1, 12)) for _ in range(r.choice([2, 20, 300]))]
    out = bytearray()
    while len(out) < n:
        out += r.choice(ws) if k != 5 or len(out) < 40000 or r.random() < .5 else out[-32768:-32768 + r.randint(3, 300)]
    return bytes(out[:n])


def stream(r):
    """a stream that is probably valid"""
    k = r.random()
    if k < .4:
        size = r.choice([0, 1, 10, 100, 1000, 5000, 5000, 40000, 90000] if r.random() < .2 else [0, 1, 10, 100, 1000])
        g = Gen(r, size)
        n = r.choice([1, 1, 2, 3, 6])
        for i in range(n):
            g.block(int(i == n - 1))
        b = g.w.done(r.randrange(256))
        return b, bytes(g.out)
    n = r.choice([0, 1, 2, 10, 100, 300, 1000, 3000] if r.random() < .9 else [20000, 40000, 70000, 120000])
    t = text(r, n)
    c = zlib.compressobj(r.choice([0, 1, 3, 6, 9]), zlib.DEFLATED, -r.randint(9, 15), r.choice([1, 8, 9]),
                         r.choice([zlib.Z_DEFAULT_STRATEGY, zlib.Z_FILTERED, zlib.Z_HUFFMAN_ONLY, zlib.Z_RLE, zlib.Z_FIXED]))
    b = b''
    i = 0
    while i < len(t):
        k = r.randint(1, len(t))
        b += c.compress(t[i:i + k])
        i += k
        if r.random() < .3:
            b += c.flush(r.choice([zlib.Z_SYNC_FLUSH, zlib.Z_FULL_FLUSH, zlib.Z_PARTIAL_FLUSH]))
    return b + c.flush(), t


def broken(r):
    g = Gen(r, 300)
    for _ in range(r.choice([0, 0, 1, 2])):
        g.block(0)
    g.block(r.randrange(2), r.choice(BREAK))
    return g.w.done() + bytes(r.choice([0, 0, 8]))


class Short(Exception):
    pass


class Bad(Exception):
    pass


def lenient(b):
    """Plain inflate that takes incomplete code sets: output, or None for an error."""
    pos = [0]
    out = bytearray()

    nbits = len(b) * 8

    def bits(n):
        p = pos[0]
        if p + n > nbits:
            raise Short
        pos[0] = p + n
        return int.from_bytes(b[p >> 3:(p >> 3) + 4], 'little') >> (p & 7) & (1 << n) - 1

    def table(lens):
        if sum(2 ** (15 - l) for l in lens if l) > 2**15:
            raise Bad
        return {v: k for k, v in canon(lens).items()}

    def sym(t):
        v = 0
        for l in range(1, 16):
            v = v << 1 | bits(1)
            if (v, l) in t:
                return t[v, l]
        raise Bad
    try:
        last = 0
        while not last:
            last, kind = bits(1), bits(2)
            if kind == 0:
                pos[0] = pos[0] + 7 & ~7
                n = bits(16)
                if bits(16) != n ^ 65535:
                    raise Bad
                for _ in range(n):
                    out.append(bits(8))
                continue
            if kind == 1:
                lt, dt = table([8] * 144 + [9] * 112 + [7] * 24 + [8] * 8), table([5] * 32)
            elif kind == 2:
                nl, nd, nc = bits(5) + 257, bits(5) + 1, bits(4) + 4
                if nl > 286 or nd > 30:
                    raise Bad
                cl = [0] * 19
                for s in ORDER[:nc]:
                    cl[s] = bits(3)
                ct, ls = table(cl), []
                while len(ls) < nl + nd:
                    s = sym(ct)
                    if s < 16:
                        ls.append(s)
                    else:
                        if s == 16 and not ls:
                            raise Bad
                        ls += [ls[-1] if s == 16 else 0] * (bits([2, 3, 7][s - 16]) + [3, 3, 11][s - 16])
                if len(ls) > nl + nd or not ls[256]:
                    raise Bad
                lt, dt = table(ls[:nl]), table(ls[nl:])
            else:
                raise Bad
            while True:
                s = sym(lt)
                if s < 256:
                    out.append(s)
                elif s == 256:
                    break
                elif s > 285:
                    raise Bad
                else:
                    n = BASEL[s - 257] + bits(EXTL[s - 257])
                    s = sym(dt)
                    if s > 29:
                        raise Bad
                    d = BASED[s] + bits(EXTD[s])
                    if d > len(out):
                        raise Bad
                    for _ in range(n):
                        out.append(out[-d])
    except (Short, Bad):
        return None
    return bytes(out), len(b) - (pos[0] + 7) // 8


def bad(b):
    """the answers open to the decoder for a stream zlib refuses"""
    alt = lenient(b)
    return {'io', 'fmt'} | ({ans(alt)} if alt else set())


def inflate(b):
    """(output, bytes left over) or None"""
    d = zlib.decompressobj(-15)
    try:
        out = d.decompress(b)
    except zlib.error:
        return 'fmt'
    return (out, len(d.unused_data)) if d.eof else 'short'


def ans(ok):
    out, left = ok
    return 'ok %d %d %016x %s' % (left, len(out), zlib.crc32(out), out[:256].hex() or '-')


def case(r):
    k = r.random()
    step = r.choice([1, 2, 7, 100000, 100000])
    werr = -1
    err = -1
    want = None
    if k < .45:
        b, want = stream(r)
        b += r.randbytes(r.choice([0, 0, 1, 9]))
    elif k < .6:
        b = broken(r)
    elif k < .75:
        b, _ = stream(r)
        b = b[:r.randrange(len(b))] if len(b) else b
    elif k < .9:
        b, _ = stream(r)
        b = bytearray(b)
        for _ in range(r.choice([1, 1, 2, 5])):
            i = r.randrange(min(len(b), r.choice([8, 60, 10**6])))
            m = r.randrange(4)
            if m == 0:
                b[i] = r.randrange(256)
            elif m < 3:
                b[i] ^= 1 << r.randrange(8)
            else:
                b[i:i] = r.randbytes(1)
        b = bytes(b)
    elif k < .94:
        b = bytes([r.randrange(256) & ~7 | r.choice([2, 3, 4, 5, 4, 5])]) + r.randbytes(r.randint(0, 200))
    elif k < .97:
        b, _ = stream(r)
        err = r.randrange(len(b))
        step = r.choice([1, 3])
    else:
        b, want = stream(r)
        werr = r.choice([0, r.randrange(len(want)) if want else 0, 16384, 40000])
        if werr >= len(want):
            werr = -1
    cmd = 'd %d %d %d %s' % (step, err, werr, hx(b))
    got = inflate(b)
    if want is not None and got[0] != want:
        raise Inconclusive('generator and zlib disagree')
    if err >= 0:
        pre = inflate(b[:err])
        e = 'fmt' if pre == 'fmt' else 'io'
        if not isinstance(pre, str):  # the stream ended before the fault
            return cmd, ans((pre[0], 0))
        return cmd, lambda o, e=e: None if o == e or o in ('io', 'fmt') else 'got %s, expected an error' % o[:60]
    if werr >= 0:
        return cmd, lambda o: None if o in ('io', 'ok flusherr') else 'got %s, expected a write error' % o[:60]
    if isinstance(got, str):
        ok = bad(b)
        return cmd, lambda o: None if o in ok else 'got %s, expected an error' % o[:60]
    return cmd, ans(got)


def cases(r, n):
    return [case(r) for _ in range(n)]


def streams(r, n):
    yield 'c47', (), [case(r)[0] for _ in range(n)]


def check(ck):
    d = Driver(ck, Tree('all'), 'c47')
    d.check(cases(ck.sub('c'), ck.n(4500, 150000)), timeout=300)
    # every truncation of a few streams with all block kinds
    r = ck.sub('t')
    cs = []
    for _ in range(ck.n(8, 150)):
        while True:
            b, t = stream(r)
            if 20 < len(b) < 400:
                break
        for i in range(len(b)):
            cs.append(('d 1000 -1 -1 ' + hx(b[:i]), lambda o: None if o in ('io', 'fmt') else 'got %s for a truncated stream' % o[:60]))
    d.check(cs, timeout=100)
    ck.rule = ('streams by zlib at every level, window, memory and strategy setting with flushes; streams built bit by bit with arbitrary complete codes, '
               'repeat codes, lengths and distances; every kind of malformed header, code set, symbol and distance; bit flips, every truncation, '
               'read faults and write faults; reference: zlib')
