"""C44: message digests and HMAC against hashlib (and a vectorised Keccak), over interleaved chunked contexts."""
import hashlib, hmac, numpy as np
from vf.core import *

ALG = dict(zip('abcdef', ['md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']))
BLK = dict(zip('abcdefghij', [64, 64, 64, 64, 128, 128, 144, 136, 104, 72]))
BITS = dict(zip('ghij', [224, 256, 384, 512]))


def rc():
    out, l = [], 1
    for _ in range(24):
        v = 0
        for j in range(7):
            if l & 1:
                v |= 1 << ((1 << j) - 1)
            l = l << 1 ^ (0x171 if l & 0x80 else 0)
        out.append(v)
    return [np.uint64(x) for x in out]


RC = rc()
ROT, ORD = {}, []
x, y = 1, 0
for t in range(24):
    ROT[x, y] = (t + 1) * (t + 2) // 2 % 64
    x, y = y, (2 * x + 3 * y) % 5
ROT[0, 0] = 0


def rol(a, n):
    return a if n == 0 else (a << np.uint64(n)) | (a >> np.uint64(64 - n))


def keccakf(s):
    for rnd in range(24):
        c = [s[x, 0] ^ s[x, 1] ^ s[x, 2] ^ s[x, 3] ^ s[x, 4] for x in range(5)]
        d = [c[(x - 1) % 5] ^ rol(c[(x + 1) % 5], 1) for x in range(5)]
        b = {}
        for x in range(5):
            for y in range(5):
                b[y, (2 * x + 3 * y) % 5] = rol(s[x, y] ^ d[x], ROT[x, y])
        for x in range(5):
            for y in range(5):
                s[x, y] = b[x, y] ^ (~b[(x + 1) % 5, y] & b[(x + 2) % 5, y])
        s[0, 0] = s[0, 0] ^ RC[rnd]


def keccaks(msgs, bits):
    """The Keccak digests (original padding) of many messages at once."""
    rate = 200 - bits // 4
    pad = []
    for m in msgs:
        p = bytearray(m + b'\x01' + bytes(-(len(m) + 1) % rate))
        p[-1] |= 0x80
        pad.append(bytes(p))
    order = sorted(range(len(msgs)), key=lambda i: -len(pad[i]))
    res = [None] * len(msgs)
    st = np.zeros((5, 5, len(msgs)), np.uint64)
    nb = [len(pad[i]) // rate for i in order]
    for k in range(max(nb, default=0)):
        live = sum(n > k for n in nb)
        blk = np.frombuffer(b''.join(pad[i][k * rate:(k + 1) * rate] for i in order[:live]), '<u8').reshape(live, rate // 8)
        s = {(x, y): st[x, y, :live] for x in range(5) for y in range(5)}
        for j in range(rate // 8):
            s[j % 5, j // 5] = s[j % 5, j // 5] ^ blk[:, j]
        keccakf(s)
        for x in range(5):
            for y in range(5):
                st[x, y, :live] = s[x, y]
    for p, i in enumerate(order):
        out = b''.join(int(st[j % 5, j // 5, p]).to_bytes(8, 'little') for j in range(8))
        res[i] = out[:bits // 8]
    return res


class Digests:
    """Collects messages; the Keccak ones are computed together."""
    def __init__(self):
        self.want = {c: {} for c in BITS}

    def need(self, a, m):
        if a in BITS:
            self.want[a].setdefault(m, None)

    def solve(self):
        for a, ms in self.want.items():
            todo = [m for m in ms if ms[m] is None]
            ms.update(zip(todo, keccaks(todo, BITS[a])))

    def get(self, a, m):
        if a in BITS:
            return self.want[a][m].hex()
        return hashlib.new(ALG[a], m).hexdigest()


def size(r, b):
    k = r.random()
    if k < .1:
        return 0
    if k < .5:
        return max(0, r.randrange(0, 5) * b + r.choice([-17, -16, -9, -8, -1, 0, 1, -10, -15, -18, 2]))
    return r.randrange(0, r.choice([4, b, 3 * b, 600]))


def msg(r, n):
    k = r.random()
    if k < .1:
        return bytes([r.choice([0, 255, 0x80, 1])]) * n
    return r.randbytes(n)


def split(r, m, b):
    out = []
    while m:
        n = min(len(m), size(r, b))
        out.append(m[:n])
        m = m[n:]
    for _ in range(r.choice([0, 0, 1, 2])):
        out.insert(r.randrange(len(out) + 1), b'')
    return out


def case(r, D):
    """(command, function giving the expected answer)"""
    k = r.random()
    a = r.choice('abcdefghij')
    m = msg(r, size(r, BLK[a]))
    if k < .25:
        D.need(a, m)
        return 'o %s %s' % (a, hx(m)), lambda: D.get(a, m)
    if k < .35:
        a = r.choice('abcdef')
        return 't %s %s %d' % (a, hx(m), r.randrange(len(m) + 1)), lambda: '%s %d' % (D.get(a, m), BLK[a])
    if k < .7:
        # several contexts at once
        ctx = {}
        todo = [(r.choice('abcdefghij') if r.random() < .5 else a, i) for i in range(r.randrange(1, 5))]
        for c in todo:
            mm = msg(r, size(r, BLK[c[0]]))
            D.need(c[0], mm)
            ctx[c] = (mm, ['i%s%d' % c] + ['a%s%d %s' % (*c, hx(p)) for p in split(r, mm, BLK[c[0]])] + ['f%s%d' % c])
        ops, fins = [], []
        left = {c: list(v[1]) for c, v in ctx.items()}
        while left:
            c = r.choice(list(left))
            o = left[c].pop(0)
            ops.append(o)
            if o[0] == 'f':
                fins.append(c)
                del left[c]
        return 's %d %s' % (len(ops), ' '.join(ops)), lambda: ' '.join(D.get(c[0], ctx[c][0]) for c in fins)
    a = r.choice('abcdefCD')
    key = msg(r, size(r, BLK[a.lower()]))
    h = ALG[a.lower()]
    if a in 'CD':
        return 'm %s %s 1 %s' % (a, hx(key), hx(m)), lambda: hmac.new(key, m, h).hexdigest()
    ps = split(r, m, BLK[a])
    return ' '.join(['m %s %s %d' % (a, hx(key), len(ps))] + [hx(p) for p in ps]), lambda: hmac.new(key, m, h).hexdigest()


def cases(r, n):
    D = Digests()
    cs = [case(r, D) for _ in range(n)]
    D.solve()
    return [(c, f()) for c, f in cs]


def streams(r, n):
    D = Digests()
    yield 'c44', (), [case(r, D)[0] for _ in range(n)]


def check(ck):
    # the reference Keccak on its published answers
    assert keccaks([b''], 256)[0].hex().startswith('c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470')
    d = Driver(ck, Tree('all'), 'c44')
    d.check(cases(ck.sub('c'), ck.n(12000, 150000)), timeout=200)
    # every length through several blocks
    r = ck.sub('l')
    D = Digests()
    cs = []
    for a in 'abcdefghij':
        for n in range(ck.n(2 * BLK[a] + 2, 6 * BLK[a])):
            m = r.randbytes(n)
            D.need(a, m)
            cs.append(('o %s %s' % (a, hx(m)), a, m))
    D.solve()
    d.check([(c, D.get(a, m)) for c, a, m in cs], timeout=120)
    # messages whose length in bits needs more than 32 bits
    long = [(a, 100000, 5500) for a in 'abcdef'] if not ck.quick else [(r.choice('abcdef'), 1000, 700)]
    if long:
        for a, b, n in long:
            chunk = r.randbytes(b)
            h = hashlib.new(ALG[a])
            for _ in range(n):
                h.update(chunk)
            d.check([('l %s %s %d' % (a, hx(chunk), n), h.hexdigest())], timeout=400)
    ck.rule = ('every length through several blocks; generated messages one-shot, by the trait and in generated chunks with several contexts of several '
               'algorithms interleaved; HMAC with keys around the block size; thorough: messages above 2^32 bits; reference: hashlib, and a Keccak '
               'written from the standard and checked on published answers')


TECH = 'runtime monitoring: differential oracle (hashlib, reference Keccak) over generated messages, chunkings and interleaved contexts'
NOTE = 'the reference Keccak uses the original padding, as the library documents in its tests; HMAC output slices have exactly the digest size'
