"""C45: AES, AES-GCM and ChaCha20 against references written from their standards."""
from vf.core import *


# AES
def _tables():
    p, sb = [1] * 256, [0] * 256
    inv = {}
    mul = lambda a, b: _mul(a, b)
    for a in range(1, 256):
        for b in range(1, 256):
            if mul(a, b) == 1:
                inv[a] = b
                break
    for i in range(256):
        x = inv.get(i, 0)
        y = x
        for k in range(1, 5):
            y ^= (x << k | x >> (8 - k)) & 255
        sb[i] = y ^ 0x63
    return sb


def _mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = a << 1 ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


SB = _tables()
ISB = [SB.index(i) for i in range(256)]
M = {k: [_mul(k, x) for x in range(256)] for k in (1, 2, 3, 9, 11, 13, 14)}


def expand(key):
    nk = len(key) // 4
    w = [list(key[i:i + 4]) for i in range(0, len(key), 4)]
    rcon = 1
    for i in range(nk, 4 * (nk + 7)):
        t = list(w[-1])
        if i % nk == 0:
            t = [SB[x] for x in t[1:] + t[:1]]
            t[0] ^= rcon
            rcon = _mul(rcon, 2)
        elif nk > 6 and i % nk == 4:
            t = [SB[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[i:i + 4], []) for i in range(0, len(w), 4)]


SHIFT = [(i + 4 * (i % 4)) % 16 for i in range(16)]
UNSHIFT = [(i - 4 * (i % 4)) % 16 for i in range(16)]


def mix(s, c):
    a, b, d, e = (M[x] for x in c)
    o = []
    for i in range(0, 16, 4):
        w, x, y, z = s[i:i + 4]
        o += [a[w] ^ b[x] ^ d[y] ^ e[z], e[w] ^ a[x] ^ b[y] ^ d[z], d[w] ^ e[x] ^ a[y] ^ b[z], b[w] ^ d[x] ^ e[y] ^ a[z]]
    return o


def enc1(rk, m):
    s = [a ^ b for a, b in zip(m, rk[0])]
    for k in rk[1:-1]:
        s = mix([SB[s[i]] for i in SHIFT], (2, 3, 1, 1))
        s = [a ^ b for a, b in zip(s, k)]
    return bytes(SB[s[i]] ^ k for i, k in zip(SHIFT, rk[-1]))


def dec1(rk, c):
    s = [a ^ b for a, b in zip(c, rk[-1])]
    for k in rk[-2:0:-1]:
        s = [ISB[s[i]] ^ b for i, b in zip(UNSHIFT, k)]
        s = mix(s, (14, 11, 13, 9))
    return bytes(ISB[s[i]] ^ b for i, b in zip(UNSHIFT, rk[0]))


def ecb(f, key, m):
    rk = expand(key)
    return b''.join(f(rk, m[i:i + 16]) for i in range(0, len(m), 16))


# GCM
def gmul(x, y):
    z = 0
    for i in range(127, -1, -1):
        if x >> i & 1:
            z ^= y
        y = y >> 1 ^ (0xe1 << 120 if y & 1 else 0)
    return z


def ghash(h, *parts):
    y = 0
    for p in parts:
        p += bytes(-len(p) % 16)
        for i in range(0, len(p), 16):
            y = gmul(y ^ int.from_bytes(p[i:i + 16], 'big'), h)
    return y


def gcm(key, iv, aad, m, decrypt=False):
    rk = expand(key)
    h = int.from_bytes(enc1(rk, bytes(16)), 'big')
    ln = lambda a, b: (len(a) * 8).to_bytes(8, 'big') + (len(b) * 8).to_bytes(8, 'big')
    j0 = iv + b'\0\0\0\1' if len(iv) == 12 else ghash(h, iv, ln(b'', iv)).to_bytes(16, 'big')
    ctr = int.from_bytes(j0[12:], 'big')
    out = b''
    for i in range(0, len(m), 16):
        ctr = (ctr + 1) & 0xffffffff
        ks = enc1(rk, j0[:12] + ctr.to_bytes(4, 'big'))
        out += bytes(a ^ b for a, b in zip(m[i:i + 16], ks))
    c = m if decrypt else out
    tag = ghash(h, aad, c, ln(aad, c)) ^ int.from_bytes(enc1(rk, j0), 'big')
    return out, tag.to_bytes(16, 'big')


# ChaCha20, 64 bit nonce and counter
def chacha(key, iv, ctr):
    c = b'expand 32-byte k' if len(key) == 32 else b'expand 16-byte k'
    k = key if len(key) == 32 else key * 2
    b = c + k + (ctr & 2**64 - 1).to_bytes(8, 'little') + iv
    s = [int.from_bytes(b[i:i + 4], 'little') for i in range(0, 64, 4)]
    x = list(s)

    def q(a, b, c, d):
        x[a] = x[a] + x[b] & 0xffffffff
        x[d] ^= x[a]
        x[d] = (x[d] << 16 | x[d] >> 16) & 0xffffffff
        x[c] = x[c] + x[d] & 0xffffffff
        x[b] ^= x[c]
        x[b] = (x[b] << 12 | x[b] >> 20) & 0xffffffff
        x[a] = x[a] + x[b] & 0xffffffff
        x[d] ^= x[a]
        x[d] = (x[d] << 8 | x[d] >> 24) & 0xffffffff
        x[c] = x[c] + x[d] & 0xffffffff
        x[b] ^= x[c]
        x[b] = (x[b] << 7 | x[b] >> 25) & 0xffffffff
    for _ in range(10):
        for i in range(4):
            q(i, i + 4, i + 8, i + 12)
        for i in range(4):
            q(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return b''.join((a + b & 0xffffffff).to_bytes(4, 'little') for a, b in zip(x, s))


def stream(key, iv, ctr, m):
    out = b''
    for i in range(0, len(m), 64):
        out += bytes(a ^ b for a, b in zip(m[i:i + 64], chacha(key, iv, ctr)))
        ctr += 1
    return out, ctr


def data(r, n):
    k = r.random()
    if k < .15:
        return bytes([r.choice([0, 255, 1, 0x80])]) * n
    if k < .25:
        b = bytearray(n)
        if n:
            b[r.randrange(n)] = 1 << r.randrange(8)
        return bytes(b)
    return r.randbytes(n)


def flip(r, b):
    b = bytearray(b)
    b[r.randrange(len(b))] ^= 1 << r.randrange(8)
    return bytes(b)


def case(r):
    k = r.random()
    ln = lambda: r.choice([0, 1, 15, 16, 17, 31, 32, 33, 48, r.randrange(0, 80)])
    key = data(r, r.choice([16, 24, 32]))
    if k < .25:
        m = data(r, 16 * r.choice([0, 1, 1, 2, 5]))
        return 'e %d %s %s' % (r.randrange(2), hx(key), hx(m)), lambda: hx(ecb(enc1, key, m)) + ' ' + hx(m)
    if k < .4:
        m = data(r, 16 * r.choice([0, 1, 1, 2, 5]))
        return 'd %d %s %s' % (r.randrange(2), hx(key), hx(m)), lambda: hx(ecb(dec1, key, m))
    if k < .7:
        iv = data(r, r.choice([12, 12, 12, 1, 8, 16, 17, 32, r.randrange(1, 70)]))
        aad, m = data(r, ln()), data(r, ln())
        if k < .5:
            return ' '.join(map(hx, (key, iv, aad, m))).join(['g ', '']), lambda: '%s %s' % tuple(map(hx, gcm(key, iv, aad, m)))
        # a sealed message, perhaps modified
        c, tag = gcm(key, iv, aad, m)
        k2, iv2, a2, c2, t2 = key, iv, aad, c, tag
        w = r.randrange(9)
        if w == 0:
            t2 = flip(r, tag)
        elif w == 1 and c:
            c2 = flip(r, c)
        elif w == 2 and aad:
            a2 = flip(r, aad)
        elif w == 3:
            iv2 = flip(r, iv)
        elif w == 4:
            t2 = r.choice([tag[:r.randrange(16)], tag + b'\0', tag[1:], b''])
        elif w == 5:
            # bytes moved between the data and the associated data
            j = a2 + c2
            n = r.randrange(len(j) + 1)
            a2, c2 = j[:n], j[n:]
        elif w == 6 and c:
            c2 = r.choice([c[:-1], c + b'\0', c + bytes(16), c[1:]])
        good = (k2, iv2, a2, c2, t2) == (key, iv, aad, c, tag)

        def ok(out):
            p = out.split()
            if p[0] != str(int(good)):
                return 'a %s message was %s' % ('genuine' if good else 'modified', 'accepted' if p[0] == '1' else 'refused')
            if good and p[1] != hx(m):
                return 'decrypted to %s, expected %s' % (p[1], hx(m))
        return 'G ' + ' '.join(map(hx, (k2, iv2, a2, c2, t2))), ok
    key = data(r, r.choice([16, 32, 32]))
    iv = data(r, 8)
    if k < .75:
        ctr = r.choice([2**32 - 1, 2**32 - 2, 2**32, 2**64 - 1, r.randrange(2**64), 7])
        m = data(r, r.choice([64, 128, 129, 200, 63]))
        return 'w %s %s %s %d %d' % (hx(key), hx(iv), hx(m), ctr % 2**32, ctr >> 32), lambda: hx(stream(key, iv, ctr, m)[0])
    pieces = [data(r, r.choice([0, 1, 63, 64, 64, 65, 128, 127, 192, r.randrange(200)])) for _ in range(r.randrange(1, 5))]

    def want():
        ctr, out = 0, []
        for p in pieces:
            o, ctr = stream(key, iv, ctr, p)
            out.append(hx(o))
        return ' '.join(out)
    return 'c %s %s %d %s' % (hx(key), hx(iv), len(pieces), ' '.join('%d %s' % (r.randrange(2), hx(p)) for p in pieces)), want


def cases(r, n):
    cs = [case(r) for _ in range(n)]
    return [(c, f() if f.__code__.co_argcount == 0 else f) for c, f in cs]


LOCAL = ('lib/crypto/aesgcm.myr',)


def streams(r, n):
    yield 'c45', (), [case(r)[0] for _ in range(n)]


def selftest():
    h = bytes.fromhex
    assert ecb(enc1, h('000102030405060708090a0b0c0d0e0f'), h('00112233445566778899aabbccddeeff')) == h('69c4e0d86a7b0430d8cdb78070b4c55a')
    assert ecb(dec1, bytes(range(32)), h('8ea2b7ca516745bfeafc49904b496089')) == h('00112233445566778899aabbccddeeff')
    assert gcm(bytes(16), bytes(12), b'', bytes(16)) == (h('0388dace60b6a392f328c2b971b2fe78'), h('ab6e47d42cec13bdf53a67b21257bddf'))
    assert chacha(bytes(32), bytes(8), 0).hex().startswith('76b8e0ada0f13d90405d6ae55386bd28')


def check(ck):
    selftest()
    d = Driver(ck, Tree('all'), 'c45', local=LOCAL)
    d.check(cases(ck.sub('c'), ck.n(4000, 80000)), timeout=300)
    ck.rule = ('generated keys, nonces, data of lengths around the block size, in place and not; AES-GCM messages opened intact and with modified data, tag, '
               'nonce, associated data, lengths and boundaries; ChaCha20 streams in pieces and counters past 32 bits; references written from FIPS 197, '
               'SP 800-38D and the ChaCha20 paper, checked on published answers')


TECH = 'runtime monitoring: differential oracle (independent AES, GCM, ChaCha20) and forgery monitors over generated messages'
NOTE = ('a ChaCha20 piece ends its block, so that a later piece starts at the next counter, as in the reference implementation; lib/crypto/aesgcm.myr is '
        'not part of the library archive and is compiled from the tree by the check; tags are full length (16 bytes)')
