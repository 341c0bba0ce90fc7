"""C46: curve25519, constant-time numbers, RSA encryption and constant-time helpers against Python's integers."""
from vf.core import *

P = 2**255 - 19


def x25519(k, u):
    k = bytearray(k)
    k[0] &= 248
    k[31] = k[31] & 127 | 64
    k = int.from_bytes(k, 'little')
    u = int.from_bytes(u, 'little') & (2**255 - 1)
    x1, x2, z2, x3, z3, sw = u % P, 1, 0, u % P, 1, 0
    for t in range(254, -1, -1):
        b = k >> t & 1
        if sw ^ b:
            x2, x3, z2, z3 = x3, x2, z3, z2
        sw = b
        a, c = x2 + z2, x2 - z2
        aa, cc = a * a % P, c * c % P
        e = aa - cc
        d, f = (x3 + z3) * c % P, (x3 - z3) * a % P
        x3, z3 = (d + f) ** 2 % P, x1 * (d - f) ** 2 % P
        x2, z2 = aa * cc % P, e * (aa + 121665 * e) % P
    if sw:
        x2, z2 = x3, z3
    return (x2 * pow(z2, P - 2, P) % P).to_bytes(32, 'little')


def num(r, nbit):
    k = r.random()
    if k < .1:
        return r.choice([0, 1, 2, 2**nbit - 1, 2**(nbit - 1), 2**nbit - 2]) % 2**nbit
    if k < .35:
        # digits from the corners
        v = 0
        for i in range(0, nbit, 32):
            v |= r.choice([0, 0, 0xffffffff, 0x80000000, 1, 2, 0xfffffffe, r.randrange(2**32)]) << i
        return v % 2**nbit
    return r.randrange(2**r.randrange(1, nbit + 1))


def be(v, nbit):
    return v.to_bytes((nbit + 7) // 8, 'big')


def small(r, nbit, v):
    """Big endian bytes, perhaps with leading zeros or without."""
    k = r.random()
    if k < .1:
        return bytes(r.randrange(1, 6)) + be(v, nbit)
    if k < .4:
        return be(v, nbit).lstrip(b'\0')
    return be(v, nbit)


def prime(r, n):
    while True:
        p = r.randrange(2**(n - 1), 2**n) | 1 | 3 << (n - 2)
        if any(p % q == 0 for q in (3, 5, 7, 11, 13, 17, 19, 23)):
            continue
        if all(pow(a, p - 1, p) == 1 for a in (2, 3, 5, 7)):
            return p


KEYS = {}


def rsakey(nbit):
    if nbit not in KEYS:
        r = random.Random(nbit)
        while True:
            p, q, e = prime(r, nbit // 2), prime(r, nbit // 2), 65537
            if p != q and (p - 1) % e and (q - 1) % e:
                KEYS[nbit] = p * q, e, pow(e, -1, (p - 1) * (q - 1))
                break
    return KEYS[nbit]


def case(r, quick=True):
    k = r.random()
    nbit = r.choice([32, 64, 96, 128, 256, 1, 7, 8, 9, 31, 33, 63, 65, 79, 80, 100, 127, 255, 257, r.randrange(1, 400)])
    nb = (nbit + 7) // 8
    if k < .1:
        v = num(r, nbit)
        b = r.randbytes(r.randrange(nb + 6)) if r.random() < .4 else small(r, nbit, v)
        v = int.from_bytes(b, 'big') % 2**nbit
        w = int.from_bytes(b, 'little') % 2**nbit
        return 'b %d %s' % (nbit, hx(b)), '%s %s %s' % (hx(be(v, nbit)), hx(v.to_bytes(nb, 'little')), hx(be(w, nbit)))
    if k < .14:
        v = r.choice([0, 1, 2**32, 2**63 - 1, r.randrange(2**63), r.randrange(2**20)])
        w = v % 2**nbit
        return 'n %d %d' % (nbit, v), ' '.join([hx(be(w, nbit))] * 3)
    if k < .3:
        a, b = num(r, nbit), num(r, nbit)
        if r.random() < .1:
            b = a
        al = r.choice('nnabs')
        if al == 's':
            b = a
        o = r.choice('+-*')
        w = {'+': a + b, '-': a - b, '*': a * b}[o] % 2**nbit
        out = [hx(be(w, nbit))] + ([hx(be(a, nbit))] if al in 'nb' else []) + ([hx(be(b, nbit))] if al in 'na' else []) + [str(nbit)]
        return 'a %s%s %d %s %s' % (o, al, nbit, hx(small(r, nbit, a)), hx(small(r, nbit, b))), ' '.join(out)
    if k < .45:
        a = num(r, nbit)
        b = r.choice([a, num(r, nbit), a ^ 1 << r.randrange(nbit), (a + 1) % 2**nbit])
        w = [a == b, a != b, a > b, a >= b, a < b, a <= b, a == 0, a == b]
        return 'c %d %s %s' % (nbit, hx(be(a, nbit)), hx(be(b, nbit))), '%s %s %s' % (' '.join(str(int(x)) for x in w), hx(be(a, nbit)), hx(be(b, nbit)))
    if k < .52:
        nbit = r.choice([64, 64, 96, 128, 160, 256, 512] + ([1024] if not quick else []))
        m = num(r, nbit) | 1 | 1 << (nbit - 1)
        a, e = num(r, nbit) % m, num(r, nbit)
        if r.random() < .3:
            # the top digits equal those of the modulus
            a = m - 1 - r.randrange(2**r.randrange(1, nbit - 31)) if r.random() < .7 else m - r.choice([1, 2])
            a %= m
        return 'm %d %s %s %s' % (nbit, hx(be(a, nbit)), hx(be(e, nbit)), hx(be(m, nbit))), ' '.join(hx(be(x, nbit)) for x in (pow(a, e, m), a, e, m))
    if k < .62:
        nbit = r.choice([64, 96, 128, 256])
        m = num(r, nbit) | 1 << (nbit - 1)
        a = num(r, nbit) % m
        if r.random() < .4:
            # top digits equal, or nearly
            a = max(0, m - 1 - r.randrange(2**r.randrange(1, nbit - 30)))
        if r.random() < .3:
            a = m * r.randrange(1, 2**32) // 2**32 + r.randrange(-2, 3)
            a = min(max(a, 0), m - 1)
        d = r.choice([0, 1, 2**32 - 1, r.randrange(2**32)])
        return 'g %d %s %s %d' % (nbit, hx(be(a, nbit)), hx(be(m, nbit)), d), hx(be((a * 2**32 + d) % m, nbit))
    if k < .68:
        nbit = r.choice([256, 288, 512] + ([1024, 768] if not quick or r.random() < .15 else []))
        nb = nbit // 8
        n, e, dd = rsakey(nbit)
        msg = r.randbytes(r.choice([0, 1, nb - 11, nb - 12, r.randrange(nb - 10)]))
        zero = lambda b: bytes(r.choice([0, 0, 0, 1, 3])) + b
        if r.random() < .5:
            seed = bytes(r.randrange(1, 256) for _ in range(nb - 3 - len(msg)))
            em = b'\0\2' + seed + b'\0' + msg
            w = pow(int.from_bytes(em, 'big'), e, n)
            return 'r %s %s %s %s' % (hx(msg), hx(zero(b'\1\0\1')), hx(zero(be(n, nbit))), hx(seed)), hx(be(w, nbit))

        def ok(out):
            em = be(pow(int(out, 16), dd, n), nbit)
            if len(out) != 2 * nb or em[:2] != b'\0\2' or em[-len(msg) - 1:] != b'\0' + msg or 0 in em[2:nb - 1 - len(msg)] or len(em) != nb:
                return 'the encryption of %s decrypts to %s' % (hx(msg), em.hex())
        return 'R %s %s %s' % (hx(msg), hx(b'\1\0\1'), hx(be(n, nbit))), ok
    if k < .8:
        s = r.randbytes(32) if r.random() < .8 else r.choice([bytes(32), b'\xff' * 32, b'\x01' + bytes(31)])
        if r.random() < .2:
            return 'X %s' % hx(s), hx(x25519(s, b'\x09' + bytes(31)))
        q = r.random()
        if q < .3:
            u = r.choice([0, 1, 2, 9, P - 1, P - 2, P, P + 1, P + 18, 2**255 - 1, 2**256 - 1, 2**255, 2**255 + 9, 2**254,
                          325606250916557431795983626356110631294008115727848805560023387167927233504,
                          39382357235489614581723060781553021112529911719440698176882885853963445705823]).to_bytes(32, 'little')
        elif q < .5:
            # limbs from the corners: 26 and 25 bits alternate
            v, sh = 0, 0
            for i in range(10):
                n = 26 - i % 2
                v |= r.choice([0, 1, 2**n - 1, 2**n - 2, 2**(n - 1), r.randrange(2**n)]) << sh
                sh += n
            u = v.to_bytes(32, 'little')
        else:
            u = r.randbytes(32)
        return 'x %s %s' % (hx(s), hx(u)), '%s %s %s' % (hx(x25519(s, u)), hx(s), hx(u))
    if k < .92:
        w = r.choice([8, 16, 32, 64])
        corner = lambda: r.choice([0, 1, 2**w - 1, 2**(w - 1), 2**(w - 1) - 1, 2**(w - 1) + 1, r.randrange(2**w), r.randrange(2**(w // 2))])
        a, b = corner(), corner()
        if r.random() < .2:
            b = a
        elif r.random() < .2:
            b = a ^ 1 << r.randrange(w)
        res = [a == b, a != b, a > b, a < b, a >= b, a <= b, min(a, b), max(a, b), a, b, 1, 0]
        sg = lambda v: v - 2**64 if v >= 2**63 else v
        return 't %d %d %d' % (w, sg(a), sg(b)), ' '.join(str(sg(int(x))) for x in res)
    a = r.randbytes(r.randrange(20))
    b = r.choice([a, a[:-1], a + b'\0', b'', r.randbytes(len(a))])
    if a and r.random() < .4:
        b = bytearray(a)
        b[r.randrange(len(a))] ^= 1 << r.randrange(8)
        b = bytes(b)
    return 'e %s %s' % (hx(a), hx(b)), str(int(a == b))


def cases(r, n, quick=True):
    return [case(r, quick) for _ in range(n)]


FLAGS = ('-T',)


def randoms(ck, d):
    """Random bytes: never repeated between calls, processes or runs, with balanced bits; numbers stay in their range and are balanced."""
    seen, ones, total = set(), 0, 0
    r = ck.sub('rand')
    for rep in range(ck.n(3, 20)):
        cmds = []
        for i in range(60):
            if r.random() < .15:
                cmds.append('U')
            else:
                lo = r.choice([0, -5, 10**12, -2**62, r.randrange(-100, 100)])
                cmds.append('u %d %d %d %d' % (r.choice([0, 1, 7, 64, 4055, 4056, 4057, 5000, 20000]), 200, lo, lo + r.choice([1, 2, 3, 100, 2**40])))
        if rep == 0:
            cmds.append('u 17000000 0 0 1')      # past the point of stirring
        outs = d.batch(cmds, timeout=120)
        vals, small = [], [0, 0, 0]
        for c, o in zip(cmds, outs):
            ck.saw(c + str(rep))
            p = o.split()
            if o.startswith('!'):
                ck.violation('rand: ' + c, o, {'commands.txt': '\n'.join(cmds)})
                return
            if c == 'U':
                bl = [p[0], p[1]]
                if len(bl[0]) != 48 or len(bl[1]) != 48:
                    ck.violation('rand: fork', 'lines %r' % o, {'commands.txt': c})
            else:
                bl = [] if p[0] == '-' else [p[0]]
                _, n, k, lo, hi = c.split()
                if bl and len(bl[0]) != 2 * int(n):
                    ck.violation('rand: length', '%s: %d digits' % (c, len(bl[0])))
                for v in p[1:1 + int(k)]:
                    if not int(lo) <= int(v) < int(hi):
                        ck.violation('rand: range', '%s: got %s' % (c, v), {'commands.txt': c})
                for v in p[1 + int(k):]:
                    if v not in '012':
                        ck.violation('rand: byte range', '%s: got %s' % (c, v), {'commands.txt': c})
                    else:
                        small[int(v)] += 1
            for b in bl:
                raw = bytes.fromhex(b)
                for i in range(0, len(raw) - 15, 8):
                    w = raw[i:i + 16]
                    if i % 16 == 0:
                        if w in seen:
                            ck.violation('rand: repeat', '16 bytes appeared twice: %s' % w.hex(), {'commands.txt': '\n'.join(cmds)})
                            return
                        seen.add(w)
                ones += bin(int.from_bytes(raw, 'big')).count('1')
                total += 8 * len(raw)
        n = sum(small)
        if n and any(abs(x - n / 3) > 6 * (n * 2 / 9) ** .5 for x in small):
            ck.violation('rand: balance', 'numbers below 3 came out %s' % small)
    if abs(ones - total / 2) > 6 * (total / 4) ** .5:
        ck.violation('rand: bits', '%d of %d bits set' % (ones, total))
    ck.extra['random bytes'] = total // 8


def streams(r, n):
    yield 'c46', (), [case(r)[0] for _ in range(n)]


def check(ck):
    assert x25519(bytes.fromhex('a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4'),
                  bytes.fromhex('e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c')).hex() == \
        'c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552'
    d = Driver(ck, Tree('all'), 'c46', flags=FLAGS)
    d.check(cases(ck.sub('c'), ck.n(12000, 150000), ck.quick), timeout=300)
    randoms(ck, d)
    # the comparison helpers on every pair of bytes from the corners (thorough: all pairs)
    vs = range(256) if not ck.quick else sorted(set([0, 1, 2, 126, 127, 128, 129, 254, 255] + ck.sub('b').sample(range(256), 40)))
    cs = []
    for a in vs:
        for b in vs:
            cs.append(('t 8 %d %d' % (a, b), ' '.join(str(int(x)) for x in [a == b, a != b, a > b, a < b, a >= b, a <= b, min(a, b), max(a, b), a, b, 1, 0])))
    d.check(cs, timeout=120)
    ck.rule = ('generated numbers of every width (corner digits, aliased operands, values next to the modulus), modular powers, RSA encryptions decrypted with '
               'the private key, X25519 on random, low-order and non-canonical points, helpers on corner pairs; reference: Python integers and RFC 7748')


TECH = 'runtime monitoring: differential oracle (exact integers, RFC 7748, PKCS#1 v1.5) over generated operands'
NOTE = ('helpers are judged on unsigned types, as their source demands; modular powers for odd moduli of a multiple of 32 bits with the top bit set, as '
        'the code asserts')
