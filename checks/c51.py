"""C51: elementary functions against quad precision (and exact) references."""
import math, os, struct, subprocess, tempfile
from vf.core import *

TECH = 'runtime monitoring: error in ulps against quad-precision references over generated, boundary and special arguments in both precisions'
NOTE = ('exact: fma, sqrt, scale2, trunc, ceil, floor, rn, horner_poly; up to 1 ulp: exp, expm1, log, log1p, sums; single precision trigonometry 1 ulp; double: 8 to 32 ulps; '
        'powr 2 ulps, pown 4 (exponents below 2^20), rootn 4; not covered: exceptions and rounding modes')

OPS = 'aAeEmlLnrp2scSqtTvVwRhk'
NAMES = dict(zip(OPS, ['atan', 'atan2', 'exp', 'expm1', 'fma', 'log', 'log1p', 'pown', 'rootn', 'powr', 'scale2', 'sin', 'cos', 'sincos', 'sqrt',
                       'tan', 'cot', 'trunc', 'ceil', 'floor', 'rn', 'horner_poly', 'sum']))


def bits(x, p):
    if p == 'd':
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def fromb(u, p):
    return struct.unpack('<d', struct.pack('<Q', u))[0] if p == 'd' else struct.unpack('<f', struct.pack('<I', u))[0]


def step(r, u, p, n=3):
    """a neighbour of the number with bits u"""
    m = 2**63 if p == 'd' else 2**31
    s, a = u & m, u & m - 1
    return s | max(0, min(m - 1, a + r.randint(-n, n)))


SPEC = {'d': [0, 1, 2, 0xfffffffffffff, 0x10000000000000, 0x7fefffffffffffff, 0x7ff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001,
              bits(1.0, 'd'), bits(2.0, 'd'), bits(0.5, 'd'), bits(1.5, 'd'), bits(2.5, 'd'), bits(2.0**52, 'd'), bits(2.0**53, 'd'), bits(2.0**63, 'd'), bits(2.0**31, 'd')],
        'f': [0, 1, 2, 0x7fffff, 0x800000, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x7f800001,
              bits(1.0, 'f'), bits(2.0, 'f'), bits(0.5, 'f'), bits(1.5, 'f'), bits(2.5, 'f'), bits(2.0**23, 'f'), bits(2.0**24, 'f'), bits(2.0**31, 'f')]}
PI2 = 1.5707963267948966


def anyb(r, p):
    """bits of any number"""
    w = 64 if p == 'd' else 32
    k = r.random()
    if k < .2:
        u = r.choice(SPEC[p])
        if r.random() < .5:
            u = step(r, u, p)
        return u | (r.randrange(2) << w - 1)
    if k < .5:
        return r.getrandbits(w)
    if k < .8:  # moderate exponents
        e = r.randint(-30, 40)
        return bits(r.choice([1, -1]) * math.ldexp(1 + r.random(), e), p)
    if k < .9:  # few bits set
        return bits(r.choice([1, -1]) * math.ldexp(r.randrange(1, 256), r.randint(-60, 60)), p)
    return bits(r.choice([1, -1]) * (r.randrange(2**20) + r.choice([0, .5, .25])), p)


def near(r, x, p, n=3):
    return step(r, bits(x, p), p, n)


def trig(r, p):
    k = r.random()
    if k < .3:
        return near(r, r.randint(-1000, 1000) * PI2 / r.choice([1, 1, 2, 4]), p)
    if k < .5:  # close to multiples of pi/2, all sizes
        m = r.getrandbits(r.randint(1, 60)) + 1
        return near(r, float(m) * PI2, p)
    if k < .6:
        return bits(r.uniform(-7, 7), p)
    if k < .7:  # the hardest cases
        return (r.choice([0x6381e29ea5e7b6d9, 0x7506ac5b262ca1ff, 0x3ff921fb54442d18, 0x401921fb54442d18, 0x41d921fb54442d18, bits(6381956970095103. * 2.**797, 'd'),
                          bits(5319372648326541. * 2.**-52, 'd'), bits(4503599627370497. * 2.**500, 'd')]) if p == 'd'
                else r.choice([0x3fc90fdb, 0x4b8c7c1b, bits(16367173 * 2.**72, 'f'), 0x6f5be5a7, 0x4016cbe4]))
    return anyb(r, p)


def args(r, op, p):
    """The argument tokens of one case."""
    w = 64 if p == 'd' else 32
    k = r.random()
    hi = 709.782712893384 if p == 'd' else 88.72283905206835
    lo = -745.1332191019411 if p == 'd' else -103.97207708399179
    if op in 'eE':
        if k < .25:
            return [near(r, r.choice([hi, lo, -708.3964185322641 if p == 'd' else -87.33654475055310, 36.7, -36.8, 16.6, .6931471805599453, -.287682, .223143]), p, 30)]
        if k < .6:
            return [bits(r.uniform(lo, hi), p)]
        if k < .7:
            return [near(r, r.randint(-1100, 1030) * .6931471805599453 / r.choice([1, 2, 32, 64]), p)]
        if k < .8:
            return [bits(r.choice([1, -1]) * 2.0**-r.uniform(0, 70), p)]
    elif op == 'l':
        if k < .2:
            return [near(r, 1.0, p, r.choice([2, 100, 10**6]))]
        if k < .4:
            return [bits(2.0**r.uniform(-.2, .2), p)]
        if k < .5:
            return [near(r, 1 + r.randrange(128) / 128, p)]
    elif op == 'L':
        if k < .25:
            return [bits(r.choice([1, -1]) * 2.0**-r.uniform(0, 70), p)]
        if k < .35:
            return [near(r, -1.0, p, 100)]
        if k < .5:
            return [bits(r.uniform(-1, 3), p)]
    elif op in 'scStT':
        return [trig(r, p)]
    elif op == 'a':
        if k < .3:
            return [bits(r.uniform(-3, 3), p)]
        if k < .4:
            return [near(r, r.choice([1, -1]) * r.choice([1, .4375, .6875, 1.1875, 2.4375, r.randrange(1, 200) / 64]), p)]
    elif op == 'A':
        a = anyb(r, p)
        if k < .3:  # about equal
            return [step(r, a, p, 5) ^ (r.randrange(2) << w - 1), a]
        if k < .6 and math.isfinite(fromb(a, p)):
            y = fromb(a, p) * 2.0**r.uniform(-60, 60)
            return [bits(y, p), a] if r.random() < .5 else [a, bits(y, p)]
        return [a, anyb(r, p)]
    elif op == 'm':
        a, b = anyb(r, p), anyb(r, p)
        fa, fb = fromb(a, p), fromb(b, p)
        if k < .45 and math.isfinite(fa * fb):  # cancellation and ties
            c = bits(-fa * fb, p)
            c = step(r, c, p, r.choice([0, 1, 2, 2**20]))
            return [a, b, c]
        if k < .6 and math.isfinite(fa * fb):
            return [a, b, bits(r.choice([1, -1]) * fa * fb * 2.0**r.randint(-60, 60), p)]
        if k < .7:  # around the subnormals
            e = -1022 if p == 'd' else -126
            ea = r.randint(e, 0)
            a = bits(math.ldexp(1 + r.random(), ea), p)
            b = bits(r.choice([1, -1]) * math.ldexp(1 + r.random(), max(e, e - ea + r.randint(-60, 10))), p)
            return [a, b, r.choice([0, 1 << w - 1, r.getrandbits(54 if p == 'd' else 25) | r.randrange(2) << w - 1])]
        return [a, b, anyb(r, p)]
    elif op == 'n':
        lim = 2**63 - 1 if p == 'd' else 2**31 - 1
        n = r.choice([0, 1, -1, 2, -2, 3, lim, -lim - 1, lim - 1, r.randint(-10, 10), r.randint(-300, 300), r.randint(-lim, lim), r.randint(-10**6, 10**6)])
        if n and k < .7:  # keep the result in range, or about at its limits
            t = r.choice([r.uniform(lo, hi), r.uniform(-5, 5), hi, lo]) / n
            try:
                return [near(r, math.exp(t), p) | (r.randrange(2) << w - 1), n]
            except OverflowError:
                pass
        return [anyb(r, p), n]
    elif op == 'r':
        lim = 2**64 - 1 if p == 'd' else 2**32 - 1
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 31, 100, lim, lim - 1, r.randint(1, 1000), r.randint(1, lim), r.randint(1, 10**6)])
        if k < .3 and 1 < n < 40:
            try:
                return [near(r, float(r.randint(1, 50))**n, p) | (r.randrange(2) << w - 1), n]
            except OverflowError:
                pass
        a = anyb(r, p)
        return [a if n % 2 else a & (1 << w - 1) - 1 if r.random() < .9 else a, n]
    elif op == 'p':
        a = anyb(r, p)
        if r.random() < .9:
            a &= (1 << w - 1) - 1
        x = fromb(a, p)
        if k < .75 and x > 0 and x != 1 and math.isfinite(x):
            t = r.choice([r.uniform(lo, hi), r.uniform(-5, 5), hi, lo, lo * .95])
            return [a, near(r, t / math.log(x), p)]
        if k < .85:
            a = near(r, 1.0, p, 20)
            return [a, bits(r.choice([1, -1]) * 2.0**r.uniform(30, 65) if p == 'd' else r.choice([1, -1]) * 2.0**r.uniform(10, 32), p)]
        return [a, anyb(r, p)]
    elif op == '2':
        lim = 2**63 - 1 if p == 'd' else 2**31 - 1
        m = r.choice([0, 1, -1, r.randint(-60, 60), r.randint(-1100, 1100), r.randint(-2200, 2200), lim, -lim - 1])
        a = anyb(r, p)
        x = fromb(a, p)
        if k < .5 and x and math.isfinite(x):
            e = math.frexp(x)[1]
            m = r.choice([-1074 if p == 'd' else -149, -1022 if p == 'd' else -126, 1024 if p == 'd' else 128]) - e + r.randint(-30, 30)
        return [a, m]
    elif op in 'vVwR':
        if k < .3:
            return [near(r, r.choice([1, -1]) * (r.getrandbits(r.randint(1, 64)) + r.choice([0, .5])), p)]
        if k < .5:
            return [near(r, r.randint(-20, 20) + .5, p, 1)]
    elif op == 'q':
        if k < .3:
            x = r.getrandbits(r.randint(1, 27 if p == 'd' else 12))
            return [near(r, float(x * x), p, 2)]
        if k < .6:
            return [anyb(r, p) & (1 << w - 1) - 1]
    elif op == 'h':
        n = r.choice([0, 1, 2, 3, 5, 12])
        return [anyb(r, p) if k < .4 else bits(r.uniform(-2, 2), p), n] + [anyb(r, p) if k < .4 else bits(r.uniform(-10, 10), p) for _ in range(n)]
    elif op == 'k':
        n = r.choice([0, 1, 2, 3, 5, 10, 30, 100])
        e = r.choice([1, 10, 30])
        v = [r.choice([1, -1]) * math.ldexp(1 + r.random(), r.randint(-e, e)) for _ in range(n)]
        if r.random() < .5:
            v += [-x for x in v]
            v += [r.uniform(-1, 1)]
            r.shuffle(v)
        v = [fromb(bits(x, p), p) for x in v]
        return [len(v)] + [bits(x, p) for x in v]
    return [anyb(r, p)]


def case(r):
    p, op = r.choice('df'), r.choice(OPS)
    return ' '.join([p, op] + [str(a) for a in args(r, op, p)])


def streams(r, n):
    yield 'c51', (), [case(r) for _ in range(n)]


def refs(ck, lines):
    with tempfile.TemporaryDirectory(dir='/dev/shm') as tmp:
        exe = tmp + '/fpref'
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'csrc', 'fpref.c')
        p = subprocess.run(['gcc', '-O2', '-w', '-o', exe, src, '-lquadmath', '-lm'], capture_output=True, text=True)
        if p.returncode:
            raise Inconclusive('reference does not compile: ' + p.stderr[:500])
        p = subprocess.run([exe], input='\n'.join(lines) + '\n', capture_output=True, text=True, timeout=900)
    out = p.stdout.split('\n')[:-1]
    if p.returncode or len(out) != len(lines):
        raise Inconclusive('reference failed')
    return out


# greatest error accepted, in ulps of the exact value; 0: exactly rounded
LIMIT = dict.fromkeys(OPS, 1.0)
LIMIT.update(dict.fromkeys('mq2vVwRh', 0.0))
LIMIT.update(a=32.0, A=32.0, s=8.0, c=8.0, S=8.0, T=8.0, t=16.0, r=4.0)


def limit(op, p, c, o):
    if op == 'n':  # the last bits of the logarithm are magnified
        return 4.0 if abs(int(c.split()[3])) < 2**20 else 4096.0
    if op == 'p':  # may overflow early by a hair
        return 4096.0 if o in ('9218868437227405312', '2139095040') else 2.0
    if p == 'f' and op in 'aAscStT':
        return 1.0
    return LIMIT[op]


def judge(ck, cmds, outs):
    lines = [c + ' | ' + o for c, o in zip(cmds, outs) if not o.startswith('!')]
    ref = iter(refs(ck, lines))
    for c, o in zip(cmds, outs):
        p, op = c.split()[:2]
        name = NAMES[op] + ('' if p == 'd' else ' (flt32)')
        key = c
        ck.saw(key)
        if o.startswith('!'):
            ck.violation('%s: crash on %s' % (name, c[:200]), '%s: %s' % (c, o))
            continue
        e = next(ref)
        show = ' '.join('%r' % fromb(int(t), p) if int(t) >= 0 and (i == 0 or op in 'AmphkqS') else t for i, t in enumerate(c.split()[2:6]))
        if e.startswith('bad'):
            ck.violation('%s: %s' % (name, c[:200]), '%s of %s (%s): got %s, expected %s' % (name, show, c[:200], o, e[4:]))
            continue
        if 'changed' in e:
            ck.violation('%s: argument changed by %s' % (name, c[:200]), '%s: the numbers summed were changed' % c[:200])
        worst = max(float(x) for x in e.split()[:2])
        ck.worst[name] = max(ck.worst.get(name, 0), worst)
        lim = limit(op, p, c, o)
        if worst > lim:
            ck.violation('%s: %s' % (name, c[:200]), '%s of %s (%s): got %s, off by %s ulps (at most %s)' % (name, show, c[:200], o, e, lim))


def check(ck):
    ck.worst = {}
    d = Driver(ck, Tree('all'), 'c51')
    r = ck.sub('c')
    cmds = [case(r) for _ in range(ck.n(60000, 2000000))]
    for i in range(0, len(cmds), 200000):
        part = cmds[i:i + 200000]
        judge(ck, part, d.run(part, timeout=400))
    ck.extra['worst error seen, in ulps'] = {k: round(v, 4) for k, v in sorted(ck.worst.items())}
    ck.rule = 'every result within the stated error of the quad precision value (libquadmath, exact integer arithmetic for the exact ones), special values as IEEE 754 has them, arguments never modified'
