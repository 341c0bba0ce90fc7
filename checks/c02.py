"""C02: differential check of floating-point code against IEEE 754 arithmetic."""
import warnings
import numpy as np
warnings.filterwarnings('ignore', category=RuntimeWarning)
from vf.core import *
from vf.ints import *
from vf.progs import Packer, Test

TECH = 'runtime monitoring: differential execution of generated programs against IEEE 754 arithmetic (numpy single and double)'
NOTE = ('equality of NaN is judged by one fixed case (a known finding); any NaN counts as any other; literals are read as the nearest double first, so single precision literals exactly half way '
        'between two singles are not generated; out-of-range float-to-int casts are not generated')

F = {'flt32': np.float32, 'flt64': np.float64}
np.seterr(all='ignore')
B32 = [0, 1, 0x7fffff, 0x800000, 0x3f800000, 0x3f800001, 0x3f7fffff, 0x7f7fffff, 0x7f800000, 0x7fc00000, 0x4b000000, 0x4b800000, 0x4f000000, 0x5f000000, 0x40490fdb, 0x7f800001]
B64 = [0, 1, 0xfffffffffffff, 0x10000000000000, 0x3ff0000000000000, 0x3ff0000000000001, 0x3fefffffffffffff, 0x7fefffffffffffff, 0x7ff0000000000000, 0x7ff8000000000000,
       0x4330000000000000, 0x4340000000000000, 0x43e0000000000000, 0x400921fb54442d18, 0x7ff0000000000001, 0x47efffffe0000000, 0x47effffff0000000, 0x36a0000000000000, 0x3690000000000000]


def frombits(t, u):
    return np.uint32(u).view(np.float32) if t == 'flt32' else np.uint64(u).view(np.float64)


def bits(t, v):
    return int(F[t](v).view(np.uint32 if t == 'flt32' else np.uint64))


def fvalue(r, t):
    """any value"""
    k = r.random()
    w = 32 if t == 'flt32' else 64
    if k < .3:
        return frombits(t, r.choice(B32 if w == 32 else B64) | r.randrange(2) << w - 1)
    if k < .4:
        return frombits(t, r.getrandbits(w))
    if k < .7:
        return F[t](r.choice([-1, 1]) * r.randrange(0, 1000) / r.choice([1, 1, 2, 4, 10]))
    if k < .85:
        return F[t](r.uniform(-10, 10))
    return F[t](r.choice([-1, 1]) * 2.0**r.randint(-40, 70) * r.choice([1, 1.5, r.random()]))


def isplain(v):
    return np.isfinite(v)


def flit(r, t, v):
    """Literal or other constant expression for a value; None if only its bits can say it."""
    if not isplain(v):
        return None
    a = abs(float(v))
    if t == 'flt32':
        s = repr(np.float32(abs(v)).item()) if r.random() < .5 else np.format_float_positional(abs(v)) if 1e-6 < a < 1e12 else repr(a)
    else:
        s = repr(a)
    if s.endswith('.'):
        s += '0'
    if 'e' in s:
        m, e = s.split('e')
        if '.' not in m:
            m += '.0'
        s = m + r.choice('eE') + (e if e[0] in '+-' else r.choice(['', '+']) + e)
    elif '.' not in s:
        s += '.0'
    if np.signbit(v):
        s = '(-%s)' % s
    return s


class Gen:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.decls, self.body, self.expect = [], [], []
        self.n = 0
        self.fns = {}
        self.vars = {}
        self.bare = set()   # expressions of literals only: their type comes from around them

    def id(self, p):
        self.n += 1
        return '%s%s_%d' % (p, self.name, self.n)

    def fn(self, kind, t):
        if (kind, t) not in self.fns:
            f = self.fns[kind, t] = self.id(kind)
            if kind == 'id':
                self.decls.append('const %s = {x : %s\n\t-> x\n}' % (f, t))
            elif kind == 'bits':
                self.decls.append('const %s = {x : uint%s\n\tvar f : %s = 0.0\n\tvar p = (&f : uint%s#)\n\tp# = x\n\t-> f\n}' % (f, t[3:], t, t[3:]))
        return self.fns[kind, t]

    def const(self, t, v, deep=True):
        l = flit(self.r, t, v)
        if l is None or self.r.random() < .05:
            return '%s(0x%x)' % (self.fn('bits', t), bits(t, v))
        return l

    def named(self, t):
        r = self.r
        have = self.vars.setdefault(t, [])
        if have and r.random() < .6:
            return r.choice(have)
        v = fvalue(r, t)
        k = r.randrange(11)
        l = flit(r, t, v)
        if l is None:
            l = '%s(0x%x)' % (self.fn('bits', t), bits(t, v))
            k = r.choice([3, 4, 5, 6, 7, 8, 9, 10])
        n = self.id('v')
        other = lambda: flit(r, t, F[t](r.randrange(100)))
        if k == 0:
            self.decls.append('const %s : %s = %s' % (n, t, l))
            x = n
        elif k == 1:
            self.decls.append('var %s : %s = %s' % (n, t, l))
            x = n
        elif k == 2:
            f = self.id('f')
            self.decls.append('const %s = {-> %s\n\t-> %s\n}' % (f, t, l))
            x = '%s()' % f
        elif k in (3, 4):
            self.body.append('var %s : %s = %s' % (n, t, l if k == 3 else '%s(%s)' % (self.fn('id', t), l)))
            x = n
        elif k == 5:
            fs = [r.choice(['flt32', 'flt64', 'int', 'byte', 'int64']) for _ in range(3)]
            i = r.randrange(3)
            fs[i] = t
            s = self.id('S')
            self.decls.append('type %s = struct\n%s\n;;' % (s, '\n'.join('\tf%d : %s' % (j, x) for j, x in enumerate(fs))))
            self.body.append('var %s : %s = [%s]' % (n, s, ', '.join('.f%d = %s' % (j, l if j == i else '2.5' if x[0] == 'f' else '7') for j, x in enumerate(fs))))
            x = '%s.f%d' % (n, i)
        elif k == 6:
            ln = r.randrange(1, 6)
            i = r.randrange(ln)
            es = [other() for _ in range(ln)]
            es[i] = l
            self.body.append('var %s : %s[%d] = [%s]' % (n, t, ln, ', '.join(es)))
            x = '%s[%d]' % (n, i) if r.random() < .5 else '%s[:][%d]' % (n, i)
        elif k == 7:
            self.body += ['var %s : %s = %s' % (n, t, l), 'var %sp = &%s' % (n, n)]
            x = '%sp#' % n
        elif k == 8:
            i = r.randrange(2)
            self.body.append('var %s : %s = (%s)' % (n, '(%s, int)' % t if i == 0 else '(byte, %s)' % t, ', '.join([l, '3'] if i == 0 else ['3', l])))
            x = '%s.%d' % (n, i)
        elif k == 9:
            u = self.id('U')
            f = self.id('f')
            self.decls.append('type %s = union\n\t`%sA %s\n\t`%sB\n;;' % (u, u, t, u))
            self.decls.append('const %s = {u : %s\n\tmatch u\n\t| `%sA x:\t-> x\n\t| `%sB:\t-> 0.0\n\t;;\n}' % (f, u, u, u))
            self.body.append('var %s : %s = `%sA %s' % (n, u, u, l))
            x = '%s(%s)' % (f, n)
        else:
            self.body += ['var %sb : %s = %s' % (n, t, l), 'var %s = {\n\t\t-> %sb\n\t}' % (n, n)]
            x = '%s()' % n
        have.append((x, v))
        return x, v

    def fix(self, t, x):
        """x, certain to be of type t"""
        return '%s(%s)' % (self.fn('id', t), x) if x in self.bare else x

    def leaf(self, t):
        r = self.r
        if r.random() < .3:
            v = fvalue(r, t)
            x = self.const(t, v)
            if x[0] != 'b':
                self.bare.add(x)
            return x, v
        x, v = self.named(t)
        if r.random() < .15:
            x = '%s(%s)' % (self.fn('id', t), x)
        return x, v

    def expr(self, t, d):
        r = self.r
        if d <= 0:
            return self.leaf(t)
        k = r.random()
        if k < .6:
            op = r.choice('+-*/')
            a, av = self.expr(t, d - 1)
            b, bv = self.expr(t, d - 1)
            v = arith(op, av, bv)
            x = '(%s %s %s)' % (a, op, b)
            if a in self.bare and b in self.bare:
                self.bare.add(x)
            return x, F[t](v)
        if k < .68:
            a, av = self.expr(t, d - 1)
            x = '(-(%s))' % a
            if a in self.bare:
                self.bare.add(x)
            return x, F[t](-av)
        if k < .76:
            s = r.choice(['flt32', 'flt64'])
            a, av = self.expr(s, d - 1)
            a = self.fix(s, a)
            return '(%s : %s)' % (a, t), F[t](av)
        if k < .86:  # int to float
            it = r.choice(TYPES)
            v = value(r, it)
            n = self.id('i')
            self.body.append('var %s : %s = %s' % (n, it.name, lit(r, it, v)))
            return '(%s : %s)' % (n, t), i2f(t, v)
        if k < .93:
            c, cv = self.cond(d - 1)
            a, av = self.expr(t, d - 1)
            b, bv = self.expr(t, d - 1)
            x = '(%s ? %s : %s)' % (c, a, b)
            if a in self.bare and b in self.bare:
                self.bare.add(x)
            return x, av if cv else bv
        return self.leaf(t)

    def cond(self, d):
        r = self.r
        k = r.random()
        if d > 0 and k < .25:
            a, av = self.cond(d - 1)
            b, bv = self.cond(d - 1)
            op = r.choice(['&&', '||'])
            return '(%s %s %s)' % (a, op, b), (av and bv) if op == '&&' else (av or bv)
        if d > 0 and k < .4:
            a, av = self.cond(d - 1)
            return '(!%s)' % a, not av
        t = r.choice(['flt32', 'flt64'])
        a, av = self.expr(t, d - 1)
        b, bv = self.expr(t, d - 1)
        if a in self.bare and b in self.bare:
            a = self.fix(t, a)
        m = r.random()
        if m < .2:
            b, bv = a, av
        elif m < .35:
            b = '%s(0x%x)' % (self.fn('bits', t), bits(t, np.nan))
            bv = F[t](np.nan)
            if r.random() < .5:
                a, av, b, bv = b, bv, a, av
        op = r.choice(CMP[2:] if np.isnan(av) or np.isnan(bv) else CMP)  # equality of NaN: fixed case below
        return '(%s %s %s)' % (a, op, b), bool(cmpop(op, av, bv))

    def show(self, t, x, v):
        self.body += ['dio.f%s(%s)' % (t[3:], x), 'dio.endl()']
        self.expect.append('nan' if np.isnan(v) else '%016x' % bits(t, v))

    def stmt(self):
        r = self.r
        t = r.choice(['flt32', 'flt64'])
        d = r.choice([1, 1, 2, 3, 4])
        k = r.random()
        if k < .35:
            self.show(t, *self.expr(t, d))
        elif k < .5:
            c, v = self.cond(d)
            a, b = r.randrange(1000), r.randrange(1000)
            m = r.randrange(3)
            if m == 0:
                self.body += ['if %s' % c, '\tdio.num(%d)' % a, 'else', '\tdio.num(%d)' % b, ';;', 'dio.endl()']
            elif m == 1:
                self.body += ['while %s' % c, '\tdio.num(%d)' % a, '\tbreak', ';;', 'dio.num(%d)' % b, 'dio.endl()']
                self.expect.append('%d %d' % (a, b) if v else str(b))
                return
            else:
                n = self.id('c')
                self.body += ['var %s = %s' % (n, c), 'if !%s' % n, '\tdio.num(%d)' % b, 'else', '\tdio.num(%d)' % a, ';;', 'dio.flag(%s)' % n, 'dio.endl()']
                self.expect.append('%d %s' % (a if v else b, 1 if v else 0))
                return
            self.expect.append(str(a if v else b))
        elif k < .62:  # float to int
            it = r.choice([x for x in TYPES if x.name != 'bool'])
            x, v = self.expr(t, d)
            lo, hi = it.lo, it.hi
            if not (np.isfinite(v) and lo <= int(v) <= hi):
                v = F[t](value(r, it))
                for _ in range(4):
                    if lo <= int(v) <= hi:
                        break
                    v = np.nextafter(v, F[t](0))
                if r.random() < .4 and abs(v) < 2**20:
                    w = v + F[t](r.choice([.5, .25, -.5, .75]))
                    v = w if lo <= int(w) <= hi else v
                x = self.const(t, v)
                if x[0] != 'b':
                    self.bare.add(x)
            if not lo <= int(v) <= hi:
                return
            n = self.id('i')
            self.body += ['var %s = (%s : %s)' % (n, self.fix(t, x), it.name), 'dio.xnum((%s : uint64))' % n, 'dio.endl()']
            self.expect.append('%016x' % (int(v) & 2**64 - 1))
        elif k < .74:  # fused
            x, v = self.expr(t, d)
            n = self.id('m')
            pre, post = fvalue(r, t), fvalue(r, t)
            kind = r.randrange(2)
            p, q = self.const(t, pre), self.const(t, post)
            if kind == 0:
                self.body.append('var %s : %s[3] = [%s, %s, %s]' % (n, t, p, x, q))
                fs = ['%s[%d]' % (n, i) for i in range(3)]
            else:
                s = self.id('S')
                self.decls.append('type %s = struct\n\ta : %s\n\tb : %s\n\tc : %s\n;;' % (s, t, t, t))
                self.body.append('var %s : %s = [.a = %s, .c = %s, .b = %s]' % (n, s, p, q, x))
                fs = ['%s.%s' % (n, c) for c in 'abc']
            for _ in range(r.randrange(1, 4)):
                op = r.choice('+-*/')
                b, bv = self.expr(t, 1)
                v = F[t](arith(op, v, bv))
                self.body.append('%s %s= %s' % (fs[1], op, b))
            for f, fv in zip(fs, (pre, v, post)):
                self.show(t, f, fv)
        elif k < .88:  # argument lists, mixed
            m = r.randrange(2, 14)
            ts = [r.choice(['flt32', 'flt64', 'flt64', 'int', 'int64', 'byte']) for _ in range(m)]
            f = self.id('s')
            ret = r.choice(['flt32', 'flt64'])
            w = [r.choice([1, 3, 7, -5, 11, 13, 2]) for _ in range(m)]
            self.decls.append('const %s = {%s -> %s\n\t-> %s\n}' % (
                f, ', '.join('a%d : %s' % a for a in enumerate(ts)), ret,
                ' + '.join('(a%d : %s) * %s%d.0%s' % (i, ret, '(' if w[i] < 0 else '', w[i], ')' if w[i] < 0 else '') for i in range(m))))
            xs, tot = [], None
            for i, x in enumerate(ts):
                if x[0] == 'f':
                    e, v = self.expr(x, d - 1)
                    v = F[ret](v)
                else:
                    it = BY[x]
                    v = value(r, it)
                    e = lit(r, it, v)
                    v = i2f(ret, v)
                xs.append(e)
                v = F[ret](v * F[ret](w[i]))
                tot = v if tot is None else F[ret](tot + v)
            self.show(ret, '%s(%s)' % (f, ', '.join(xs)), tot)
        elif k < .95:  # many live values, and a call in between
            m = r.randrange(5, 24)
            ns, vs = [], []
            for i in range(m):
                x, v = self.expr(t, 1)
                n = self.id('l')
                self.body.append('var %s = %s' % (n, self.fix(t, x)))
                ns.append(n)
                vs.append(v)
            x, tot = self.expr(t, 1)
            n = self.id('t')
            self.body.append('var %s = %s(%s)' % (n, self.fn('id', t), x))
            for i in r.sample(range(m), m):
                op = r.choice('+-*')
                self.body.append('%s = %s %s %s' % (n, n, op, ns[i]))
                tot = F[t](arith(op, tot, vs[i]))
            self.show(t, n, tot)
            for i in r.sample(range(m), 3):
                self.show(t, ns[i], vs[i])
        else:  # loop
            n, c = self.id('x'), self.id('i')
            x, v = self.expr(t, 1)
            y, w = self.expr(t, 1)
            op = r.choice('+-*/')
            k = r.randrange(1, 9)
            self.body += ['var %s = %s(%s)' % (n, self.fn('id', t), x), 'var %s : %s = 0.0' % (c, t), 'while %s < %d.0' % (c, k), '\t%s = %s %s %s' % (n, n, op, y), '\t%s += 0.5' % c, ';;']
            for _ in range(2 * k):
                v = F[t](arith(op, v, w))
            self.show(t, n, v)


def i2f(t, v):
    a = np.uint64(v) if v >= 2**63 else np.int64(v)
    return a.astype(F[t])


def arith(op, a, b):
    return a + b if op == '+' else a - b if op == '-' else a * b if op == '*' else np.divide(a, b)


def gen(r, name):
    g = Gen(r, name)
    for _ in range(r.choice([4, 6, 8])):
        g.stmt()
    return Test(name, '\n'.join(g.decls), g.body, g.expect)


def table(r, name):
    """One function of two floats, over a table of values, with every comparison in both positions."""
    t = r.choice(['flt32', 'flt64'])

    def ex(d):
        k = r.random()
        if d == 0 or k < .15:
            c = r.random()
            if c < .8:
                x = r.choice('ab')
                return x, x
            v = F[t](r.randrange(-8, 9) / 2)
            return flit(r, t, v), "F[t](%r)" % float(v)
        if k < .7:
            op = r.choice('+-*/')
            x, y = ex(d - 1), ex(d - 1)
            return '(%s %s %s)' % (x[0], op, y[0]), 'F[t](arith(%r, %s, %s))' % (op, x[1], y[1])
        if k < .8:
            x = ex(d - 1)
            return '(-(%s))' % x[0], 'F[t](-(%s))' % x[1]
        o = 'flt32' if t == 'flt64' else 'flt64'
        x = ex(d - 1)
        if x[0].lstrip('(-')[:1].isdigit():
            return x
        return '((%s : %s) : %s)' % (x[0], o, t), 'F[t](F[%r](%s))' % (o, x[1])
    w = t[3:]
    e, f = ex(r.randrange(1, 4)), ex(r.randrange(0, 3))
    op, op2 = r.choice(CMP), r.choice(CMP)
    m = r.randrange(4)
    cond, pc = [('%s %s %s' % (e[0], op, f[0]), 'cmpop(op, e, f)'),
                ('!(%s %s %s)' % (e[0], op, f[0]), 'not cmpop(op, e, f)'),
                ('(%s %s %s) && (a %s b)' % (e[0], op, f[0], op2), 'cmpop(op, e, f) and cmpop(op2, a, b)'),
                ('(%s %s %s) || !(a %s b)' % (e[0], op, f[0], op2), 'cmpop(op, e, f) or not cmpop(op2, a, b)')][m]
    decls = '''const f%(n)s = {x : uint%(w)s, y : uint%(w)s
	var a : %(t)s = std.%(t)sfrombits(x), b : %(t)s = std.%(t)sfrombits(y)
	var e : %(t)s = %(e)s
	dio.f%(w)s(e)
	if %(c)s
		dio.num(1)
	else
		dio.num(0)
	;;
	dio.flag(%(c)s)
	dio.endl()
}''' % dict(n=name, w=w, t=t, e=e[0], c=cond)
    vals = [(fvalue(r, t), fvalue(r, t)) for _ in range(12)]
    vals += [(a, a) for a, _ in vals[:3]]
    c = compile('(%s, %s, %s)' % (e[1], f[1], pc.replace('op, e, f', 'op, %s, %s' % (e[1], f[1]))), 'x', 'eval')
    body, exp = [], []
    for a, b in vals:
        if np.isnan([a, b]).any() and op2 in CMP[:2] or op in CMP[:2] and np.isnan([eval(x[1], globals(), dict(a=a, b=b, t=t)) for x in (e, f)]).any():
            continue
        body.append('f%s(0x%x, 0x%x)' % (name, bits(t, a), bits(t, b)))
        v, _, cv = eval(c, globals(), dict(a=a, b=b, t=t, op=op, op2=op2))
        exp.append('%s %d %d' % ('nan' if np.isnan(v) else '%016x' % bits(t, v), cv, cv))
    return Test(name, decls, body, exp)


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c02')
    n = ck.n(1500, 20000)
    r = ck.sub('gen')
    tests = [(gen if r.random() < .65 else table)(r, 'g%d' % i) for i in range(n)]
    pk.check(tests, per=25)
    pk.check([Test('naneq', 'const nan_naneq = {-> flt64; -> std.flt64frombits(0x7ff8000000000000)}',
                   ['var n = nan_naneq()', 'dio.flag(n == 1.0)', 'dio.flag(n != 1.0)', 'dio.flag(n == n)', 'dio.flag(n != n)', 'dio.endl()'], ['0 1 0 1'])],
             sigf=lambda t, w: 'fixed case naneq')
    ck.count('output lines compared', sum(len(t.expect) for t in tests))
    ck.rule = 'every printed bit pattern equals the one computed with IEEE 754 single and double arithmetic; every branch and every condition value as the standard orders the operands (NaN unordered)'
