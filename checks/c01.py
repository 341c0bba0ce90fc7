"""C01: differential check of integer expressions against exact arithmetic."""
from vf.core import *
from vf.ints import *
from vf.progs import Packer, Test

PRELUDE = ''


def islit(x):
    return x.lstrip('-')[:1].isdigit() or x[:1] == "'"


class Gen:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.decls, self.body, self.expect = [], [], []
        self.n = 0
        self.fns = {}
        self.vars = {}       # type name -> [(text, value)]
        self.vol = []        # assignable: (text, type)

    def id(self, p):
        self.n += 1
        return '%s%s_%d' % (p, self.name, self.n)

    def ident(self, t):
        if t.name not in self.fns:
            f = self.id('id')
            self.fns[t.name] = f
            self.decls.append('const %s = {x : %s\n\t-> x\n}' % (f, t.name))
        return self.fns[t.name]

    def named(self, t):
        """An operand with a name; declared on demand."""
        r = self.r
        have = self.vars.setdefault(t.name, [])
        if have and r.random() < 0.6:
            return r.choice(have)
        v = value(r, t)
        k = r.randrange(9)
        l = lit(r, t, v)
        n = self.id('v')
        if k == 0:
            self.decls.append('const %s : %s = %s' % (n, t.name, l))
            x = n
        elif k == 1:
            self.decls.append('var %s : %s = %s' % (n, t.name, l))
            x = n
        elif k == 2:
            self.body.append('const %s : %s = %s' % (n, t.name, l))
            x = n
        elif k == 3:
            self.body.append('var %s : %s = %s' % (n, t.name, l))
            x = n
        elif k == 4:
            self.body.append('var %s : %s = %s(%s)' % (n, t.name, self.ident(t), l))
            x = n
        elif k == 5:
            f = [r.choice(TYPES).name for _ in range(3)]
            i = r.randrange(3)
            f[i] = t.name
            s = self.id('S')
            self.decls.append('type %s = struct\n%s\n;;' % (s, '\n'.join('\tf%d : %s' % (j, f[j]) for j in range(3))))
            ini = ', '.join('.f%d = %s' % (j, l if j == i else lit(r, BY[f[j]], value(r, BY[f[j]]))) for j in range(3))
            if r.random() < .5:
                self.body.append('var %s : %s = [%s]' % (n, s, ini))
            else:
                self.decls.append('var %s : %s = [%s]' % (n, s, ini))
            x = '%s.f%d' % (n, i)
        elif k == 6:
            ln = r.randrange(1, 6)
            i = r.randrange(ln)
            es = [lit(r, t, value(r, t)) for _ in range(ln)]
            es[i] = l
            if r.random() < .5:
                self.body.append('var %s : %s[%d] = [%s]' % (n, t.name, ln, ', '.join(es)))
            else:
                self.decls.append('var %s : %s[%d] = [%s]' % (n, t.name, ln, ', '.join(es)))
            x = '%s[%d]' % (n, i)
        elif k == 7:
            self.body.append('var %s : %s = %s' % (n, t.name, l))
            self.body.append('var %sp = &%s' % (n, n))
            x = '%sp#' % n
        else:
            f = self.id('f')
            self.decls.append('const %s = {\n\t-> %s\n}' % (f, l))
            x = '%s()' % f
        have.append((x, v))
        return x, v

    def nz(self, t):
        return '(0 : %s)' % t.name

    def leaf(self, t):
        r = self.r
        if r.random() < 0.35:
            v = value(r, t)
            return lit(r, t, v), v
        x, v = self.named(t)
        if r.random() < 0.15:
            x = '%s(%s)' % (self.ident(t), x)
        return x, v

    def expr(self, t, d):
        r = self.r
        if d <= 0:
            return self.leaf(t)
        k = r.random()
        if k < 0.62:
            op = r.choice(AR)
            for _ in range(6):
                a, av = self.expr(t, d - 1)
                if op in ('<<', '>>'):
                    m = r.random()
                    if m < 0.5:
                        bv = r.choice([0, 1, t.bits - 1, t.bits // 2, r.randrange(t.bits)])
                        b = lit(r, t, bv)
                    else:
                        b, bv = self.expr(t, d - 2)
                        if not 0 <= bv < t.bits:
                            b, bv = '((%s) & %d)' % (b, t.bits - 1), bv & (t.bits - 1)
                elif op in '/%':
                    b, bv = self.expr(t, d - 2)
                    if bv == 0 or (bv == -1 and av == t.lo):
                        b, bv = '((%s) | %s)' % (b, lit(r, t, 2)), t.wrap(bv | 2)
                else:
                    b, bv = self.expr(t, d - 1)
                    if r.random() < .5:
                        a, av, b, bv = b, bv, a, av
                try:
                    v = binop(op, t, av, bv)
                except Bad:
                    continue
                return '(%s %s %s)' % (a, op, b), v
            return self.leaf(t)
        if k < 0.70:
            a, av = self.expr(t, d - 1)
            op = r.choice('-~')
            return '(%s(%s))' % (op, a), t.wrap(-av if op == '-' else ~av)
        if k < 0.86:
            s = r.choice(TYPES)
            a, av = self.expr(s, d - 1)
            if islit(a) and t.wrap(av) != av:
                # a literal directly under a cast takes the type of the cast, and must fit it
                a = '(%s + %s)' % (a, self.nz(s))
            return '(%s : %s)' % (a, t.name), t.wrap(av)
        if k < 0.90:
            c, cv = self.cond(d - 1)
            return '(%s : %s)' % (c, t.name), int(cv)
        if k < 0.96:
            c, cv = self.cond(d - 1)
            a, av = self.expr(t, d - 1)
            b, bv = self.expr(t, d - 1)
            return '(%s ? %s : %s)' % (c, a, b), av if cv else bv
        return self.leaf(t)

    def cond(self, d):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.3:
            a, av = self.cond(d - 1)
            b, bv = self.cond(d - 1)
            op = r.choice(['&&', '||', '==', '!='])
            v = {'&&': av and bv, '||': av or bv, '==': av == bv, '!=': av != bv}[op]
            return '(%s %s %s)' % (a, op, b), v
        if d > 0 and k < 0.42:
            a, av = self.cond(d - 1)
            return '(!%s)' % a, not av
        if k < 0.5:
            v = r.random() < .5
            return ('true' if v else 'false'), v
        t = r.choice(TYPES)
        a, av = self.expr(t, d - 1)
        b, bv = self.expr(t, d - 1)
        if r.random() < 0.25:
            b, bv = a, av
        op = r.choice(CMP)
        return '(%s %s %s)' % (a, op, b), cmpop(op, av, bv)

    def show(self, t, x, v):
        """Prints x; v is its value."""
        k = self.r.randrange(3)
        if k == 0 or (t.signed and k == 1):
            self.body.append('dio.num((%s : int64))' % x)
            self.expect.append(str(BY['int64'].wrap(v)))
        else:
            self.body.append('dio.xnum((%s : uint64))' % x)
            self.expect.append('%016x' % (v & (2**64 - 1)))
        self.body.append('dio.endl()')

    def stmt(self):
        r = self.r
        k = r.random()
        t = r.choice(TYPES)
        d = r.choice([1, 1, 2, 2, 3, 4])
        if k < 0.45:
            x, v = self.expr(t, d)
            self.show(t, x, v)
        elif k < 0.6:
            c, v = self.cond(d)
            a, b = r.randrange(1000), r.randrange(1000)
            self.body += ['if %s' % c, '\tdio.num(%d)' % a, 'else', '\tdio.num(%d)' % b, ';;', 'dio.endl()']
            self.expect.append(str(a if v else b))
        elif k < 0.8:
            # fused assignment between sentinels
            x, v = self.expr(t, d)
            n = self.id('m')
            pre, post = value(r, t), value(r, t)
            kind = r.randrange(3)
            if kind == 0:
                self.body.append('var %s : %s[3] = [%s, %s, %s]' % (n, t.name, lit(r, t, pre), x, lit(r, t, post)))
                fs = ['%s[%d]' % (n, i) for i in range(3)]
            elif kind == 1:
                s = self.id('S')
                self.decls.append('type %s = struct\n\ta : %s\n\tb : %s\n\tc : %s\n;;' % (s, t.name, t.name, t.name))
                self.body.append('var %s : %s = [.a = %s, .c = %s, .b = %s]' % (n, s, lit(r, t, pre), lit(r, t, post), x))
                fs = ['%s.%s' % (n, c) for c in 'abc']
            else:
                for i, e in enumerate((lit(r, t, pre), x, lit(r, t, post))):
                    self.body.append('var %s_%d : %s = %s' % (n, i, t.name, e))
                fs = ['%s_%d' % (n, i) for i in range(3)]
            for _ in range(r.randrange(1, 4)):
                op = r.choice(AR)
                try:
                    if op in ('<<', '>>'):
                        bv = r.randrange(t.bits)
                        b = lit(r, t, bv)
                    else:
                        b, bv = self.expr(t, 1)
                    nv = binop(op, t, v, bv)
                except Bad:
                    continue
                self.body.append('%s %s= %s' % (fs[1], op, b))
                v = nv
            for f, fv in zip(fs, (pre, v, post)):
                self.show(t, f, fv)
        elif k < 0.9:
            # compile-time constant of global scope; every operand is a literal or constant
            save, self.named = self.named, self.const_named
            sv, self.ident_ok = getattr(self, 'ident_ok', True), False
            x, v = self.cexpr(t, d)
            self.named = save
            n = self.id('g')
            self.decls.append('%s %s : %s = %s' % (r.choice(['const', 'var']), n, t.name, x))
            self.show(t, n, v)
        else:
            # many live values at once: an argument list
            m = r.randrange(2, 9)
            ts = [r.choice(TYPES) for _ in range(m)]
            f = self.id('s')
            w = [r.choice([1, 3, 7, -5, 11, 13, 0x10001]) for _ in range(m)]
            self.decls.append('const %s = {%s\n\t-> %s\n}' % (
                f, ', '.join('a%d : %s' % (i, x.name) for i, x in enumerate(ts)),
                ' + '.join('(a%d : int64) * %d' % (i, w[i]) for i in range(m))))
            xs = [self.expr(x, d - 1) for x in ts]
            v = 0
            for (x, xv), wi in zip(xs, w):
                v += BY['int64'].wrap(xv) * wi
            self.show(BY['int64'], '%s(%s)' % (f, ', '.join(x for x, _ in xs)), BY['int64'].wrap(v))

    consts = None

    def const_named(self, t):
        return None

    def cexpr(self, t, d):
        """Constant-initialiser expressions: literals, constants and + - * / % & | ^ << >> - casts."""
        r = self.r
        if d <= 0 or r.random() < 0.1:
            v = value(r, t)
            if r.random() < 0.3:
                n = self.id('k')
                self.decls.append('const %s : %s = %s' % (n, t.name, lit(r, t, v)))
                return n, v
            return lit(r, t, v), v
        k = r.random()
        if k < 0.8:
            for _ in range(8):
                op = r.choice(AR)
                a, av = self.cexpr(t, d - 1)
                if op in ('<<', '>>'):
                    bv = r.randrange(t.bits)
                    b = lit(r, t, bv)
                else:
                    b, bv = self.cexpr(t, d - 1)
                try:
                    return '(%s %s %s)' % (a, op, b), binop(op, t, av, bv)
                except Bad:
                    pass
        if k < 0.87:
            a, av = self.cexpr(t, d - 1)
            return '(-(%s))' % a, t.wrap(-av)
        s = r.choice(TYPES)
        a, av = self.cexpr(s, d - 1)
        if islit(a) and t.wrap(av) != av:
            a = '(%s + (0 : %s))' % (a, s.name)
        return '(%s : %s)' % (a, t.name), t.wrap(av)


def qt(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def rm(a, b):
    return a - b * qt(a, b)


def pw(t, e):
    if t.signed:
        return '((%s + %d & %d) - %d)' % (e, 1 << (t.bits - 1), (1 << t.bits) - 1, 1 << (t.bits - 1))
    return '(%s & %d)' % (e, (1 << t.bits) - 1)


class Tab:
    """A function of two run-time values, evaluated over a table of value pairs: the same code
    sees many operands.  Expressions come with Python source of their exact value."""

    def __init__(self, r, name):
        self.r, self.name = r, name
        self.tx, self.ty = r.choice(TYPES), r.choice(TYPES)
        if r.random() < .6:
            self.ty = self.tx
        self.tr = self.tx if r.random() < .7 else r.choice(TYPES)

    def cast(self, t, e):
        """e = (text, python source, type) as a value of t"""
        if e[2] is t:
            return e
        return '(%s : %s)' % (e[0], t.name), pw(t, e[1]), t

    def const(self, t, v):
        v = t.wrap(v)
        return lit(self.r, t, v), str(v) if v >= 0 else '(%d)' % v, t

    def bin(self, op, a, b):
        t = a[2]
        p = {'/': 'qt(%s, %s)', '%': 'rm(%s, %s)'}.get(op, '(%s ' + op + ' %s)') % (a[1], b[1])
        return '(%s %s %s)' % (a[0], op, b[0]), pw(t, p), t

    def leaf(self, t):
        r = self.r
        if r.random() < .3:
            return self.const(t, value(r, t))
        return self.cast(t, r.choice([('x', 'x', self.tx), ('y', 'y', self.ty)]))

    def nonzero(self, e):
        """a divisor that is neither 0 nor -1"""
        t = e[2]
        return self.bin('+', self.bin('&', e, self.const(t, t.hi >> self.r.choice([1, 1, t.bits // 2]))), self.const(t, self.r.choice([1, 2, 3])))

    def idiom(self, t):
        r = self.r
        x = self.leaf(t) if r.random() < .5 else self.cast(t, ('x', 'x', self.tx))
        y = self.leaf(t)
        c = lambda v: self.const(t, v)
        k = r.randrange(1, t.bits)
        m = t.bits - k if r.random() < .75 else r.randrange(t.bits)
        B = self.bin
        i = r.randrange(17)
        if i < 4:
            z = x if r.random() < .85 else y
            a, b = B('<<', x, c(k)), B('>>', z, c(m))
            if r.random() < .5:
                a, b = b, a
            return B(r.choice('|||+^'), a, b)
        if i == 4:
            return B('>>', B('<<', x, c(k)), c(k))
        if i == 5:
            return B('<<', B('>>', x, c(k)), c(k))
        if i == 6:
            return B('*', x, c(r.choice([2, 3, 4, 5, 8, 9, 10, 16, 64, 100, 127, 128, 255, 1 << k, (1 << k) - 1, -1, -2, -(1 << k)])))
        if i == 7:
            d = r.choice([2, 3, 4, 5, 7, 8, 10, 16, 100, 127, 1 << min(k, t.bits - 2), t.hi])
            return B(r.choice('/%'), x, c(d))
        if i == 8:
            d = r.choice([-2, -3, -4, -8, -10, t.lo]) if t.signed else r.choice([t.hi, t.hi - 1, 1 << (t.bits - 1), (1 << (t.bits - 1)) + 1])
            return B(r.choice('/%'), x, c(d))
        if i == 9:
            return B('&', x, c((1 << k) - 1))
        if i == 10:
            return B(r.choice('-^&|+'), x, x)
        if i == 11:
            o = r.choice('+-*&|^')
            return B(o, B(o, x, c(value(r, t))), c(value(r, t)))
        if i == 12:
            o = r.choice(['+', '-'])
            return B(o, c(value(r, t)), B(r.choice('+-'), x, c(value(r, t))))
        if i == 13:
            op = r.choice(CMP)
            return '(%s %s %s ? %s : %s)' % (x[0], op, y[0], x[0], y[0]), '(%s if %s %s %s else %s)' % (x[1], x[1], op, y[1], y[1]), t
        if i == 14:
            return B('+', B('&', x, y), B('>>', B('^', x, y), c(1)))
        if i == 15:
            return B('&', B('>>', x, c(r.randrange(0, t.bits, 8))), c(0x7f if t.hi < 255 else 0xff))
        return B(r.choice('+-'), B('*', x, y), B('*', y, c(value(r, t))))

    def expr(self, t, d):
        r = self.r
        if d <= 0:
            return self.leaf(t)
        k = r.random()
        if k < .3:
            return self.idiom(t)
        if k < .7:
            op = r.choice(AR)
            a = self.expr(t, d - 1)
            if op in ('<<', '>>'):
                if r.random() < .5:
                    b = self.const(t, r.randrange(t.bits))
                else:
                    b = self.bin('&', self.expr(t, d - 1), self.const(t, t.bits - 1))
            elif op in '/%':
                b = self.nonzero(self.expr(t, d - 1))
            else:
                b = self.expr(t, d - 1)
            return self.bin(op, a, b)
        if k < .76:
            a = self.expr(t, d - 1)
            op = r.choice('-~')
            return '(%s(%s))' % (op, a[0]), pw(t, '(%s%s)' % (op, a[1])), t
        if k < .9:
            s = r.choice(TYPES)
            a = self.expr(s, d - 1)
            if islit(a[0]):
                a = self.bin('+', self.cast(s, ('x', 'x', self.tx)), a)
            return '(%s : %s)' % (a[0], t.name), pw(t, a[1]), t
        c, cp = self.cond(d - 1)
        if r.random() < .4:
            return '(%s : %s)' % (c, t.name), '(1 if %s else 0)' % cp, t
        a, b = self.expr(t, d - 1), self.expr(t, d - 1)
        return '(%s ? %s : %s)' % (c, a[0], b[0]), '(%s if %s else %s)' % (a[1], cp, b[1]), t

    def cond(self, d):
        r = self.r
        if d > 0 and r.random() < .3:
            a, ap = self.cond(d - 1)
            b, bp = self.cond(d - 1)
            op = r.choice(['&&', '||'])
            return '(%s %s %s)' % (a, op, b), '(%s %s %s)' % (ap, 'and' if op == '&&' else 'or', bp)
        t = r.choice(TYPES)
        a, b = self.expr(t, d - 1), self.expr(t, d - 1)
        if r.random() < .3:
            b = self.const(t, r.choice([0, 0, 1, t.hi, t.lo]))
        op = r.choice(CMP)
        return '(%s %s %s)' % (a[0], op, b[0]), '(%s %s %s)' % (a[1], op, b[1])

    def make(self):
        r, nm = self.r, self.name
        m = 48
        xs = [value(r, self.tx) for _ in range(m)]
        ys = [value(r, self.ty) for _ in range(m)]
        decls = ['var x_%s : %s[%d] = [%s]' % (nm, self.tx.name, m, ', '.join(lit(None, self.tx, v) for v in xs)),
                 'var y_%s : %s[%d] = [%s]' % (nm, self.ty.name, m, ', '.join(lit(None, self.ty, v) for v in ys))]
        body, exp = ['var h : uint64, i'], []
        for j in range(r.randrange(3, 7)):
            e = self.expr(self.tr, r.choice([1, 1, 2, 2, 3, 4]))
            f = eval('lambda x, y: ' + e[1], {'qt': qt, 'rm': rm})
            decls.append('const f%d_%s = {x : %s, y : %s -> %s\n\t-> %s\n}' % (j, nm, self.tx.name, self.ty.name, self.tr.name, e[0]))
            # show the first few values, hash all of them
            body += ['h = 0', 'for i = 0; i < %d; i++' % m,
                     '\tvar v = (f%d_%s(x_%s[i], y_%s[i]) : uint64)' % (j, nm, nm, nm),
                     '\tif i < 4', '\t\tdio.xnum(v)', '\t;;', '\th = h * 0x100000001b3ul + v', ';;', 'dio.xnum(h)', 'dio.endl()']
            h, shown = 0, []
            for i in range(m):
                v = f(xs[i], ys[i]) & (2**64 - 1)
                if i < 4:
                    shown.append('%016x' % v)
                h = (h * 0x100000001b3 + v) & (2**64 - 1)
            exp.append(' '.join(shown + ['%016x' % h]))
        return Test('x' + nm, '\n'.join(decls), body, exp)


def narrow(ck):
    """Every operator over all pairs of 8-bit values, in both operand orders with literals too."""
    out = []
    r = ck.sub('narrow')
    for t in (BY['int8'], BY['uint8'], BY['byte']):
        rng = range(t.lo, t.hi + 1)
        for op in AR + CMP:
            nm = 'n%s%d' % (t.name, (AR + CMP).index(op))
            ok = {'/': lambda a, b: b != 0 and not (b == -1 and a == t.lo), '%': lambda a, b: b != 0 and not (b == -1 and a == t.lo),
                  '<<': lambda a, b: 0 <= b < 8, '>>': lambda a, b: 0 <= b < 8}.get(op, lambda a, b: True)
            guard = {'/': 'b != 0 && !(b == -1 && a == -128)', '%': 'b != 0 && !(b == -1 && a == -128)',
                     '<<': 'b >= 0 && b < 8', '>>': 'b >= 0 && b < 8'}.get(op, 'true')
            h = 0
            for a in rng:
                for b in rng:
                    if ok(a, b):
                        v = (cmpop(op, a, b) if op in CMP else binop(op, t, a, b)) & (2**64 - 1)
                        h = (h * 0x100000001b3 + v) & (2**64 - 1)
            body = ['var h : uint64 = 0', 'for var a = %d; a < %d; a++' % (t.lo, t.hi + 1), '\tfor var b = %d; b < %d; b++' % (t.lo, t.hi + 1),
                    '\t\tif %s' % guard, '\t\t\th = h * 0x100000001b3ul + (((a : %s) %s (b : %s)) : uint64)' % (t.name, op, t.name),
                    '\t\t;;', '\t;;', ';;', 'dio.xnum(h)', 'dio.endl()']
            exp = ['%016x' % h]
            decls = []
            # one operand a literal
            for c in r.sample(list(rng), 6) + [t.lo, t.hi, 0, 1]:
                for side in (0, 1):
                    h, n = 0, 0
                    for a in rng:
                        p = (a, c) if side else (c, a)
                        if ok(*p):
                            v = (cmpop(op, *p) if op in CMP else binop(op, t, *p)) & (2**64 - 1)
                            h = (h * 0x100000001b3 + v) & (2**64 - 1)
                            n += 1
                    if n < 8 or not (side == 0 or ok(1, c)):
                        continue
                    g = guard if side == 0 else 'true'
                    if op in '/%' and side == 1 and c == -1 and t.signed:
                        continue
                    x = '(a : %s) %s %s' % (t.name, op, lit(None, t, c)) if side else '%s %s b' % (lit(None, t, c), op)
                    body += ['h = 0', 'for var q = %d; q < %d; q++' % (t.lo, t.hi + 1), '\tvar a = (q : %s)' % t.name, '\tvar b = a']
                    gg = guard if side == 0 else 'a == a'
                    if side == 0 and op in '/%':
                        gg = 'b != 0' + (' && b != -1' if t.signed and c == t.lo else '')
                    if not t.signed:
                        gg = gg.replace('b >= 0 && ', '')
                    if gg == 'true':
                        gg = 'b == b'
                    body += ['\tif %s' % gg, '\t\th = h * 0x100000001b3ul + ((%s) : uint64)' % x, '\t;;', ';;', 'dio.xnum(h)', 'dio.endl()']
                    exp.append('%016x' % h)
            out.append(Test(nm, '\n'.join(decls), body, exp))
    return out


def make(ck, i):
    g = Gen(ck.sub('t', i), str(i))
    for _ in range(g.r.randrange(3, 9)):
        g.stmt()
    return Test(str(i), '\n'.join(g.decls), g.body, g.expect)


def check(ck):
    ck.rule = ('random typed integer expressions (12 integer types, all operators, casts, comparisons, fused '
               'assignments, constant initialisers) over literals, constants, globals, locals, fields, elements, '
               'pointees and call results with boundary-biased values; a test is non-trivial when its text is distinct')
    t = Tree('std')
    pk = Packer(ck, t, 'c01')
    tabs = [Tab(ck.sub('tab', i), str(i)).make() for i in range(ck.n(1500, 30000))]
    ck.count('functions tabulated', sum(len(x.expect) for x in tabs))
    for s in range(0, len(tabs), 3000):
        pk.check(tabs[s:s + 3000], per=30)
    pk.check(narrow(ck), per=8)
    n = ck.n(3600, 60000)
    for s in range(0, n, 2400):
        pk.check([make(ck, i) for i in range(s, min(n, s + 2400))], per=30)
        if ck.enough():
            break


TECH = 'differential runtime check against exact arithmetic over generated programs'
NOTE = ('Held on the generated expressions only. Trusts the Python evaluation, the assembler and linker; shifts by at '
        'least the width and division traps are not generated.')
