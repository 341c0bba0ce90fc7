"""C04: value semantics of aggregates, checked against a model of values and references."""
from vf.core import *
from vf.aggr import *
from vf.progs import Packer, Test

TECH = 'runtime monitoring: differential execution of generated copy, write and alias sequences over random aggregate types against a value model'
NOTE = 'types up to about 24 leaves; slices and pointers to locals, globals and heap; tuple members are read only (the language does not assign to them)'


class Var:
    def __init__(self, name, t, box):
        self.name, self.t, self.box = name, t, box    # box: a list holding the value, or a reference


def put(c, k, v):
    """c[k] = v, into the same storage"""
    if isinstance(v, list):
        for i, x in enumerate(v):
            put(c[k], i, x)
    else:
        c[k] = v


class Gen:
    def __init__(self, r, name):
        self.r = r
        self.w = World(r, name)
        self.name, self.body, self.expect = name, [], []
        self.vars = []
        self.globs = []
        self.fns = {}

    def out(self, t, x, v):
        self.body += ['%s(%s)' % (self.w.show(t), x), 'dio.endl()']
        self.expect.append(' '.join(self.w.words(t, v)))

    def places(self, lv=False):
        """(text, container, key, type) of everything nameable; lv: assignable only."""
        o = []
        for v in self.vars:
            o.append((v.name, v.box[0], v.box[1], v.t))
            if v.t.kind != 'scal':
                for s, c, k, t in self.w.paths(v.t, v.box[0][v.box[1]]):
                    o.append((v.name + s, c, k, t))
        return o

    def place(self, t=None, lv=False):
        ps = [p for p in self.places() if (t is None or p[3].name == t.name) and not (lv and self.ro(p[0]))]
        return self.r.choice(ps) if ps else None

    def ro(self, text):
        return any(text.startswith(c) for c in self.consts) or any(a.isdigit() for a in text.replace('[', '.[').split('.')[1:])

    consts = ()

    def expr(self, t, local=True):
        """text and (owned) value of type t"""
        r, w = self.r, self.w
        k = r.random()
        p = self.place(t) if local else None
        if p and k < .55:
            v = copy(p[1][p[2]])
            if k < .1:
                return '%s(%s)' % (w.ident(t), p[0]), v
            if k < .14 and t.kind in ('struct', 'tuple', 'array', 'union'):
                q = self.place(t)
                c = self.cond()
                return '(%s ? %s : %s)' % (c[0], p[0], q[0]), v if c[1] else copy(q[1][q[2]])
            return p[0], v
        if local and k < .65 and t.kind in ('tuple',):
            xs = [self.expr(q) for q in t.parts]
            return '(%s)' % ', '.join(x for x, _ in xs), [v for _, v in xs]
        if local and k < .75 and t.kind == 'array':
            xs = [self.expr(t.parts[0]) for _ in range(t.n)]
            return '[%s]' % ', '.join(x for x, _ in xs), [v for _, v in xs]
        if local and k < .75 and t.kind == 'struct':
            xs = [self.expr(q) for q in t.parts]
            vs = [v for _, v in xs]
            ix = list(range(len(xs)))
            r.shuffle(ix)
            return '[%s]' % ', '.join('.%s = %s' % (t.names[i], xs[i][0]) for i in ix), vs
        if local and k < .75 and t.kind == 'union':
            i = r.randrange(len(t.parts))
            if t.parts[i] and t.parts[i].kind in ('struct', 'tuple', 'array', 'union'):
                q = self.place(t.parts[i])
                if q:
                    return '(%s %s)' % (t.names[i], q[0]), (i, copy(q[1][q[2]]))
        v = w.value(t, .15)
        if k > .9:
            f = w.id('mk')
            w.decls.append('const %s = {-> %s\n\t-> %s\n}' % (f, t.name, w.lit(t, v)))
            return f + '()', v
        return w.lit(t, v), v

    def rebuilt(self, p):
        """a constructor for place p out of p's own members, rearranged"""
        r, t, v = self.r, p[3], p[1][p[2]]
        parts = [t.parts[0]] * t.n if t.kind == 'array' else t.parts
        acc = ['[%d]' % i for i in range(len(parts))] if t.kind == 'array' else ['.' + n for n in t.names] if t.kind == 'struct' else ['.%d' % i for i in range(len(parts))]
        xs = []
        for i, q in enumerate(parts):
            j = r.choice([k for k in range(len(parts)) if parts[k].name == q.name])
            x = p[0] + acc[j]
            if r.random() < .3:
                x = '%s(%s)' % (self.w.ident(q), x)
            xs.append((('.%s = ' % t.names[i] if t.kind == 'struct' else '') + x, copy(v[j])))
        if t.kind == 'tuple':
            return '(%s)' % ', '.join(x for x, _ in xs), [v for _, v in xs]
        return '[%s]' % ', '.join(x for x, _ in xs), [v for _, v in xs]

    def cond(self):
        n = self.w.id('b')
        v = self.r.random() < .5
        self.body.append('var %s = %s' % (n, 'true' if v else 'false'))
        return n, v

    def newvar(self, t=None):
        r, w = self.r, self.w
        t = t or (w.type(3) if not self.vars or r.random() < .5 else r.choice(self.places())[3])
        k = r.random()
        n = w.id('v')
        if k < .2:  # global
            v = w.value(t, .05)
            isc = r.random() < .4
            w.decls.append('%s %s : %s = %s' % ('const' if isc else 'var', n, t.name, w.lit(t, v)))
            if isc:
                self.consts = self.consts + (n,)
            self.vars.append(Var(n, t, ([v], 0)))
        elif k < .24 and t.kind != 'scal':  # global, zero
            w.decls.append('var %s : %s' % (n, t.name))
            self.vars.append(Var(n, t, ([w.zero(t)], 0)))
        elif k < .34:  # heap
            x, v = self.expr(t)
            h = w.id('h')
            self.body += ['var %sv : %s = %s' % (h, t.name, x), 'var %s = std.mk(%sv)' % (h, h)]
            self.vars.append(Var('(%s#)' % h, t, ([v], 0)))
        elif k < .42:
            self.body.append('var %s : %s = %s' % (n, t.name, w.lit(t, w.zero(t))))
            self.vars.append(Var(n, t, ([w.zero(t)], 0)))
        else:
            x, v = self.expr(t)
            self.body.append('var %s : %s = %s' % (n, t.name, x))
            self.vars.append(Var(n, t, ([v], 0)))

    def stmt(self):
        r, w = self.r, self.w
        k = r.random()
        if k < .14:
            return self.newvar()
        if k < .5:  # assign
            ps = [p for p in self.places() if not self.ro(p[0])]
            agg = [p for p in ps if p[3].kind != 'scal']
            if not ps:
                return
            p = r.choice(agg if agg and r.random() < .6 else ps)
            if p[3].kind in ('struct', 'tuple', 'array') and r.random() < .25:
                x, v = self.rebuilt(p)
            else:
                x, v = self.expr(p[3])
            self.body.append('%s = %s' % (p[0], x))
            put(p[1], p[2], v)
        elif k < .56:  # a pointer to a place
            ps = [p for p in self.places() if not self.ro(p[0])]
            if ps:
                p = r.choice(ps)
                n = w.id('p')
                self.body.append('var %s = &%s' % (n, p[0]))
                self.vars.append(Var('(%s#)' % n, p[3], Ref(p[1], p[2])))
        elif k < .62:  # through a function that changes its copy
            p = self.place(lv=False)
            t = p[3]
            v = copy(p[1][p[2]])
            box = [v]
            fs = [q for q in [('x', box, 0, t)] + [('x' + s, c, kk, tt) for s, c, kk, tt in w.paths(t, v)] if not any(a.isdigit() for a in q[0].replace('[', '.[').split('.')[1:])]
            q = r.choice(fs)
            nv = w.value(q[3])
            f = w.id('mut')
            w.decls.append('const %s = {x : %s -> %s\n\t%s = %s\n\t-> x\n}' % (f, t.name, t.name, q[0], w.lit(q[3], nv)))
            put(q[1], q[2], nv)
            n = w.id('v')
            self.body.append('var %s = %s(%s)' % (n, f, p[0]))
            self.vars.append(Var(n, t, (box, 0)))
        elif k < .66:  # through a pointer parameter
            ps = [p for p in self.places() if not self.ro(p[0])]
            if not ps:
                return
            p = r.choice(ps)
            nv = w.value(p[3])
            f = w.id('set')
            w.decls.append('const %s = {p : %s#, x : %s -> void\n\tp# = x\n}' % (f, p[3].name, p[3].name))
            if p[0].startswith('('):
                a = p[0][1:-2] if p[0].endswith('#)') else '&' + p[0]
            else:
                a = '&' + p[0]
            x, nv = self.expr(p[3])
            self.body.append('%s(%s, %s)' % (f, a, x))
            put(p[1], p[2], nv)
        elif k < .74:  # slices alias
            ps = [p for p in self.places() if p[3].kind == 'array' and not self.ro(p[0])]
            if not ps:
                return
            p = r.choice(ps)
            arr = p[1][p[2]]
            lo = r.randrange(len(arr))
            hi = r.randrange(lo + 1, len(arr) + 1)
            n = w.id('sl')
            self.body.append('var %s = %s[%d:%d]' % (n, p[0], lo, hi))
            el = p[3].parts[0]
            # elements of the slice stay those of the array's storage, whatever is assigned to the array
            for i in range(lo, hi):
                self.vars.append(Var('%s[%d]' % (n, i - lo), el, Ref(arr, i)))
        elif k < .8:  # closure copies
            p = self.place()
            n = w.id('c')
            self.body += ['var %sv = %s' % (n, p[0]), 'var %s = {\n\t\t-> %sv\n\t}' % (n, n)]
            self.vars.append(Var(n + 'v', p[3], ([copy(p[1][p[2]])], 0)))
            v = copy(p[1][p[2]])
            if r.random() < .5:
                ps = [q for q in self.places(True) if not self.ro(q[0]) and q[0].startswith(n + 'v')]
                if ps:
                    q = r.choice(ps)
                    x, nv = self.expr(q[3])
                    self.body.append('%s = %s' % (q[0], x))
                    put(q[1], q[2], nv)
            self.out(p[3], n + '()', v)
        elif k < .86:  # union payloads are copies
            ps = [p for p in self.places() if p[3].kind == 'union' and p[3].parts[p[1][p[2]][0]]]
            if not ps:
                return
            p = r.choice(ps)
            i, v = p[1][p[2]]
            t = p[3].parts[i]
            n = w.id('m')
            self.body += ['match %s' % p[0], '| %s %s:' % (p[3].names[i], n)]
            box = [copy(v)]
            fs = [q for q in [(n, box, 0, t)] + [(n + s, c, kk, tt) for s, c, kk, tt in w.paths(t, box[0])] if not self.ro(q[0])]
            q = r.choice(fs)
            nv = w.value(q[3])
            self.body.append('\t%s = %s' % (q[0], w.lit(q[3], nv)))
            put(q[1], q[2], nv)
            self.body += ['\t%s(%s)' % (w.show(t), n), '| _:']
            if len([x for x in p[3].parts]) == 1:
                self.body.pop()
            self.body += [';;', 'dio.endl()']
            self.expect.append(' '.join(w.words(t, box[0])))
        elif k < .91:  # loop variables are copies
            ps = [p for p in self.places() if p[3].kind == 'array']
            if not ps:
                return
            p = r.choice(ps)
            t = p[3].parts[0]
            n = w.id('e')
            nv = w.value(t)
            self.body += ['for %s : %s' % (n, p[0]), '\t%s(%s)' % (w.show(t), n), '\t%s = %s' % (n, w.lit(t, nv)), ';;', 'dio.endl()']
            self.expect.append(' '.join(x for v in p[1][p[2]] for x in w.words(t, v)))
        else:
            p = self.place()
            self.out(p[3], p[0], p[1][p[2]])

    def gen(self):
        self.newvar(self.w.type(3))
        self.newvar()
        for _ in range(self.r.choice([8, 15, 25])):
            self.stmt()
        for v in self.vars:
            self.out(v.t, v.name, v.box[0][v.box[1]])
        return Test(self.name, '\n'.join(self.w.decls), self.body, self.expect)


class Ref:
    """A pointer to container[key]: reads as (container, key)"""

    def __init__(self, c, k):
        self.c, self.k = c, k

    def __getitem__(self, i):
        return (self.c, self.k)[i]


def gen(r, name):
    return Gen(r, name).gen()


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c04')
    r = ck.sub('gen')
    tests = [gen(r, 'g%d' % i) for i in range(ck.n(800, 12000))]
    pk.check(tests, per=20)
    ck.count('output lines compared', sum(len(t.expect) for t in tests))
    ck.rule = 'every printed value equals the one of the value model; all variables are printed at the end, so writes that reach the wrong bytes show'
