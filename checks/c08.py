"""C08: closures against an interpreter that copies the environment when the closure is created."""
from vf.core import *
from vf.aggr import *
from vf.progs import Packer, Test

TECH = 'runtime monitoring: generated programs creating, storing, returning, nesting and calling closures are run and every value they print is compared with an interpreter that copies the environment at creation'
NOTE = 'up to 3 levels of nesting, captures of scalars, aggregates and other closures; heap and stack environments'


class Clo:
    """A closure expression: parameters, body, type of the result."""
    def __init__(self, params, ops, ret, rt):
        self.params, self.ops, self.ret, self.rt, self.mut, self.heapsafe = params, ops, ret, rt, False, True

    def ftype(self):
        return '(%s -> %s)' % (', '.join('%s : %s' % (n, t.name) for n, t in self.params), self.rt.name if self.rt else 'void')


class Gen:
    def __init__(self, r, name):
        self.r, self.w, self.name = r, World(r, name), name
        self.globals = {}
        self.gvals = {}
        self.pool = [self.w.type(2, 9) for _ in range(3)] + [self.w.scalar() for _ in range(2)]

    def ty(self):
        return self.r.choice(self.pool)

    def pick(self, scope, f=lambda k, v: True):
        c = [(k, v) for k, v in scope.items() if f(k, v)]
        return self.r.choice(c) if c else None

    def lit(self, t):
        v = self.w.value(t, .1)
        return self.w.lit(t, v), v

    def literal(self, scope, depth, escapes, rt=None):
        """A function literal in a scope {name: type or Clo}; scope values: ('v', type, level) / ('f', Clo, heap, level)"""
        r = self.r
        params = [(self.w.id('p'), self.ty()) for _ in range(r.choice([0, 0, 1, 1, 2, 4]))]
        inner = {}
        for k, v in scope.items():
            if v[0] == 'f' and (v[1].mut or escapes and not v[2]):
                continue
            inner[k] = v
        outer = set(inner)
        # parameters shadow enclosing names now and then
        for i in range(len(params)):
            if r.random() < .15:
                c = self.pick(scope, lambda k, v: v[0] == 'v' and k not in self.globals and k not in [n for n, _ in params])
                if c:
                    params[i] = (c[0], params[i][1])
        for n, t in params:
            inner[n] = ('v', t)
            outer.discard(n)
        rt = rt or (self.ty() if r.random() < .6 else None)
        ops, mut = self.ops(inner, depth, r.randrange(1, 6), outer)
        ret = None
        if rt:
            c = self.pick(inner, lambda k, v: v[0] == 'v' and v[1] is rt)
            ret = ('var', c[0]) if c and r.random() < .8 else ('lit',) + self.lit(rt)
        c = Clo(params, ops, ret, rt)
        c.mut = mut
        return c

    def arg(self, t, scope):
        c = self.pick(scope, lambda k, v: v[0] == 'v' and v[1] is t)
        return ('var', c[0]) if c and self.r.random() < .6 else ('lit',) + self.lit(t)

    def callop(self, n, c, scope):
        args = [self.arg(t, scope) for _, t in c.params]
        how = 'void' if not c.rt else self.r.choice(['show', 'show', 'new', 'drop'])
        new = None
        if how == 'new':
            new = self.w.id('v')
            scope[new] = ('v', c.rt)
        return ('call', n, args, how, new, c.rt)

    def ops(self, scope, depth, n, outer=(), loop=False):
        r, out, mut = self.r, [], False
        for _ in range(n):
            k = r.random()
            if k < .2:
                c = self.pick(scope, lambda k, v: v[0] == 'v')
                if c:
                    out.append(('show', c[0], c[1][1]))
                    continue
                k = .3
            if k < .36:
                m, t = self.w.id('v'), self.ty()
                c = self.pick(scope, lambda k, v: v[0] == 'v' and v[1] is t)
                out.append(('local', m, t, ('var', c[0]) if c and r.random() < .4 else ('lit',) + self.lit(t)))
                scope[m] = ('v', t)
            elif k < .56:
                c = self.pick(scope, lambda k, v: v[0] == 'v' and k not in self.globals)
                if not c:
                    continue
                m, t = c[0], c[1][1]
                if m in outer:
                    mut = True
                ps = [p for p in self.w.paths(t, self.w.zero(t))]
                if ps and r.random() < .4:
                    s, _, _, p = r.choice(ps)
                    if not tup(t, s):
                        out.append(('assignpart', m, t, s) + (p,) + self.lit(p))
                        continue
                out.append(('assign', m, t) + self.lit(t))
            elif k < .6:
                c = self.pick(scope, lambda k, v: v[0] == 'v' and self.globals.get(k) == 'var')
                if c:
                    out.append(('assign', c[0], c[1][1]) + self.lit(c[1][1]))
            elif k < .8 and depth > 0:
                form = r.choice(['var', 'var', 'dup', 'dup', 'pass', 'now', 'struct', 'make', 'array', 'match'])
                if form == 'make':
                    out.append(self.maker(scope, depth))
                    continue
                c = self.literal(scope, depth - 1, form == 'dup')
                f = self.w.id('f')
                if form == 'match':
                    # the literal captures a variable bound by a pattern
                    t = self.ty()
                    sc = dict(scope)
                    x = self.w.id('m')
                    sc[x] = ('v', t)
                    c = self.literal(sc, depth - 1, True)
                    f2 = dict(scope)
                    out.append(('match', f, c, x, t, self.arg(t, scope)))
                    scope[f] = ('f', c, True)
                elif form in ('pass', 'now'):
                    out.append((form, c, self.callop(f, c, scope)))
                    continue
                else:
                    out.append(('mk', form, f, c))
                    scope[f] = ('f', c, form == 'dup')
                if c.mut or r.random() < .5:
                    # a mutating closure is called once, later
                    out += self.ops(scope, 0, r.randrange(0, 3), outer)[0]
                    out.append(self.callop(f, c, scope))
                    if c.mut:
                        del scope[f]
            elif k < .9:
                c = self.pick(scope, lambda k, v: v[0] == 'f' and not v[1].mut)
                if c:
                    out.append(self.callop(c[0], c[1][1], scope))
            elif depth > 0 and not loop:
                # heap closures made in a loop, called after it
                t = self.ty()
                i = self.w.id('i')
                sc = {k: v for k, v in scope.items()}
                sc[i] = ('v', t)
                c = self.literal(sc, depth - 1, True)
                vals = [self.lit(t) for _ in range(r.randrange(1, 4))]
                calls = [[self.arg(pt, {}) for _, pt in c.params] for _ in vals]
                out.append(('loop', self.w.id('fs'), i, t, vals, c, calls))
        return out, mut or any(o[0] in ('assign', 'assignpart') and o[1] in outer and o[1] not in self.globals for o in out)

    def maker(self, scope, depth):
        """a top-level function returning a closure over its parameter"""
        r, w = self.r, self.w
        t = self.ty()
        p = w.id('p')
        sc = {k: v for k, v in scope.items() if k in self.globals}
        sc[p] = ('v', t)
        pre, _ = self.ops(sc, 0, r.randrange(0, 3))
        c = self.literal(sc, depth - 1, True)
        m, f = w.id('mk'), w.id('f')
        lines = text(self, pre, 1)
        lines += ['\t-> std.fndup(%s)' % lit(self, c, 1)]
        w.decls.append('const %s = {%s : %s -> %s\n%s\n}' % (m, p, t.name, c.ftype(), '\n'.join(lines)))
        a = self.arg(t, scope)
        if c.mut:
            # only once: not put in scope
            return ('make1', m, f, p, pre, c, a, self.callop(f, c, scope))
        scope[f] = ('f', c, True)
        return ('make', m, f, p, pre, c, a)


def tup(t, suffix):
    """whether a path goes through a tuple (not assignable)"""
    while suffix:
        if t.kind == 'tuple':
            return True
        s = suffix[1:].split('.')[0].split('[')[0] if suffix[0] == '.' else suffix[1:suffix.index(']')]
        suffix = suffix[1 + len(s):] if suffix[0] == '.' else suffix[2 + len(s):]
        t = t.parts[0] if t.kind == 'array' else t.parts[t.names.index(s)]
    return False


def ex(g, e):
    return e[1]


def lit(g, c, d):
    ind = '\t' * d
    head = '{%s\n' % (', '.join('%s : %s' % (n, t.name) for n, t in c.params) + (' -> %s' % (c.rt.name if c.rt else 'void')) if c.params else '-> %s' % (c.rt.name if c.rt else 'void'))
    body = text(g, c.ops, d + 1)
    if c.ret:
        body.append('%s\t-> %s' % (ind, c.ret[1]))
    return head + '\n'.join(body) + '\n%s}' % ind


def calltext(g, o, d, callee):
    _, n, args, how, new, rt = o
    s = '%s(%s)' % (callee, ', '.join(ex(g, a) for a in args))
    if how == 'show':
        return '%s(%s)' % (g.w.show(rt), s)
    if how == 'new':
        return 'var %s = %s' % (new, s)
    return s


def text(g, ops, d):
    out = []
    ind = '\t' * d
    w = g.w
    for o in ops:
        k = o[0]
        if k == 'show':
            out.append('%s%s(%s)' % (ind, w.show(o[2]), o[1]))
        elif k == 'local':
            out.append('%svar %s : %s = %s' % (ind, o[1], o[2].name, ex(g, o[3])))
        elif k == 'assign':
            out.append('%s%s = %s' % (ind, o[1], o[3]))
        elif k == 'assignpart':
            out.append('%s%s%s = %s' % (ind, o[1], o[3], o[5]))
        elif k == 'call':
            out.append(ind + calltext(g, o, d, o[1]))
        elif k == 'mk':
            form, f, c = o[1:]
            l = lit(g, c, d)
            if form in ('var', 'const'):
                out.append('%s%s %s = %s' % (ind, form, f, l))
            elif form == 'dup':
                out.append('%svar %s = std.fndup(%s)' % (ind, f, l))
            elif form == 'struct':
                h = w.id('hold')
                w.decls.append('type t%s = struct\n\ta : int\n\tf : %s\n\tb : byte\n;;' % (h, c.ftype()))
                out.append('%svar %s : t%s = [.a = 5, .f = %s, .b = 7]' % (ind, h, h, l))
                out.append('%svar %s = %s.f' % (ind, f, h))
            else:
                h = w.id('hold')
                out.append('%svar %s = [%s, %s]' % (ind, h, l, l))
                out.append('%svar %s = %s[1]' % (ind, f, h))
        elif k == 'now':
            out.append(ind + calltext(g, o[2], d, lit(g, o[1], d)))
        elif k == 'pass':
            c = o[1]
            ap = w.id('ap')
            w.decls.append('const %s = {f : %s%s -> %s\n\t%sf(%s)\n}' % (
                ap, c.ftype(), ''.join(', %s : %s' % (n, t.name) for n, t in c.params), c.rt.name if c.rt else 'void',
                '-> ' if c.rt else '', ', '.join(n for n, _ in c.params)))
            call = o[2]
            s = '%s(%s)' % (ap, ', '.join([lit(g, c, d)] + [ex(g, a) for a in call[2]]))
            out.append(ind + (('%s(%s)' % (w.show(c.rt), s)) if call[3] == 'show' else 'var %s = %s' % (call[4], s) if call[3] == 'new' else s))
        elif k == 'match':
            _, f, c, x, t, a = o
            out.append('%svar %s : %s' % (ind, f, c.ftype()))
            x2 = ex(g, a)
            out.append('%svar o%s : std.option(%s) = `std.Some %s' % (ind, f, t.name, '(%s)' % x2 if x2[0] == '-' else x2))
            out.append('%smatch o%s' % (ind, f))
            out.append('%s| `std.None:' % ind)
            out.append('%s| `std.Some %s:\n%s\t%s = std.fndup(%s)\n%s;;' % (ind, x, ind, f, lit(g, c, d + 1), ind))
        elif k == 'loop':
            _, fs, i, t, vals, c, calls = o
            out.append('%svar %s : %s[:] = std.slalloc(%d)' % (ind, fs, c.ftype(), len(vals)))
            out.append('%svar n%s = 0' % (ind, fs))
            out.append('%svar a%s : %s[%d] = [%s]' % (ind, fs, t.name, len(vals), ', '.join(s for s, _ in vals)))
            out.append('%sfor %s : a%s[:]' % (ind, i, fs))
            out.append('%s\t%s[n%s++] = std.fndup(%s)' % (ind, fs, fs, lit(g, c, d + 1)))
            out.append('%s;;' % ind)
            for j, args in enumerate(calls):
                s = '%s[%d](%s)' % (fs, j, ', '.join(ex(g, a) for a in args))
                out.append(ind + ('%s(%s)' % (w.show(c.rt), s) if c.rt else s))
        elif k in ('make', 'make1'):
            out.append('%svar %s = %s(%s)' % (ind, o[2], o[1], ex(g, o[6])))
            if k == 'make1':
                out.append(ind + calltext(g, o[7], d, o[2]))
    return out


class Run:
    """The interpreter."""
    def __init__(self, g):
        self.g, self.words, self.glob, self.calls, self.made = g, [], dict(g.gvals), 0, 0

    def val(self, e, env):
        return copy(self.get(env, e[1]) if e[0] == 'var' else e[2])

    def get(self, env, n):
        return self.glob[n] if n in self.glob else env[n]

    def close(self, c, env):
        self.made += 1
        return (c, {k: v if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], Clo) else copy(v) for k, v in env.items()})

    def call(self, clo, args):
        c, env = clo
        self.calls += 1
        if self.calls > 4000:
            raise OverflowError
        e = self.close(c, env)[1]
        for (n, _), a in zip(c.params, args):
            e[n] = a
        self.ops(c.ops, e)
        return self.val(c.ret, e) if c.ret else None

    def result(self, o, v, env):
        if o[3] == 'show':
            self.words += self.g.w.words(o[5], v)
        elif o[3] == 'new':
            env[o[4]] = v

    def ops(self, ops, env):
        for o in ops:
            k = o[0]
            if k == 'show':
                self.words += self.g.w.words(o[2], self.get(env, o[1]))
            elif k == 'local':
                env[o[1]] = self.val(o[3], env)
            elif k == 'assign':
                if o[1] in self.glob:
                    self.glob[o[1]] = copy(o[4])
                else:
                    env[o[1]] = copy(o[4])
            elif k == 'assignpart':
                for s, c, key, t in self.g.w.paths(o[2], env[o[1]]):
                    if s == o[3]:
                        c[key] = copy(o[6])
            elif k == 'call':
                self.result(o, self.call(env[o[1]], [self.val(a, env) for a in o[2]]), env)
            elif k == 'mk':
                env[o[2]] = self.close(o[3], env)
            elif k in ('now', 'pass'):
                call = o[2]
                self.result(call, self.call(self.close(o[1], env), [self.val(a, env) for a in call[2]]), env)
            elif k == 'match':
                e = dict(env)
                e[o[3]] = self.val(o[5], env)
                env[o[1]] = self.close(o[2], e)
            elif k == 'loop':
                _, fs, i, t, vals, c, calls = o
                cs = []
                for s, v in vals:
                    e = dict(env)
                    e[i] = v
                    cs.append(self.close(c, e))
                for clo, args in zip(cs, calls):
                    v = self.call(clo, [self.val(a, env) for a in args])
                    if c.rt:
                        self.words += self.g.w.words(c.rt, v)
            elif k in ('make', 'make1'):
                e = {o[3]: self.val(o[6], env)}
                self.ops(o[4], e)
                env[o[2]] = self.close(o[5], e)
                if k == 'make1':
                    call = o[7]
                    self.result(call, self.call(env[o[2]], [self.val(a, env) for a in call[2]]), env)


def gen(r, name):
    while True:
        g = Gen(r, name)
        scope = {}
        for _ in range(r.randrange(0, 3)):
            n, t = g.w.id('g'), g.ty()
            k = r.choice(['var', 'const'])
            s, v = g.lit(t)
            g.w.decls.append('%s %s : %s = %s' % (k, n, t.name, s))
            g.globals[n], g.gvals[n] = k, v
            scope[n] = ('v', t)
        ops, _ = g.ops(scope, 3, r.randrange(6, 14))
        body = text(g, ops, 0)
        m = Run(g)
        try:
            m.ops(ops, {})
        except OverflowError:
            continue
        if m.calls:
            break
    return Test(name, '\n'.join(g.w.decls), '\n'.join(body + ['dio.endl()']).split('\n'), [' '.join(m.words)], info=(m.calls, m.made))


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c08')
    r = ck.sub('gen')
    tests = [gen(r, 'c%d' % i) for i in range(ck.n(800, 12000))]
    pk.check(tests, per=16)
    ck.count('closure calls', sum(t.info[0] for t in tests))
    ck.count('closures created', sum(t.info[1] for t in tests))
    ck.rule = 'every value printed inside and outside the closures equals what copying the environment at creation gives'
