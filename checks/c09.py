"""C09: generic and trait programs against an interpreter that works on the concrete types."""
from vf.core import *
from vf.aggr import *
from vf.progs import Packer, Test

TECH = 'runtime monitoring: generated generic functions, generic types, traits and impls are instantiated at random types, run, and every printed value compared with an interpreter that evaluates each instance at its concrete types'
NOTE = 'up to 6 generic functions calling each other, instantiated at scalars, structs, unions, arrays, tuples, slices, pointers and generic types of up to 3 levels'


class T:
    """A type term: base (a World type), var, tup, arr, sl, ptr, pair, opt, list."""
    def __init__(self, k, *a):
        self.k, self.a = k, a

    def sub(self, s):
        if self.k == 'var':
            return s[self.a[0]]
        if self.k == 'base':
            return self
        return T(self.k, *[x.sub(s) if isinstance(x, T) else x for x in self.a])

    def text(self, g):
        k, a = self.k, self.a
        if k == 'base':
            return a[0].name
        if k == 'var':
            return '@' + a[0]
        x = [y.text(g) if isinstance(y, T) else y for y in a]
        return {'tup': '(%s, %s)', 'arr': '%s[%d]', 'sl': '%s[:]', 'ptr': '%s#'}[k] % tuple(x) if k in ('tup', 'arr', 'sl', 'ptr') else '%s%s(%s)' % (k, g.name, ', '.join(x))

    def size(self):
        return 1 + sum(x.size() for x in self.a if isinstance(x, T)) * (self.a[1] if self.k == 'arr' else 1)

    def depth(self):
        """how deeply instances of generic types nest"""
        return (self.k in ('pair', 'opt', 'list')) + max([0] + [x.depth() for x in self.a if isinstance(x, T)])

    def vars(self):
        if self.k == 'var':
            return {self.a[0]}
        return set().union(*[x.vars() for x in self.a if isinstance(x, T)]) if self.k != 'base' else set()

    def __eq__(self, o):
        return isinstance(o, T) and self.k == o.k and len(self.a) == len(o.a) and all((x is y) or (isinstance(x, (T, str, int)) and x == y) for x, y in zip(self.a, o.a))

    def __hash__(self):
        return hash(self.k)


def cp(t, v):
    """by-value copy of v : t"""
    k, a = t.k, t.a
    if k == 'base':
        return copy(v)
    if k in ('tup', 'pair'):
        return [cp(a[0], v[0]), cp(a[1], v[1])]
    if k == 'arr':
        return [cp(a[0], x) for x in v]
    if k == 'opt':
        return None if v is None else (cp(a[0], v[0]),)
    return v


def words(g, t, v):
    """what the shw trait prints"""
    k, a = t.k, t.a
    if k == 'base':
        return g.w.words(a[0], v)
    if k == 'tup':
        return ['tup'] + words(g, a[0], v[0]) + words(g, a[1], v[1])
    if k == 'pair':
        return ['pair'] + words(g, a[0], v[0]) + words(g, a[1], v[1])
    if k == 'sl':
        return ['sl'] + [w for x in v for w in words(g, a[0], x)] + ['end']
    if k == 'ptr':
        return ['ptr'] + words(g, a[0], v[0])
    if k == 'opt':
        return ['none'] if v is None else ['some'] + words(g, a[0], v[0])
    if k == 'list':
        out = ['list']
        while v:
            out += words(g, a[0], v[0])
            v = v[1]
        return out + ['nil']
    raise KeyError(k)


class Gen:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.w = w = World(r, name)
        self.base = [T('base', w.type(2, 8)) for _ in range(3)] + [T('base', w.scalar()) for _ in range(2)] + [T('base', w.S[r.choice(list(BY))]) for _ in range(2)]
        seen, out = set(), []
        for b in self.base:
            if b.a[0].name not in seen and b.a[0].kind != 'tuple':
                seen.add(b.a[0].name)
                out.append(b)
        self.base = out
        self.nums = [b for b in self.base if b.a[0].name in BY]
        self.funcs = []
        self.top = []
        self.calls = 0
        self.inarg = 0
        self.cur = []
        self.looped = []
        self.typed = False
        self.insts = set()
        self.fav = {}

    def id(self, p):
        return self.w.id(p)

    # --- the fixed part: traits and generic types
    def prelude(self):
        n, w = self.name, self.w
        d = []
        d.append('type pair%s(@x, @y) = struct\n\ta : @x\n\tb : @y\n;;' % n)
        d.append('type opt%s(@x) = union\n\t`None%s\n\t`Some%s @x\n;;' % (n, n, n))
        d.append('type list%s(@x) = union\n\t`Nil%s\n\t`Cons%s (@x, list%s(@x)#)\n;;' % (n, n, n, n))
        d.append('trait shw%s @a =\n\tshow%s : (x : @a -> void)\n;;' % (n, n))
        d.append('trait fav%s @a =\n\tFav%s : @a\n\tmk%s : (x : @a, n : int -> @a)\n\tnm%s : (x : @a# -> byte[:])\n;;' % (n, n, n, n))
        impls = []
        for b in self.base:
            t = b.a[0]
            s = w.show(t)
            impls.append('impl shw%s %s =\n\tshow%s = {x\n\t\t%s(x)\n\t}\n;;' % (n, t.name, n, s))
            v, v2 = w.value(t, .05), w.value(t, .05)
            self.fav[t.name] = (v, v2)
            impls.append('impl fav%s %s =\n\tFav%s = %s\n\tmk%s = {x, n\n\t\t-> n > 0 ? x : %s\n\t}\n\tnm%s = {x\n\t\t-> "%s"\n\t}\n;;' % (
                n, t.name, n, w.lit(t, v), n, w.lit(t, v2), n, t.name[:4]))
        g = {'n': n, 'c': ':: shw%s @x' % n, 'c2': ':: shw%s @x, shw%s @y' % (n, n)}
        impls.append('impl shw%(n)s (@x, @y) %(c2)s =\n\tshow%(n)s = {t\n\t\tdio.word("tup")\n\t\tshow%(n)s(t.0)\n\t\tshow%(n)s(t.1)\n\t}\n;;' % g)
        impls.append('impl shw%(n)s pair%(n)s(@x, @y) %(c2)s =\n\tshow%(n)s = {t\n\t\tdio.word("pair")\n\t\tshow%(n)s(t.a)\n\t\tshow%(n)s(t.b)\n\t}\n;;' % g)
        impls.append('impl shw%(n)s @x[:] %(c)s =\n\tshow%(n)s = {t\n\t\tdio.word("sl")\n\t\tfor x : t\n\t\t\tshow%(n)s(x)\n\t\t;;\n\t\tdio.word("end")\n\t}\n;;' % g)
        impls.append('impl shw%(n)s @x# %(c)s =\n\tshow%(n)s = {t\n\t\tdio.word("ptr")\n\t\tshow%(n)s(t#)\n\t}\n;;' % g)
        impls.append('impl shw%(n)s opt%(n)s(@x) %(c)s =\n\tshow%(n)s = {t\n\t\tmatch t\n\t\t| `None%(n)s: dio.word("none")\n\t\t| `Some%(n)s x:\n\t\t\tdio.word("some")\n\t\t\tshow%(n)s(x)\n\t\t;;\n\t}\n;;' % g)
        impls.append('impl shw%(n)s list%(n)s(@x) %(c)s =\n\tshow%(n)s = {t\n\t\tdio.word("list")\n\t\twhile true\n\t\t\tmatch t\n\t\t\t| `Nil%(n)s:\n\t\t\t\tdio.word("nil")\n\t\t\t\t-> void\n\t\t\t| `Cons%(n)s (x, next):\n\t\t\t\tshow%(n)s(x)\n\t\t\t\tt = next#\n\t\t\t;;\n\t\t;;\n\t}\n;;' % g)
        self.r.shuffle(impls)
        return d, impls

    # --- types and values
    def term(self, tvs, d=2):
        r = self.r
        k = r.random()
        if d == 0 or k < .45:
            if tvs and r.random() < .75:
                return T('var', r.choice(sorted(tvs)))
            return r.choice(self.base)
        k = r.choice(['tup', 'pair', 'sl', 'ptr', 'opt', 'list'])
        if k in ('pair', 'opt', 'list'):
            d -= r.random() < .5
        if k in ('tup', 'pair'):
            return T(k, self.term(tvs, max(0, d - 1)), self.term(tvs, max(0, d - 1)))
        return T(k, self.term(tvs, max(0, d - 1)))

    def expr(self, t, sc, tv, d=2):
        """(text, eval) of an expression of type term t; sc: {name: term}; tv: {type var: constraint set}"""
        r, n = self.r, self.name
        c = [x for x, y in sc.items() if y == t]
        if c and r.random() < .6:
            x = r.choice(c)
            return x, lambda e, t=t, x=x: cp(t.sub(e['$']), e[x])
        # parts of what is in scope
        parts = []
        for x, y in sc.items():
            if y.k == 'pair':
                parts += [(x + '.a', y.a[0], lambda e, x=x: e[x][0]), (x + '.b', y.a[1], lambda e, x=x: e[x][1])]
            elif y.k == 'tup':
                parts += [(x + '.0', y.a[0], lambda e, x=x: e[x][0]), (x + '.1', y.a[1], lambda e, x=x: e[x][1])]
            elif y.k == 'ptr':
                parts.append((x + '#', y.a[0], lambda e, x=x: e[x][0]))
        parts = [p for p in parts if p[1] == t]
        if parts and (r.random() < .6 or not c):
            s, _, f = r.choice(parts)
            return s, lambda e, t=t, f=f: cp(t.sub(e['$']), f(e))
        if c and d <= 0:
            x = c[0]
            return x, lambda e, t=t, x=x: cp(t.sub(e['$']), e[x])
        k, a = t.k, t.a
        # generic functions that give one
        if d > 0 and self.inarg < 2 and r.random() < .35:
            f = [f for f in self.funcs if f.ret and self.unify(f.ret, t, {}) is not None]
            if f:
                return self.call(r.choice(f), t, sc, tv, d - 1)
        if k == 'var':
            v = a[0]
            if 'num' in tv[v]:
                if r.random() < .5 and c and d > 0:
                    x, fx = self.expr(t, sc, tv, d - 1)
                    y, fy = self.expr(t, sc, tv, d - 1)
                    op = r.choice('+-*&|^')
                    return '(%s %s %s)' % (x, op, y), lambda e, op=op, fx=fx, fy=fy, v=v: BY[e['$'][v].a[0].name].wrap(
                        {'+': int.__add__, '-': int.__sub__, '*': int.__mul__, '&': int.__and__, '|': int.__or__, '^': int.__xor__}[op](fx(e), fy(e)))
                if not c:
                    raise NoExpr
                # a bare literal says nothing of which type it is
                m, x = r.randrange(0, 128), r.choice(c)
                return '(%s - %s + %d)' % (x, x, m), lambda e, m=m: m
            if 'fav' in tv[v]:
                return 'impl(Fav%s, @%s)' % (n, v), lambda e, v=v: copy(self.fav[e['$'][v].a[0].name][0])
            raise NoExpr
        if k == 'base':
            val = self.w.value(a[0], .1)
            s = self.w.lit(a[0], val)
            if a[0].kind == 'scal' and a[0].name in BY and d > 0 and r.random() < .2:
                return 'impl(Fav%s, %s)' % (n, a[0].name), lambda e, b=a[0].name: self.fav[b][0]
            if a[0].name not in ('bool', 'flt64', 'flt32'):
                # give inference its type
                s = '%s(%s)' % (self.w.ident(a[0]), s)
            elif a[0].name == 'flt32':
                s = '%s(%s)' % (self.w.ident(a[0]), s)
            return s, lambda e, v=val: copy(v)
        if k in ('tup', 'pair'):
            x, fx = self.expr(a[0], sc, tv, d - 1)
            y, fy = self.expr(a[1], sc, tv, d - 1)
            if k == 'tup':
                return '(%s, %s)' % (x, y), lambda e: [fx(e), fy(e)]
            h = self.helper('pair')
            return '%s(%s, %s)' % (h, x, y), lambda e: [fx(e), fy(e)]
        if k == 'opt':
            if r.random() < .25:
                if self.typed:
                    return 'none%s()' % n, lambda e: None
                x, fx = self.expr(a[0], sc, tv, d - 1)
                return 'nonefor%s(%s)' % (n, x), lambda e: (fx(e), None)[1]
            x, fx = self.expr(a[0], sc, tv, d - 1)
            return 'some%s(%s)' % (n, x), lambda e: (fx(e),)
        if k in ('ptr', 'sl'):
            self.typed = False
        if k == 'ptr':
            x, fx = self.expr(a[0], sc, tv, d - 1)
            return 'std.mk(%s)' % x, lambda e: [fx(e)]
        if k == 'sl':
            m = r.randrange(1, 4)
            xs = [self.expr(a[0], sc, tv, d - 1) for _ in range(m)]
            return 'std.sldup([%s][:])' % ', '.join(x for x, _ in xs), lambda e: [f(e) for _, f in xs]
        if k == 'list':
            m = r.randrange(0 if self.typed else 1, 3)
            xs = [self.expr(a[0], sc, tv, d - 1) for _ in range(m)]
            s = 'nil%s()' % n
            for x, _ in reversed(xs):
                s = 'cons%s(%s, %s)' % (n, x, s)

            def ev(e):
                v = None
                for y in reversed([f(e) for _, f in xs]):
                    v = (y, v)
                return v
            return s, ev
        raise NoExpr

    def static(self, calls, sub, seen):
        """every instance 6m makes, run or not: the time it takes is exponential in how deep types nest"""
        for f, s in calls:
            t = {v: x.sub(sub) for v, x in s.items()}
            if any(x.size() > 40 or x.depth() > 4 for x in t.values()):
                raise OverflowError
            k = (f.name, tuple(x.text(self) for x in t.values()))
            if k not in seen:
                seen.add(k)
                if len(seen) > 150:
                    raise OverflowError
                self.static(f.calls, t, seen)

    def texpr(self, t, sc, tv):
        # the context gives the type
        self.typed = True
        try:
            return self.expr(t, sc, tv)
        finally:
            self.typed = False

    def helper(self, k):
        return k + self.name + 'mk'

    def unify(self, p, t, s):
        """substitution for the pattern p (a callee's term) to give t, or None"""
        if p.k == 'var':
            if p.a[0] in s:
                return s if s[p.a[0]] == t else None
            s[p.a[0]] = t
            return s
        if p.k != t.k:
            return None
        if p.k == 'base':
            return s if p.a[0] is t.a[0] else None
        for x, y in zip(p.a, t.a):
            if isinstance(x, T):
                if self.unify(x, y, s) is None:
                    return None
            elif x != y:
                return None
        return s

    def okfor(self, t, cons, tv):
        if 'num' in cons or 'fav' in cons:
            if t.k == 'var':
                return cons - {'shw'} <= tv[t.a[0]]
            return t.k == 'base' and ('num' not in cons or t.a[0].name in BY)
        return True

    def call(self, f, rt, sc, tv, d):
        """a call of f giving type term rt (None: any)"""
        r = self.r
        s = {}
        if rt is not None and self.unify(f.ret, rt, s) is None:
            raise NoExpr
        for v, cons in f.tv.items():
            if v not in s:
                if 'num' in cons:
                    c = [T('var', x) for x, y in tv.items() if 'num' in y and ('fav' in y or 'fav' not in cons)] * 3 + self.nums
                elif 'fav' in cons:
                    c = [T('var', x) for x, y in tv.items() if 'fav' in y] * 3 + self.base
                else:
                    c = [self.term(list(tv), r.choice([0, 0, 1, 2])) for _ in range(3)]
                if not c:
                    raise NoExpr
                s[v] = r.choice(c)
            if not self.okfor(s[v], cons, tv):
                raise NoExpr
        args = []
        self.inarg += 1
        self.typed = False
        try:
            for pn, pt in f.params:
                args.append(self.expr(pt.sub(s), sc, tv, d))
        finally:
            self.inarg -= 1
        text = '%s(%s)' % (f.name, ', '.join(a for a, _ in args))
        self.cur.append((f, s))

        def ev(e, f=f, s=s):
            self.calls += 1
            if self.calls > 3000:
                raise OverflowError
            sub = {v: t.sub(e['$']) for v, t in s.items()}
            # the time 6m takes is exponential in how deep these are
            if any(t.size() > 40 or t.depth() > 4 for t in sub.values()):
                raise OverflowError
            self.insts.add((f.name, tuple(t.text(self) for t in sub.values())))
            env = {'$': sub, '#': e['#']}
            for (pn, _), (_, a) in zip(f.params, args):
                env[pn] = a(e)
            for o in f.run:
                o(env)
            v = f.result(env) if f.result else None
            f.lastret = f.ret.sub(sub) if f.ret else None
            return v
        return text, ev

    def func(self):
        r, n = self.r, self.name
        f = Fn()
        f.name = self.id('g')
        f.tv = {}
        for i in range(r.choice([1, 1, 2, 3])):
            c = {'shw'}
            if r.random() < .3:
                c.add('num')
            elif r.random() < .3:
                c.add('fav')
            f.tv[self.id('t')] = c
        tvs = list(f.tv)
        f.params = []
        for v in tvs:
            # every type variable appears in a parameter
            k = r.random()
            t = T('var', v)
            if k < .3:
                t = T(r.choice(['sl', 'ptr', 'opt', 'list']), t)
            elif k < .45:
                t = T(r.choice(['tup', 'pair']), t, T('var', r.choice(tvs)))
            f.params.append((self.id('p'), t))
        for _ in range(r.choice([0, 0, 1, 2])):
            f.params.append((self.id('p'), self.term(tvs, 1)))
        r.shuffle(f.params)
        f.ret = self.term(tvs, 2) if r.random() < .75 else None
        sc = dict(f.params)
        self.cur = f.calls = []
        lines, f.run = self.block(sc, f.tv, r.randrange(1, 6), 1)
        f.result = None
        if f.ret:
            for _ in range(5):
                try:
                    x, f.result = self.texpr(f.ret, sc, f.tv)
                    break
                except NoExpr:
                    x = None
            if x is None:
                f.ret = f.params[0][1]
                x, f.result = f.params[0][0], lambda e, p=f.params[0]: cp(p[1].sub(e['$']), e[p[0]])
            lines.append('\t-> ' + x)
        cons = ['shw%s @%s' % (n, v) for v in tvs]
        for v, c in f.tv.items():
            if 'num' in c:
                cons.append('numeric,integral @%s' % v)
            if 'fav' in c:
                cons.append('fav%s @%s' % (n, v))
        r.shuffle(cons)
        f.sig = '%s -> %s' % (', '.join('%s : %s' % (p, t.text(self)) for p, t in f.params), f.ret.text(self) if f.ret else 'void')
        f.cons = ', '.join(cons)
        f.text = 'generic %s = {%s :: %s\n%s\n}' % (f.name, f.sig, f.cons, '\n'.join(lines))
        self.funcs.append(f)
        return f

    def show(self, t, x, fx, ind):
        return '%sshow%s(%s)' % (ind, self.name, x), lambda e, t=t, fx=fx: e['#'].extend(words(self, t.sub(e['$']), fx(e)))

    def block(self, sc, tv, n, d):
        r, lines, run = self.r, [], []
        ind = '\t' * d
        for _ in range(n):
            try:
                k = r.random()
                if k < .3:
                    x = r.choice(sorted(sc)) if sc else None
                    if x:
                        l, f = self.show(sc[x], x, lambda e, x=x: e[x], ind)
                        lines.append(l)
                        run.append(f)
                elif k < .5:
                    t = self.term(list(tv), 2)
                    ty = r.random() < .7
                    x, fx = self.texpr(t, sc, tv) if ty else self.expr(t, sc, tv)
                    v = self.id('v')
                    lines.append('%svar %s%s = %s' % (ind, v, ' : ' + t.text(self) if ty else '', x))
                    run.append(lambda e, v=v, fx=fx: e.__setitem__(v, fx(e)))
                    sc[v] = t
                elif k < .6:
                    c = [x for x in sc if x[0] != 'c' and x not in self.looped]
                    if c:
                        v = r.choice(sorted(c))
                        if sc[v].k == 'ptr' and r.random() < .6:
                            x, fx = self.texpr(sc[v].a[0], sc, tv)
                            lines.append('%s%s# = %s' % (ind, v, x))
                            run.append(lambda e, v=v, fx=fx: e[v].__setitem__(0, fx(e)))
                        elif sc[v].k == 'pair' and r.random() < .6:
                            x, fx = self.texpr(sc[v].a[1], sc, tv)
                            lines.append('%s%s.b = %s' % (ind, v, x))
                            run.append(lambda e, v=v, fx=fx: e[v].__setitem__(1, fx(e)))
                        else:
                            x, fx = self.texpr(sc[v], sc, tv)
                            lines.append('%s%s = %s' % (ind, v, x))
                            run.append(lambda e, v=v, fx=fx: e.__setitem__(v, fx(e)))
                elif k < .72 and self.funcs:
                    f = r.choice(self.funcs)
                    x, fx = self.call(f, None, sc, tv, 1)
                    if f.ret and r.random() < .7:
                        # printed through the trait
                        lines.append('%sshow%s(%s)' % (ind, self.name, x))
                        run.append(lambda e, f=f, fx=fx: self.showcall(e, f, fx))
                    else:
                        lines.append(ind + x)
                        run.append(fx)
                elif k < .8 and d < 3:
                    c = [x for x in sc if sc[x].k == 'opt']
                    if c:
                        x = r.choice(sorted(c))
                        m = self.id('c')
                        s1, s2 = dict(sc), dict(sc)
                        s1[m] = sc[x].a[0]
                        l1, r1 = self.block(s1, tv, r.randrange(1, 3), d + 1)
                        l2, r2 = self.block(s2, tv, r.randrange(1, 3), d + 1)
                        lines += ['%smatch %s' % (ind, x), '%s| `Some%s %s:' % (ind, self.name, m)] + l1 + ['%s| `None%s:' % (ind, self.name)] + l2 + [ind + ';;']
                        run.append(lambda e, x=x, m=m, r1=r1, r2=r2, t=sc[x].a[0]: self.match(e, x, m, r1, r2, t))
                elif k < .86 and d < 3:
                    c = [x for x in sc if sc[x].k == 'sl']
                    if c:
                        x = r.choice(sorted(c))
                        m = self.id('c')
                        s1 = dict(sc)
                        s1[m] = sc[x].a[0]
                        # what assigning to the sequence of a running loop does is not said
                        self.looped.append(x)
                        l1, r1 = self.block(s1, tv, r.randrange(1, 3), d + 1)
                        self.looped.pop()
                        lines += ['%sfor %s : %s' % (ind, m, x)] + l1 + [ind + ';;']
                        run.append(lambda e, x=x, m=m, r1=r1, t=sc[x].a[0]: self.each(e, x, m, r1, t))
                elif k < .9:
                    c = [v for v, y in tv.items() if 'num' in y]
                    if c:
                        v = r.choice(c)
                        x, fx = self.expr(T('var', v), sc, tv)
                        y, fy = self.expr(T('var', v), sc, tv)
                        if x.isdigit() and y.isdigit():
                            continue
                        op = r.choice(['<', '==', '>=', '!='])
                        lines.append('%sdio.flag(%s %s %s)' % (ind, x, op, y))
                        run.append(lambda e, op=op, fx=fx, fy=fy: e['#'].append(str(int({'<': int.__lt__, '==': int.__eq__, '>=': int.__ge__, '!=': int.__ne__}[op](fx(e), fy(e))))))
                elif k < .94:
                    v = r.choice(sorted(tv)) if tv else None
                    if v:
                        lines.append('%sdio.num((sizeof(@%s) : int64))' % (ind, v))
                        run.append(lambda e, v=v: e['#'].append(str(sizeof(e['$'][v], self.w))))
                else:
                    c = [v for v, y in tv.items() if 'fav' in y]
                    if c:
                        v = r.choice(c)
                        x, fx = self.expr(T('var', v), sc, tv)
                        b = r.randrange(2)
                        l, f = self.show(T('var', v), 'mk%s(%s, %d)' % (self.name, x, b),
                                         lambda e, b=b, fx=fx, v=v: (fx(e), copy(self.fav[e['$'][v].a[0].name][1]))[0 if b else 1], ind)
                        lines.append(l)
                        run.append(f)
            except NoExpr:
                pass
        if not lines:
            lines.append(ind + 'dio.word("x")')
            run.append(lambda e: e['#'].append('x'))
        return lines, run

    def showcall(self, e, f, fx):
        v = fx(e)
        # the substitution used is the one the call computed last for f
        e['#'].extend(words(self, f.lastret, v))

    def match(self, e, x, m, r1, r2, t):
        v = e[x]
        e2 = Scope(e)
        if v is None:
            for o in r2:
                o(e2)
        else:
            e2[m] = cp(t.sub(e['$']), v[0])
            for o in r1:
                o(e2)

    def each(self, e, x, m, r1, t):
        for v in list(e[x]):
            e2 = Scope(e)
            e2[m] = cp(t.sub(e['$']), v)
            for o in r1:
                o(e2)


class Scope(dict):
    """inner names on top of an environment"""
    def __init__(self, up):
        self.up = up

    def __missing__(self, k):
        return self.up[k]

    def __setitem__(self, k, v):
        u = self
        if not dict.__contains__(self, k):
            x = self.up
            while isinstance(x, Scope):
                if dict.__contains__(x, k):
                    x[k] = v
                    return
                x = x.up
            if k in x:
                x[k] = v
                return
        dict.__setitem__(self, k, v)


class NoExpr(Exception):
    pass


class Fn:
    pass


ALIGN = {'int8': 1, 'uint8': 1, 'byte': 1, 'bool': 1, 'int16': 2, 'uint16': 2, 'int64': 8, 'uint64': 8, 'flt64': 8}


def layout(t):
    """(size, align) of a World type"""
    if t.kind == 'scal':
        a = ALIGN.get(t.name, 4)
        return a, a
    if t.kind == 'array':
        s, a = layout(t.parts[0])
        return s * t.n, a
    if t.kind == 'union':
        s, a = 4, 4
        for p in t.parts:
            if p:
                ps, pa = layout(p)
                a = max(a, pa)
                s = max(s, -(-4 // pa) * pa + ps)
        return -(-s // a) * a, a
    off, al = 0, 1
    for p in t.parts:
        s, a = layout(p)
        off = -(-off // a) * a + s
        al = max(al, a)
    return -(-off // al) * al, al


def tlayout(t):
    if t.k == 'base':
        return layout(t.a[0])
    if t.k == 'ptr':
        return 8, 8
    if t.k == 'sl':
        return 16, 8
    if t.k in ('tup', 'pair'):
        off, al = 0, 1
        for p in t.a:
            s, a = tlayout(p)
            off = -(-off // a) * a + s
            al = max(al, a)
        return -(-off // al) * al, al
    if t.k == 'opt':
        s, a = tlayout(t.a[0])
        a = max(a, 4)
        return -(-(-(-4 // a) * a + s) // a) * a, a
    if t.k == 'list':
        s, a = tlayout(T('tup', t.a[0], T('ptr', t)))
        return -(-(8 + s) // 8) * 8, 8


def sizeof(t, w):
    return tlayout(t)[0]


def gen(r, name):
    while True:
        g = Gen(r, name)
        n = name
        d, impls = g.prelude()
        help_ = ['generic pair%smk = {x : @x, y : @y -> pair%s(@x, @y)\n\t-> [.a = x, .b = y]\n}' % (n, n),
                 'generic none%s = {-> opt%s(@x)\n\t-> `None%s\n}' % (n, n, n),
                 'generic nonefor%s = {x : @x -> opt%s(@x)\n\t-> `None%s\n}' % (n, n, n),
                 'generic some%s = {x : @x -> opt%s(@x)\n\t-> `Some%s x\n}' % (n, n, n),
                 'generic nil%s = {-> list%s(@x)\n\t-> `Nil%s\n}' % (n, n, n),
                 'generic cons%s = {x : @x, l : list%s(@x) -> list%s(@x)\n\t-> `Cons%s (x, std.mk(l))\n}' % (n, n, n, n)]
        for _ in range(r.randrange(1, 7)):
            g.func()
        sc = {}
        g.cur = top = []
        lines, run = g.block(sc, {}, r.randrange(5, 12), 0)
        env = {'$': {}, '#': []}
        try:
            g.static(top, {}, set())
            for o in run:
                o(env)
        except OverflowError:
            continue
        if len(g.insts) >= 2:
            break
    fs = [f.text for f in g.funcs]
    decls = g.w.decls + d + help_ + fs + impls if r.random() < .5 else g.w.decls + d + impls + help_ + fs
    return Test(name, '\n'.join(decls), lines + ['dio.endl()'], [' '.join(env['#'])], info=(g.calls, len(g.insts)))


def labels(r, name):
    """a generic function with labels, closures and string constants, at several types"""
    k, st = r.randrange(2, 6), r.choice(['a', 'bc', ''])
    d = ['generic lp%s = {x : @a, n : int -> int' % name, '\tvar i, f', '\ti = 0', '\tf = {k; -> k + n}', ':again%s' % name, '\ti += %d' % k, '\tif i < n',
         '\t\tgoto again%s' % name, '\t;;', '\tif i > 3 * n', '\t\tgoto out', '\t;;', '\ti = f(i)', ':out', '\tdio.hex("%s")' % st, '\t-> i', '}']
    body, exp, n = [], [], 0
    for v in r.sample(['1', "'c'", '"str"', '(1, 2)', 'true', '1.5', '[1, 2]', '(2 : int8)'], r.choice([2, 3, 4])):
        m = r.randrange(1, 40)
        body += ['dio.num((lp%s(%s, %d) : int64))' % (name, v, m), 'dio.endl()']
        i = k * max(1, -(-m // k))
        exp.append('%s %d' % (st.encode().hex() or '-', i if i > 3 * m else i + m))
        n += 1
    return Test(name, '\n'.join(d), body, exp, info=(n, n))


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c09')
    r = ck.sub('gen')
    tests = [gen(r, 'g%d' % i) for i in range(ck.n(500, 8000))]
    tests += [labels(r, 'l%d' % i) for i in range(ck.n(16, 200))]
    pk.check(tests, per=8)
    ck.count('generic calls', sum(t.info[0] for t in tests))
    ck.count('distinct instances run', sum(t.info[1] for t in tests))
    ck.rule = 'every value printed by every instance equals what evaluating the generic body at the concrete types gives'
