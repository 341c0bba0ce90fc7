"""C14: auto values are disposed exactly once and iterators are driven to protocol."""
from vf.build import Tree
from vf.progs import Test, Packer

TECH = 'runtime monitoring: generated control flow around auto values and iterators logs every creation, disposal, step and cleanup; the log is compared with one an interpreter of the same program makes'
NOTE = 'functions nest ifs, loops over counters, slices and iterators, matches, closures and calls up to 4 deep; no goto across autos; what happens to the current value of an iterator when its loop is left by break or return is taken as it is (no cleanup)'


class Budget(Exception):
    pass


class Exit(Exception):
    pass


class Brk(Exit):
    pass


class Cnt(Exit):
    pass


class Ret(Exit):
    def __init__(self, v):
        self.v = v


class Gen:
    def __init__(self, r, name):
        self.r, self.name = r, name
        self.nid = 0
        self.funcs = []
        self.decls = []
        self.log = []
        self.state = 0

    def id(self):
        self.nid += 1
        return self.nid

    # --- run time
    def w(self, *a):
        self.log += [str(x) for x in a]
        if len(self.log) > 3000:
            raise Budget

    def rnd(self):
        self.state = (self.state * 1103515245 + 12345) & 0xffffffff
        return self.state >> 16 & 7

    # --- expressions: (text, fn(env))
    def val(self, sc):
        r = self.r
        k = r.random()
        if sc and k < .4:
            v = r.choice(sorted(sc))
            return v, lambda e: e[v]
        if k < .8 or not self.funcs:
            i = self.id()

            def f(e):
                self.w('v', i)
                return i
            return 'val%s(%d)' % (self.name, i), f
        return self.call(sc)

    def call(self, sc):
        n, run = self.r.choice(self.funcs)
        a = self.r.randrange(0, 8)
        return '%s(%d)' % (n, a), lambda e: run(a)

    def cond(self):
        k = self.r.randrange(1, 8)
        return 'rnd%s() < %d' % (self.name, k), lambda e: self.rnd() < k

    # --- statements
    def auto(self, sc, ind, inexpr):
        """an auto value; its disposal goes on the innermost block's list"""
        i = self.id()
        n = self.name
        kind = self.r.choice('psia')
        mk = {'p': 'mkp', 's': 'mks', 'i': 'mki', 'a': 'mka'}[kind]

        def f(e):
            self.w('c', kind, i)
            e['autos'][-1].append((kind, i))
            return i
        return 'auto %s%s(%d)' % (mk, n, i), f

    def block(self, sc, ind, d, loop, nmin=1):
        sc = dict(sc)
        lines, run = [], []
        n = self.r.randrange(nmin, 5 if d < 2 else 4)
        for k in range(n):
            l, f, stop = self.stmt(sc, ind, d, loop, k == n - 1)
            lines += l
            run.append(f)
            if stop:
                break

        def go(e, tail=None):
            e['autos'].append([])
            v = None
            try:
                for f in run:
                    f(e)
                if tail:
                    v = tail(e)
            except Budget:
                raise
            except BaseException:
                self.leave(e)
                raise
            self.leave(e)
            return v
        return lines, go

    def leave(self, e):
        for kind, i in reversed(e['autos'].pop()):
            self.w('d', kind, i)

    def stmt(self, sc, ind, d, loop, last):
        r, n = self.r, self.name
        t = '\t' * ind
        k = r.random()
        if k < .3:
            x, f = self.auto(sc, ind, False)
            q = r.random()
            if q < .4:
                return [t + x], f, False
            if q < .7:
                v = 'r%d' % self.id()
                return ['%svar %s = %s' % (t, v, x), '%suse%s(%s)' % (t, n, v)], lambda e: (f(e), self.w('u')), False
            v = 'v%d' % self.id()
            sc[v] = 1
            return ['%svar %s = idof%s((%s))' % (t, v, n, x)], lambda e: e.__setitem__(v, f(e)), False
        if k < .42:
            x, f = self.val(sc)
            return ['%sout%s(%s)' % (t, n, x)], lambda e: self.w('o', f(e)), False
        if k < .58 and d < 4:
            c, fc = self.cond()
            l1, b1 = self.block(sc, ind + 1, d + 1, loop)
            lines = ['%sif %s' % (t, c)] + l1
            if r.random() < .5:
                l2, b2 = self.block(sc, ind + 1, d + 1, loop)
                if r.random() < .4:
                    c2, fc2 = self.cond()
                    l3, b3 = self.block(sc, ind + 1, d + 1, loop)
                    lines += ['%selif %s' % (t, c2)] + l3 + [t + 'else'] + l2

                    def f(e):
                        if fc(e):
                            b1(e)
                        elif fc2(e):
                            b3(e)
                        else:
                            b2(e)
                else:
                    lines += [t + 'else'] + l2

                    def f(e):
                        (b1 if fc(e) else b2)(e)
            else:
                def f(e):
                    if fc(e):
                        b1(e)
            return lines + [t + ';;'], f, False
        if k < .82 and d < 3:
            return self.loop(sc, ind, d) + (False,)
        if k < .88 and d < 4:
            # a match
            arms = r.sample(range(8), r.randrange(1, 4))
            lines = ['%smatch rnd%s()' % (t, n)]
            bs = {}
            for a in arms:
                l, b = self.block(sc, ind + 1, d + 1, loop)
                lines += ['%s| %d:' % (t, a)] + l
                bs[a] = b
            v = 'm%d' % self.id()
            l, bd = self.block({**sc, v: 1}, ind + 1, d + 1, loop)
            lines += ['%s| %s:' % (t, v)] + l + [t + ';;']

            def f(e):
                x = self.rnd()
                if x in bs:
                    bs[x](e)
                else:
                    e[v] = x
                    bd(e)
            return lines, f, False
        if k < .91 and d < 3:
            # a closure with autos of its own
            c = 'f%d' % self.id()
            l, b = self.block(sc, ind + 1, d + 1, False)
            x, fx = self.val(sc)

            def f(e):
                for _ in range(2):
                    e2 = dict(e)
                    e2['autos'] = []
                    self.w('o', self.frame(b, fx, e2))
            return (['%svar %s = {' % (t, c)] + l + ['%s\t-> %s' % (t, x), t + '}'] +
                    ['%sout%s(%s())' % (t, n, c)] * 2), f, False
        if d and r.random() < .8:
            if loop and r.random() < .7:
                if r.random() < .5:
                    def f(e):
                        raise Brk
                    return [t + 'break'], f, True

                def f(e):
                    raise Cnt
                return [t + 'continue'], f, True
            x, fx = self.val(sc)

            def f(e):
                raise Ret(fx(e))
            return ['%s-> %s' % (t, x)], f, True
        x, f = self.val(sc)
        return ['%sout%s(%s)' % (t, n, x)], lambda e: self.w('o', f(e)), False

    def loop(self, sc, ind, d):
        r, n = self.r, self.name
        t = '\t' * ind
        k = r.random()
        v = 'i%d' % self.id()
        cnt = r.randrange(0, 4)

        def body(b, e):
            """runs the body; False: left by break"""
            try:
                b(e)
            except Cnt:
                return True
            except Brk:
                return False
            return True
        if k < .2:
            l, b = self.block({**sc, v: 1}, ind + 1, d + 1, True)

            def f(e):
                for i in range(cnt):
                    e[v] = i
                    if not body(b, e):
                        break
            return ['%sfor var %s = 0; %s < %d; %s++' % (t, v, v, cnt, v)] + l + [t + ';;'], f
        if k < .35:
            l, b = self.block({**sc, v: 1}, ind + 1, d + 1, True)

            def f(e):
                e[v] = cnt
                while True:
                    e[v] -= 1
                    if e[v] < 0:
                        break
                    if not body(b, e):
                        break
            return ['%svar %s = %d' % (t, v, cnt), '%swhile --%s >= 0' % (t, v)] + l + [t + ';;'], f
        if k < .6:
            # a slice or an array, all or some of its elements
            xs = [(r.randrange(0, 3), r.randrange(100)) for _ in range(r.randrange(1, 5))]
            arr = '[%s]' % ', '.join('(%d, %d)' % x for x in xs) + r.choice(['', '[:]'])
            if r.random() < .5:
                m = r.randrange(0, 3)
                pat = '(%d, %s)' % (m, v)
                ys = [y for x, y in xs if x == m]
            else:
                pat = '(_, %s)' % v
                ys = [y for _, y in xs]
            l, b = self.block({**sc, v: 1}, ind + 1, d + 1, True)

            def f(e):
                for y in ys:
                    e[v] = y
                    if not body(b, e):
                        break
            return ['%sfor %s : %s' % (t, pat, arr)] + l + [t + ';;'], f
        # a user iterator giving (i % 3, i)
        i = self.id()
        cnt = r.randrange(0, 6)
        m = None
        if r.random() < .5:
            m = r.randrange(0, 3)
            pat = '(%d, %s)' % (m, v)
        else:
            pat = '(_, %s)' % v
        l, b = self.block({**sc, v: 1}, ind + 1, d + 1, True)

        def f(e):
            for j in range(cnt):
                self.w('n', i, j)
                if m is None or j % 3 == m:
                    e[v] = j
                    if not body(b, e):
                        return
                self.w('f', i, j)
            self.w('e', i)
        return ['%sfor %s : iter%s(%d, %d)' % (t, pat, n, i, cnt)] + l + [t + ';;'], f

    def frame(self, b, fx, e):
        """a function body that ends with -> x, all one scope with the result"""
        try:
            return b(e, fx)
        except Ret as x:
            return x.v

    def func(self):
        n = 'f%d%s' % (self.id(), self.name)
        sc = {'p': 1}
        lines, run = [], []
        for k in range(self.r.randrange(2, 6)):
            l, f, stop = self.stmt(sc, 1, 0, False, False)
            lines += l
            run.append(f)
        x, fx = self.val(sc)
        gen = self.r.random() < .25
        if gen:
            lines = ['\tauto x'] + lines
            self.decls.append('generic %s_g = {x : @t, p : int -> int :: disposable @t\n%s\n\t-> %s\n}' % (n, '\n'.join(lines), x))
            k = self.r.choice('psia')
            i = self.id()
            self.decls.append('const %s = {p : int -> int\n\t-> %s_g(mk%s%s(%d), p)\n}' % (n, n, k, self.name, i))
        else:
            self.decls.append('const %s = {p : int -> int\n%s\n\t-> %s\n}' % (n, '\n'.join(lines), x))

        def call(a):
            e = {'p': a, 'autos': [[]]}
            if gen:
                self.w('c', k, i)
                e['autos'][-1].append((k, i))
            try:
                for f in run:
                    f(e)
                v = fx(e)
            except Ret as q:
                v = q.v
            self.leave(e)
            return v
        self.funcs.append((n, call))


# statements of a closure live in the function's own scope: the block is flattened into it
def prelude(n):
    return '''type rp%(n)s = struct
	id : int
;;
type rs%(n)s = struct
	pad : int[5]
	id : int
;;
type ri%(n)s = int
type ra%(n)s = int[:]
type it%(n)s = struct
	id : int
	n : int
	i : int
;;
var seed%(n)s : uint32 = 0
const rnd%(n)s = {-> int
	seed%(n)s = seed%(n)s * 1103515245 + 12345
	-> ((seed%(n)s >> 16 & 7) : int)
}
const nums%(n)s = {c, x : int
	dio.word(c)
	dio.num((x : int64))
}
const val%(n)s = {x : int -> int
	nums%(n)s("v", x)
	-> x
}
const out%(n)s = {x : int
	nums%(n)s("o", x)
}
generic use%(n)s = {x : @a -> void
	dio.word("u")
}
const made%(n)s = {k, x : int
	dio.word("c")
	nums%(n)s(k, x)
}
const gone%(n)s = {k, x : int
	dio.word("d")
	nums%(n)s(k, x)
}
trait ided%(n)s @a =
	idof%(n)s : (x : @a -> int)
;;
impl ided%(n)s rp%(n)s# =
	idof%(n)s = {x; -> x.id}
;;
impl ided%(n)s rs%(n)s =
	idof%(n)s = {x; -> x.id}
;;
impl ided%(n)s ri%(n)s =
	idof%(n)s = {x; -> (x : int)}
;;
impl ided%(n)s ra%(n)s =
	idof%(n)s = {x; -> (x : int[:])[0]}
;;
impl disposable rp%(n)s# =
	__dispose__ = {x
		gone%(n)s("p", x.id)
		x.id = -1
		std.free(x)
	}
;;
impl disposable rs%(n)s =
	__dispose__ = {x
		gone%(n)s("s", x.id)
	}
;;
impl disposable ri%(n)s =
	__dispose__ = {x
		gone%(n)s("i", (x : int))
	}
;;
impl disposable ra%(n)s =
	__dispose__ = {x
		gone%(n)s("a", (x : int[:])[0])
		std.slfree((x : int[:]))
	}
;;
impl iterable it%(n)s -> (int, int) =
	__iternext__ = {it, v
		if it.i >= it.n
			nums%(n)s("e", it.id)
			-> false
		;;
		nums%(n)s("n", it.id)
		dio.num((it.i : int64))
		v# = (it.i %% 3, it.i)
		it.i++
		-> true
	}
	__iterfin__ = {it, v
		nums%(n)s("f", it.id)
		dio.num((v#.1 : int64))
	}
;;
const iter%(n)s = {id, n : int -> it%(n)s
	-> [.id = id, .n = n]
}
const mkp%(n)s = {x : int -> rp%(n)s#
	made%(n)s("p", x)
	-> std.mk([.id = x])
}
const mks%(n)s = {x : int -> rs%(n)s
	made%(n)s("s", x)
	-> [.pad = [1, 2, 3, 4, 5], .id = x]
}
const mki%(n)s = {x : int -> ri%(n)s
	made%(n)s("i", x)
	-> (x : ri%(n)s)
}
const mka%(n)s = {x : int -> ra%(n)s
	made%(n)s("a", x)
	-> (std.sldup([x, x][:]) : ra%(n)s)
}''' % {'n': n}


def gen(r, name):
    while True:
        g = Gen(r, name)
        for _ in range(r.randrange(1, 5)):
            g.func()
        body = []
        try:
            for i in range(6):
                a = r.randrange(8)
                s = r.randrange(1 << 32)
                body += ['seed%s = %d' % (name, s), 'out%s(%s(%d))' % (name, g.funcs[-1][0], a)]
                g.state = s
                g.w('o', g.funcs[-1][1](a))
        except Budget:
            continue
        if len(g.log) > 40:
            break
    return Test(name, prelude(name) + '\n' + '\n'.join(g.decls), body + ['dio.endl()'], [' '.join(g.log)],
                info=(g.log.count('d'), g.log.count('f'), g.log.count('n')))


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c14')
    r = ck.sub('gen')
    tests = [gen(r, 'a%d' % i) for i in range(ck.n(400, 6000))]
    pk.check(tests, per=8)
    for k, n in zip(('disposals', 'iterator cleanups', 'iterator steps'), range(3)):
        ck.count(k, sum(t.info[n] for t in tests))
    ck.rule = 'the log of creations, disposals, steps, cleanups and results equals the one the interpreter gives'
