"""C03: statement-level differential check of control flow and calls against a reference interpreter."""
import sys
from vf.core import *
from vf.ints import *
from vf.progs import Packer, Test

sys.setrecursionlimit(100000)
PREC = {'*': 8, '/': 8, '%': 8, '+': 7, '-': 7, '&': 6, '|': 5, '^': 5, '==': 4, '!=': 4, '>': 4, '>=': 4, '<': 4,
        '<=': 4, '&&': 3, '||': 2, '<<': 9, '>>': 9}
VT = [BY['int'], BY['int'], BY['int64'], BY['int32'], BY['uint32'], BY['byte'], BY['int16'], BY['uint64']]
BOOL = 'bool'
MAXSTEPS = 2500


class TooLong(Exception):
    pass


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Goto(Exception):
    def __init__(self, l):
        self.l = l


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Var:
    __slots__ = ('name', 't', 'glob', 'const', 'n')

    def __init__(self, name, t, glob=False, const=False, n=0):
        self.name, self.t, self.glob, self.const, self.n = name, t, glob, const, n


class Fn:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.body = None
        self.locals = []


# expressions: tuples (kind, type, ...)
class Gen:
    def __init__(self, r, name):
        self.r, self.name, self.k, self.trk = r, name, 0, 0
        self.globs, self.fns = [], []

    def id(self, p):
        self.k += 1
        return '%s%s_%d' % (p, self.name, self.k)

    # ---- expression generation. cx: dict(pure: no calls, noglob: no global reads, used: vars read, inc: vars incremented)
    def lit(self, t):
        r = self.r
        v = r.choice([0, 1, 2, 3, 5, 10, 100, 255, -1, -7]) if r.random() < .7 else value(r, t)
        return ('lit', t, t.wrap(v))

    def var(self, t, cx):
        c = [v for v in self.scope if v.t is t and v not in cx['inc'] and not v.n and not (v.glob and cx['noglob'])]
        if not c:
            return None
        v = self.r.choice(c)
        cx['used'].add(v)
        return ('var', t, v)

    def expr(self, t, d, cx):
        r = self.r
        if t == BOOL:
            return self.cond(d, cx)
        k = r.random()
        if d <= 0 or k < 0.12:
            if r.random() < 0.75:
                v = self.var(t, cx)
                if v:
                    return v
            return self.lit(t)
        if k < 0.45:
            op = r.choice(['+', '-', '*', '&', '|', '^', '+', '-', '<<', '>>', '/', '%'])
            a = self.expr(t, d - 1, cx)
            if op in ('<<', '>>'):
                b = ('lit', t, r.randrange(0, min(t.bits, 12)))
            elif op in '/%':
                b = ('lit', t, r.choice([1, 2, 3, 7, 10, 16, 100]))
            else:
                b = self.expr(t, d - 1, cx)
            return ('bin', t, op, a, b)
        if k < 0.50:
            return ('un', t, r.choice('-~'), self.expr(t, d - 1, cx))
        if k < 0.58:
            s = r.choice(VT)
            e = self.expr(s, d - 1, cx)
            if e[0] == 'lit':
                return e if s is t else self.lit(t)
            return ('cast', t, e)
        if k < 0.66:
            c2 = dict(cx, noinc=True)
            return ('tern', t, self.cond(d - 1, cx), self.expr(t, d - 1, c2), self.expr(t, d - 1, c2))
        if k < 0.72 and not cx.get('noinc'):
            c = [v for v in self.scope if v.t is t and not v.const and not v.glob and not v.n
                 and v not in cx['used'] and v not in cx['inc'] and v not in self.locked]
            if c:
                v = r.choice(c)
                cx['inc'].add(v)
                return ('inc', t, v, r.choice([1, -1]))
            return self.lit(t)
        if k < 0.80:
            a = [v for v in self.scope if v.n and v.t is t and not (v.glob and cx['noglob']) and v not in cx['inc']]
            if a:
                v = r.choice(a)
                cx['used'].add(v)
                return ('idx', t, v, self.expr(r.choice([BY['int'], BY['int64'], BY['uint32']]), d - 2, cx))
            return self.lit(t)
        if k < 0.88 and not cx['pure']:
            self.trk += 1
            return ('tr', t, self.trk, self.expr(t, d - 1, cx))
        if not cx['pure']:
            fs = [f for f in self.fns if f.ret is t]
            if fs and cx['calls'] > 0:
                f = r.choice(fs)
                cx['calls'] -= 1
                return self.call(f, d, cx)
        return self.lit(t)

    def call(self, f, d, cx):
        args = [self.expr(p.t, min(d - 1, 2), cx) for p in f.params[1:]]
        via = None
        ptrs = [(v, fs) for v, fs in self.fptrs if f in fs]
        if ptrs and self.r.random() < .4:
            via = self.r.choice(ptrs)[0]
        return ('call', f.ret, f, args, via, self.r.choice([1, 1, 2, 3]))

    def cond(self, d, cx):
        r = self.r
        k = r.random()
        if d > 0 and k < 0.35:
            c2 = dict(cx, noinc=True)
            return ('lazy', BOOL, r.choice(['&&', '||']), self.cond(d - 1, cx), self.cond(d - 1, c2))
        if d > 0 and k < 0.47:
            return ('not', BOOL, self.cond(d - 1, cx))
        if k < 0.55:
            v = self.var(BOOL, cx)
            if v:
                return v
        if k < 0.58:
            return ('lit', BOOL, r.random() < .5)
        t = r.choice(VT)
        return ('cmp', BOOL, r.choice(['==', '!=', '<', '>', '<=', '>=']), self.expr(t, d - 1, cx),
                self.expr(t, d - 1, cx))

    def cx(self, calls=2, pure=False):
        return {'pure': pure, 'noglob': not pure, 'used': set(), 'inc': set(), 'calls': calls}

    def full(self, t, d=3, calls=2):
        """A full expression: either reads globals, or calls."""
        return self.expr(t, d, self.cx(calls, self.r.random() < .4))

    # ---- text
    def tt(self, t):
        return 'bool' if t == BOOL else t.name

    def txt(self, e, p=0):
        k = e[0]
        full = self.r.random() < .3
        if k == 'lit':
            if e[1] == BOOL:
                return 'true' if e[2] else 'false'
            return lit(None, e[1], e[2])
        if k == 'var':
            return e[2].name
        if k in ('bin', 'cmp', 'lazy'):
            op = e[2]
            q = PREC[op]
            s = '%s %s %s' % (self.txt(e[3], q), op, self.txt(e[4], q + 1))
            return '(%s)' % s if full or q < p else s
        if k == 'un':
            x = self.txt(e[3], 11)
            return '(%s%s)' % (e[2], '(%s)' % x if x[0] == e[2] else x)
        if k == 'not':
            s = '!%s' % self.txt(e[2], 11)
            return '(%s)' % s if p > 10 or full else s
        if k == 'cast':
            return '(%s : %s)' % (self.txt(e[2], 1), e[1].name)
        if k == 'tern':
            return '(%s ? %s : %s)' % (self.txt(e[2], 2), self.txt(e[3], 2), self.txt(e[4], 2))
        if k == 'inc':
            return e[2].name + ('++' if e[3] > 0 else '--')
        if k == 'idx':
            return '%s[%s & 3]' % (e[2].name, self.txt(e[3], 6))
        if k == 'tr':
            return '(tr%s(%d, (%s : int64)) : %s)' % (self.name, e[2], self.txt(e[3], 1), self.tt(e[1])) \
                if e[3][0] != 'lit' else '(tr%s(%d, %s) : %s)' % (self.name, e[2], lit(None, BY['int64'], BY['int64'].wrap(e[3][2])), self.tt(e[1]))
        if k == 'call':
            f, args, via, dec = e[2], e[3], e[4], e[5]
            return '%s(%s)' % (via.name if via else f.name,
                               ', '.join(['fuel - %d' % dec] + [self.txt(a, 2) for a in args]))
        raise AssertionError(k)

    # ---- evaluation. env: dict Var -> value (locals) ; self.G globals
    def step(self):
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise TooLong()

    def out(self, s):
        self.trace.append(s)
        if len(self.trace) > 400:
            raise TooLong()

    def get(self, env, v):
        return self.G[v] if v.glob else env[v]

    def put(self, env, v, x):
        (self.G if v.glob else env)[v] = x

    def ev(self, e, env):
        """Evaluates; post-increments are queued in env['q']."""
        k = e[0]
        if k == 'lit':
            return e[2]
        if k == 'var':
            return self.get(env, e[2])
        if k == 'bin':
            a = self.ev(e[3], env)
            b = self.ev(e[4], env)
            return binop(e[2], e[1], a, b)
        if k == 'cmp':
            a = self.ev(e[3], env)
            b = self.ev(e[4], env)
            return cmpop(e[2], a, b)
        if k == 'lazy':
            a = self.ev(e[3], env)
            if e[2] == '&&':
                return self.ev(e[4], env) if a else False
            return True if a else self.ev(e[4], env)
        if k == 'not':
            return not self.ev(e[2], env)
        if k == 'un':
            a = self.ev(e[3], env)
            return e[1].wrap(-a if e[2] == '-' else ~a)
        if k == 'cast':
            return e[1].wrap(self.ev(e[2], env))
        if k == 'tern':
            return self.ev(e[3] if self.ev(e[2], env) else e[4], env)
        if k == 'inc':
            env['q'].append((e[2], e[3]))
            return self.get(env, e[2])
        if k == 'idx':
            return self.get(env, e[2])[self.ev(e[3], env) & 3]
        if k == 'tr':
            v = self.ev(e[3], env)
            self.out('%d %d' % (e[2], BY['int64'].wrap(v)))
            return v
        if k == 'call':
            f = e[2]
            dec = e[5]
            args = [env[env['fn'].params[0]] - dec] + [self.ev(a, env) for a in e[3]]
            return self.invoke(f, args)
        raise AssertionError(k)

    def top(self, e, env):
        """Evaluates a full expression and applies its increments."""
        self.step()
        q = env['q']
        env['q'] = []
        v = self.ev(e, env)
        for x, d in env['q']:
            self.put(env, x, x.t.wrap(self.get(env, x) + d))
        env['q'] = q
        return v

    def invoke(self, f, args):
        self.step()
        env = dict(zip(f.params, args))
        env['q'] = []
        env['fn'] = f
        self.depth += 1
        if self.depth > 60:
            raise TooLong()
        self.calls[f.name] = self.calls.get(f.name, 0) + 1
        try:
            self.run(f.body, env)
            rv = None
        except Ret as x:
            rv = x.v
        self.depth -= 1
        return rv

    def run(self, body, env):
        i = 0
        while i < len(body):
            try:
                self.stmt_run(body[i], env)
                i += 1
            except Goto as g:
                for j, s in enumerate(body):
                    if s[0] == 'label' and s[1] == g.l:
                        i = j
                        self.step()
                        break
                else:
                    raise

    def stmt_run(self, s, env):
        self.step()
        k = s[0]
        if k in ('decl', 'asn'):
            self.put(env, s[1], self.top(s[2], env))
        elif k == 'adecl':
            self.put(env, s[1], [self.top(x, env) for x in s[2]])
        elif k == 'aasn':
            q = env['q']
            env['q'] = []
            i = self.ev(s[2], env) & 3
            v = self.ev(s[4], env)
            a = self.get(env, s[1])
            a[i] = v if s[3] == '=' else binop(s[3][:-1], s[1].t, a[i], v)
            for x, d in env['q']:
                self.put(env, x, x.t.wrap(self.get(env, x) + d))
            env['q'] = q
        elif k == 'fuse':
            v = self.top(s[3], env)
            self.put(env, s[1], binop(s[2][:-1], s[1].t, self.get(env, s[1]), v))
        elif k == 'incs':
            self.put(env, s[1], s[1].t.wrap(self.get(env, s[1]) + s[2]))
        elif k == 'setp':
            v = self.top(s[2], env)
            self.put(env, s[1], s[1].t.wrap(v))
        elif k == 'expr':
            self.top(s[1], env)
        elif k == 'if':
            for c, b in s[1]:
                if c is None or self.top(c, env):
                    self.run(b, env)
                    break
        elif k == 'while':
            while self.top(s[1], env):
                try:
                    self.run(s[2], env)
                except Cont:
                    pass
                except Brk:
                    break
        elif k == 'for':
            if s[1]:
                self.stmt_run(s[1], env)
            while self.top(s[2], env):
                try:
                    self.run(s[4], env)
                except Cont:
                    pass
                except Brk:
                    break
                if s[3]:
                    self.stmt_run(s[3], env)
        elif k == 'break':
            raise Brk()
        elif k == 'continue':
            raise Cont()
        elif k == 'goto':
            raise Goto(s[1])
        elif k == 'label':
            pass
        elif k == 'ret':
            raise Ret(None if s[1] is None else self.top(s[1], env))
        elif k == 'block':
            self.run(s[1], env)
        elif k == 'fp':
            pass
        else:
            raise AssertionError(k)

    # ---- statement generation
    def newvar(self, t, n=0):
        return Var(self.id('v'), t, n=n)

    def assignable(self, t=None, glob=True):
        return [v for v in self.scope if not v.const and not v.n and v not in self.locked and (glob or not v.glob)
                and (t is None or v.t is t)]

    def bound(self, lo=1, hi=5):
        return self.r.randrange(lo, hi)

    def stmts(self, d, n):
        """A block: declarations made in it leave the scope at its end."""
        mark = len(self.scope)
        pm = len(self.fptrs)
        out = []
        for _ in range(n):
            out += self.stmt(d)
        del self.scope[mark:]
        del self.fptrs[pm:]
        return out

    def stmt(self, d):
        r = self.r
        k = r.random()
        if d <= 0:
            k *= 0.62
        if k < 0.12:
            t = r.choice(VT + [BOOL])
            e = self.full(t)
            v = self.newvar(t)
            self.scope.append(v)
            return [('decl', v, e)]
        if k < 0.26:
            c = self.assignable()
            if c:
                v = r.choice(c)
                cx = self.cx(2, r.random() < .4)
                # the incremented and the assigned variable must differ
                cx['used'].add(v)
                return [('asn', v, self.expr(v.t, 3, cx))]
        if k < 0.34:
            c = [v for v in self.assignable() if v.t != BOOL]
            if c:
                v = r.choice(c)
                op = r.choice(['+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>='])
                if op in ('<<=', '>>='):
                    return [('fuse', v, op, ('lit', v.t, r.randrange(0, v.t.bits)))]
                # x op= e where e changes x is left open by the manual
                cx = self.cx(2, v.glob or r.random() < .4)
                cx['used'].add(v)
                return [('fuse', v, op, self.expr(v.t, 3, cx))]
        if k < 0.38:
            c = [v for v in self.assignable() if v.t != BOOL]
            if c:
                return [('incs', r.choice(c), r.choice([1, -1]))]
        if k < 0.44:
            a = [v for v in self.scope if v.n]
            if a and r.random() < .8:
                v = r.choice(a)
                cx = self.cx(2, v.glob or r.random() < .5)
                cx['used'].add(v)
                cx2 = dict(cx, pure=True)
                op = r.choice(['=', '=', '+=', '^=', '-='])
                i = self.expr(r.choice([BY['int'], BY['int64'], BY['uint32']]), 1, cx2)
                e = self.expr(v.t, 2, dict(cx, noinc=True))
                return [('aasn', v, i, op, e)]
            v = self.newvar(r.choice(VT), n=4)
            es = [self.full(v.t, 1, 1) for _ in range(4)]
            # the element initialisers are one expression: no variable twice
            es = [e if e[0] == 'lit' else self.expr(v.t, 1, dict(self.cx(0, True), noinc=True)) for e in es]
            self.scope.append(v)
            return [('adecl', v, es)]
        if k < 0.50:
            c = [v for v in self.assignable(glob=False) if v.t is BY['int64']]
            if c:
                v = r.choice(c)
                return [('setp', v, self.expr(BY['int64'], 2, dict(self.cx(1, r.random() < .5), noinc=True)))]
        if k < 0.58:
            t = r.choice(VT)
            self.trk += 1
            return [('expr', ('tr', t, self.trk, self.full(t)))]
        if k < 0.62:
            fs = [f for f in self.fns if f.ret is None]
            if fs:
                cx = self.cx(1)
                return [('expr', self.call(r.choice(fs), 2, cx))]
            return []
        if k < 0.76:
            br = []
            for _ in range(r.choice([1, 1, 2, 3])):
                br.append((self.full(BOOL, 3), self.stmts(d - 1, r.randrange(0, 4))))
            if r.random() < .6:
                br.append((None, self.stmts(d - 1, r.randrange(0, 4))))
            return [('if', br)]
        if k < 0.94:
            return self.loop(d)
        if k < 0.97:
            t = self.r.choice(['break', 'continue'])
            if self.inloop:
                return [('if', [(self.full(BOOL, 2), [(t,)])])]
            return []
        if k < 0.985 and self.labels:
            return [('if', [(self.full(BOOL, 2), [('goto', r.choice(self.labels))])])]
        return [('if', [(self.full(BOOL, 2), self.stmts(d - 1, 1) + [self.ret()])])]

    def ret(self):
        f = self.cur
        return ('ret', None if f.ret is None else self.full(f.ret, 3))

    def loop(self, d):
        r = self.r
        pre = []
        k = r.randrange(7)
        mark = len(self.scope)
        self.inloop += 1
        T = r.choice([BY['int'], BY['int64'], BY['uint32']])
        n = self.bound()
        c = self.newvar(T)
        out = None
        L = lambda v: ('lit', T, v)
        if k <= 1:
            # for var c = 0; c < n; c++
            self.scope.append(c)
            self.locked.add(c)
            body = self.stmts(d - 1, r.randrange(1, 4))
            if k == 0:
                out = [('for', ('decl', c, L(0)), ('cmp', BOOL, '<', ('var', T, c), L(n)), ('incs', c, 1), body)]
            else:
                out = [('for', ('decl', c, L(n)), ('cmp', BOOL, '>', ('var', T, c), L(0)),
                        ('asn', c, ('bin', T, '-', ('var', T, c), L(1))), body)]
            self.locked.discard(c)
        elif k == 2:
            # outer variable, no step: while c < n && cond
            pre = [('decl', c, L(0))]
            self.scope.append(c)
            self.locked.add(c)
            body = [('incs', c, 1)] + self.stmts(d - 1, r.randrange(1, 4))
            cond = ('cmp', BOOL, '<', ('var', T, c), L(n))
            if r.random() < .6:
                cond = ('lazy', BOOL, '&&', cond, self.expr(BOOL, 2, dict(self.cx(1, r.random() < .4), noinc=True)))
            self.locked.discard(c)
            out = [('while', cond, body)]
        elif k == 3:
            # while c++ < n
            pre = [('decl', c, L(0))]
            self.scope.append(c)
            self.locked.add(c)
            body = self.stmts(d - 1, r.randrange(1, 4))
            self.locked.discard(c)
            if r.random() < .5:
                out = [('while', ('cmp', BOOL, '<', ('inc', T, c, 1), L(n)), body)]
            else:
                pre = [('decl', c, L(n))]
                out = [('while', ('cmp', BOOL, '!=', ('inc', T, c, -1), L(0)), body)]
        elif k == 4:
            # for ; true; with a break in the middle
            pre = [('decl', c, L(0))]
            self.scope.append(c)
            self.locked.add(c)
            a = self.stmts(d - 1, r.randrange(0, 2))
            b = self.stmts(d - 1, r.randrange(0, 3))
            self.locked.discard(c)
            body = [('incs', c, 1)] + a + [('if', [(('cmp', BOOL, '>=', ('var', T, c), L(n)), [('break',)])])] + b
            out = [('while', ('lit', BOOL, True), body)]
        elif k == 5:
            # for init; cond; step with outer variables
            pre = [('decl', c, self.full(T, 1, 0))]
            self.scope.append(c)
            self.locked.add(c)
            body = self.stmts(d - 1, r.randrange(1, 4))
            step = ('fuse', c, '+=', L(r.choice([1, 2])))
            out = [('for', ('asn', c, L(0)), ('cmp', BOOL, '<=', ('var', T, c), L(n)), step, body)]
            self.locked.discard(c)
        else:
            # backward goto at the outermost level only
            if self.level0 is False or self.inloop > 1:
                self.inloop -= 1
                return []
            self.inloop -= 1
            lab = self.id('L')
            pre = [('decl', c, L(0))]
            self.scope.append(c)
            self.locked.add(c)
            body = self.nolabels(d - 1)
            self.locked.discard(c)
            return pre + [('label', lab)] + body + [
                ('incs', c, 1), ('if', [(('cmp', BOOL, '<', ('var', T, c), L(n)), [('goto', lab)])])]
        self.inloop -= 1
        if k <= 1:
            del self.scope[mark:]
        return pre + out

    def nolabels(self, d):
        # no declarations in a region that is jumped back to
        return [('block', self.stmts(d, self.r.randrange(1, 4)))]

    def function(self, f, outer):
        r = self.r
        self.cur = f
        self.scope = list(self.globs) + f.params[1:]
        self.locked = set()
        self.fptrs = []
        self.labels = []
        self.inloop = 0
        self.level0 = True
        body = [('if', [(('cmp', BOOL, '<=', ('var', BY['int'], f.params[0]), ('lit', BY['int'], 0)),
                         [('ret', None if f.ret is None else self.expr(f.ret, 1, dict(self.cx(0, True), noinc=True)))])])]
        if r.random() < 0.25:
            for _ in range(r.randrange(8, 28)):
                t = r.choice(VT)
                v = self.newvar(t)
                body.append(('decl', v, self.full(t, 2, 1)))
                self.scope.append(v)
        if r.random() < 0.4:
            g = {}
            for x in self.fns:
                g.setdefault((x.ret, tuple(p.t.name for p in x.params)), []).append(x)
            g = [x for x in g.values() if len(x) > 0]
            if g:
                fs = r.choice(g)
                v = Var(self.id('fp'), None)
                body.append(('fp', v, r.choice(fs)))
                self.fptrs.append((v, [body[-1][2]]))
        out = self.id('L') if r.random() < .3 else None
        if out:
            self.labels.append(out)
        mark = len(self.scope)
        inner = []
        for _ in range(r.randrange(2, 7)):
            self.level0 = True
            inner += self.stmt(3)
        if out:
            # a forward goto may not skip declarations that stay visible
            del self.scope[mark:]
            body.append(('block', inner))
            body.append(('label', out))
        else:
            body += inner
        self.labels = []
        for v in self.scope:
            if not v.glob and not v.n and v.t != BOOL and r.random() < .7:
                self.trk += 1
                body.append(('expr', ('tr', v.t, self.trk, ('var', v.t, v))))
            elif v.n and r.random() < .5:
                for i in range(4):
                    self.trk += 1
                    body.append(('expr', ('tr', v.t, self.trk, ('idx', v.t, v, ('lit', BY['int'], i)))))
        if f.ret is not None or r.random() < .3:
            body.append(self.ret())
        f.body = body

    # ---- statement text
    def emit(self, body, ind, out):
        p = '\t' * ind
        for s in body:
            k = s[0]
            if k == 'decl':
                out.append('%svar %s : %s = %s' % (p, s[1].name, self.tt(s[1].t), self.txt(s[2], 2)))
            elif k == 'adecl':
                out.append('%svar %s : %s[4] = [%s]' % (p, s[1].name, self.tt(s[1].t), ', '.join(self.txt(x, 2) for x in s[2])))
            elif k == 'asn':
                out.append('%s%s = %s' % (p, s[1].name, self.txt(s[2], 2)))
            elif k == 'aasn':
                out.append('%s%s[%s & 3] %s %s' % (p, s[1].name, self.txt(s[2], 6), s[3], self.txt(s[4], 2)))
            elif k == 'fuse':
                out.append('%s%s %s %s' % (p, s[1].name, s[2], self.txt(s[3], 2)))
            elif k == 'incs':
                out.append('%s%s%s' % (p, s[1].name, '++' if s[2] > 0 else '--'))
            elif k == 'setp':
                out.append('%ssetp%s(&%s, %s)' % (p, self.name, s[1].name, self.txt(s[2], 2)))
            elif k == 'expr':
                out.append(p + self.txt(s[1], 0))
            elif k == 'if':
                for i, (c, b) in enumerate(s[1]):
                    out.append('%s%s' % (p, 'else' if c is None else '%s %s' % ('if' if i == 0 else 'elif', self.txt(c, 0))))
                    self.emit(b, ind + 1, out)
                out.append(p + ';;')
            elif k == 'while':
                out.append('%swhile %s' % (p, self.txt(s[1], 0)))
                self.emit(s[2], ind + 1, out)
                out.append(p + ';;')
            elif k == 'for':
                a, b = [], []
                self.emit([s[1]], 0, a)
                self.emit([s[3]], 0, b)
                sep = '; ' if self.r.random() < .8 else '\n' + p
                out.append('%sfor %s%s%s%s%s' % (p, a[0], sep, self.txt(s[2], 0), sep, b[0]))
                self.emit(s[4], ind + 1, out)
                out.append(p + ';;')
            elif k in ('break', 'continue'):
                out.append(p + k)
            elif k == 'goto':
                out.append('%sgoto %s' % (p, s[1]))
            elif k == 'label':
                out.append('%s:%s' % (p, s[1]))
            elif k == 'ret':
                out.append('%s-> %s' % (p, self.txt(s[1], 2) if s[1] is not None else 'void'))
            elif k == 'block':
                out.append(p + ('if true' if True else ''))
                self.emit(s[1], ind + 1, out)
                out.append(p + ';;')
            elif k == 'fp':
                out.append('%svar %s = %s' % (p, s[1].name, s[2].name))

    def make(self):
        r = self.r
        self.decls = ['const tr%s = {id : int, v : int64\n\tdio.num((id : int64))\n\tdio.num(v)\n\tdio.endl()\n\t-> v\n}' % self.name,
                      'const setp%s = {p : int64#, v : int64\n\tp# = v\n}' % self.name]
        self.G = {}
        for _ in range(r.randrange(1, 6)):
            t = r.choice(VT + [BOOL])
            n = 4 if t != BOOL and r.random() < .2 else 0
            v = Var(self.id('g'), t, glob=True, n=n)
            self.globs.append(v)
            if n:
                x = [t.wrap(r.randrange(-100, 100)) for _ in range(4)]
                self.decls.append('var %s : %s[4] = [%s]' % (v.name, t.name, ', '.join(lit(None, t, y) for y in x)))
            elif t == BOOL:
                x = r.random() < .5
                self.decls.append('var %s = %s' % (v.name, 'true' if x else 'false'))
            else:
                x = value(r, t)
                self.decls.append('var %s : %s = %s' % (v.name, t.name, lit(r, t, x)))
            self.G[v] = x
        # signatures first, so that calls may go anywhere
        sigs = [[r.choice(VT) for _ in range(r.choice([0, 1, 2, 3, 5, 7, 10]))] for _ in range(2)]
        rets = [r.choice(VT + [None]) for _ in range(2)]
        for i in range(r.randrange(2, 6)):
            j = r.randrange(2)
            ps = [Var(self.id('fuel') , BY['int'])] + [Var(self.id('p'), t) for t in sigs[j]]
            ps[0].name = 'fuel'
            ps[0].const = True
            self.fns.append(Fn(self.id('f'), ps, rets[j]))
        for i, f in enumerate(self.fns):
            self.function(f, i)
        main = self.fns[-1]
        args = [r.choice([2, 3, 4, 5])] + [value(r, p.t) for p in main.params[1:]]
        ginit = {v: (list(x) if v.n else x) for v, x in self.G.items()}
        self.trace, self.steps, self.depth, self.calls = [], 0, 0, {}
        try:
            rv = self.invoke(main, args)
        except (TooLong, RecursionError):
            return None
        for f in self.fns:
            out = []
            self.emit(f.body, 1, out)
            self.decls.append('const %s = {%s -> %s\n%s\n}' % (
                f.name, ', '.join('%s : %s' % (p.name, self.tt(p.t)) for p in f.params),
                'void' if f.ret is None else f.ret.name, '\n'.join(out)))
        call = '%s(%s)' % (main.name, ', '.join([str(args[0])] + [lit(r, p.t, a) for p, a in zip(main.params[1:], args[1:])]))
        body = []
        if main.ret is None:
            body.append(call)
        else:
            body += ['dio.num((%s : int64))' % call, 'dio.endl()']
            self.trace.append(str(BY['int64'].wrap(rv)))
        for v in self.globs:
            for i in range(4 if v.n else 1):
                x = self.G[v][i] if v.n else self.G[v]
                nm = '%s[%d]' % (v.name, i) if v.n else v.name
                if v.t == BOOL:
                    body += ['dio.flag(%s)' % nm, 'dio.endl()']
                    self.trace.append('1' if x else '0')
                else:
                    body += ['dio.num((%s : int64))' % nm, 'dio.endl()']
                    self.trace.append(str(BY['int64'].wrap(x)))
        return Test(self.name, '\n'.join(self.decls), body, self.trace)


def fixed_cases():
    """Situations kept apart because the current tree is known to get some of them wrong."""
    T = []

    def t(name, body, expect, decls=''):
        T.append(Test(name, decls, body, expect, info=name))
    show = ['dio.num((n : int64))', 'dio.endl()']
    t('whileinc', ['var n = 0', 'while n++ < 3', ';;'] + show, ['4'])
    t('fordec', ['var n', 'for n = 5; n-- > 0; ', ';;'] + show, ['-1'])
    t('lazyinc', ['var n = 3', 'var z = n > 100 && n++ > 0', 'dio.flag(z)'] + show, ['0 3'])
    t('terninc', ['var n = 3', 'var z = n > 100 ? n++ : 7', 'dio.num((z : int64))'] + show, ['7 3'])
    t('leftfirst', ['gl = 1', 'var n = gl + chgl()'] + show, ['11'],
      'var gl = 1\nconst chgl = {\n\tgl = 5\n\t-> 10\n}')
    t('argfirst', ['gm = 1', 'var n = sub2(gm, chgm())'] + show, ['-9'],
      'var gm = 1\nconst chgm = {\n\tgm = 5\n\t-> 10\n}\nconst sub2 = {a : int, b : int\n\t-> a - b\n}')
    return T


class Machine:
    """A function whose blocks are laid out in an arbitrary order and joined by gotos; every block
    changes some of many live integers, sometimes through calls, and runs on limited fuel."""

    def __init__(self, r, name):
        self.r, self.name = r, name

    def make(self):
        r, nm = self.r, self.name
        nb = r.randrange(3, 14)
        nv = r.choice([2, 4, 6, 9, 14, 20])
        T = r.choice([BY['int'], BY['int64'], BY['uint32'], BY['uint64']])
        vs = ['v%d' % k for k in range(nv)]
        npar = r.randrange(0, min(nv, 9))
        shape = r.choice(['random', 'random', 'back', 'chain'])
        order = list(range(nb))
        if shape == 'back':
            order = order[::-1]
        elif shape == 'random':
            r.shuffle(order)
        blocks = []
        for b in range(nb):
            ops = []
            for _ in range(r.choice([1, 1, 2, 3])):
                d = r.choice(vs)
                k = r.choice(['mix', 'call', 'call2', 'sum', 'self'])
                ops.append((k, d, r.choice(vs), r.choice(vs), r.randrange(1, 100)))
            nxt = (b + 1) % nb if r.random() < .7 else r.randrange(nb)
            c = None
            if r.random() < .45:
                c = (r.choice(vs), r.randrange(1, 6), r.randrange(nb))
            blocks.append((ops, c, nxt))
        fuel = r.randrange(5, 90)
        init = [value(r, T) if r.random() < .3 else T.wrap(r.randrange(-50, 200)) for _ in vs]
        # run
        env = dict(zip(vs, init))
        b, left, calls = 0, fuel, 0
        while True:
            left -= 1
            if left < 0:
                break
            ops, c, nxt = blocks[b]
            for k, d, x, y, lt in ops:
                if k == 'mix':
                    v = env[x] * 3 + env[y] - lt
                elif k == 'call':
                    v = env[x] ^ lt
                    calls += 1
                elif k == 'call2':
                    v = env[x] - env[y] * 2 + env[d]
                    calls += 1
                elif k == 'sum':
                    v = sum(env[z] for z in vs[:8]) + lt
                else:
                    v = env[d] * 5 + lt
                env[d] = T.wrap(v)
            if c and (env[c[0]] & 7) < c[1]:
                b = c[2]
            else:
                b = nxt
        t = T.name
        out = ['const o_%s = {x : %s, y : %s -> %s\n\t-> x ^ y\n}' % (nm, t, t, t),
               'const q_%s = {x : %s, y : %s, z : %s -> %s\n\tcnt_%s++\n\t-> x - y*2 + z\n}' % (nm, t, t, t, t, nm),
               'var cnt_%s : int = 0' % nm]
        f = ['const m_%s = {fuel : int%s -> %s' % (nm, ''.join(', %s : %s' % (v, t) for v in vs[:npar]), t)]
        for v, x in list(zip(vs, init))[npar:]:
            f.append('\tvar %s : %s = %s' % (v, t, lit(None, T, x)))
        if order[0] != 0:
            f.append('\tgoto b0')
        for j, b in enumerate(order):
            ops, c, nxt = blocks[b]
            f.append(':b%d' % b)
            f += ['\tfuel--', '\tif fuel < 0', '\t\tgoto done', '\t;;']
            for k, d, x, y, lt in ops:
                l = lit(None, T, lt)
                f.append('\t%s = %s' % (d, {'mix': '%s * %s + %s - %s' % (x, lit(None, T, 3), y, l),
                                           'call': 'o_%s(%s, %s)' % (nm, x, l),
                                           'call2': 'q_%s(%s, %s, %s)' % (nm, x, y, d),
                                           'sum': ' + '.join(vs[:8]) + ' + ' + l,
                                           'self': '%s * %s + %s' % (d, lit(None, T, 5), l)}[k]))
            if c:
                f += ['\tif (%s & %s) < %s' % (c[0], lit(None, T, 7), lit(None, T, c[1])), '\t\tgoto b%d' % c[2], '\t;;']
            if j + 1 >= len(order) or order[j + 1] != nxt or r.random() < .2:
                f.append('\tgoto b%d' % nxt)
        f.append(':done')
        acc = T.wrap(0)
        for v in vs:
            acc = T.wrap(acc * 31 + env[v])
        f.append('\tvar acc : %s = %s' % (t, lit(None, T, 0)))
        for v in vs:
            f.append('\tacc = acc * %s + %s' % (lit(None, T, 31), v))
        f += ['\t-> acc', '}']
        body = ['dio.num((m_%s(%s) : int64))' % (nm, ', '.join([str(fuel)] + [lit(None, T, x) for x in init[:npar]])), 'dio.endl()']
        return Test(nm, '\n'.join(out + f), body, [str(BY['int64'].wrap(acc))], info=('machine', shape))


class Nest(Machine):
    """Deep loop nests of mixed kinds with values used far from where they are set."""

    def make(self):
        r, nm = self.r, self.name
        T = r.choice([BY['int'], BY['int64'], BY['uint64']])
        t = T.name
        depth = r.randrange(2, 8)
        nv = r.choice([3, 6, 12, 18])
        vs = ['v%d' % k for k in range(nv)]
        init = [T.wrap(r.randrange(-50, 200)) for _ in vs]
        env = dict(zip(vs, init))
        lines = []

        def op():
            d, x, y, lt = r.choice(vs), r.choice(vs), r.choice(vs), r.randrange(1, 50)
            k = r.choice(['mix', 'call', 'self'])
            txt = {'mix': '%s = %s * 3 + %s - %d' % (d, x, y, lt), 'call': '%s = o_%s(%s, %d)' % (d, nm, x, lt),
                   'self': '%s = %s * 5 + %d' % (d, d, lt)}[k]

            def go():
                v = {'mix': lambda: env[x] * 3 + env[y] - lt, 'call': lambda: env[x] ^ lt, 'self': lambda: env[d] * 5 + lt}[k]()
                env[d] = T.wrap(v)
            return txt, go

        def build(d):
            """a list of items: ('op', txt, go) or ('loop', kind, n, items, brk)"""
            items = []
            for _ in range(r.randrange(0, 3)):
                items.append(('op',) + op())
            if d:
                brk = None
                if r.random() < .3:
                    brk = (r.choice(vs), r.randrange(8), r.choice(['break', 'continue']))
                items.append(('loop', r.choice(['for', 'while', 'forc', 'down']), r.randrange(1, 3 if depth > 4 else 4), build(d - 1), brk, d))
            for _ in range(r.randrange(0, 3)):
                items.append(('op',) + op())
            return items
        tree = build(depth)

        def emit(items, ind):
            for it in items:
                p = '\t' * ind
                if it[0] == 'op':
                    lines.append(p + it[1])
                    continue
                _, kind, n, sub, brk, d = it
                i = 'i%d' % d
                if kind == 'for':
                    lines.append(p + 'for var %s = 0; %s < %d; %s++' % (i, i, n, i))
                elif kind == 'down':
                    lines.append(p + 'for var %s = %d; %s > 0; %s--' % (i, n, i, i))
                elif kind == 'forc':
                    lines.append(p + 'for %s : arr_%s[:%d]' % (i, nm, n))
                else:
                    lines.append(p + 'w%d = 0' % d)
                    lines.append(p + 'while w%d < %d' % (d, n))
                    lines.append(p + '\tw%d++' % d)
                if brk:
                    lines.append(p + '\tif (%s & 7) == %d' % (brk[0], brk[1]))
                    lines.append(p + '\t\t' + brk[2])
                    lines.append(p + '\t;;')
                emit(sub, ind + 1)
                lines.append(p + ';;')

        def go(items):
            for it in items:
                if it[0] == 'op':
                    it[2]()
                    continue
                _, kind, n, sub, brk, d = it
                for _ in range(n):
                    if brk and (env[brk[0]] & 7) == brk[1]:
                        if brk[2] == 'break':
                            break
                        continue
                    go(sub)
        go(tree)
        emit(tree, 1)
        acc = T.wrap(0)
        for v in vs:
            acc = T.wrap(acc * 31 + env[v])
        decls = ['const o_%s = {x : %s, y : %s -> %s\n\t-> x ^ y\n}' % (nm, t, t, t), 'var arr_%s : int[8]' % nm,
                 'const m_%s = {%s -> %s' % (nm, ', '.join('%s : %s' % (v, t) for v in vs[:nv // 2]), t)]
        decls += ['\tvar w%d = 0' % d for d in range(1, depth + 1)]
        decls += ['\tvar %s : %s = %s' % (v, t, lit(None, T, x)) for v, x in list(zip(vs, init))[nv // 2:]]
        decls += lines
        decls.append('\tvar acc : %s = 0' % t)
        decls += ['\tacc = acc * 31 + %s' % v for v in vs]
        decls += ['\t-> acc', '}']
        body = ['dio.num((m_%s(%s) : int64))' % (nm, ', '.join(lit(None, T, x) for x in init[:nv // 2])), 'dio.endl()']
        return Test(nm, '\n'.join(decls), body, [str(BY['int64'].wrap(acc))], info=('nest', depth))


def check(ck):
    ck.rule = ('random multi-function programs (if/elif/else, while, for, break, continue, goto, early return, lazy '
               'operators, ternary, postincrement, fused assignment, arrays, recursion, function values, up to 10 '
               'parameters and 30 live locals) whose every traced value, call and final global is compared with a '
               'reference interpreter; non-trivial when the text is distinct and at least one event was traced')
    t = Tree('std')
    pk = Packer(ck, t, 'c03')
    pk.check(fixed_cases(), per=1, sigf=lambda t, b: 'fixed case ' + t.name)
    ms = [M(ck.sub(M.__name__, k), '%s%d' % (M.__name__[0].lower(), k)).make()
          for M in (Machine, Nest) for k in range(ck.n(400, 8000))]
    for m in ms:
        ck.count('%s %s' % m.info)
    for k in range(0, len(ms), 1000):
        pk.check(ms[k:k + 1000], per=40)
    n = ck.n(1400, 24000)
    i = 0
    done = 0
    ev = 0
    while done < n and not ck.enough():
        out = []
        while len(out) < 800 and done + len(out) < n:
            g = Gen(ck.sub('t', i), str(i))
            i += 1
            c = g.make()
            if c is None:
                ck.count('discarded (too long)')
                continue
            ev += len(c.expect)
            ck.count('functions called', sum(g.calls.values()))
            out.append(c)
        pk.check(out, per=25)
        done += len(out)
    ck.extra['trace_events'] = ev


TECH = 'runtime trace compared with a reference interpreter over generated programs'
NOTE = ('Held on the generated programs only. Trusts the Python interpreter. Evaluation order is exercised only where '
        'the manual fixes it (calls left to right, increments after the full expression).')
