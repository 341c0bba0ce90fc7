"""Patterns: generation, source text, matching, and a usefulness (exhaustiveness) decision.

Pattern: ('_',) ('var', name) ('lit', v) ('con', i, sub or None) ('rec', [sub or None]) ('ptr', sub) ('or', [p]) ('const', name, v)"""
from .aggr import *

POOL = {'bool': [False, True], 'char': [97, 98, 0, 0x10ffff, 233], 'flt32': [0.0, 1.5, -2.0, 1e10], 'flt64': [0.0, 1.5, -2.0, 1e10, 0.1]}
STRS = [b'', b'a', b'b', b'ab', b'abc', b'a\0', b'\xff', b'a\xc3\xa9', b'abd', b'b\x80b']


def pool(t):
    if t.name == 'str':
        return STRS
    if t.name in POOL:
        return POOL[t.name]
    b = BY[t.name]
    return [0, 1, 2, b.lo, b.hi, 77, 78]


class PWorld(World):
    """World with byte strings and pointers, and values from small pools so that patterns hit."""

    def __init__(self, r, name, **k):
        super().__init__(r, name, **k)
        self.S['str'] = Ty('scal', 'str')
        self.boxes = {}

    def tyname(self, t):
        return t.name

    def scalar(self):
        r = self.r
        k = r.random()
        if k < .3:
            return self.S['bool']
        if k < .45:
            return self.str()
        return self.S[r.choice(SCAL)]

    def str(self):
        t = Ty('scal', 'byte[:]')
        t.str = True
        return t

    def _type(self, d):
        r = self.r
        if d > 0 and r.random() < .1:
            p = self._type(d - 1)
            return Ty('ptr', p.name + '#', [p])
        if d > 0 and r.random() < .2:
            return self.mkunion([None if r.random() < .5 else self._type(d - 1) for _ in range(r.choice([1, 2, 3, 5]))])
        return super()._type(d)

    def value(self, t, zero=0):
        if isstr(t):
            return self.r.choice(STRS)
        if t.kind == 'ptr':
            return [self.value(t.parts[0])]
        if t.kind == 'scal':
            return self.r.choice(pool(t))
        return super().value(t, 0)

    def lit(self, t, v, leave=0):
        if isstr(t):
            return '""' if not v else '"%s"' % ''.join(chr(b) if 97 <= b < 123 else '\\x%02x' % b for b in v)
        if t.kind == 'ptr':
            return '%s(%s)' % (self.box(t.parts[0]), self.lit(t.parts[0], v[0]))
        return super().lit(t, v, 0)

    def box(self, t):
        if t.name not in self.boxes:
            f = self.boxes[t.name] = self.id('box')
            self.decls.append('const %s = {x : %s -> %s#\n\t-> std.mk(x)\n}' % (f, t.name, t.name))
        return self.boxes[t.name]

    def show(self, t):
        if t.name not in self.shows and (isstr(t) or t.kind == 'ptr'):
            f = self.id('show')
            self.shows[t.name] = f
            b = 'dio.hex(x)' if isstr(t) else self.show(t.parts[0]) + '(x#)'
            self.decls.append('const %s = {x : %s -> void\n\t%s\n}' % (f, t.name, b))
        return super().show(t)

    def words(self, t, v):
        if isstr(t):
            return [v.hex() or '-']
        if t.kind == 'ptr':
            return self.words(t.parts[0], v[0])
        return super().words(t, v)

    # patterns
    def plit(self, t, v):
        """a literal in a pattern"""
        if isstr(t) or t.name in ('bool', 'flt32', 'flt64'):
            return self.lit(t, v)
        if t.name == 'char':
            return "'%s'" % chr(v) if 97 <= v < 123 else "'\\u{%x}'" % v
        s = SUF.get(t.name)
        if t.name in ('byte', 'uint8') or v < 0 or s is None:
            return str(v) if v < 1 << 31 else hex(v)
        return (hex(v) + s) if self.r.random() < .5 and not s.endswith('b') else str(v) if v < 1 << 31 else hex(v) + (s if t.name in SUF else 'ul')

    def pat(self, t, d=4, wild=.3, likely=None):
        """A pattern for t, without captures."""
        r = self.r
        if d <= 0 or r.random() < wild:
            return ('_',)
        k = r.random()
        if k < .1 and d > 1:
            return ('or', [self.pat(t, d - 1, wild / 2) for _ in range(r.choice([2, 2, 3]))])
        if k < .16 and t.kind != 'ptr' and not t.has('ptr'):
            v = self.value(t)
            n = self.id('k')
            self.decls.append('const %s : %s = %s' % (n, t.name, self.lit(t, v)))
            return ('const', n, v)
        if t.kind == 'scal':
            return ('lit', r.choice(pool(t) if not isstr(t) else STRS))
        if t.kind == 'ptr':
            return ('ptr', self.pat(t.parts[0], d - 1, wild))
        if t.kind == 'union':
            i = r.randrange(len(t.parts))
            return ('con', i, self.pat(t.parts[i], d - 1, wild) if t.parts[i] else None)
        if t.kind == 'array':
            return ('rec', [self.pat(t.parts[0], d - 1, wild) for _ in range(t.n)])
        s = [self.pat(p, d - 1, wild) for p in t.parts]
        if t.kind == 'struct':
            s = [None if x == ('_',) and r.random() < .6 else x for x in s]
            if all(x is None for x in s):
                s[0] = ('_',)
        return ('rec', s)

    def text(self, t, p, top=False):
        r = self.r
        k = p[0]
        if k == '_':
            return '_'
        if k in ('var', 'const'):
            return p[1]
        if k == 'lit':
            return self.plit(t, p[1])
        if k == 'or':
            s = ' || '.join(self.text(t, x) for x in p[1])
            return s if top else '(%s)' % s
        if k == 'ptr':
            return '&(%s)' % self.text(t.parts[0], p[1]) if p[1][0] != 'rec' else '&' + self.text(t.parts[0], p[1])
        if k == 'con':
            if p[2] is None:
                return t.names[p[1]]
            s = self.text(t.parts[p[1]], p[2])
            s = '%s %s' % (t.names[p[1]], s if s[0] not in '-`&' else '(%s)' % s)
            return s if top else '(%s)' % s
        if t.kind == 'tuple':
            return '(%s)' % ', '.join(self.text(q, x) for q, x in zip(t.parts, p[1]))
        if t.kind == 'array':
            return '[%s]' % ', '.join(self.text(t.parts[0], x) for x in p[1])
        m = [(n, q, x) for n, q, x in zip(t.names, t.parts, p[1]) if x is not None]
        if r.random() < .4:
            r.shuffle(m)
        return '[%s]' % ', '.join('.%s=%s' % (n, self.text(q, x)) for n, q, x in m)

    def capture(self, t, p, prob=.5):
        """Replaces wildcards outside or-patterns by variables; returns (pattern, [(name, type)])."""
        caps = []

        def go(t, p):
            if p is None:
                return None
            if p[0] == '_' and self.r.random() < prob:
                n = self.id('c')
                caps.append((n, t))
                return ('var', n)
            if p[0] == 'rec':
                ps = [t.parts[0]] * t.n if t.kind == 'array' else t.parts
                return ('rec', [go(q, x) for q, x in zip(ps, p[1])])
            if p[0] == 'con' and p[2]:
                return ('con', p[1], go(t.parts[p[1]], p[2]))
            if p[0] == 'ptr':
                return ('ptr', go(t.parts[0], p[1]))
            return p
        return go(t, p), caps

    def capor(self, t, p):
        """Captures the same names in every alternative of a top-level or-pattern."""
        alts = p[1]
        holes = []
        for a in alts:
            h = []

            def go(t, p):
                if p is None or p[0] in ('or', 'lit', 'const'):
                    return
                if p[0] == '_':
                    h.append(t.name)
                elif p[0] == 'rec':
                    ps = [t.parts[0]] * t.n if t.kind == 'array' else t.parts
                    for q, x in zip(ps, p[1]):
                        go(q, x)
                elif p[0] == 'con' and p[2]:
                    go(t.parts[p[1]], p[2])
                elif p[0] == 'ptr':
                    go(t.parts[0], p[1])
            go(t, a)
            holes.append(h)
        cand = set(holes[0]).intersection(*holes[1:]) if holes[0] else set()
        if not cand:
            return p, []
        ty = self.r.choice(sorted(cand))
        n = self.id('c')
        caps, out = [], []
        for a, h in zip(alts, holes):
            want = self.r.choice([i for i, x in enumerate(h) if x == ty])
            cnt = [0]

            def put(t, p):
                if p is None or p[0] in ('or', 'lit', 'const'):
                    return p
                if p[0] == '_':
                    cnt[0] += 1
                    if cnt[0] - 1 == want:
                        caps[:] = [(n, t)]
                        return ('var', n)
                    return p
                if p[0] == 'rec':
                    ps = [t.parts[0]] * t.n if t.kind == 'array' else t.parts
                    return ('rec', [put(q, x) for q, x in zip(ps, p[1])])
                if p[0] == 'con' and p[2]:
                    return ('con', p[1], put(t.parts[p[1]], p[2]))
                if p[0] == 'ptr':
                    return ('ptr', put(t.parts[0], p[1]))
                return p
            out.append(put(t, a))
        return ('or', out), caps

    def inst(self, t, p):
        """A value that p matches."""
        r = self.r
        if p is None or p[0] in ('_', 'var'):
            return self.value(t)
        if p[0] == 'lit':
            return p[1]
        if p[0] == 'const':
            return copy(p[2])
        if p[0] == 'or':
            return self.inst(t, r.choice(p[1]))
        if p[0] == 'ptr':
            return [self.inst(t.parts[0], p[1])]
        if p[0] == 'con':
            return (p[1], self.inst(t.parts[p[1]], p[2]) if t.parts[p[1]] else None)
        ps = [t.parts[0]] * t.n if t.kind == 'array' else t.parts
        return [self.inst(q, x) for q, x in zip(ps, p[1])]

    def mutate(self, t, v):
        """v with one leaf changed"""
        r = self.r
        if t.kind == 'scal':
            return self.value(t)
        if t.kind == 'union':
            if t.parts[v[0]] and r.random() < .7:
                return (v[0], self.mutate(t.parts[v[0]], v[1]))
            return self.value(t)
        v = list(v)
        i = r.randrange(len(v))
        v[i] = self.mutate(t.parts[0] if t.kind in ('array', 'ptr') else t.parts[i], v[i])
        return v


def isstr(t):
    return getattr(t, 'str', False)


def match(t, p, v, env):
    if p is None or p[0] == '_':
        return True
    k = p[0]
    if k == 'var':
        env[p[1]] = v
        return True
    if k == 'lit':
        return p[1] == v
    if k == 'const':
        return p[2] == v
    if k == 'or':
        for x in p[1]:
            e = {}
            if match(t, x, v, e):
                env.update(e)
                return True
        return False
    if k == 'ptr':
        return match(t.parts[0], p[1], v[0], env)
    if k == 'con':
        return v[0] == p[1] and (p[2] is None or match(t.parts[p[1]], p[2], v[1], env))
    ps = [t.parts[0]] * t.n if t.kind == 'array' else t.parts
    return all(match(q, x, y, env) for q, x, y in zip(ps, p[1], v))


def topat(t, v):
    if t.kind == 'scal':
        return ('lit', v)
    if t.kind == 'union':
        return ('con', v[0], topat(t.parts[v[0]], v[1]) if t.parts[v[0]] else None)
    if t.kind == 'ptr':
        return ('ptr', topat(t.parts[0], v[0]))
    ps = [t.parts[0]] * t.n if t.kind == 'array' else t.parts
    return ('rec', [topat(q, x) for q, x in zip(ps, v)])


class TooBig(Exception):
    pass


def useful(types, rows, q, budget=None):
    """Is there a value vector of these types that q matches and no row does?"""
    budget = budget or [20000]
    budget[0] -= 1
    if budget[0] < 0:
        raise TooBig
    if not types:
        return not rows
    t, rest = types[0], types[1:]
    q0 = q[0]
    if q0 is None or q0[0] == 'var':
        q0 = ('_',)
    if q0[0] == 'const':
        q0 = topat(t, q0[2])
    if q0[0] == 'or':
        return any(useful(types, rows, [x] + q[1:], budget) for x in q0[1])
    rs = []
    for r in rows:
        st = [r[0]]
        while st:
            p = st.pop(0)
            if p is None or p[0] == 'var':
                p = ('_',)
            if p[0] == 'const':
                p = topat(t, p[2])
            if p[0] == 'or':
                st = p[1] + st
            else:
                rs.append([p] + r[1:])
    if t.kind in ('struct', 'tuple', 'array', 'ptr'):
        ps = [t.parts[0]] * t.n if t.kind == 'array' else t.parts

        def ex(p):
            return [('_',)] * len(ps) if p[0] == '_' else [p[1]] if p[0] == 'ptr' else list(p[1])
        return useful(ps + rest, [ex(r[0]) + r[1:] for r in rs], ex(q0) + q[1:], budget)
    if t.kind == 'union':
        def arm(i):
            sub = [t.parts[i]] if t.parts[i] else []
            f = lambda p: [] if not sub else [('_',)] if p[0] == '_' or p[2] is None else [p[2]]
            return useful(sub + rest, [f(r[0]) + r[1:] for r in rs if r[0][0] == '_' or r[0][1] == i], f(q0) + q[1:], budget)
        if q0[0] == 'con':
            return arm(q0[1])
        return any(arm(i) for i in range(len(t.parts)))
    lits = []
    for r in rs:
        if r[0][0] == 'lit' and r[0][1] not in lits:
            lits.append(r[0][1])

    def spec(v):
        return useful(rest, [r[1:] for r in rs if r[0][0] == '_' or r[0][1] == v], q[1:], budget)
    if q0[0] == 'lit':
        return spec(q0[1])
    if any(spec(v) for v in lits):
        return True
    if t.name == 'bool' and len(lits) == 2:
        return False
    return useful(rest, [r[1:] for r in rs if r[0][0] == '_'], q[1:], budget)
