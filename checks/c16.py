"""C16: sizes, offsets and run-time type descriptions of every type."""
from vf.core import *
from vf.build import Tree
from vf.progs import Test, Packer
from vf.aggr import Ty, World
from checks.c09 import ALIGN

TECH = 'generated types compiled and run; sizes, offsets, strides, decoded type descriptions, variadic reads and default formatting compared with a layout model'
NOTE = 'the default format of floats is compared on values with short exact decimal forms only; function values are described but not formatted'

KINDS = {'int8': 'Tyint8', 'int16': 'Tyint16', 'int32': 'Tyint32', 'int64': 'Tyint64', 'int': 'Tyint', 'uint8': 'Tyuint8', 'uint16': 'Tyuint16', 'uint32': 'Tyuint32',
         'uint64': 'Tyuint64', 'uint': 'Tyuint', 'byte': 'Tybyte', 'char': 'Tychar', 'bool': 'Tybool', 'flt32': 'Tyflt32', 'flt64': 'Tyflt64', 'void': 'Tyvoid'}

WALK = '''const walk%(n)s = {e : byte[:], d : int -> void
	var inf, desc, nm, sub
	if e.len == 0
		dio.word("empty")
		-> void
	;;
	inf = std.typeinfo(e)
	desc = std.typedesc(e)
	match desc
	| `std.Tynone:
		dio.word("Tynone")
		-> void
	| _:
	;;
	dio.num((inf.size : int64))
	dio.num((inf.align : int64))
	match desc
%(scal)s
	| `std.Typtr s:
		dio.word("ptr")
		walk%(n)s(s, d)
	| `std.Tyslice s:
		dio.word("slice")
		walk%(n)s(s, d)
	| `std.Tyarray (len, s):
		dio.word("array")
		dio.num((len : int64))
		walk%(n)s(s, d)
	| `std.Tyfunc tc:
		dio.word("func")
		dio.num((tc.nelt : int64))
		while tc.nelt > 0
			walk%(n)s(std.tcnext(&tc), d)
		;;
	| `std.Tytuple tc:
		dio.word("tuple")
		dio.num((tc.nelt : int64))
		while tc.nelt > 0
			walk%(n)s(std.tcnext(&tc), d)
		;;
	| `std.Tystruct tc:
		dio.word("struct")
		dio.num((tc.nelt : int64))
		while tc.nelt > 0
			(nm, sub) = std.ncnext(&tc)
			dio.word(nm)
			walk%(n)s(sub, d)
		;;
	| `std.Tyunion tc:
		dio.word("union")
		dio.num((tc.nelt : int64))
		while tc.nelt > 0
			(nm, sub) = std.ncnext(&tc)
			dio.word(nm)
			walk%(n)s(sub, d)
		;;
	| `std.Tyname (name, s):
		dio.word("name")
		dio.word(name)
		if d > 0
			walk%(n)s(s, d - 1)
		;;
	| _:
		dio.word("unexpected")
	;;
}'''


class X(Ty):
    """types World does not have: ptr, slice, str, func, alias, void"""

    def leaves(self):
        return 2 if self.kind in ('slice', 'str') else 1


class W(World):
    def __init__(self, r, name, extra):
        World.__init__(self, r, name)
        self.extra = extra
        self.fn = None

    def scalar(self):
        r = self.r
        if r.random() > self.extra:
            return World.scalar(self)
        k = r.choice(['ptr', 'ptr', 'slice', 'slice', 'str', 'str', 'func', 'alias', 'void', 'generic', 'rec'])
        base = self.S[r.choice(self.scal)]
        if k == 'ptr':
            p = self._type(r.choice([0, 1]))
            f = self.id('mkp')
            self.decls.append('const %s = {n : uint64 -> %s#\n\t-> (n : %s#)\n}' % (f, p.name, p.name))
            return X('ptr', p.name + '#', [p], names=[f])
        if k == 'slice':
            p = base if base.name not in ('byte', ) else self.S['int']
            if r.random() < .5:
                p = self.mkstruct([World.scalar(self), World.scalar(self)]) if r.random() < .5 else Ty('tuple', '(%s, int8)' % p.name, [p, self.S['int8']])
            f = self.id('nil')
            self.decls.append('const %s = {-> %s[:]\n\t-> [][:]\n}' % (f, p.name))
            return X('slice', p.name + '[:]', [p], names=[f])
        if k == 'str':
            return X('str', 'byte[:]')
        if k == 'func':
            ps = [World.scalar(self) for _ in range(r.randrange(3))]
            ret = World.scalar(self)
            f, n = self.id('fun'), r.randrange(100)
            t = '(%s-> %s)' % (''.join('%sx%d : %s' % (', ' if i else '', i, p.name) for i, p in enumerate(ps)) + ' ', ret.name)
            z = {'bool': 'true', 'flt32': '1.5', 'flt64': '1.5', 'char': "'c'"}.get(ret.name, '7')
            self.decls.append('const %s = {%s -> %s\n\t-> %s\n}' % (f, ', '.join('x%d : %s' % (i, p.name) for i, p in enumerate(ps)), ret.name, z))
            return X('func', t, [ret] + ps, names=[f])
        if k == 'alias':
            n = self.id('al')
            self.decls.append('type %s = %s' % (n, base.name))
            return X('alias', n, [base])
        if k == 'void':
            return X('void', 'void')
        if k == 'generic':
            n = self.id('g')
            self.decls.append('type %s(@t) = struct\n\tga : int8\n\tgb : @t\n;;' % n)
            t = Ty('struct', '%s(%s)' % (n, base.name), [self.S['int8'], base], names=['ga', 'gb'])
            return t
        n = self.id('r')
        self.decls.append('type %s = struct\n\tra : int16\n\trb : %s#\n;;' % (n, n))
        f = self.id('mkp')
        self.decls.append('const %s = {n : uint64 -> %s#\n\t-> (n : %s#)\n}' % (f, n, n))
        t = Ty('struct', n, [], names=['ra', 'rb'])
        t.parts = [self.S['int16'], X('ptr', n + '#', [t], names=[f])]
        return t

    def value(self, t, zero=.1):
        r = self.r
        if t.kind == 'scal':
            if t.name == 'char':
                return r.choice([65, 97, 48, 233, 0x4e16, 0x1f600, r.randrange(33, 127)])
            if t.name[0] == 'f':
                return r.randrange(-4000, 4000) / r.choice([1, 2, 4, 8])
            return World.value(self, t, zero)
        if not isinstance(t, X):
            return World.value(self, t, zero if t.kind != 'union' and 'char' not in flat(t) else 0)
        if t.kind == 'ptr':
            return r.choice([0, 4096, r.getrandbits(47)])
        if t.kind == 'slice':
            return [self.value(t.parts[0], 0) for _ in range(r.choice([0, 1, 2, 4]))]
        if t.kind == 'str':
            return ''.join(r.choice('abcXYZ019 _-') for _ in range(r.choice([0, 1, 3, 20])))
        if t.kind == 'alias':
            return self.value(t.parts[0])
        return 0

    def zero(self, t):
        if t.kind == 'str':
            return ''
        if t.kind == 'slice':
            return []
        if t.kind == 'alias':
            return self.zero(t.parts[0])
        if isinstance(t, X):
            return 0
        if t.kind == 'scal' and t.name == 'char':
            return 65
        return World.zero(self, t)

    def iszero(self, t, v):
        return False

    def lit(self, t, v, leave=.5):
        if t.kind == 'ptr':
            return '%s(%d)' % (t.names[0], v)
        if t.kind == 'slice':
            return '[%s][:]' % ', '.join(self.lit(t.parts[0], x) for x in v) if v else t.names[0] + '()'
        if t.kind == 'str':
            return '"%s"' % v
        if t.kind == 'func':
            return t.names[0]
        if t.kind == 'alias':
            return '(%s : %s)' % (World.lit(self, t.parts[0], v), t.name)
        if t.kind == 'void':
            return 'void'
        return World.lit(self, t, v, leave)

    def show(self, t):
        if not isinstance(t, X):
            return World.show(self, t)
        if t.name in self.shows:
            return self.shows[t.name]
        b = {'ptr': ['dio.unum((x : uint64))'], 'str': ['dio.hex(x)'], 'func': ['%s(x())' % self.show(t.parts[0]) if len(t.parts) == 1 else 'dio.word("f")'] if t.kind == 'func' else 0, 'void': ['dio.word("v")']}.get(t.kind)
        if t.kind == 'slice':
            b = ['dio.num((x.len : int64))', 'for y : x', '\t%s(y)' % self.show(t.parts[0]), ';;']
        if t.kind == 'alias':
            b = ['%s((x : %s))' % (self.show(t.parts[0]), t.parts[0].name)]
        f = self.id('show')
        if t.kind != 'func':
            self.shows[t.name] = f
        self.decls.append('const %s = {x : %s -> void\n%s\n}' % (f, t.name, '\n'.join('\t' + l for l in b)))
        return f

    def words(self, t, v):
        if not isinstance(t, X):
            return World.words(self, t, v)
        if t.kind == 'ptr':
            return [str(v)]
        if t.kind == 'str':
            return [v.encode().hex() or '-']
        if t.kind == 'func':
            return self.words(t.parts[0], {'bool': True, 'flt32': 1.5, 'flt64': 1.5, 'char': 99}.get(t.parts[0].name, 7)) if len(t.parts) == 1 else ['f']
        if t.kind == 'void':
            return ['v']
        if t.kind == 'alias':
            return self.words(t.parts[0], v)
        return [str(len(v))] + [w for x in v for w in self.words(t.parts[0], x)]


def flat(t, seen=None):
    """names of all types below t"""
    seen = set() if seen is None else seen
    if t.name in seen:
        return seen
    seen.add(t.name)
    for p in t.parts:
        if p:
            flat(p, seen)
    return seen


def haskind(t, kinds):
    return t.kind in kinds or any(haskind(p, kinds) for p in t.parts if p and t.kind != 'ptr')


def up(n, a):
    return -(-n // a) * a


def layout(t):
    """(size, align)"""
    if t.kind == 'scal':
        a = ALIGN.get(t.name, 4)
        return a, a
    if t.kind == 'ptr':
        return 8, 8
    if t.kind in ('slice', 'str', 'func'):
        return 16, 8
    if t.kind == 'void':
        return 0, 1
    if t.kind == 'alias':
        return layout(t.parts[0])
    if t.kind == 'array':
        s, a = layout(t.parts[0])
        return s * t.n, a
    if t.kind == 'union':
        s, a = 4, 4
        for p in t.parts:
            if p:
                ps, pa = layout(p)
                a = max(a, pa)
        for p in t.parts:
            if p:
                ps, pa = layout(p)
                s = max(s, up(4, pa) + ps)
        return up(s, a), a
    off, al = 0, 1
    for p in t.parts:
        s, a = layout(p)
        off = up(off, a) + s
        al = max(al, a)
    return up(off, al), al


def offsets(t):
    off, out = 0, []
    for p in t.parts:
        s, a = layout(p)
        off = up(off, a)
        out.append(off)
        off += s
    return out


def named(t):
    return t.kind == 'alias' or t.kind in ('struct', 'union')


def desc(t, d, inner=False):
    """the words walk prints"""
    s, a = layout(t)
    h = [str(s), str(a)]
    if named(t) and not inner:
        return h + ['name', t.name.split('(')[0]] + (desc(t, d - 1, True) if d > 0 else [])
    k = t.kind
    if k == 'alias':
        return desc(t.parts[0], d)
    if k == 'scal' or k == 'void':
        return h + [KINDS[t.name]]
    if k == 'str':
        return h + ['slice', '1', '1', 'Tybyte']
    if k in ('ptr', 'slice'):
        return h + [k] + desc(t.parts[0], d)
    if k == 'array':
        return h + ['array', str(t.n)] + desc(t.parts[0], d)
    if k in ('func', 'tuple'):
        return h + [k, str(len(t.parts))] + [w for p in t.parts for w in desc(p, d)]
    out = h + [k, str(len(t.parts))]
    for n, p in zip(t.names, t.parts):
        out += [n.lstrip('`')] + (desc(p, d) if p else ['Tynone'])
    return out


def fmt(t, v):
    k = t.kind
    if k == 'scal':
        if t.name == 'bool':
            return 'true' if v else 'false'
        if t.name == 'char':
            return chr(v)
        if t.name[0] == 'f':
            return repr(float(v)) if v or str(v)[0] != '-' else '-0.0'
        return str(v)
    if k == 'alias':
        return fmt(t.parts[0], v)
    if k == 'func':
        return '?'
    if k == 'void':
        return 'void'
    if k == 'ptr':
        return '0x%016x' % v
    if k == 'str':
        return v
    if k in ('slice', 'array'):
        return '[%s]' % ', '.join(fmt(t.parts[0], x) for x in v)
    if k == 'tuple':
        return '(%s%s)' % (', '.join(fmt(p, x) for p, x in zip(t.parts, v)), ',' if len(v) == 1 else '')
    if k == 'struct':
        return '[%s]' % ', '.join('.%s=%s' % (n, fmt(p, x)) for n, p, x in zip(t.names, t.parts, v))
    p = t.parts[v[0]]
    return t.names[v[0]] + (' ' + fmt(p, v[1]) if p else '')


def gen(r, name):
    w = W(r, name, r.choice([0, .2, .4]))
    body, exp = [], []
    n = r.choice([1, 2, 3, 4])
    ts = []
    for _ in range(n):
        ts.append(w.type(r.choice([0, 1, 2, 3]), 40))
    vs = [w.value(t) for t in ts]
    D = r.choice([1, 2, 4])
    shows = [w.show(t) for t in ts]
    static = []
    pre = []
    for i, (t, v) in enumerate(zip(ts, vs)):
        body.append('var v%d : %s = %s' % (i, t.name, w.lit(t, v)))
        if r.random() < .6 and not haskind(t, ('ptr', 'func', 'void', 'slice', 'alias')):
            g = w.id('st')
            w.decls.append('%s %s : %s = %s' % (r.choice(['const', 'var']), g, t.name, w.lit(t, v)))
            static.append((i, g))
        pre += []
    for i, (t, v) in enumerate(zip(ts, vs)):
        body += ['dio.num((sizeof(%s) : int64))' % t.name, 'dio.endl()']
        exp.append(str(layout(t)[0]))
        if t.kind in ('struct', 'tuple'):
            for (s, _, _), o in zip(t.fields(), offsets(t)):
                body.append('dio.num(((&v%d%s : uint64) - (&v%d : uint64) : int64))' % (i, s, i))
            body += ['dio.endl()']
            exp.append(' '.join(map(str, offsets(t))))
        body += ['var a%d : %s[3]' % (i, t.name), 'dio.num(((&a%d[2] : uint64) - (&a%d[0] : uint64) : int64))' % (i, i), 'dio.num((sizeof(%s[3]) : int64))' % t.name,
                 'dio.flag((&v%d : uint64) %% %d == 0)' % (i, layout(t)[1]), 'dio.endl()']
        exp.append('%d %d 1' % (layout(t)[0] * 2, layout(t)[0] * 3))
        body += ['walk%s(std.typeof(v%d), %d)' % (name, i, D), 'dio.endl()']
        exp.append(' '.join(desc(t, D)))
        if not haskind(t, ('func',)):
            body += ['dio.hex(std.fmt("{}", v%d))' % i, 'dio.endl()']
            exp.append(fmt(t, v).encode().hex() or '-')
    for i, g in static:
        body += ['%s(%s)' % (shows[i], g), 'dio.hex(std.fmt("<{}>", %s))' % g, 'dio.num((sizeof(%s[1]) : int64))' % ts[i].name, 'dio.endl()']
        exp.append(' '.join(w.words(ts[i], vs[i]) + [('<%s>' % fmt(ts[i], vs[i])).encode().hex(), str(layout(ts[i])[0])]))
    # several arguments in one call
    idx = [r.randrange(n) for _ in range(r.choice([1, 2, 3, 5, 8]))]
    small = [r.choice(['int8', 'int64', 'byte', 'flt32', 'bool', 'flt64', 'int16', 'char']) for _ in idx]
    args, read, words, ftext = [], [], [], []
    canfmt = all(not haskind(ts[i], ('func',)) for i in idx)
    va = w.id('va')
    for k, i in enumerate(idx):
        if r.random() < .5:
            st = w.S[small[k]]
            sv = w.value(st)
            body.append('var y%d : %s = %s' % (k, st.name, w.lit(st, sv)))
            args.append('y%d' % k)
            read += ['var q%d : %s = std.vanext(&ap)' % (k, st.name), '%s(q%d)' % (w.show(st), k)]
            words += w.words(st, sv)
            ftext.append(fmt(st, sv))
        args.append('v%d' % i)
        read += ['var x%d : %s = std.vanext(&ap)' % (k, ts[i].name), '%s(x%d)' % (shows[i], k)]
        words += w.words(ts[i], vs[i])
        ftext.append(fmt(ts[i], vs[i]))
    lead = r.choice([[], [('n', 'int8')], [('n', 'int'), ('m', 'flt64')], [('n', 'byte[:]')]])
    lv = {'int8': '5', 'int': '6', 'flt64': '2.5', 'byte[:]': '"zz"'}
    w.decls.append('const %s = {%s\n\tvar ap = std.vastart(&args)\n%s\n%s\n\tdio.endl()\n}' % (
        va, ', '.join(['%s : %s' % a for a in lead] + ['args : ...']), '\n'.join('\tdio.hex(std.fmt("{}", %s))' % a[0] for a in lead), '\n'.join('\t' + l for l in read)))
    body.append('%s(%s)' % (va, ', '.join([lv[a[1]] for a in lead] + args)))
    exp.append(' '.join([lv[a[1]].strip('"').encode().hex() for a in lead] + words))
    if canfmt:
        body += ['dio.hex(std.fmt("%s", %s))' % ('|'.join(['{}'] * len(args)), ', '.join(args)), 'dio.endl()']
        exp.append('|'.join(ftext).encode().hex() or '-')
    for i, (t, v) in enumerate(zip(ts, vs)):
        body += ['%s(v%d)' % (shows[i], i), 'dio.endl()']
        exp.append(' '.join(w.words(t, v)))
    walk = WALK % {'n': name, 'scal': '\n'.join('\t| `std.%s:\tdio.word("%s")' % (k, k) for k in sorted(set(KINDS.values())))}
    return Test(name, '\n'.join(w.decls) + '\n' + walk, body, exp)


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c16')
    r = ck.sub('gen')
    tests = [gen(r, 'g%d' % i) for i in range(ck.n(480, 9000))]
    pk.check(tests, per=8)
    ck.count('output lines compared', sum(len(t.expect) for t in tests))
    ck.rule = 'sizes, offsets, strides, alignments, type descriptions, variadic reads, static data and default formats equal the layout model'
