"""Random Myrddin types with their values, literals and printers."""
import struct
from .ints import *

SCAL = ['int8', 'int16', 'int32', 'int64', 'int', 'uint8', 'uint16', 'uint32', 'uint64', 'uint', 'byte', 'char', 'bool', 'flt32', 'flt64']


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


class Ty:
    """kind: scal, struct, tuple, array, union; name: how a program says it.
    Values: scalars are int/bool/float, unions (index, payload or None), the others lists."""

    def __init__(self, kind, name, parts=(), n=0, names=(), sub=None):
        self.kind, self.name, self.parts, self.n, self.names = kind, name, list(parts), n, list(names)

    def depth(self):
        return 1 + max([p.depth() for p in self.parts if p], default=0) if self.kind != 'scal' else 0

    def leaves(self):
        if self.kind == 'scal':
            return 1
        if self.kind == 'array':
            return self.n * self.parts[0].leaves()
        if self.kind == 'union':
            return 1 + max([p.leaves() for p in self.parts if p], default=0)
        return sum(p.leaves() for p in self.parts)

    def fields(self):
        """(suffix text, key, type) of the direct parts that can be named"""
        if self.kind == 'struct':
            return [('.' + n, i, t) for i, (n, t) in enumerate(zip(self.names, self.parts))]
        if self.kind == 'tuple':
            return [('.%d' % i, i, t) for i, t in enumerate(self.parts)]
        if self.kind == 'array':
            return [('[%d]' % i, i, self.parts[0]) for i in range(self.n)]
        return []

    def has(self, kind):
        return self.kind == kind or any(p.has(kind) for p in self.parts if p)


def copy(v):
    return [copy(x) for x in v] if isinstance(v, list) else (v[0], copy(v[1])) if isinstance(v, tuple) else v


class World:
    """The types of one test and their declarations."""

    def __init__(self, r, name, scal=SCAL, unions=True):
        self.r, self.name, self.scal, self.unions = r, name, scal, unions
        self.decls, self.types, self.n = [], [], 0
        self.shows, self.ids = {}, {}
        self.S = {s: Ty('scal', s) for s in SCAL}

    def id(self, p):
        self.n += 1
        return '%s%s_%d' % (p, self.name, self.n)

    def scalar(self):
        return self.S[self.r.choice(self.scal)]

    def type(self, d, maxleaves=24):
        r = self.r
        for _ in range(20):
            t = self._type(d)
            if t.leaves() <= maxleaves:
                return t
        return self.scalar()

    def _type(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .1:
            return self.scalar()
        if k < .25 and self.types:
            return r.choice(self.types)
        if k < .55:
            n = r.choice([1, 2, 2, 3, 3, 4, 5])
            ps = [self._type(d - 1) if r.random() < .5 else self.scalar() for _ in range(n)]
            return self.mkstruct(ps)
        if k < .7:
            n = r.choice([2, 2, 3, 4])
            ps = [self._type(d - 1) if r.random() < .5 else self.scalar() for _ in range(n)]
            return Ty('tuple', '(%s)' % ', '.join(p.name for p in ps), ps)
        if k < .85 or not self.unions:
            p = self._type(d - 1)
            n = r.choice([1, 2, 3, 4, 5])
            return Ty('array', '%s[%d]' % (p.name, n), [p], n)
        n = r.choice([1, 2, 3, 4])
        ps = [None if r.random() < .3 else self._type(d - 1) if r.random() < .5 else self.scalar() for _ in range(n)]
        return self.mkunion(ps)

    def mkstruct(self, ps, public=False):
        n = self.id('s')
        names = ['f%d' % i for i in range(len(ps))]
        self.decls.append('type %s = struct\n%s\n;;' % (n, '\n'.join('\t%s : %s' % (a, p.name) for a, p in zip(names, ps))))
        t = Ty('struct', n, ps, names=names)
        self.types.append(t)
        return t

    def mkunion(self, ps):
        n = self.id('u')
        names = ['`%s%s' % (n.upper(), chr(65 + i)) for i in range(len(ps))]
        self.decls.append('type %s = union\n%s\n;;' % (n, '\n'.join('\t%s%s' % (a, ' ' + p.name if p else '') for a, p in zip(names, ps))))
        t = Ty('union', n, ps, names=names)
        self.types.append(t)
        return t

    # values
    def value(self, t, zero=.1):
        r = self.r
        if r.random() < zero:
            return self.zero(t)
        if t.kind == 'scal':
            if t.name == 'bool':
                return r.random() < .5
            if t.name == 'flt32':
                return f32(r.choice([-1, 1]) * r.randrange(10**6) / r.choice([1, 2, 4, 64]))
            if t.name == 'flt64':
                return r.choice([-1, 1]) * r.randrange(10**9) / r.choice([1, 2, 10, 1000])
            return value(r, BY[t.name])
        if t.kind == 'array':
            return [self.value(t.parts[0]) for _ in range(t.n)]
        if t.kind == 'union':
            i = r.randrange(len(t.parts))
            return (i, self.value(t.parts[i]) if t.parts[i] else None)
        return [self.value(p) for p in t.parts]

    def zero(self, t):
        if t.kind == 'scal':
            return False if t.name == 'bool' else 0.0 if t.name[0] == 'f' else 0
        if t.kind == 'array':
            return [self.zero(t.parts[0]) for _ in range(t.n)]
        if t.kind == 'union':
            return (0, self.zero(t.parts[0]) if t.parts[0] else None)
        return [self.zero(p) for p in t.parts]

    def lit(self, t, v, leave=.5):
        """A literal for v; members that are zero may be left out, others come in any order."""
        r = self.r
        if t.kind == 'scal':
            if t.name == 'bool':
                return 'true' if v else 'false'
            if t.name[0] == 'f':
                s = repr(abs(v))
                if 'e' in s and '.' not in s:
                    s = s.replace('e', '.0e')
                return '-' + s if struct.pack('<d', v)[7] & 128 else s
            return lit(r, BY[t.name], v)
        if t.kind == 'tuple':
            return '(%s)' % ', '.join(self.lit(p, x, leave) for p, x in zip(t.parts, v))
        if t.kind == 'union':
            n, p = t.names[v[0]], t.parts[v[0]]
            if not p:
                return n
            s = self.lit(p, v[1], leave)
            return '(%s %s)' % (n, s if s[0] not in '-' else '(%s)' % s)
        if t.kind == 'array':
            if t.n > 1 and r.random() < .2:
                ix = [i for i in range(t.n - 1) if not (self.iszero(t.parts[0], v[i]) and r.random() < leave)]
                r.shuffle(ix)
                ix.insert(r.randrange(len(ix) + 1), t.n - 1)
                return '[%s]' % ', '.join('.[%d] = %s' % (i, self.lit(t.parts[0], v[i], leave)) for i in ix)
            return '[%s]' % ', '.join(self.lit(t.parts[0], x, leave) for x in v)
        ix = [i for i in range(len(v)) if not (self.iszero(t.parts[i], v[i]) and r.random() < leave)]
        if not ix:
            ix = [r.randrange(len(v))]
        if r.random() < .6:
            r.shuffle(ix)
        return '[%s]' % ', '.join('.%s = %s' % (t.names[i], self.lit(t.parts[i], v[i], leave)) for i in ix)

    def iszero(self, t, v):
        return v == self.zero(t) and '-0.0' not in repr(v)

    # programs
    def show(self, t):
        """Name of a function that prints a value of type t (without ending the line)."""
        if t.name in self.shows:
            return self.shows[t.name]
        b = []
        if t.kind == 'scal':
            x = {'bool': 'dio.flag(x)', 'flt32': 'dio.f32(x)', 'flt64': 'dio.f64(x)'}.get(t.name, 'dio.num((x : int64))')
            b = [x]
        elif t.kind == 'union':
            b = ['match x']
            for i, (n, p) in enumerate(zip(t.names, t.parts)):
                b += ['| %s%s:' % (n, ' y' if p else ''), '\tdio.word("%s")' % n[-1]] + (['\t%s(y)' % self.show(p)] if p else [])
            b += [';;']
        elif t.kind == 'array':
            f = self.show(t.parts[0])
            b = ['for var i = 0; i < %d; i++' % t.n, '\t%s(x[i])' % f, ';;']
        elif t.kind == 'tuple' and self.r.random() < .3:
            b = ['var ' + ', '.join('y%d' % i for i in range(len(t.parts))), '(%s) = x' % ', '.join('y%d' % i for i in range(len(t.parts)))]
            b += ['%s(y%d)' % (self.show(p), i) for i, p in enumerate(t.parts)]
        else:
            b = ['%s(x%s)' % (self.show(p), s) for s, _, p in t.fields()]
        f = self.id('show')
        self.shows[t.name] = f
        self.decls.append('const %s = {x : %s -> void\n%s\n}' % (f, t.name, '\n'.join('\t' + l for l in b)))
        return f

    def words(self, t, v):
        """What show(t) prints for v."""
        if t.kind == 'scal':
            if t.name == 'bool':
                return ['1' if v else '0']
            if t.name == 'flt32':
                return ['%016x' % struct.unpack('<I', struct.pack('<f', v))]
            if t.name == 'flt64':
                return ['%016x' % struct.unpack('<Q', struct.pack('<d', v))]
            return [str(BY['int64'].wrap(v))]
        if t.kind == 'union':
            return [t.names[v[0]][-1]] + (self.words(t.parts[v[0]], v[1]) if t.parts[v[0]] else [])
        if t.kind == 'array':
            return [w for x in v for w in self.words(t.parts[0], x)]
        return [w for p, x in zip(t.parts, v) for w in self.words(p, x)]

    def ident(self, t):
        if t.name not in self.ids:
            f = self.ids[t.name] = self.id('id')
            self.decls.append('const %s = {x : %s -> %s\n\t-> x\n}' % (f, t.name, t.name))
        return self.ids[t.name]

    def paths(self, t, v):
        """All (suffix, container, key, type) below a value of type t held at v (containers are lists)."""
        out = []
        for s, k, p in t.fields():
            out.append((s, v, k, p))
            if p.kind != 'scal':
                out += [(s + s2, c2, k2, p2) for s2, c2, k2, p2 in self.paths(p, v[k])]
        return out
