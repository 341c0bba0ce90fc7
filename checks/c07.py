"""C07: every out-of-range access stops the program, no in-range access does."""
from vf.core import *
from vf.ints import *
from vf.progs import Packer, Test

HEAD = r'''
var shmem : byte#
const Shlen = 65536
const Shoff = 32768
var vx : int64 = 0

const shinit = {
	shmem = sys.mmap((0 : byte#), Shlen, sys.Mprotrd | sys.Mprotwr, sys.Mshared | sys.Manon, -1, 0)
	for var i = 0; i < Shlen; i++
		shmem[:Shlen][i] = (i % 251 : byte)
	;;
}

const shok = {
	for var i = 0; i < Shlen; i++
		if shmem[:Shlen][i] != (i % 251 : byte)
			-> false
		;;
	;;
	-> true
}

const runcase = {f : (-> void)
	var pid, st : int32, sig

	pid = sys.fork()
	if pid == 0
		f()
		dio.word("after")
		dio.endl()
		sys.exit(0)
	;;
	st = 0
	sys.waitpid(pid, &st, 0)
	sig = st & 0x7f
	if sig == 0 && st == 0
		dio.word("exit0")
	elif sig == 11 || sig == 7
		dio.word("segv")
	else
		dio.word("dead")
	;;
	dio.word(shok() ? "clean" : "dirty")
	dio.endl()
}
'''


class P(Packer):
    def source(self, tests):
        s = 'use std\nuse sys\nuse "dio"\n' + HEAD
        s += '\n'.join(t.text() for t in tests)
        s += '\nconst main = {\n\tshinit()\n'
        for t in tests:
            s += '\tdio.word("@%s")\n\tdio.endl()\n\truncase(t_%s)\n' % (t.name, t.name)
        return s + '}\n'


# element type -> (size, path to an int-like scalar, scalar type)
ELEMS = [('byte', 1, '', 'byte'), ('int8', 1, '', 'int8'), ('int16', 2, '', 'int16'), ('int32', 4, '', 'int32'),
         ('int64', 8, '', 'int64'), ('uint64', 8, '', 'uint64'), ('E24', 24, '.x', 'int64'), ('E12', 12, '.x', 'int32'),
         ('E3', 3, '.x', 'byte'), ('E72', 72, '.x', 'int64')]
EDECL = {'E24': 'type E24@ = struct\n\ta : int32\n\tx : int64\n\tb : byte\n;;',
         'E12': 'type E12@ = struct\n\ta : int32\n\tx : int32\n\tb : byte\n;;',
         'E3': 'type E3@ = struct\n\ta : byte\n\tx : byte\n\tb : byte\n;;',
         'E72': 'type E72@ = struct\n\ta : int64[7]\n\tx : int64\n\tb : byte\n;;'}
IDX = ['int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64', 'byte']


class Gen:
    def __init__(self, r, name):
        self.r, self.name, self.k = r, name, 0
        self.decls, self.body = [], []

    def id(self, p):
        self.k += 1
        return '%s%s_%d' % (p, self.name, self.k)

    def iexpr(self, v):
        """An index expression of some integer type with value v; None when nothing can hold it."""
        r = self.r
        ts = [BY[t] for t in IDX if BY[t].lo <= v <= BY[t].hi]
        if not ts:
            return None
        t = r.choice(ts)
        if r.random() < .3:
            m = min(x.bits for x in ts)
            t = r.choice([x for x in ts if x.bits == m])
        k = r.randrange(9)
        l = lit(r, t, v)
        if k == 0 and (v >= 0 or r.random() < .5):
            return str(v) if t.name in ('int', 'int32') else l
        if k == 1:
            n = self.id('g')
            self.decls.append('%s %s : %s = %s' % (r.choice(['const', 'var']), n, t.name, l))
            return n
        if k == 2:
            n = self.id('f')
            self.decls.append('const %s = {\n\t-> %s\n}' % (n, l))
            return n + '()'
        if k == 3:
            n = self.id('i')
            self.decls.append('const %s = {x : %s\n\t-> x\n}' % (n, t.name))
            return '%s(%s)' % (n, l)
        n = self.id('v')
        if k == 4:
            c = r.choice([1, 2, 3, 5, 100])
            self.body.append('var %s : %s = %s' % (n, t.name, lit(r, t, t.wrap(v - c))))
            return '%s + %s' % (n, lit(None, t, c)) if t.lo <= c <= t.hi else '%s + %s' % (n, c)
        if k == 5:
            s = self.id('S')
            self.decls.append('type %s = struct\n\tp : byte\n\tv : %s\n\tq : byte\n;;' % (s, t.name))
            self.body.append('var %s : %s = [.p=255, .v=%s, .q=255]' % (n, s, l))
            return n + '.v'
        if k == 6:
            self.body.append('var %s : %s[3] = [%s, %s, %s]' % (n, t.name, lit(r, t, t.hi), l, lit(r, t, t.lo)))
            return n + '[1]'
        self.body.append('var %s : %s = %s' % (n, t.name, l))
        return n

    def bad(self, n, size):
        """Indexes outside 0..n-1."""
        r = self.r
        c = [n, n, n, n + 1, n * 2, n + 127, -1, -1, -2, -n, -n - 1, 127, 128, 255, -128, 32767, 32768, 65535, -32768,
             2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + max(0, n - 1), 2**33, -2**31, -2**31 - 1, -2**32, 2**62, 2**61 + 1, -2**63,
             2**63 - 1, 2**63, 2**64 - 1, 2**64 - n, -2**32 + max(0, n - 1)]
        # wrap to a valid byte offset when scaled
        for s in (size, 8):
            if s & (s - 1) == 0 and s > 1:
                c += [2**64 // s + r.randrange(max(1, n)), -(2**64 // s) // 2 * 1]
        c += [n + r.getrandbits(r.randrange(1, 62)), -1 - r.getrandbits(r.randrange(1, 62))]
        if n > 60:
            c += [127, 255, -1, -128, 128] * 5
        while True:
            v = r.choice(c)
            if not 0 <= v < n and -2**63 <= v < 2**64:
                return v

    def make(self):
        r = self.r
        et, size, path, st = r.choice(ELEMS)
        if et in EDECL:
            self.decls.append(EDECL[et].replace('@', self.name))
            ety = et + self.name
        else:
            ety = et
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33])
        if r.random() < .25:
            # around the limits of the narrow index types
            n = r.choice([126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300] + [32767, 32768, 65535, 65536] * (size <= 3))
        kinds = ['larr', 'garr', 'heap', 'sh', 'sub', 'mem', 'smem', 'ptr', 'fn', 'aa', 'sa', 'arg', 'subarr', 'gen', 'clo']
        if et == 'byte':
            kinds += ['str']
        kind = r.choice(kinds)
        if n > 300 and kind in ('sh', 'str', 'larr', 'mem', 'ptr', 'aa', 'subarr'):
            kind = r.choice(['garr', 'heap', 'sub', 'arg'])
        if n > 60 and kind == 'str':
            kind = 'larr'
        if kind in ('larr', 'garr', 'mem', 'ptr', 'aa', 'subarr', 'str'):
            n = max(n, 1)
        vals = [(7 * k + 3) % 120 for k in range(n)]
        B = self.body
        a = self.id('a')
        init = 'for var q%s = 0; q%s < %d; q%s++' % (a, a, n, a)

        def fill(x):
            if n:
                B.extend([init, '\t%s[q%s]%s = (((7 * q%s + 3) %% 120) : %s)' % (x, a, path, a, st), ';;'])
        wr = True
        if kind == 'larr':
            B.append('var %s : %s[%d]' % (a, ety, n))
            fill(a); x = a
        elif kind == 'garr':
            self.decls.append('var %s : %s[%d]' % (a, ety, n))
            fill(a); x = a
        elif kind in ('heap', 'arg', 'gen', 'clo'):
            B.append('var %s : %s[:] = std.slalloc(%d)' % (a, ety, n))
            fill(a); x = a
        elif kind == 'sh':
            B.append('var %s : %s[:] = (&shmem[:Shlen][Shoff] : %s#)[:%d]' % (a, ety, ety, n))
            x = a; wr = False
            vals = None
        elif kind == 'sub':
            lo = r.randrange(0, 4)
            B.append('var %sb : %s[:] = std.slzalloc(%d)' % (a, ety, n + lo + r.randrange(0, 4)))
            B.append('var %s = %sb[%d:%d]' % (a, a, lo, lo + n))
            fill(a); x = a
        elif kind == 'subarr':
            lo = r.randrange(0, 4)
            B.append('var %sb : %s[%d]' % (a, ety, n + lo + r.randrange(0, 4)))
            B.append('var %s = %sb[%d:%d]' % (a, a, lo, lo + n))
            fill(a); x = a
        elif kind == 'mem':
            s = self.id('S')
            self.decls.append('type %s = struct\n\tp : byte[3]\n\tm : %s[%d]\n\tz : int64[4]\n;;' % (s, ety, n))
            if r.random() < .5:
                self.decls.append('var %s : %s' % (a, s))
            else:
                B.append('var %s : %s' % (a, s))
            fill(a + '.m'); x = a + '.m'
        elif kind == 'smem':
            s = self.id('S')
            self.decls.append('type %s = struct\n\tp : byte[3]\n\tm : %s[:]\n\tz : int64[4]\n;;' % (s, ety))
            B.append('var %s : %s# = std.zalloc()' % (a, s))
            B.append('%s.m = std.slalloc(%d)' % (a, n))
            fill(a + '.m'); x = a + '.m'
        elif kind == 'ptr':
            B.append('var %sb : %s[%d]' % (a, ety, n))
            B.append('var %s = &%sb' % (a, a))
            x = '%s#' % a
            fill('(%s)' % x); x = '(%s)' % x
        elif kind == 'fn':
            B.append('var %sb : %s[:] = std.slalloc(%d)' % (a, ety, n))
            fill(a + 'b')
            f = self.id('f')
            self.decls.append('const %s = {s : %s[:]\n\t-> s\n}' % (f, ety))
            x = '%s(%sb)' % (f, a)
        elif kind == 'aa':
            m = r.randrange(1, 4); i = r.randrange(m)
            B.append('var %s : %s[%d][%d]' % (a, ety, n, m))
            # type prefix order: T[n][m] is an array of m arrays of n
            fill('%s[%d]' % (a, i)); x = '%s[%s]' % (a, self.iexpr(i))
        elif kind == 'sa':
            m = r.randrange(1, 4); i = r.randrange(m)
            B.append('var %s : %s[:][:] = std.slzalloc(%d)' % (a, ety, m))
            B.append('%s[%d] = std.slalloc(%d)' % (a, i, n))
            fill('%s[%d]' % (a, i)); x = '%s[%s]' % (a, self.iexpr(i))
        elif kind == 'str':
            B.append('var %s = "%s"' % (a, ''.join(chr(97 + k % 26) for k in range(n))))
            vals = [97 + k % 26 for k in range(n)]
            x = a; wr = False
        inrange = r.random() < 0.45
        sl = r.random() < 0.3
        if n == 0 and not sl:
            inrange = False
        if vals is None and kind == 'sh':
            wr = not inrange
        stm = []
        expect = None
        num = lambda e: ['dio.num((%s : int64))' % e, 'dio.endl()']
        if sl:
            v = self.slbad(n) if not inrange else None
            if inrange:
                lo = r.randrange(0, n + 1)
                hi = r.randrange(lo, n + 1)
                form = r.randrange(4)
                lo, hi = [(lo, hi), (lo, n), (0, hi), (0, n)][form]
                e = '%s[%s:%s]' % (x, self.iexpr(lo) if form in (0, 1) else '', self.iexpr(hi) if form in (0, 2) else '')
            else:
                e = '%s[%s:%s]' % (x, v[0], v[1])
                lo, hi = 0, 0
            w = self.id('w')
            stm.append('var %s = %s' % (w, e))
            stm += num(w + '.len')
            expect = [str(hi - lo)]
            if inrange and hi > lo and vals:
                j = r.randrange(hi - lo)
                stm += num('%s[%d]%s' % (w, j, path))
                expect.append(str(vals[lo + j]))
        else:
            i = r.randrange(n) if inrange else self.bad(n, size)
            ie = self.iexpr(i)
            op = r.choice(['read', 'read', 'write', 'fuse', 'inc', 'addr', 'cond'])
            if not wr and op in ('write', 'fuse', 'inc'):
                op = 'read'
            el = '%s[%s]%s' % (x, ie, path)
            cur = vals[i] if vals and inrange else None
            if kind == 'arg' and op == 'read':
                f = self.id('h')
                t = self.tof(i)
                self.decls.append('const %s = {s : %s[:], i : %s\n\t-> (s[i]%s : int64)\n}' % (f, ety, t, path))
                stm += num('%s(%s, %s)' % (f, x, lit(None, t, i)))
                expect = [str(cur)]
            elif kind == 'gen' and op == 'read' and not path:
                f = self.id('h')
                t = self.tof(i)
                self.decls.append('generic %s = {s : @a[:], i : %s\n\t-> s[i]\n}' % (f, t))
                stm += num('%s(%s, %s)' % (f, x, lit(None, t, i)))
                expect = [str(cur)]
            elif kind == 'clo':
                f = self.id('h')
                stm.append('var %s = {\n\t\t-> (%s : int64)\n\t}' % (f, el))
                stm += num(f + '()')
                expect = [str(cur)]
            elif op == 'read':
                stm += num(el)
                expect = [str(cur)]
            elif op == 'cond':
                stm += ['if %s == %s' % (el, '(%d : %s)' % (cur if cur is not None else 5, st)), '\tdio.num(1)', 'else', '\tdio.num(0)', ';;', 'dio.endl()']
                expect = ['1']
            elif op == 'addr':
                v = self.id('v')
                stm.append('var %s = &%s[%s]' % (v, x, ie))
                stm += num('(%s : byte#) != (0 : byte#)' % v)
                expect = ['1']
            else:
                stm.append({'write': el + ' = 77', 'fuse': el + ' += 2', 'inc': el + '++'}[op])
                new = {'write': 77, 'fuse': (cur or 0) + 2, 'inc': (cur or 0) + 1}[op]
                stm += ['dio.word("done")', 'dio.endl()']
                expect = ['done']
                if inrange:
                    for k in range(n):
                        if n > 60 and k not in (0, i - 1, i, i + 1, n - 1):
                            continue
                        stm += num('%s[%d]%s' % (x, k, path))
                        expect.append(str(new if k == i else vals[k]))
            if expect == ['None']:
                if kind == 'sh' and inrange:
                    # contents come from the fill pattern
                    off = 32768 + i * size + {'': 0, '.x': {'E24': 8, 'E12': 4, 'E3': 1, 'E72': 56}.get(et, 0)}[path]
                    t = BY[st]
                    raw = 0
                    for b in range(t.bits // 8):
                        raw |= ((off + b) % 251) << (8 * b)
                    expect = [str(BY['int64'].wrap(t.wrap(raw)))]
            if kind == 'sh' and inrange and op == 'cond':
                expect = None
        if expect is None:
            return None
        B += ['dio.word("before")', 'dio.endl()'] + stm
        exp = ['before'] + (expect + ['after', 'exit0 clean'] if inrange else ['dead clean'])
        self.info = (kind, et, n, 'slice' if sl else op, 'in' if inrange else 'out')
        return Test(self.name, '\n'.join(self.decls), B, exp, info=self.info)

    def tof(self, v):
        return self.r.choice([BY[t] for t in IDX if BY[t].lo <= v <= BY[t].hi])

    def slbad(self, n):
        r = self.r
        k = r.randrange(4)
        if k == 0:
            # inverted
            hi = r.randrange(0, n + 1)
            lo = hi + r.choice([1, 1, 2, 5, 1000, 2**31, 2**40])
            return self.iexpr(lo), r.choice([self.iexpr(hi), '' if hi == n else self.iexpr(hi)])
        if k == 1:
            hi = self.over(n)
            return r.choice(['', '0', self.iexpr(r.randrange(0, n + 1))]), self.iexpr(hi)
        if k == 2:
            lo = -r.choice([1, 1, 2, n + 1, 128, 2**31, 2**32, 2**63])
            return self.iexpr(lo), r.choice(['', self.iexpr(n)])
        return r.choice(['', '0', self.iexpr(0)]), self.iexpr(-r.choice([1, 2, n + 1, 2**31, 2**32, 2**63]))

    def over(self, n):
        r = self.r
        return r.choice([n + 1, n + 1, n + 2, 2 * n + 1, 2**31, 2**32 + n, 2**32, 2**63 - 1, 2**64 - 1, 2**62])


def check(ck):
    ck.rule = ('one forked process per access: 15 container kinds x 10 element types x 11 index types x read/write/fused/'
               'increment/address/condition/slice with in-range, boundary, negative, huge and scale-overflowing bounds; '
               'the parent observes the trace, the way the child died and a shared memory area surrounding the slice')
    t = Tree('std')
    pk = P(ck, t, 'c07')
    n = ck.n(4000, 40000)
    out, i = [], 0
    while len(out) < n:
        g = Gen(ck.sub('t', i), str(i))
        i += 1
        c = g.make()
        if c:
            out.append(c)
            ck.count('container ' + c.info[0])
            ck.count('access ' + c.info[3])
            ck.count(c.info[4] + ' of range')
    for s in range(0, n, 2000):
        pk.check(out[s:s + 2000], per=40, sigf=lambda t, b: 'c07 %s seed %d' % (t.name, ck.seed))
        if ck.enough():
            break


TECH = 'runtime monitor of forked accesses (trace, exit status, shared-memory canary) over generated programs'
NOTE = ('Held on the generated accesses only. A read before the stop is visible only when it faults; slicing of raw '
        'pointers is unchecked by design and not covered.')
