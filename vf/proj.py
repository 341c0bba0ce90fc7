"""Random mbld projects with a model of what they build and print."""
import os, zlib


ACTIVE = {'linux', 'posixy', 'x64', 'sse2'}
TAGS = ['linux', 'posixy', 'x64', 'plan9', 'freebsd', 'foo', 'bar', 'baz', 'linux:1.2', 'linux:3', 'linux:99', 'linux:1.2.3']


def ver(s):
    v = ([int(x) for x in s.split('.')] + [0, 0, 0])[:3]
    return tuple(v)


class File:
    def __init__(self, base, kind='myr'):
        self.base, self.kind = base, kind
        self.var = {}           # tags -> constant
        self.gk = 0
        self.uses = []          # earlier files of the target
        self.xuses = []         # (library target, file)
        self.asm = None         # name -> constant of an assembly function
        self.fn = 'f_' + base
        self.broken = False
        self.missing = False
        self.gen = None         # None, 'dep' or 'cmd'

    def name(self, tag):
        return self.base + ('+' + tag if tag else '') + ('.s' if self.kind == 's' else '.myr')


class Targ:
    def __init__(self, kind, name, dir):
        self.kind, self.name, self.dir = kind, name, dir
        self.files = []
        self.noinst = False
        self.tag = None
        self.attr = []

    def libs(self):
        r = []
        for f in self.files:
            for l, _ in f.xuses:
                if l not in r:
                    r.append(l)
        return r

    def label(self):
        return '%s:%s' % (self.dir, self.name)


class Project:
    def __init__(self, r, small=False):
        self.r = r
        self.n = 0
        self.targs = []
        self.dirs = ['']
        self.tags = set()
        self.opts = set()
        self.usetags = r.random() < .5
        self.extra = {}
        self.rev = r.random() < .5
        for i in range(r.choice([0, 1, 1, 2, 3])):
            self.dirs.append(r.choice(['s%d', 's%d', 'deep/s%d']) % i)
        for i in range(r.randint(1, 3 if small else 4)):
            self.addtarg('lib')
        for i in range(r.randint(1, 2)):
            self.addtarg('bin')

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def k(self):
        return self.r.randint(1, 999)

    def active(self):
        return ACTIVE | self.tags | self.opts

    # -- shape ------------------------------------------------------------------
    def alllibs(self):
        return [t for t in self.targs if t.kind == 'lib']

    def usable(self, t):
        """Libraries that t may use: those that come before it and are always built."""
        i = self.targs.index(t) if t in self.targs else len(self.targs)
        return [x for x in self.targs[:i] if x.kind == 'lib' and not x.tag]

    def addtarg(self, kind, dir=None):
        r = self.r
        t = Targ(kind, self.fresh('l' if kind == 'lib' else 'p'), dir if dir is not None else r.choice(self.dirs))
        t.noinst = r.random() < .25
        # users come last: a library may only be used by what is made later
        self.targs.append(t)
        for i in range(r.randint(1, 4)):
            self.addfile(t)
        return t

    def addfile(self, t):
        r = self.r
        f = File(self.fresh('m'))
        f.var[''] = self.k()
        f.gk = self.k()
        w = r.random()
        if w < .35:
            for x in self.pickvars():
                f.var.setdefault(x, self.k())
            if r.random() < .3 and self.choose(f, drop='') is not None:
                del f.var['']
            self.fixvars(f)
        elif w < .5:
            f.gen = r.choice(['dep', 'cmd'])
        for o in t.files:
            if o.kind == 'myr' and r.random() < .4:
                f.uses.append(o)
        for l in self.usable(t):
            if r.random() < .5:
                o = [x for x in l.files if x.kind == 'myr']
                if o:
                    f.xuses.append((l, r.choice(o)))
        if r.random() < .2 and not f.gen:
            s = File(self.fresh('a'), 's')
            s.var[''] = self.k()
            for x in self.pickvars():
                s.var.setdefault(x, self.k())
            self.fixvars(s)
            f.asm = s
            t.files.append(s)
        t.files.append(f)
        return f

    def pickvars(self):
        r = self.r
        return ['-'.join(r.sample(TAGS, r.choice([1, 1, 1, 2, 2, 3]))) for _ in range(r.randint(1, 3))]

    def fixvars(self, f):
        """Drops variants until one is the best."""
        f.var = {t: k for t, k in f.var.items() if len({x.split(':')[0] for x in t.split('-')}) == len(t.split('-'))}
        while self.choose(f) in (None, 'tie'):
            if '' not in f.var:
                f.var[''] = self.k()
            else:
                x = [t for t in f.var if t]
                del f.var[self.r.choice(x)]

    def score(self, tag):
        """None: does not apply; (number of tags, closeness of the version)."""
        n, v = 0, 0
        for x in tag.split('-') if tag else []:
            nm, _, want = x.partition(':')
            if nm not in {a.split(':')[0] for a in self.active()}:
                return None
            n += 1
            if want:
                w, have = ver(want), KERNEL
                if w > have:
                    return None
                d = tuple(a - b for a, b in zip(have, w))
                i = next((i for i in range(3) if d[i]), 3)
                v += 100000000 - (d[i] * (1000000, 1000, 1)[i] if i < 3 else 0)
        return n, v

    def choose(self, f, drop=None):
        s = sorted(((self.score(t), t) for t in f.var if t != drop and self.score(t) is not None), reverse=True)
        if not s:
            return None
        if len(s) > 1 and s[0][0] == s[1][0]:
            return 'tie'
        return s[0][1]

    # -- meaning ----------------------------------------------------------------
    def built(self, t):
        return t.tag is None or t.tag in self.active()

    def value(self, t, f, memo):
        if f in memo:
            return memo[f]
        v = f.var[self.choose(f)]
        for u in f.uses:
            v += self.value(t, u, memo) + 3 + u.gk
        for l, u in f.xuses:
            v += self.value(l, u, memo) + 5 + u.gk
        if f.asm:
            v += f.asm.var[self.choose(f.asm)]
        memo[f] = v
        return v

    def output(self, t):
        memo = {}
        return ''.join('%s %d\n' % (f.base, self.value(t, f, memo)) for f in t.files if f.kind == 'myr')

    # -- text -------------------------------------------------------------------
    def source(self, t, f, k):
        if f.kind == 's':
            return '.globl %s$%s\n%s$%s:\n\tmovl $%d,%%eax\n\tret\n' % (t.name, 'f_' + f.base, t.name, 'f_' + f.base, k)
        o = []
        for l in sorted({l.name for l, _ in f.xuses}):
            o.append('use %s' % l)
        for u in f.uses:
            o.append('use "%s"' % u.base)
        o.append('')
        o.append('pkg %s =' % t.name)
        o.append('\tconst %s : (-> int)' % f.fn)
        o.append('\tgeneric g_%s : (a : @a -> @a) :: numeric @a' % f.base)
        if f.asm:
            o.append('\textern const f_%s : (-> int)' % f.asm.base)
        o.append(';;')
        o.append('generic g_%s = {a\n\t-> a + (%d : @a)\n}' % (f.base, f.gk))
        e = ['%d' % k]
        for u in f.uses:
            e += ['%s()' % u.fn, '(g_%s((3 : int64)) : int)' % u.base]
        for l, u in f.xuses:
            e += ['%s.%s()' % (l.name, u.fn), '(%s.g_%s((5 : int16)) : int)' % (l.name, u.base)]
        if f.asm:
            e.append('f_%s()' % f.asm.base)
        if f.broken:
            e.append('"not a number"')
        o.append('const %s = {\n\t-> %s\n}' % (f.fn, ' + '.join(e)))
        return '\n'.join(o) + '\n'

    def mainsrc(self, t):
        fs = [f for f in t.files if f.kind == 'myr']
        o = ['use std'] + ['use "%s"' % f.base for f in fs] + ['', 'const main = {']
        for f in fs:
            o.append('\tstd.put("%s {}\\n", %s.%s())' % (f.base, t.name, f.fn))
        return '\n'.join(o + ['}']) + '\n'

    def ref(self, frm, l):
        if frm == l.dir:
            c = [l.name, '@/%s:%s' % (l.dir, l.name)]
        else:
            c = ['@/%s:%s' % (l.dir, l.name)]
            if l.dir:
                c.append('%s:%s' % (os.path.relpath(l.dir, frm or '.'), l.name))
        return c[(len(frm) + int(l.name[1:])) % len(c)]

    def files(self):
        out = {}
        for d in self.dirs:
            b = ['# generated']
            subs = [os.path.relpath(x, d or '.') for x in self.dirs[1:]] if d == '' else []
            if subs:
                b.append('sub = %s ;;' % ' '.join(subs))
            for t in self.targs[::-1 if self.rev else 1]:
                if t.dir != d:
                    continue
                names, pre = [], []
                for f in t.files:
                    for tag, k in f.var.items():
                        names.append(f.name(tag))
                        src = self.source(t, f, k)
                        if f.gen == 'cmd':
                            g = 'mk_' + f.base
                            out[os.path.join(d, g + '.sh')] = "sed s/NUM/$1/ %s.in > %s\n" % (g, f.name(tag))
                            out[os.path.join(d, g + '.in')] = src.replace('-> %d' % k, '-> NUM')
                            # rules without dep are only run again when they change
                            pre.append('gen %s = sh %s.sh %d v%08x ;;' % (f.name(tag), g, k, zlib.crc32(src.encode())))
                        elif f.gen == 'dep':
                            g = 'mk_' + f.base
                            out[os.path.join(d, g + '.sh')] = 'cat %s.in > %s\n' % (g, f.name(tag))
                            out[os.path.join(d, g + '.in')] = src
                            pre.append('gen %s {dep=%s} = sh %s.sh ;;' % (f.name(tag), os.path.join(d, g + '.in'), g))
                        elif not f.missing:
                            out[os.path.join(d, f.name(tag))] = src
                if t.kind == 'bin':
                    m = 'main_' + t.name
                    out[os.path.join(d, m + '.myr')] = self.mainsrc(t)
                    names.append(m + '.myr')
                a = list(t.attr)
                if t.noinst:
                    a.append('noinst')
                if t.tag:
                    a.append('tag=' + t.tag)
                b += pre
                b.append('%s %s %s=\n\t%s\n;;' % (t.kind, t.name, '{%s} ' % ','.join(a) if a else '',
                         '\n\t'.join(names + ['lib ' + self.ref(d, l) for l in t.libs()])))
            out[os.path.join(d, 'bld.sub') if d else 'bld.proj'] = '\n'.join(b) + '\n'
        if self.usetags:
            out['bld.tags'] = ''.join(t + '\n' for t in sorted(self.tags))
        out.update(self.extra)
        return out

    def args(self):
        r = []
        for t in sorted(self.opts):
            r += ['-t', t]
        return r

    def selected(self, t):
        """The source files of t that get built."""
        r = [os.path.join(t.dir, f.name(self.choose(f))) for f in t.files]
        if t.kind == 'bin':
            r.append(os.path.join(t.dir, 'main_' + t.name + '.myr'))
        return r


def kernel():
    v = [int(x) for x in os.uname().release.split('.') if x.isdigit()]
    return tuple((v + [0, 0, 0])[:3])


KERNEL = kernel()
