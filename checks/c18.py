"""C18: incremental builds against clean builds of the same tree, over edit histories."""
import os, random, re, shutil, time
from vf.build import Tree, scratch
from vf.core import *
from vf.mb import Mb, write
from vf.proj import Project, File

TECH = 'runtime monitoring: after every step of a generated edit history, mbld runs in the edited tree and, as the reference, in a fresh copy of it; outputs, verdicts, program behaviour and idle rebuilds compared'
NOTE = 'edits are at least 20 ms apart, so time stamps differ; changed options, a changed script of a gen rule without dep, and a deleted bld.tags are not edits mbld promises to notice and are not made; a rule\'s cmd outputs and C glue are not generated'


class Hist:
    def __init__(self, ck, mb, r, i):
        self.ck, self.mb, self.r, self.i = ck, mb, r, i
        self.dir = os.path.join(scratch(), 'c18', 'h%d' % i)
        self.p = Project(r, small=True)
        self.p.usetags = self.p.usetags and r.random() < .7
        self.disk = {}
        self.log = []
        self.broken = None

    # -- edits; each returns what it did, or None when it does not apply ------------
    def pick(self, kind='myr'):
        c = [(t, f) for t in self.p.targs for f in t.files if f.kind == kind]
        return self.r.choice(c) if c else None

    def users(self, f):
        return [(t, g) for t in self.p.targs for g in t.files
                if f in g.uses or any(u is f for _, u in g.xuses) or g.asm is f]

    def e_const(self):
        t, f = self.pick()
        k = self.r.choice(sorted(f.var))
        f.var[k] = self.p.k()
        return 'constant of %s' % f.name(k)

    def e_asm(self):
        x = self.pick('s')
        if x:
            k = self.r.choice(sorted(x[1].var))
            x[1].var[k] = self.p.k()
            return 'constant of %s' % x[1].name(k)

    def e_generic(self):
        t, f = self.pick()
        f.gk = self.p.k()
        return 'generic of %s' % f.base

    def e_rename(self):
        t, f = self.pick()
        f.fn = self.p.fresh('f_')
        return 'renamed the function of %s, and its users' % f.base

    def e_addfile(self):
        t = self.r.choice(self.p.targs)
        f = self.p.addfile(t)
        if self.r.random() < .6:
            self.adduser(t, f)
        return 'added %s to %s' % (f.base, t.label())

    def adduser(self, t, f):
        i = self.p.targs.index(t)
        for x in self.p.targs[i + 1:]:
            if t.kind == 'lib' and not t.tag and self.r.random() < .5:
                o = [g for g in x.files if g.kind == 'myr']
                if o:
                    self.r.choice(o).xuses.append((t, f))

    def e_delfile(self):
        c = [(t, f) for t in self.p.targs for f in t.files if not self.users(f)
             and sum(g.kind == 'myr' for g in t.files) > 1]
        if c:
            t, f = self.r.choice(c)
            t.files.remove(f)
            if f.asm in t.files:
                t.files.remove(f.asm)
            return 'removed %s from %s' % (f.base, t.label())

    def e_use(self):
        t, f = self.pick()
        i = t.files.index(f)
        o = [g for g in t.files[:i] if g.kind == 'myr' and g not in f.uses]
        x = [(l, g) for l in self.p.usable(t) for g in l.files if g.kind == 'myr']
        if o and self.r.random() < .5:
            f.uses.append(self.r.choice(o))
        elif x:
            f.xuses.append(self.r.choice(x))
        else:
            return
        return 'new use in %s' % f.base

    def e_unuse(self):
        c = [f for t in self.p.targs for f in t.files if f.uses or f.xuses]
        if c:
            f = self.r.choice(c)
            l = self.r.choice([x for x in (f.uses, f.xuses) if x])
            l.remove(self.r.choice(l))
            return 'dropped a use in %s' % f.base

    def e_addtarg(self):
        t = self.p.addtarg(self.r.choice(['lib', 'bin']))
        if t.kind == 'lib' and self.r.random() < .7:
            # users come after it
            b = [x for x in self.p.targs if x.kind == 'bin']
            x = self.r.choice(b)
            self.p.targs.remove(x)
            self.p.targs.append(x)
            o = [g for g in x.files if g.kind == 'myr']
            self.r.choice(o).xuses.append((t, self.r.choice([g for g in t.files if g.kind == 'myr'])))
        return 'added %s %s' % (t.kind, t.label())

    def e_deltarg(self):
        used = {l.name for t in self.p.targs for l in t.libs()}
        c = [t for t in self.p.targs if t.name not in used]
        if len(c) > 1 and len(self.p.targs) > 2:
            t = self.r.choice(c)
            if t.kind == 'bin' and sum(x.kind == 'bin' for x in self.p.targs) < 2:
                return
            self.p.targs.remove(t)
            return 'removed %s' % t.label()

    def e_variant(self):
        c = [(t, f) for t in self.p.targs for f in t.files if not f.gen]
        if not c:
            return
        t, f = self.r.choice(c)
        old = dict(f.var)
        if len(f.var) > 1 and self.r.random() < .5:
            del f.var[self.r.choice(sorted(f.var))]
        else:
            f.var[self.p.pickvars()[0]] = self.p.k()
        self.p.fixvars(f)
        return 'variants of %s: %s, were %s' % (f.base, sorted(f.var), sorted(old)) if f.var != old else None

    def e_tags(self):
        if not self.p.usetags:
            return
        old = set(self.p.tags)
        self.p.tags ^= {self.r.choice(['foo', 'bar', 'baz'])}
        if any(self.p.choose(f) in (None, 'tie') for t in self.p.targs for f in t.files):
            self.p.tags = old
            return
        return 'bld.tags: %s, was %s' % (sorted(self.p.tags), sorted(old))


    def e_touch(self):
        f = self.r.choice(sorted(self.disk))
        os.utime(os.path.join(self.dir, f))
        return 'touched %s' % f

    def e_loseout(self):
        c = []
        for d, _, fs in os.walk(os.path.join(self.dir, 'obj')):
            c += [os.path.join(d, f) for f in fs]
        if c:
            f = self.r.choice(sorted(c))
            os.remove(f)
            return 'deleted %s' % os.path.relpath(f, self.dir)

    def e_break(self):
        t, f = self.pick()
        w = self.r.random()
        if w < .4 and f.var:
            f.broken = True
            self.broken = ('broken', f)
            return 'type error in %s' % f.base
        elif w < .6 and not f.gen:
            f.missing = True
            self.broken = ('missing', f)
            return 'lost the file %s' % f.base
        elif w < .8:
            x = self.pick('s')
            if x:
                x[1].missing = True
                self.broken = ('missing', x[1])
                return 'lost the file %s' % x[1].base
        else:
            u = [l for l in self.p.alllibs() if any(l in x.libs() for x in self.p.targs)]
            if u:
                l = self.r.choice(u)
                i = self.p.targs.index(l)
                self.p.targs.remove(l)
                self.broken = ('target', l, i)
                return 'removed %s, which is used' % l.label()

    def fix(self):
        b, self.broken = self.broken, None
        if b[0] == 'target':
            self.p.targs.insert(b[2], b[1])
        else:
            setattr(b[1], b[0], False)
        return 'repaired: %s' % b[0]

    EDITS = ['const'] * 4 + ['asm', 'generic', 'generic', 'rename', 'addfile', 'addfile', 'delfile', 'delfile', 'use', 'use',
             'unuse', 'addtarg', 'deltarg', 'variant', 'variant', 'variant', 'tags', 'tags', 'touch', 'loseout', 'loseout', 'break', 'break']

    def edit(self):
        if self.broken and self.r.random() < .8:
            return self.fix()
        for _ in range(50):
            e = self.r.choice(self.EDITS)
            if self.broken and e in ('break', 'deltarg', 'addtarg', 'delfile', 'use', 'addfile'):
                continue
            w = getattr(self, 'e_' + e)()
            if w:
                return w
        return 'nothing'

    def sync(self, d, disk):
        new = self.p.files()
        for f in disk:
            if f not in new:
                os.remove(os.path.join(d, f))
        write(d, {f: t for f, t in new.items() if disk.get(f) != t})
        return new

    # -- judging ----------------------------------------------------------------
    def bad(self, what, detail):
        files = {'clean/' + f: t for f, t in self.p.files().items()}
        files['history.txt'] = '\n'.join(self.log) + '\n'
        self.ck.violation(what, 'after:\n  %s\n%s' % ('\n  '.join(self.log[-12:]), detail), files)

    def outputs(self, d):
        r = {}
        for a, _, fs in os.walk(os.path.join(d, 'obj')):
            for f in fs:
                p = os.path.join(a, f)
                r[os.path.relpath(p, d)] = open(p, 'rb').read()
        return r

    def step(self):
        ck = self.ck
        inc = self.mb.run(self.dir, ['-j', str(self.r.choice([1, 2, 4]))] + self.p.args())
        # objects contain the directory they were made in, so both builds happen in the same one
        aside = self.dir + '.inc'
        os.rename(self.dir, aside)
        write(self.dir, self.p.files())
        cl = self.mb.run(self.dir, ['-j', '4'] + self.p.args())
        b = self.outputs(self.dir)
        shutil.rmtree(self.dir)
        os.rename(aside, self.dir)
        for x in (inc, cl):
            x.text = re.sub(r'(?: -I \S+)+', ' -I..', x.text)
        if inc.timed_out or cl.timed_out:
            return self.bad('hang', 'mbld does not end\n' + inc.text[-1000:])
        if self.broken is None and cl.rc != 0:
            ck.count('valid projects that did not build')
            self.skipped = cl.text
            return False
        if (inc.rc == 0) != (cl.rc == 0):
            return self.bad('verdict', 'mbld exits with %s, a clean build with %s\n--- incremental\n%s\n--- clean\n%s' %
                            (inc.rc, cl.rc, inc.text[-2000:], cl.text[-2000:]))
        ck.saw((self.i, len(self.log)), sample={'edit': self.log[-1], 'commands': inc.text.count('\n\t') + inc.text.startswith('\t'), 'clean': cl.text.count('\n\t')} if len(self.log) == 5 else None)
        ck.count('commands run incrementally', inc.text.count('\n\t'))
        ck.count('commands run by clean builds', cl.text.count('\n\t'))
        if cl.rc != 0:
            ck.count('failing builds')
            return True
        a = self.outputs(self.dir)
        for f in sorted(b):
            if a.get(f) != b[f]:
                return self.bad('stale output', '%s %s\n--- incremental\n%s' %
                                (f, 'is missing' if f not in a else 'differs from the clean build', inc.text[-2000:]))
        ck.count('outputs compared', len(b))
        for t in self.p.targs:
            if t.kind == 'bin' and self.p.built(t):
                x = run([os.path.join(self.dir, 'obj', t.dir, t.name)], timeout=20)
                if x.rc != 0 or x.out.decode('latin1') != self.p.output(t):
                    return self.bad('program', '%s prints %r, expected %r (status %s)' % (t.name, x.out, self.p.output(t), x.rc))
        again = self.mb.run(self.dir, self.p.args())
        if again.rc != 0 or any(l.startswith('\t') for l in again.text.split('\n')):
            return self.bad('idle rebuild', 'a second run with nothing changed exits with %s and runs\n%s' % (again.rc, again.text[-2000:]))
        return True

    def go(self, n):
        os.makedirs(self.dir, exist_ok=True)
        self.skipped = None
        self.log.append('new project')
        self.disk = self.sync(self.dir, {})
        try:
            for k in range(n):
                ok = self.step()
                if ok is not True:
                    return
                time.sleep(.02)
                w = [self.edit() for _ in range(self.r.choice([1, 1, 1, 2, 3]))]
                self.log.append('; '.join(w))
                self.disk = self.sync(self.dir, self.disk)
                for x in w:
                    self.ck.count('edits: ' + x.split()[0])
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def check(ck):
    tree = Tree('all')
    mb = Mb(tree)
    r = ck.sub('hist')
    seeds = [r.getrandbits(60) for _ in range(ck.n(24, 400))]
    hs = []

    def one(a):
        if ck.enough():
            return
        h = Hist(ck, mb, random.Random(a[1]), a[0])
        hs.append(h)
        h.go(ck.n(9, 30))
    pmap(one, list(enumerate(seeds)))
    lost = [h for h in hs if h.skipped]
    if len(lost) > len(hs) // 4 and not ck.viol:
        raise Inconclusive('valid projects do not build: ' + lost[0].skipped[-1500:])
    ck.rule = 'every output of the clean build exists with the same bytes after the incremental one, verdicts agree, programs print what the sources mean, and a further run starts no command'
