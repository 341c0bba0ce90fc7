"""C19: generated projects built with recording tools, compared with what their build files say."""
import os, random, re, shutil, stat
from vf.build import Tree, scratch, clean_env
from vf.core import *
from vf.mb import Run, write
from vf.proj import Project, File, Targ, KERNEL

TECH = 'runtime monitoring: mbld runs generated projects with wrappers that log start, arguments and end of every command; the log, the files, the programs and the verdicts are compared with a model of the build files'
NOTE = 'C glue, man pages, cmd rules, custom runtimes and linker scripts are not generated; nested bld.proj files are not; tests are the matter of C57; mbld runs as an unprivileged user, so that nothing it does can leave the scratch directory'

WRAP = '''#!/bin/sh
echo "S %(t)s $$ $*" >> "$VF_LOG"
%(real)s "$@"
r=$?
echo "E %(t)s $$ $r" >> "$VF_LOG"
exit $r
'''


def drop():
    os.setgroups([])
    os.setgid(65534)
    os.setuid(65534)


class Rig:
    def __init__(self, tree):
        self.tree = tree
        self.d = os.path.join(scratch(), 'c19')
        self.bin = os.path.join(self.d, 'bin')
        os.makedirs(self.bin)
        for t, real in (('mc', tree.mc), ('muse', tree.muse), ('ld', shutil.which('ld')), ('ar', shutil.which('ar'))):
            p = os.path.join(self.bin, t)
            with open(p, 'w') as f:
                f.write(WRAP % {'t': t, 'real': real})
            os.chmod(p, 0o755)
        os.chmod(scratch(), 0o755)
        self.inc = tree.incdirs()

    def run(self, cwd, args, log):
        e = clean_env({'MYR_MC': self.bin + '/mc', 'MYR_MUSE': self.bin + '/muse', 'MYR_RT': self.tree.rt,
                       'VF_LOG': log, 'DESTDIR': cwd + '.dest'}, tmp=cwd)
        e['PATH'] = self.bin + ':' + e['PATH']
        r = Run(run([self.tree.mbld] + self.inc + ['-B', '/inst'] + list(args), timeout=60, cwd=cwd, env=e, preexec=drop))
        r.text = re.sub(r'(?: -I \S+)+', ' -I..', (r.out + r.err).decode('latin1'))
        return r


class Cmd:
    def __init__(self, tool, args, start):
        self.tool, self.args, self.start, self.end, self.rc = tool, args, start, None, None


def readlog(path):
    cmds, live = [], {}
    if not os.path.exists(path):
        return cmds
    for i, l in enumerate(open(path)):
        w = l.rstrip('\n').split(' ')
        if w[0] == 'S':
            a, k = [], 3
            while k < len(w):
                if w[k] == '-I':
                    k += 2
                    continue
                a.append(w[k])
                k += 1
            live[w[2]] = Cmd(w[1], a, i)
            cmds.append(live[w[2]])
        else:
            c = live.pop(w[2])
            c.end, c.rc = i, int(w[3])
    return cmds


def snap(d):
    r = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(a, f)
            r[os.path.relpath(p, d)] = open(p, 'rb').read()
    return r


def outs(src):
    """What compiling a source makes."""
    d, f = os.path.split(src)
    stem = f.rsplit('.', 1)[0].split('+')[0]
    r = [os.path.normpath(os.path.join('obj', d, stem + '.o'))]
    if f.endswith('.myr'):
        r.append(os.path.normpath(os.path.join('obj', d, stem + '.use')))
    return r


def chown(d):
    for a, ds, fs in os.walk(d):
        for x in [a] + [os.path.join(a, f) for f in fs]:
            os.chown(x, 65534, 65534)


class One:
    def __init__(self, ck, rig, r, i):
        self.ck, self.rig, self.r, self.i = ck, rig, r, i
        self.dir = os.path.join(rig.d, 'p%d' % i)
        self.p = p = Project(r)
        for t in p.targs:
            used = {l.name for x in p.targs for l in x.libs()}
            if t.name not in used and r.random() < .2:
                t.tag = r.choice(['linux', 'foo', 'plan9', 'x64'])
        if r.random() < .4:
            old = p.opts
            p.opts = set(r.sample(['foo', 'bar', 'baz'], r.randint(1, 2)))
            if any(p.choose(f) in (None, 'tie') for t in p.targs for f in t.files):
                p.opts = old
        if p.usetags and r.random() < .6:
            old = p.tags
            p.tags = {r.choice(['foo', 'bar', 'baz'])}
            if any(p.choose(f) in (None, 'tie') for t in p.targs for f in t.files):
                p.tags = old

    def bad(self, what, detail, files):
        f = {'project/' + k: v for k, v in files.items()}
        f['args.txt'] = ' '.join(self.p.args()) + '\n'
        self.ck.violation(what, detail, f)

    def put(self, files):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.dir + '.dest', ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(self.dir + '.dest')
        write(self.dir, files)
        chown(self.dir)
        chown(self.dir + '.dest')
        for f in files:
            if 'configure' in f:
                os.chmod(os.path.join(self.dir, f), 0o755)

    def mbld(self, args):
        log = os.path.join(self.dir + '.dest', 'log')
        if os.path.exists(log):
            os.remove(log)
        x = self.rig.run(self.dir, args, log)
        x.cmds = readlog(log)
        if os.path.exists(log):
            os.remove(log)
        return x

    def closure(self, t, seen):
        if t in seen:
            return
        for l in t.libs():
            self.closure(l, seen)
        seen.append(t)

    def commands(self, x, targs, what, files):
        """Exactly the commands of these targets, each once, none before what it reads is there."""
        p, tree = self.p, self.rig.tree
        want = {}
        for t in targs:
            for s in p.selected(t):
                if s.endswith('.myr'):
                    want[('mc', s)] = t
            if t.kind == 'lib':
                base = os.path.join('obj', t.dir, 'lib' + t.name)
                want[('muse', base + '.use')] = want[('ar', base + '.a')] = t
            else:
                want[('ld', os.path.join('obj', t.dir, t.name))] = t
        got, made = {}, {}
        for c in x.cmds:
            if c.tool == 'mc':
                k = ('mc', c.args[-1])
                o = outs(c.args[-1])
            elif c.tool == 'ar':
                k = ('ar', next((a for a in c.args if a.endswith('.a')), '?'))
                o = [k[1]]
            else:
                k = (c.tool, c.args[c.args.index('-o') + 1] if '-o' in c.args else '?')
                o = [k[1]]
            if k in got:
                return self.bad('built twice', '%s: %s ran twice\n%s' % (what, k, x.text[-2500:]), files)
            got[k] = c
            for f in o:
                made[f] = c
        if set(got) != set(want):
            return self.bad('commands', '%s: not run: %s; run though not asked for: %s\n%s' %
                            (what, sorted(set(want) - set(got)), sorted(set(got) - set(want)), x.text[-2500:]), files)
        for k, c in got.items():
            need = [a for a in c.args if a in made and made[a] is not c]
            t = want[k]
            if k[0] == 'mc':
                f = next((f for f in t.files if os.path.join(t.dir, f.name(p.choose(f))) == k[1]), None)
                us = f.uses if f else [f for f in t.files if f.kind == 'myr']
                need += [outs(os.path.join(t.dir, u.name('')))[1] for u in us]
                for l, _ in (f.xuses if f else ()):
                    need.append(os.path.join('obj', l.dir, 'lib' + l.name + '.use'))
            for n in need:
                if n not in made or made[n].end is None or made[n].end > c.start:
                    return self.bad('order', '%s: %s started before %s was made\n%s' % (what, k, n, x.text[-2500:]), files)
            if k[0] in ('ar', 'muse', 'ld'):
                ins = {a for a in c.args if a.endswith('.use' if k[0] == 'muse' else '.o') and a in made or a.startswith('obj') and a.endswith('.o')}
                exp = set()
                for s in p.selected(t):
                    o = outs(s)
                    exp |= {o[0]} if k[0] != 'muse' else set(o[1:])
                ins.discard(k[1])
                if ins != exp:
                    return self.bad('inputs', '%s: %s was given %s instead of %s' % (what, k, sorted(ins), sorted(exp)), files)
            if k[0] == 'ld':
                tr = []
                self.closure(t, tr)
                libs = {os.path.join('obj', l.dir, 'lib' + l.name + '.a') for l in tr if l is not t}
                have = {os.path.normpath(a) for a in c.args if a.endswith('.a') and os.path.normpath(a).startswith('obj/')}
                d, l = [a[2:] for a in c.args if a.startswith('-L')], [a[2:] for a in c.args if a.startswith('-l')]
                have |= {os.path.join('obj', z.dir, 'lib' + z.name + '.a') for z in tr if z is not t and z.name in l}
                if have != libs:
                    return self.bad('libraries', '%s: %s is linked with %s instead of %s' % (what, k, sorted(have), sorted(libs)), files)
        self.ck.count('commands judged', len(got))
        return True

    def programs(self, targs, files):
        for t in targs:
            if t.kind == 'bin':
                x = run([os.path.join(self.dir, 'obj', t.dir, t.name)], timeout=20)
                if x.rc != 0 or x.out.decode('latin1') != self.p.output(t):
                    return self.bad('program', '%s prints %r, expected %r (status %s)' % (t.name, x.out, self.p.output(t), x.rc), files)
        return True

    def good(self):
        ck, p, r = self.ck, self.p, self.r
        files = p.files()
        share = {}
        d = r.choice(p.dirs)
        if r.random() < .5:
            nm = 'blob%d.txt' % r.randint(1, 99)
            files[os.path.join(d, nm)] = 'data %d\n' % p.k()
            path = r.choice([None, '/etc/thing'])
            b = os.path.join(d, 'bld.sub') if d else 'bld.proj'
            files[b] += 'data stuff %s= %s ;;\n' % ('{path=%s} ' % path if path else '', nm)
            share[(path or '/share') + '/' + nm] = files[os.path.join(d, nm)].encode()
        durable = {}
        if r.random() < .5:
            d = r.choice(p.dirs)
            b = os.path.join(d, 'bld.sub') if d else 'bld.proj'
            files[b] += 'gen kept.txt {durable} = sh configure.sh %d ;;\n' % self.i
            files[os.path.join(d, 'configure.sh')] = 'echo $1 > kept.txt\n'
            durable[os.path.join(d, 'kept.txt')] = b'%d\n' % self.i
        self.put(files)
        before = snap(self.dir)
        built = [t for t in p.targs if p.built(t)]
        jobs = ['-j', str(r.choice([1, 2, 3, 8, 20]))] + p.args()
        x = self.mbld(jobs)
        if x.timed_out:
            return self.bad('hang', 'mbld does not end\n' + x.text[-1500:], files)
        if x.rc != 0:
            return self.bad('refused', 'a valid project: status %s\n%s' % (x.rc, x.text[-2500:]), files)
        if not self.commands(x, built, 'mbld', files) or not self.programs(built, files):
            return
        ck.count('targets built', len(built))
        ck.count('targets left out by a tag', len(p.targs) - len(built))
        ck.count('files with variants', sum(len(f.var) > 1 for t in p.targs for f in t.files))
        for f, c in durable.items():
            if snap(self.dir).get(f) != c:
                return self.bad('gen', '%s was not generated' % f, files)
        # install and uninstall
        x = self.mbld(['install'] + [])if not p.args() else self.mbld(p.args() + ['install'])
        dest = self.dir + '.dest'
        want = {'inst' + k: v for k, v in share.items()}
        s = snap(self.dir)
        for t in built:
            if not t.noinst:
                if t.kind == 'bin':
                    want['inst/bin/' + t.name] = s[os.path.join('obj', t.dir, t.name)]
                else:
                    for e in ('.a', '.use'):
                        want['inst/lib/myr/lib' + t.name + e] = s[os.path.join('obj', t.dir, 'lib' + t.name + e)]
        have = snap(dest)
        if x.rc != 0 or have != want:
            return self.bad('install', 'status %s; missing %s, unexpected %s, different %s\n%s' %
                            (x.rc, sorted(set(want) - set(have)), sorted(set(have) - set(want)),
                             sorted(f for f in want if f in have and have[f] != want[f]), x.text[-1500:]), files)
        for f in want:
            m = stat.S_IMODE(os.stat(os.path.join(dest, f)).st_mode)
            if bool(m & 0o111) != f.startswith('inst/bin/'):
                return self.bad('install mode', '%s has mode %o' % (f, m), files)
        ck.count('files installed', len(want))
        x = self.mbld(p.args() + ['uninstall'])
        if x.rc != 0 or snap(dest):
            return self.bad('uninstall', 'status %s; left: %s\n%s' % (x.rc, sorted(snap(dest)), x.text[-1500:]), files)
        # clean
        x = self.mbld(p.args() + ['clean'])
        after = snap(self.dir)
        before.update(durable)
        if x.rc != 0 or after != before:
            return self.bad('clean', 'status %s; left: %s, removed: %s, changed: %s\n%s' %
                            (x.rc, sorted(set(after) - set(before)), sorted(set(before) - set(after)),
                             sorted(f for f in before if f in after and after[f] != before[f]), x.text[-1500:]), files)
        # one target by name
        t = r.choice(built)
        x = self.mbld(jobs + [t.label()])
        tr = []
        self.closure(t, tr)
        if x.rc != 0 or x.timed_out:
            return self.bad('target refused', '%s: status %s\n%s' % (t.label(), x.rc, x.text[-2500:]), files)
        if not self.commands(x, tr, 'mbld ' + t.label(), files) or not self.programs([t], files):
            return
        ck.saw((self.i, 'good'), sample={'targets': [t.kind + ' ' + t.label() for t in built], 'args': jobs} if self.i < 4 else None)

    def faulty(self, kind):
        """A project with one fault is refused; what depends on it is not made."""
        ck, p, r = self.ck, self.p, self.r
        blds = [f for f in p.files() if f.endswith(('bld.sub', 'bld.proj'))]
        built = [t for t in p.targs if p.built(t)]
        if not built:
            return
        t = r.choice(built)
        fs = [f for f in t.files if f.kind == 'myr']
        f = r.choice(fs)
        dead, edit = None, None
        files = None
        if kind == 'type error':
            f.broken, dead = True, t
        elif kind == 'missing source':
            g = r.choice([g for x in built for g in x.files if not g.gen] or [None])
            if g is None:
                return
            g.missing = True
            dead = next(x for x in built if g in x.files)
        elif kind == 'cycle':
            ls = [(a, b) for b in built if b.kind == 'lib' for a in b.libs()]
            if not ls:
                return
            a, b = r.choice(ls)
            files = p.files()
            n = os.path.join(a.dir, 'bld.sub') if a.dir else 'bld.proj'
            g = [q for q in b.files if q.kind == 'myr'][0]
            files[n] = re.sub(r'(lib %s [^;]*?)\n;;' % a.name, lambda m: m.group(1) + '\n\tlib @/%s:%s\n;;' % (b.dir, b.name), files[n])
            for q in a.files:
                if q.kind == 'myr' and not q.gen:
                    for tag in q.var:
                        k = os.path.join(a.dir, q.name(tag))
                        files[k] = 'use %s\n' % b.name + files[k]
        elif kind == 'local cycle':
            c = [(x, g) for x in built for g in x.files if g.uses]
            if not c:
                return
            x, g = r.choice(c)
            u = r.choice(g.uses)
            if u.gen:
                return
            files = p.files()
            for tag in u.var:
                k = os.path.join(x.dir, u.name(tag))
                files[k] = 'use "%s"\n' % g.base + files[k]
        elif kind == 'unknown library':
            files = p.files()
            n = os.path.join(t.dir, 'bld.sub') if t.dir else 'bld.proj'
            files[n] = re.sub(r'(%s %s [^;]*?)\n;;' % (t.kind, t.name), lambda m: m.group(1) + '\n\tlib @/%s:nosuch\n;;' % r.choice(p.dirs), files[n])
        elif kind == 'unknown use':
            if f.gen:
                return
            files = p.files()
            k = os.path.join(t.dir, f.name(p.choose(f)))
            files[k] = r.choice(['use nosuchlib\n', 'use "nosuchfile"\n']) + files[k]
        elif kind == 'no variant':
            if any(g.gen for g in t.files):
                return
            # a name without an applicable file is left out, so one is only missed by its users
            for g in t.files:
                if not g.gen:
                    g.var = {r.choice(['plan9', 'freebsd-x64', 'linux:99', 'nosuch', 'linux-osx']): 5}
        elif kind == 'tie':
            if f.gen:
                return
            f.var = dict.fromkeys(r.choice([('linux', 'posixy'), ('x64', 'linux'), ('linux-x64', 'posixy-x64'), ('linux', 'x64', 'posixy')]), 7)
            if r.random() < .5:
                f.var[''] = 3
        elif kind == 'failing gen':
            files = p.files()
            n = r.choice(blds)
            files[n] += 'gen made.txt = sh fails.sh ;;\n'
            files[os.path.join(os.path.dirname(n), 'fails.sh')] = r.choice(['exit 3\n', 'kill -9 $$\n'])
        elif kind == 'missing directory':
            files = p.files()
            files['bld.proj'] += 'sub = nosuchdir ;;\n'
        else:
            files = p.files()
            n = r.choice(blds)
            s = files[n]
            if kind == 'unknown keyword':
                s += 'bogus thing = x.myr ;;\n'
            elif kind == 'unterminated':
                s = s.rstrip().rstrip(';') + '\n'
                s = s if s.strip() != '# generated' else s + 'lib q = q.myr\n'
            elif kind == 'one semicolon':
                s = s.replace(';;', ';', 1) if ';;' in s else s + 'lib q = q.myr ;\n'
            elif kind == 'no equals':
                s = s.replace('=', ' ', 1) if re.search(r'^(lib|bin|sub) [^{=]*=', s.split('\n', 1)[1] if '\n' in s else '') else s + 'lib q q.myr ;;\n'
            elif kind == 'junk':
                s += r.choice(['}\n', '=\n', ';;\n', '{a}\n'])
            elif kind == 'bad attribute':
                s += 'lib q {%s} = q.myr ;;\n' % r.choice(['bogus', 'bogus=1', 'noinst=yes', 'durable'])
                files[os.path.join(os.path.dirname(n), 'q.myr')] = 'pkg q = ;;\n'
            elif kind == 'empty attributes':
                s += 'lib q {} = q.myr ;;\n'
                files[os.path.join(os.path.dirname(n), 'q.myr')] = 'pkg q = ;;\n'
            elif kind == 'no inputs':
                s += 'lib q = ;;\n'
            files[n] = s
        files = files or p.files()
        self.put(files)
        x = self.mbld(['-j', str(r.choice([1, 4]))] + p.args())
        what = 'fault: ' + kind
        if x.timed_out:
            return self.bad(what, 'mbld does not end\n' + x.text[-1500:], files)
        if x.rc == 0:
            return self.bad(what, 'accepted with status 0\n' + x.text[-2500:], files)
        if x.rc < 0 and -x.rc in (4, 6, 8, 11) :
            return self.bad(what, 'mbld dies of signal %d\n%s' % (-x.rc, x.text[-2500:]), files)
        if dead is not None:
            for u in built:
                tr = []
                self.closure(u, tr)
                o = os.path.join(self.dir, 'obj', u.dir, 'lib' + u.name + '.a' if u.kind == 'lib' else u.name)
                if dead in tr and os.path.exists(o):
                    return self.bad(what, '%s was made though it depends on the failure in %s\n%s' % (u.label(), dead.label(), x.text[-2500:]), files)
        ck.saw((self.i, kind))
        ck.count(what)

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.dir + '.dest', ignore_errors=True)


FAULTS = ['type error', 'missing source', 'cycle', 'local cycle', 'unknown library', 'unknown use', 'no variant', 'tie', 'failing gen',
          'missing directory', 'unknown keyword', 'unterminated', 'one semicolon', 'no equals', 'junk', 'bad attribute', 'no inputs']


def check(ck):
    rig = Rig(Tree('all'))
    r = ck.sub('proj')
    jobs = [(i, r.getrandbits(60), None) for i in range(ck.n(45, 700))]
    n = len(jobs)
    jobs += [(n + i, r.getrandbits(60), FAULTS[i % len(FAULTS)]) for i in range(ck.n(5, 60) * len(FAULTS))]

    def one(a):
        if ck.enough():
            return
        o = One(ck, rig, random.Random(a[1]), a[0])
        try:
            if a[2]:
                o.faulty(a[2])
            else:
                o.good()
        finally:
            o.done()
    pmap(one, jobs)
    ck.rule = 'exactly the commands of the wanted targets run, once each, after what they read; inputs, libraries, variants, programs, installed and cleaned files are those the build files say; projects with one fault are refused'
