"""C33: processes started with generated vectors, environments and PATHs describe themselves; histories of the environment against a model."""
import os
import shutil
import subprocess
from vf.core import *
from vf.build import Tree

TECH = 'runtime monitoring: a probe program reports the vector, environment, streams, directory and executable it was really started with, compared with what was asked for; environment histories against a model, including malformed environments; wait results against the fate of the child'
NOTE = 'vectors up to 300 arguments and 100 kB; as an unprivileged user; closed standard descriptors only for spork'
NOBODY = 65534


def demote():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)


def word(r, big=False):
    k = r.random()
    if k < .15:
        return b''
    if k < .5:
        return r.choice([b'a', b'-x', b'--', b'a b', b'"q"', b"'", b'$X', b'\\', b'x=y', b'\xff\xfe', b'\xc3\xa9', b'*', b'\n', b'=', b'nl\n'])
    n = r.choice([1, 3, 15, 16, 17, 63, 64, 200] + ([4095, 4096, 30000] if big else []))
    return bytes(x or 1 for x in r.randbytes(n))


def vector(r):
    n = r.choice([0, 1, 2, 3, 7, 8, 9, 40, 300])
    return [word(r, n < 4) for _ in range(n)]


def environment(r):
    out = []
    for _ in range(r.choice([0, 1, 3, 10, 60])):
        k = r.random()
        if k < .1:
            out.append(r.choice([b'', b'=', b'=x', b'NOEQ', b'A', b'AB', b'==', b'A==b']))
        else:
            nm = r.choice([b'A', b'AB', b'ABC', b'B', b'HOME', b'V%d' % r.randrange(99), b'x.y', b'\xc3\xa9'])
            out.append(nm + b'=' + word(r))
    return out


class Probe:
    """The parsed report of a probe."""

    def __init__(self, b):
        self.ok = b.startswith(b'exe ') and b.rstrip().endswith(b'end')
        self.f = {}
        cur = None
        for t in b.decode('latin1').split():
            if t in ('exe', 'cwd', 'argv', 'env', 'in', 'end'):
                cur = self.f[t] = []
            elif cur is not None:
                cur.append(unhx(t))

    def diff(self, **want):
        if not self.ok:
            return 'the program did not report'
        for k, v in want.items():
            if self.f.get(k) != v:
                g = self.f.get(k)
                if g is None or len(g) != len(v):
                    return '%s: %s items instead of %d (%.200r)' % (k, g and len(g), len(v), g)
                i = [a == b for a, b in zip(g, v)].index(False)
                return '%s[%d] is %.200r instead of %.200r' % (k, i, g[i], v[i])


FATE = [('@exit 0', 'success'), ('@exit 1', 'failure'), ('@exit 255', 'failure'), ('@exit 77', 'failure'), ('@exit 128', 'failure'),
        ('@sig 9', 'signalled'), ('@sig 15', 'signalled'), ('@sig 6', 'signalled'), ('@sig 11', 'signalled'), ('@sig 1', 'signalled'), ('', 'success')]


def fate(r):
    s, st = r.choice(FATE)
    return [x.encode() for x in s.split()], st


def vx(v):
    return '%d %s' % (len(v), ' '.join(hx(x) for x in v)) if v else '0'


class World:
    """Directories of a PATH search: copies of the probe and things that only look like it."""

    def __init__(self, top, probe, r):
        self.top = top
        os.mkdir(top)
        os.chmod(top, 0o755)
        self.dirs = []
        self.good = {}
        names = ['tool', 'x', 'a.b', 'long' * 50]
        for i in range(6):
            d = os.path.join(top, 'p%d' % i + ('/' + 'deep' * 40 + '/' + 'er' * 100 if i == 5 else ''))
            os.makedirs(d)
            self.dirs.append(d)
            for n in names:
                k = r.random()
                p = os.path.join(d, n)
                if k < .3:
                    shutil.copy(probe, p)
                    os.chmod(p, 0o755)
                    self.good[p] = 1
                elif k < .4:
                    shutil.copy(probe, p)
                    os.chmod(p, 0o644)
                elif k < .5:
                    os.mkdir(p)
                elif k < .55:
                    with open(p, 'w') as f:
                        f.write('not a program')
                    os.chmod(p, 0o755)
                elif k < .6:
                    os.symlink('nowhere', p)
                elif k < .65:
                    os.symlink(probe, p)
                    self.good[p] = 1
        for dp, ds, fs in os.walk(top):
            os.chmod(dp, 0o755)
        self.names = names

    def path(self, r):
        ds = [r.choice(self.dirs) for _ in range(r.randint(0, 5))]
        ds += [os.path.join(self.top, 'missing')] * r.randint(0, 1) + [''] * r.choice([0, 0, 1, 2])
        if r.random() < .1:
            ds.append('/' + 'n' * 600)
        r.shuffle(ds)
        return ':'.join(ds)

    def find(self, path, cmd):
        for d in path.split(':'):
            if d and d + '/' + cmd in self.good:
                return os.path.realpath(d + '/' + cmd)


def start(ck, d, probe, argv, env, cmds, cwd, fds=0, timeout=60):
    """Runs the driver with an arbitrary vector and environment through the launcher."""
    spec = os.path.join(cwd, 'spec')
    with open(spec, 'w') as f:
        f.write('\n'.join(x.hex() for x in [d.exe.encode(), str(len(argv)).encode()] + argv + [str(len(env)).encode()] + env + [str(fds).encode()]) + '\n')
    os.chmod(spec, 0o644)
    res = run([probe, '@launch', spec], '\n'.join(cmds).encode() + b'\n', timeout=timeout, cwd=cwd, preexec=demote)
    if res.timed_out:
        ck.hang = ck.hang or ' '.join(cmds)[:500]
    return res


class EnvModel:
    def __init__(self, env):
        self.env = list(env)

    def get(self, n):
        for e in self.env:
            if e.startswith(n + b'='):
                return e[len(n) + 1:]

    def put(self, n, v):
        for i, e in enumerate(self.env):
            if e.startswith(n + b'='):
                self.env[i] = n + b'=' + v
                return
        self.env.append(n + b'=' + v)


def history(ck, d, probe, w, r, tag):
    cwd = os.path.join(scratch(), 'c33-' + tag)
    os.mkdir(cwd)
    os.chmod(cwd, 0o777)
    argv = [d.exe.encode()] + vector(r)
    env = environment(r)
    haspath = r.random() < .8
    if haspath:
        p = w.path(r)
        env.insert(r.randint(0, len(env)), b'PATH=' + p.encode())
    m = EnvModel(env)
    cmds, judges = [], []

    def add(c, j):
        cmds.append(c)
        judges.append(j)

    def eq(want):
        return lambda o: None if o == want else 'answered %.300s instead of %.300s' % (o, want)

    add('a', eq(' '.join(hx(x) for x in argv)))
    for _ in range(r.randint(5, 25)):
        k = r.random()
        nm = r.choice([b'A', b'AB', b'ABC', b'B', b'HOME', b'NOEQ', b'PATH', b'PAT', b'V%d' % r.randrange(20), b'NEW%d' % r.randrange(4), b'\xc3\xa9'])
        if k < .25:
            v = m.get(nm)
            add('g ' + hx(nm), eq('none' if v is None else 'some ' + hx(v)))
        elif k < .32:
            v = m.get(nm)
            dv = word(r)
            add('v %s %s' % (hx(nm), hx(dv)), eq(hx(dv if v is None else v)))
        elif k < .5:
            v = word(r)
            if nm == b'PATH':
                v = w.path(r).encode()
            m.put(nm, v)
            add('p %s %s' % (hx(nm), hx(v)), eq(''))
        elif k < .56:
            f = r.choice('xxkkaz')
            n = r.choice([0, 1, 2, 127, 255]) if f in 'xz' else r.choice([1, 2, 9, 11, 15, 6])
            st = ('success' if n == 0 else 'failure') if f in 'xz' else 'signalled'
            add('w %s %d' % (f, n), eq(st))
        elif k < .6:
            kids = [(r.choice('xxka'), r.choice([0, 0, 1, 9])) for _ in range(r.randint(0, 5))]
            kids = [(f, n or 9 if f == 'k' else n) for f, n in kids]

            def jw(o, kids=kids):
                t = o.split()
                if len(t) != 2 * len(kids) + 1 or t[-1] != 'error':
                    return 'answered %s for %d children' % (o, len(kids))
                got = {int(t[2 * i]): t[2 * i + 1] for i in range(len(kids))}
                for i, (f, n) in enumerate(kids):
                    st = ('success' if n == 0 else 'failure') if f == 'x' else 'signalled'
                    if got.get(i) != st:
                        return 'child %d (%s %d) is reported as %s' % (i, f, n, got.get(i))
            add('W %d %s' % (len(kids), ' '.join('%s %d' % x for x in kids)), jw)
        else:
            # starting something
            fx, st = fate(r)
            args = [word(r)] + vector(r) + fx
            now = list(m.env)
            path = m.get(b'PATH')
            kind = r.choice(['xv', 'xe', 'xp', 'xp', 'xq', 'xq', 'ss', 'ss', 'se', 'sd', 'sf', 'r'])
            base = r.choice(w.names)
            searched = kind in ('xp', 'xq', 'ss', 'se', 'sd', 'sf', 'r')
            if r.random() < .5 or not searched or path is None:
                q = os.path.join(r.choice(w.dirs), base)
                exe = os.path.realpath(q) if q in w.good else None
                if r.random() < .5:
                    g = r.choice(sorted(w.good))
                    q, exe = g, os.path.realpath(g)
            else:
                q = base
                exe = w.find(path.decode(), base)
            if kind[0] == 'x':
                given = environment(r) if kind in ('xe', 'xq') else []
                want = given if kind in ('xe', 'xq') else now
                if exe is None and path is not None and q == base and kind == 'xq':
                    pass

                def jx(o, exe=exe, args=args, want=want, st=st):
                    t = o.split()
                    b = unhx(t[0])
                    if exe is None:
                        return None if b.startswith(b'failed -') and t[1] == 'success' else 'started something: %.200r %s' % (b, t[1])
                    return Probe(b).diff(exe=[exe.encode()], argv=args, env=want) or (None if t[1] == st else 'ended with %s instead of %s' % (t[1], st))
                add('%s %s %s %s' % (kind, hx(q), vx(args), vx(given)), jx)
                ck.count('programs started' if exe else 'starts that have to fail')
            elif kind == 'r':
                if exe:
                    add('r ' + vx([q.encode()] + fx), lambda o, st=st: None if o.endswith(st) else 'ended with %s instead of %s' % (o[-30:], st))
                else:
                    add('r ' + vx([q.encode()] + fx), lambda o: None if o.endswith(('signalled', 'failure', 'error')) else 'a program that cannot start is reported as ' + o[-30:])
            else:
                dr = r.choice(w.dirs) if kind in ('sd', 'sf') else ''
                if kind in ('sd', 'sf') and r.random() < .2:
                    dr = ''
                inp = r.randbytes(r.choice([0, 1, 100, 4096, 50000, 200000]))
                full = [q.encode()] + vector(r) + [b'@in'] + ([b'@err'] if kind in ('se', 'sf') else []) + fx

                def js(o, exe=exe, full=full, dr=dr, inp=inp, now=now, st=st, kind=kind):
                    t = o.split()
                    b = unhx(t[0])
                    if exe is None:
                        return None if not b and t[1] in ('signalled', 'failure') else 'started something: %.200r %s' % (b, t[1])
                    x = Probe(b).diff(exe=[exe.encode()], argv=full, env=now, cwd=[os.path.realpath(dr or cwd).encode()], **{'in': [inp]})
                    if x:
                        return x
                    if t[1] != st:
                        return 'ended with %s instead of %s' % (t[1], st)
                    if kind in ('se', 'sf') and unhx(t[2]) != b'to-stderr':
                        return 'standard error carried %r' % unhx(t[2])
                add('%s %s %s %s' % (kind, vx(full), hx(dr), hx(inp)), js)
                ck.count('programs started' if exe else 'starts that have to fail')
    res = start(ck, d, probe, argv, env, cmds, cwd)
    lines = res.out.split(b'\n')
    # run() lets the program write to our output: only the end of such a line is ours
    lines = [l.decode('latin1').strip() for l in lines[:-1]]
    if len(lines) != len(cmds):
        i = min(len(lines), len(cmds) - 1)
        ck.violation('died', '%s after %d of %d commands, at %s\n%s\nenvironment %r' % (
            how(res), len(lines), len(cmds), cmds[i][:300], res.err.decode('latin1')[-300:], env[:20]), {'cmds.txt': '\n'.join(cmds), 'env.txt': repr(env)})
    for c, j, o in zip(cmds, judges, lines):
        ck.saw(tag + c[:2000], '%s -> %s' % (c[:100], o[:100]))
        ck.count('op ' + c.split()[0])
        try:
            x = j(o)
        except (ValueError, IndexError) as e:
            x = 'malformed answer %.200s (%s)' % (o, e)
        if x:
            ck.violation('%s: %s' % (c.split()[0], x.split(' ')[0]), '%s\n%s\nPATH %s' % (c[:500], x, m.get(b'PATH')), {'cmds.txt': '\n'.join(cmds), 'env.txt': repr(env)})
    shutil.rmtree(cwd, ignore_errors=True)


def closed(ck, d, probe, fds, tag):
    """spork from a process whose standard descriptors are closed: the child still gets its two pipes"""
    cwd = os.path.join(scratch(), 'c33c-' + tag)
    os.mkdir(cwd)
    os.chmod(cwd, 0o777)
    outf = os.path.join(cwd, 'res')
    # the commands have to come from somewhere: descriptor 0 stays open in this variant, is closed by a shell-less launcher otherwise
    full = [probe.encode(), b'x', b'@in']
    start(ck, d, probe, [d.exe.encode()], [b'K=v'], ['m %s %s %s' % (hx(outf), vx(full), hx(b'some input'))], cwd, fds, timeout=20)
    ck.saw('closed %d' % fds, 'spork with closed descriptors %d' % fds)
    ck.count('spork with closed standard descriptors')
    x = None
    if os.path.exists(outf + '.child'):
        x = 'spork returned in the child'
    elif not os.path.exists(outf):
        x = 'no result'
    else:
        with open(outf, 'rb') as f:
            x = Probe(f.read()).diff(argv=full, env=[b'K=v'], **{'in': [b'some input']})
    if x:
        ck.violation('spork with closed descriptors', 'closed mask %d: %s' % (fds, x))
    shutil.rmtree(cwd, ignore_errors=True)


def check(ck):
    tree = Tree('all')
    probe = os.path.join(scratch(), 'probe')
    p = subprocess.run(['gcc', '-O1', '-static', '-w', '-o', probe, os.path.join(VERIF, 'csrc/probe.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError('probe.c: ' + p.stdout.decode()[-500:])
    d = Driver(ck, tree, 'c33')
    for q in (scratch(), d.dir, d.exe, probe):
        os.chmod(q, 0o755)
    n = ck.n(120, 3000)
    ws = [World(os.path.join(scratch(), 'w33-%d' % i), probe, ck.sub('w%d' % i)) for i in range(4)]
    pmap(lambda i: history(ck, d, probe, ws[i % 4], ck.sub('h%d' % i), str(i)), range(n))
    # standard input carries the commands, so only the other two can be closed
    for fds in (2, 4):
        closed(ck, d, probe, fds, str(fds))
    ck.rule = ('the probe reports exactly the vector, environment, input, directory and program asked for, in every way of starting it; '
               'getenv and the inherited environment follow every setenv; wait and waitany name the fate each child really had')
