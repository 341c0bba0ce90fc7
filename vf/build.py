"""Builds scratch copies of /repo's current working tree.

Nothing is ever built inside /repo: the tracked and untracked-but-not-ignored
files are copied to a scratch directory and the repository's own build system
(configure, make, its bootstrap script, mbld) is run there.
"""
import os, re, shutil, subprocess, sys, tempfile, threading, time, atexit, signal
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = min(8, os.cpu_count() or 1)

_scratch = None


class BuildError(Exception):
    pass


def scratch():
    """The scratch directory of this run, removed at exit."""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) and not os.environ.get('VF_DISK') else '/tmp'
        _scratch = tempfile.mkdtemp(prefix='vf.', dir=base)
        os.chmod(_scratch, 0o755)
        pid = os.getpid()
        d = _scratch

        def rm():
            if os.getpid() == pid and not os.environ.get('VF_KEEP'):
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(rm)

        def onterm(sig, frm):
            sys.exit(3)
        signal.signal(signal.SIGTERM, onterm)
    return _scratch


def clean_env(extra=None, tmp=None):
    env = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
           'HOME': scratch(), 'LC_ALL': 'C.UTF-8'}
    if tmp:
        env['TMPDIR'] = tmp
    if extra:
        env.update(extra)
    return env


def sh(cmd, cwd, env=None, timeout=600, check=True):
    p = subprocess.run(cmd, cwd=cwd, env=env or clean_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout,
                       shell=isinstance(cmd, str))
    if check and p.returncode != 0:
        raise BuildError('%s: exit %s\n%s' % (cmd, p.returncode, p.stdout.decode('latin1')[-3000:]))
    return p


def repo_files():
    try:
        out = subprocess.run(['git', '-c', 'safe.directory=*', '-c', 'core.quotepath=off', '-C', REPO,
                              'ls-files', '-co', '--exclude-standard', '-z'],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
        fs = sorted(set(f.decode() for f in out.split(b'\0') if f))
    except Exception:
        fs = []
        for d, sub, names in os.walk(REPO):
            sub[:] = [s for s in sub if not (d == REPO and s in ('.git', 'obj', '.vp-state'))]
            fs += [os.path.relpath(os.path.join(d, n), REPO) for n in names]
    return fs


def copy_repo(dst):
    made = set()
    for f in repo_files():
        s = os.path.join(REPO, f)
        if not os.path.isfile(s) and not os.path.islink(s):
            continue
        t = os.path.join(dst, f)
        d = os.path.dirname(t)
        if d not in made:
            os.makedirs(d, exist_ok=True)
            made.add(d)
        shutil.copy2(s, t, follow_symlinks=False)


class Tree:
    """A scratch copy of the repository.

    level 'c'   : 6m, muse, runtime objects
    level 'std' : + the libraries of the bootstrap script (sys std bio regex thread) and mbld
    level 'all' : + everything mbld builds
    """

    def __init__(self, level='all', name='tree', cflags=None, ldflags=None, cc=None, patch=None):
        self.root = os.path.join(scratch(), name)
        self.n = 0
        self.lock = threading.Lock()
        self.tmpbase = os.path.join(scratch(), 'tmp-' + name)
        os.makedirs(self.tmpbase)
        os.makedirs(self.root)
        copy_repo(self.root)
        if patch:
            patch(self)
        t0 = time.time()
        self._build_c(cflags, ldflags, cc)
        if level in ('std', 'all'):
            self._bootstrap()
        if level == 'all':
            self._mbld_all()
        self.build_s = time.time() - t0

    def tmp(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.tmpbase, str(self.n))
        os.makedirs(d)
        return d

    @property
    def mc(self):
        return os.path.join(self.root, '6/6m')

    @property
    def muse(self):
        return os.path.join(self.root, 'muse/muse')

    @property
    def rt(self):
        return os.path.join(self.root, 'rt/_myrrt.o')

    @property
    def mbld(self):
        return os.path.join(self.root, 'obj/mbld/mbld')

    def _build_c(self, cflags, ldflags, cc):
        sh(['./configure', '--prefix=/usr/local'], self.root)
        if cflags or cc:
            p = os.path.join(self.root, 'config.mk')
            with open(p, 'a') as f:
                if cflags:
                    f.write('\nCFLAGS += %s\n' % cflags)
                    f.write('LDFLAGS += %s\n' % (ldflags or cflags))
                if cc:
                    f.write('CC = %s\n' % cc)
        sh(['make', '-j%d' % NCPU, 'subdirs'], self.root,
           env=clean_env({'ASAN_OPTIONS': 'detect_leaks=0'}))

    def _bootstrap(self):
        script = os.path.join(self.root, 'mk/bootstrap/bootstrap+Linux-x86_64.sh')
        try:
            self._bootstrap_par(script)
        except Exception as e:
            if os.environ.get('VF_DEBUG'):
                print('parallel bootstrap failed:', e, file=sys.stderr)
            shutil.rmtree(os.path.join(self.root, 'obj'), ignore_errors=True)
            # the script itself does not stop at errors
            sh(['sh', '-e', script], self.root, env=clean_env(tmp=self.tmp()), timeout=900)
        if not os.path.exists(self.mbld):
            raise BuildError('bootstrap did not produce mbld')

    def _bootstrap_par(self, script):
        steps = []
        for line in open(script):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('set ') or line.startswith('pwd='):
                continue
            args = line.replace('$pwd', self.root).split()
            if args[0] == 'true':
                continue
            if args[0] == 'mkdir':
                os.makedirs(os.path.join(self.root, args[-1]), exist_ok=True)
                continue
            if re.search(r'[;&|<>`$"\'\\]', line.replace('$pwd', '')):
                raise BuildError('unexpected shell syntax in bootstrap script: ' + line)
            steps.append(args)
        produces = {}
        info = []
        for i, a in enumerate(steps):
            tool = os.path.basename(a[0])
            outs, needs = [], []
            if tool == '6m':
                src = a[-1]
                base = re.sub(r'\+[^/]*$', '', src[:-4])
                outs = ['obj/%s.use' % base, 'obj/%s.o' % base]
                d = os.path.dirname(src)
                for l in open(os.path.join(self.root, src), errors='replace'):
                    m = re.match(r'\s*use\s+(.*)', l)
                    if m:
                        for u in re.findall(r'"[^"]*"|[A-Za-z_0-9./]+', m.group(1).split('/*')[0].split('//')[0]):
                            if u.startswith('"'):
                                u = re.sub(r'\.use$', '', u.strip('"'))
                                needs.append(os.path.normpath('obj/%s/%s.use' % (d, u)))
                            else:
                                needs.append('obj/lib/%s/lib%s.use' % (u, u))
            elif tool == 'as':
                outs = [a[a.index('-o') + 1]]
            elif tool == 'ar':
                outs = [a[2]]
                needs = a[3:]
            elif tool in ('muse', 'ld'):
                o = a[a.index('-o') + 1]
                outs = [o]
                needs = [x for x in a[1:] if x.endswith(('.use', '.o')) and x != o]
                if tool == 'ld':
                    needs += [s[2] for s in steps if os.path.basename(s[0]) == 'ar']
            else:
                raise BuildError('unexpected tool in bootstrap script: ' + a[0])
            for o in outs:
                produces[os.path.normpath(o)] = i
            info.append(needs)
        deps = []
        for i, needs in enumerate(info):
            deps.append({produces[n] for n in needs if n in produces and produces[n] != i})
        # a 6m step must also come after everything its dependencies re-export,
        # which the transitive order gives.
        done, running, failed = set(), set(), []
        cond = threading.Condition()
        order = list(range(len(steps)))
        # critical path first
        rev = [[] for _ in steps]
        for i, d in enumerate(deps):
            for j in d:
                rev[j].append(i)
        height = {}

        def h(i, stack=()):
            if i in height:
                return height[i]
            if i in stack:
                raise BuildError('cycle in bootstrap steps')
            height[i] = 1 + max([h(j, stack + (i,)) for j in rev[i]] or [0])
            return height[i]
        for i in order:
            h(i)
        order.sort(key=lambda i: -height[i])

        def work():
            while True:
                with cond:
                    while True:
                        if failed or len(done) + len(running) == len(steps):
                            return
                        pick = next((i for i in order if i not in done and i not in running and deps[i] <= done), None)
                        if pick is not None:
                            running.add(pick)
                            break
                        if not running:
                            failed.append('deadlock')
                            cond.notify_all()
                            return
                        cond.wait()
                try:
                    p = subprocess.run(steps[pick], cwd=self.root, env=clean_env(tmp=self.tmp()),
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                       stdin=subprocess.DEVNULL, timeout=300)
                    rc, out = p.returncode, p.stdout
                except Exception as e:
                    rc, out = -1, str(e).encode()
                with cond:
                    running.discard(pick)
                    done.add(pick)
                    if rc != 0:
                        failed.append((steps[pick], out))
                    cond.notify_all()
        ts = [threading.Thread(target=work) for _ in range(NCPU)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if failed:
            raise BuildError(str(failed[0]))

    def _mbld_all(self):
        x = os.path.join(self.root, 'xmbld')
        shutil.copy2(self.mbld, x)
        p = sh(['./mbldwrap.sh'], self.root, env=clean_env({'MBLD': './xmbld'}, tmp=self.tmp()), check=False)
        if p.returncode != 0:
            raise BuildError('mbld failed:\n' + p.stdout.decode('latin1')[-3000:])

    # ---- compiling programs -------------------------------------------------
    LIBORDER = ['testr', 'json', 'inifile', 'http', 'flate', 'fileutil', 'escfmt', 'crypto', 'date', 'iter',
                'math', 'regex', 'bio', 'thread', 'std', 'sys']

    def incdirs(self, libs=None):
        r = []
        for l in (libs or self.LIBORDER):
            d = os.path.join(self.root, 'obj/lib', l)
            if os.path.isdir(d):
                r += ['-I', d]
        return r

    def compile(self, src, obj=None, flags=(), timeout=60, cwd=None, prefix=()):
        """Runs 6m on one file; returns the CompletedProcess (stdout+stderr merged)."""
        obj = obj or re.sub(r'\.myr$', '.o', src)
        cmd = list(prefix) + [self.mc] + list(flags) + self.incdirs() + ['-o', obj, src]
        return subprocess.run(cmd, cwd=cwd or os.path.dirname(obj), env=clean_env(tmp=self.tmp()),
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                              timeout=timeout)

    def link(self, exe, objs, timeout=60, extra=()):
        cmd = ['ld', '-o', exe, self.rt] + list(objs) + list(extra) + ['--start-group']
        for l in self.LIBORDER:
            a = os.path.join(self.root, 'obj/lib', l, 'lib%s.a' % l)
            if os.path.exists(a):
                cmd.append(a)
        cmd.append('--end-group')
        return subprocess.run(cmd, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              stdin=subprocess.DEVNULL, timeout=timeout)

    def program(self, src, exe=None, flags=()):
        """Compiles and links one Myrddin source; raises BuildError when it fails."""
        exe = exe or re.sub(r'\.myr$', '', src)
        obj = exe + '.o'
        p = self.compile(src, obj, flags)
        if p.returncode != 0:
            raise BuildError('6m %s: exit %d\n%s' % (src, p.returncode, p.stdout.decode('latin1')[-3000:]))
        p = self.link(exe, [obj])
        if p.returncode != 0:
            raise BuildError('ld %s: exit %d\n%s' % (src, p.returncode, p.stdout.decode('latin1')[-3000:]))
        return exe


def pmap(fn, items, n=None):
    with ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))
