"""Thread scenarios: native and with schedule noise compiled in.

`Rig` builds drivers/<name>.myr twice: once against the libraries as built, and
once with lib/thread (and the parts of lib/std it is asked for) and the driver
itself reassembled through vf/as_jit.py, which puts a randomised delay before
every memory access and call, so that any two accesses can be separated by
another thread's.
"""
import os, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from vf.build import clean_env, scratch, sh, VERIF, BuildError, NCPU


class Rig:
    def __init__(self, ck, tree, name='thr', std=()):
        self.ck = ck
        self.hangs = 0
        self.tree = tree
        self.dir = tree.tmp()
        src = os.path.join(self.dir, name + '.myr')
        shutil.copy2(os.path.join(VERIF, 'drivers', name + '.myr'), src)
        jit = os.path.join(self.dir, 'jit.o')
        sh(['as', '-o', jit, os.path.join(VERIF, 'csrc', 'jit.s')], self.dir)
        p = tree.compile(src)
        if p.returncode:
            raise BuildError(p.stdout.decode('latin1')[-3000:])
        self.native = os.path.join(self.dir, name)
        p = tree.link(self.native, [src[:-4] + '.o', jit])
        if p.returncode:
            raise BuildError(p.stdout.decode('latin1')[-3000:])
        # the noisy build
        bind = os.path.join(self.dir, 'bin')
        os.makedirs(bind)
        w = os.path.join(bind, 'as')
        with open(w, 'w') as f:
            f.write('#!/bin/sh\nexec /usr/bin/python3 %s "$@"\n' % os.path.join(VERIF, 'vf', 'as_jit.py'))
        os.chmod(w, 0o755)
        self.env = lambda: clean_env({'PATH': bind + ':' + clean_env()['PATH']}, tmp=tree.tmp())
        objx = os.path.join(tree.root, 'objx')
        shutil.copytree(os.path.join(tree.root, 'obj'), objx)
        steps = []
        for line in open(os.path.join(tree.root, 'mk/bootstrap/bootstrap+Linux-x86_64.sh')):
            a = line.strip().replace('$pwd', tree.root).split()
            if not a:
                continue
            f = a[-1]
            if os.path.basename(a[0]) in ('6m', 'as') and (
                    f.startswith('lib/thread/') or f in std):
                a = [re.sub(r'^obj(/|$)', r'objx\1', x) if x.startswith('obj/') or a[i - 1] == '-O' else x
                     for i, x in enumerate(a)]
                steps.append(a)
        ars = []
        for line in open(os.path.join(tree.root, 'mk/bootstrap/bootstrap+Linux-x86_64.sh')):
            a = line.strip().split()
            if a and a[0] == 'ar' and (a[2].startswith('obj/lib/thread/') or (std and a[2].startswith('obj/lib/std/'))):
                ars.append([re.sub(r'^obj/', 'objx/', x) for x in a])

        def step(a):
            # compile in a private copy of the interface directory so that no
            # compilation reads an interface another one is rewriting
            p = subprocess.run(a, cwd=tree.root, env=self.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError('%s\n%s' % (a, p.stdout.decode('latin1')[-2000:]))
        for a in steps:
            if os.path.basename(a[0]) == '6m':
                # objects go to objx, interfaces are already there: identical
                i = a.index('-O')
                base = re.sub(r'\+[^/]*$', '', a[-1][:-4])
                a[i:i + 2] = ['-O', 'objx']
        with ThreadPoolExecutor(1) as ex:
            list(ex.map(step, steps))
        for a in ars:
            try:
                os.unlink(os.path.join(tree.root, a[2]))
            except OSError:
                pass
            step(a)
        nsrc = os.path.join(self.dir, 'n' + name + '.myr')
        shutil.copy2(src, nsrc)
        cmd = [tree.mc]
        for l in tree.LIBORDER:
            d = os.path.join(objx, 'lib', l)
            if os.path.isdir(d):
                cmd += ['-I', d]
        p = subprocess.run(cmd + ['-o', nsrc[:-4] + '.o', nsrc], cwd=self.dir, env=self.env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(p.stdout.decode('latin1')[-3000:])
        self.noisy = os.path.join(self.dir, 'n' + name)
        libs = []
        for l in tree.LIBORDER:
            a = os.path.join(objx, 'lib', l, 'lib%s.a' % l)
            if os.path.exists(a):
                libs.append(a)
        p = subprocess.run(['ld', '-o', self.noisy, tree.rt, nsrc[:-4] + '.o', jit, '--start-group'] + libs +
                           ['--end-group'], cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(p.stdout.decode('latin1')[-3000:])
        t = subprocess.run(['objdump', '-d', self.noisy], stdout=subprocess.PIPE).stdout
        n = t.count(b'<vf$jit>') - 1
        ck.count('delay points compiled in', n)
        if n < 200:
            raise BuildError('instrumentation inserted only %d delay points' % n)

    def activity(self, pid):
        """CPU time used so far, or None if some thread is running"""
        t = 0
        try:
            for i in os.listdir('/proc/%d/task' % pid):
                with open('/proc/%d/task/%s/stat' % (pid, i)) as f:
                    v = f.read().rsplit(')', 1)[1].split()
                if v[0] in 'RD':
                    return None
                t += int(v[11]) + int(v[12])
        except OSError:
            return None
        return t

    def run(self, noisy, args, timeout=60, cpus=None, pre=()):
        cmd = list(pre) + [self.noisy if noisy else self.native] + [str(a) for a in args]
        if cpus:
            cmd = ['taskset', '-c', cpus] + cmd
        p = subprocess.Popen(cmd, cwd=self.dir, env=clean_env(), stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        # a hang: no thread runs or gets time for 25 s, or no end within 'timeout' and, as the machine
        # may be busy, three times as long again
        end = time.time() + 4 * timeout
        last, since = None, time.time()
        while True:
            try:
                out, _ = p.communicate(timeout=1)
                rc = p.returncode
                break
            except subprocess.TimeoutExpired:
                now = self.activity(p.pid)
                if now is None or now != last:
                    last, since = now, time.time()
                if time.time() > end or time.time() - since > 25:
                    p.kill()
                    out, _ = p.communicate()
                    rc = 'hang'
                    break
        return rc, out.decode('latin1')

    def judge(self, jobs, what, workers=4):
        """jobs: (tag, noisy, args, cpus, extra oracle or None)"""
        ck = self.ck

        def one(j):
            tag, noisy, args, cpus, fn = j
            if self.hangs >= 3:
                ck.count('skipped after hangs')
                return
            t = time.time()
            rc, out = self.run(noisy, args, cpus=cpus)
            ck.saw((tag, noisy, cpus, tuple(args)))
            ck.count('runs of ' + tag)
            lines = out.split('\n')
            if rc == 'hang':
                self.hangs += 1
                msg = 'threads hang: no progress'
            elif rc != 0:
                msg = 'exit %s: %s' % (rc, out[-300:])
            elif any(l.startswith('FAIL') for l in lines):
                msg = next(l for l in lines if l.startswith('FAIL'))
                msg = re.sub(r'^FAIL \d+ ', '', msg)
            elif 'OK' not in lines:
                msg = 'no result: ' + out[-300:]
            else:
                msg = fn(lines) if fn else None
            if msg:
                ck.violation('%s: %s' % (tag, re.sub(r'\d+', '#', msg)[:80]),
                             '%s (%s build, args %s, cpus %s)' % (msg, 'delayed' if noisy else 'native', args, cpus),
                             {'args.txt': ' '.join(map(str, args)) + '\n', 'out.txt': out[-20000:]})
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, jobs))
