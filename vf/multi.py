"""Programs of several files and packages, built with 6m, muse, ar and ld."""
import os, subprocess
from .build import clean_env, pmap


class Failed(Exception):
    def __init__(self, step, text):
        Exception.__init__(self, '%s: %s' % (step, text[:400]))
        self.step, self.text = step, text


class Proj:
    """files: {relative path: text}; packages are directories lib/NAME."""

    def __init__(self, tree, dir=None):
        self.tree = tree
        self.dir = dir or tree.tmp()
        self.libs = []      # in dependency order
        self.objs = []

    def run(self, cmd, step):
        p = subprocess.run(cmd, cwd=self.dir, env=clean_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, timeout=60)
        if p.returncode:
            raise Failed(step, 'exit %d: %s' % (p.returncode, p.stdout.decode('latin1')))
        return p

    def write(self, path, text):
        f = os.path.join(self.dir, path)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, 'w') as h:
            h.write(text)

    def inc(self):
        out = []
        for l in sorted(os.listdir(os.path.join(self.tree.root, 'obj/lib'))):
            out += ['-I', os.path.join(self.tree.root, 'obj/lib', l)]
        for l in self.libs:
            out += ['-I', 'lib/' + l]
        return out

    def cc(self, path):
        """compiles one file; its .use and .o come out beside it"""
        self.run([self.tree.mc] + self.inc() + ['-o', path[:-4] + '.o', path], '6m ' + path)
        return path[:-4]

    def package(self, name, files, extlibs=()):
        """files: paths without suffix, in the order muse gets them"""
        self.run([self.tree.muse, '-o', 'lib/%s/lib%s.use' % (name, name), '-p', name] + [f + '.use' for f in files], 'muse ' + name)
        self.run(['ar', '-rcs', 'lib/%s/lib%s.a' % (name, name)] + [f + '.o' for f in files], 'ar ' + name)
        self.libs.append(name)

    def link(self, exe, objs):
        r = self.tree.root
        a = ['lib/%s/lib%s.a' % (l, l) for l in self.libs]
        a += [os.path.join(r, 'obj/lib', l, 'lib%s.a' % l) for l in sorted(os.listdir(os.path.join(r, 'obj/lib')))
              if os.path.exists(os.path.join(r, 'obj/lib', l, 'lib%s.a' % l))]
        self.run(['ld', '-o', exe, self.tree.rt] + [o + '.o' for o in objs] + ['--start-group'] + a + ['--end-group'], 'ld')

    def exec(self, exe, timeout=20, args=()):
        p = subprocess.run([os.path.join(self.dir, exe)] + list(args), cwd=self.dir, env=clean_env(), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode('latin1'), p.stderr.decode('latin1')
