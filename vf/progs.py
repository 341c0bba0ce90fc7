"""Packs generated Myrddin test functions into programs, runs them, compares their traces."""
import os, re, shutil
from .core import run, how, scratch, pmap, BuildError, VERIF, NCPU, Inconclusive


class Test:
    """decls: top-level text; body: list of statement lines; expect: list of output lines."""
    __slots__ = ('name', 'decls', 'body', 'expect', 'key', 'info')

    def __init__(self, name, decls, body, expect, key=None, info=None):
        self.name, self.decls, self.body, self.expect, self.key, self.info = name, decls, body, expect, key, info

    def text(self):
        b = '\n'.join('\t' + l for l in self.body)
        return '%s\nconst t_%s = {\n%s\n}\n' % (self.decls, self.name, b)


class Packer:
    def __init__(self, ck, tree, name='p', uses=(), flags=()):
        self.ck, self.tree, self.name, self.uses, self.flags = ck, tree, name, uses, flags
        self.dir = os.path.join(scratch(), 'progs-' + name)
        os.makedirs(self.dir, exist_ok=True)
        self.n = 0
        for f in ('dio.myr',):
            shutil.copy(os.path.join(VERIF, 'drivers', f), self.dir)
        p = tree.compile(os.path.join(self.dir, 'dio.myr'), cwd=self.dir)
        if p.returncode != 0:
            ck.violation('dio.myr', 'the output helper does not compile: ' + p.stdout.decode('latin1')[-1500:])
            raise Inconclusive('helper does not compile')

    def source(self, tests):
        s = 'use std\nuse sys\nuse "dio"\n' + ''.join('use %s\n' % u for u in self.uses)
        s += '\n'.join(t.text() for t in tests)
        s += '\nconst main = {\n'
        for t in tests:
            s += '\tdio.word("@%s")\n\tdio.endl()\n\tt_%s()\n' % (t.name, t.name)
        return s + '}\n'

    def build(self, tests, tag):
        d = os.path.join(self.dir, tag)
        os.makedirs(d, exist_ok=True)
        src = os.path.join(d, 'm.myr')
        with open(src, 'w') as f:
            f.write(self.source(tests))
        shutil.copy(os.path.join(self.dir, 'dio.use'), d)
        p = self.tree.compile(src, cwd=d, flags=self.flags)
        if p.returncode != 0:
            return None, '6m: exit %d\n%s' % (p.returncode, p.stdout.decode('latin1')[-1500:])
        exe = os.path.join(d, 'm')
        q = self.tree.link(exe, [src[:-4] + '.o', os.path.join(self.dir, 'dio.o')])
        if q.returncode != 0:
            return None, 'ld: ' + q.stdout.decode('latin1')[-1500:]
        return exe, None

    def run_pack(self, tests, tag, timeout=20):
        """Returns {test name: problem text}."""
        try:
            exe, err = self.build(tests, tag)
        except Exception as e:
            exe, err = None, 'compiler did not end: %s' % e
        if exe is None:
            if len(tests) == 1:
                return {tests[0].name: 'valid program rejected: ' + err}
            bad = {}
            h = max(1, len(tests) // 4)
            for i in range(0, len(tests), h):
                bad.update(self.run_pack(tests[i:i + h], '%s_%d' % (tag, i)))
                if len(bad) > 3:
                    break
            if not bad:
                bad[tests[0].name] = 'only the pack of %d tests is rejected: %s' % (len(tests), err)
            return bad
        r = run([exe], timeout=timeout)
        blocks, cur = {}, None
        lines = [l.rstrip(' ') for l in r.out.decode('latin1').split('\n')]
        if lines and lines[-1] == '':
            lines.pop()
        for l in lines:
            if l.startswith('@'):
                cur = l[1:]
                blocks[cur] = []
            elif cur is not None:
                blocks[cur].append(l)
        bad = {}
        died = r.rc != 0 or r.timed_out
        rest = []
        for i, t in enumerate(tests):
            got = blocks.get(t.name)
            if got is None:
                rest = tests[i:]
                break
            if got != t.expect:
                k = next((j for j in range(max(len(got), len(t.expect)))
                          if j >= len(got) or j >= len(t.expect) or got[j] != t.expect[j]), 0)
                g = got[k] if k < len(got) else '(end: %s)' % how(r)
                e = t.expect[k] if k < len(t.expect) else '(end)'
                bad[t.name] = 'output line %d: got "%s", expected "%s"' % (k + 1, g[:300], e[:300])
        if died and not bad:
            bad[tests[-1].name] = 'program %s %s' % (how(r), r.err[-300:])
        if rest and rest[0] is not tests[0] and len(bad) < 3:
            bad.update(self.run_pack(rest, tag + 'r'))
        elif rest and rest[0] is tests[0]:
            bad.setdefault(rest[0].name, 'program %s before the first test' % how(r))
        shutil.rmtree(os.path.join(self.dir, tag), ignore_errors=True)
        return bad

    def check(self, tests, per=40, sigf=None):
        packs = [tests[i:i + per] for i in range(0, len(tests), per)]
        base = self.n
        self.n += len(packs)
        res = pmap(lambda a: self.run_pack(a[1], 'k%d' % (base + a[0])), list(enumerate(packs)))
        for pk, bad in zip(packs, res):
            for t in pk:
                self.ck.saw(t.key or t.text(), sample={'test': '\n'.join(t.body)[:500], 'trace': t.expect[:6]}
                            if self.ck.rng.random() < 0.01 else None)
                if t.name in bad:
                    sig = sigf(t, bad[t.name]) if sigf else '%s test %s seed %d' % (self.name, t.name, self.ck.seed)
                    self.ck.violation(sig, bad[t.name] + '\n' + t.text()[:6000],
                                      {'test.myr': self.source([t]), 'expected.txt': '\n'.join(t.expect) + '\n'})
