"""Runs mbld on scratch projects against the libraries of a tree."""
import os, subprocess
from vf.build import clean_env
from vf.core import run


class Run:
    def __init__(self, r):
        self.rc, self.out, self.err, self.timed_out = r.rc, r.out, r.err, r.timed_out
        self.text = (r.out + r.err).decode('latin1')


class Mb:
    def __init__(self, tree):
        self.tree = tree
        self.inc = tree.incdirs()

    def env(self, extra=None):
        e = {'MYR_MC': self.tree.mc, 'MYR_MUSE': self.tree.muse, 'MYR_RT': self.tree.rt}
        e.update(extra or {})
        return clean_env(e, tmp=self.tree.tmp())

    def run(self, cwd, args=(), timeout=60, env=None, inc=True, mbld=None):
        cmd = [mbld or self.tree.mbld] + (self.inc if inc else []) + list(args)
        return Run(run(cmd, timeout=timeout, cwd=cwd, env=self.env(env)))


def write(d, files):
    for f, t in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding='utf-8') as fh:
            fh.write(t)
