"""C30: path functions."""
import itertools
from vf.core import *


def norm(p):
    ab = p.startswith(b'/')
    out = []
    for c in p.split(b'/'):
        if c in (b'', b'.'):
            continue
        if c == b'..':
            if out and out[-1] != b'..':
                out.pop()
            elif not ab:
                out.append(c)
        else:
            out.append(c)
    if ab:
        return b'/' + b'/'.join(out)
    return b'/'.join(out) or b'.'


def cut(p):
    while len(p) > 1 and p.endswith(b'/'):
        p = p[:-1]
    return p


def dirname(p):
    i = cut(p).rfind(b'/')
    return b'.' if i < 0 else b'/' if i == 0 else cut(p)[:i]


def basename(p):
    p = cut(p)
    return p[p.rfind(b'/') + 1:]


def join(l):
    while l and not l[0]:
        l = l[1:]
    return norm(b'/'.join(l))


class Paths:
    def __init__(self, cwd):
        self.cwd = os.path.realpath(cwd).encode()

    def one(self, p):
        n = norm(p)
        c = join([dirname(p), basename(p)])
        assert c == n, (p, c, n)
        ab = n if p.startswith(b'/') else norm(self.cwd + b'/' + p)
        return ('p ' + hx(p), ' '.join(map(hx, [n, n, dirname(p), basename(p), n, ab, p])))


def part(r):
    return b''.join(r.choice([b'a', b'b', b'.', b'..', b'/', b'/', b'foo', b'...', b'..a', b'a..', b'.a', b'\xff', b' ',
                              b'\xc3\xa9', b'../', b'./']) for _ in range(r.choice([0, 1, 2, 3, 5, 10, 30])))


def cases(r, n, cwd):
    P = Paths(cwd)
    for i in range(n):
        if r.random() < .5:
            yield P.one(part(r))
        else:
            l = [part(r) for _ in range(r.choice([0, 1, 2, 2, 3, 5]))]
            o = hx(join(l))
            yield (' '.join(['j', str(len(l))] + [hx(x) for x in l]), o + (' ' + o if len(l) == 2 else ''))


def streams(r, n):
    yield 'c30', (), [c for c, _ in cases(r, n, '/')]


def check(ck):
    d = Driver(ck, Tree('std'), 'c30')
    P = Paths(d.dir)
    n = 8 if ck.quick else 10
    d.check([P.one(bytes(x)) for k in range(n + 1) for x in itertools.product(b'/.a', repeat=k)])
    d.check(list(cases(ck.sub('c'), ck.n(12000, 300000), d.dir)))
    ck.extra['exhaustive'] = 'every path over {/ . a} up to %d bytes' % n
    ck.rule = 'normal form, idempotence, dirname, basename, their join and pathabs of each path; pathjoin of each list'


TECH = 'runtime monitoring: exhaustive short paths and generated longer ones against a lexical reference'
NOTE = 'bytes other than / and . are opaque'
