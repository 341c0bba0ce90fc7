"""C41: INI files against a line-by-line model and a map of triples, over operation histories."""
import re
from vf.core import *


def load(t):
    """Returns (sections in order, {(sect, key): value}) or an error string."""
    sects, m, cur = [], {}, ''
    lines = re.split('\r\n|\r|\n', t)
    for n, l in enumerate(lines, 1):
        l = l.split(';')[0].split('#')[0].strip(' \t')
        if not l:
            continue
        if l[0] == '[':
            if l.find(']') != len(l) - 1:
                return 'P %d' % n
            cur = l[1:-1].strip(' \t')
            if cur not in sects:
                sects.append(cur)
            continue
        if '=' not in l:
            return 'P %d' % n
        k, v = l.split('=', 1)
        k = k.strip(' \t')
        if (cur, k) in m:
            return 'D %d' % n
        m[cur, k] = v.strip(' \t')
    return sects, m


W = ['a', 'b', 'ab', 'key', 'x y', 'é', '日本', 'k.1', '0', 'long name ' * 6 + 'z', '"q"', "it's", 'A', 'B-b', '\x01', '[x', 'a]b', 'p=q', 'x:y', '$', '!!']


def word(r, ban=''):
    while True:
        w = r.choice(W) if r.random() < .8 else ''.join(r.choice('abc') for _ in range(r.randrange(1, 4)))
        if not set(w) & set(ban):
            return w


def line(r, st):
    k = r.random()
    sp = lambda: r.choice(['', '', ' ', '\t', '  \t'])
    cm = lambda: r.choice(['', '', '', '; note', '# note', ';', '#', ' ; a # b', '#;[x]', '; k = v'])
    if k < .12:
        return sp() + cm()
    if k < .35:
        return sp() + '[' + sp() + word(r, ']' if r.random() < .97 else '') + sp() + ']' + sp() + cm()
    if k < .96:
        key = word(r, '[=') if r.random() < .95 else r.choice(['', 'a[', 'p'])
        return sp() + key + sp() + '=' + sp() + (word(r) if r.random() < .9 else '') + sp() + cm()
    return r.choice(['junk', '[open', '[a] b', '[a]]', '[]', '=', '= v', 'k =', ']', '[', '[ ]', '[a', 'word ; = x', '#', '[x]=3'])


def case(r):
    bad = r.random() < .3
    while True:
        seen = set()
        lines = [line(r, seen) for _ in range(r.choice([0, 1, 3, 8, 20, 60]))]
        nl = r.choice(['\n', '\n', '\r\n', '\r'])
        t = nl.join(lines) + r.choice(['', nl])
        if r.random() < .03:
            t = ('; ' + 'x' * 70 + nl) * r.choice([50, 500]) + t
        s = load(t)
        if isinstance(s, str) and not bad:
            # drop the offending lines
            while isinstance(s, str):
                n = int(s.split()[1])
                ls = re.split('\r\n|\r|\n', t)
                del ls[n - 1]
                t = nl.join(ls)
                s = load(t)
        break
    cmd = ['i', hx(t), str(r.randrange(2))]
    if isinstance(s, str):
        return ' '.join(cmd), s
    sects, m = s
    want = []
    for _ in range(r.choice([2, 6, 20, 60])):
        k = r.choice('gggvhhpppppPSKKWwx')
        if m and r.random() < .6:
            a, b = r.choice(sorted(m))
            if r.random() < .1:
                a, b = b, a
            elif r.random() < .1:
                b = a
        else:
            a = r.choice(sects + ['', word(r, ']')]) if r.random() < .7 else word(r, ']')
            b = a if r.random() < .15 and not set(a) & set('[=') else word(r, '[=')
        if set(a) & set(']') or set(b) & set('[='):
            continue
        v = word(r)
        if k in 'gvh':
            cmd += [k, hx(a), hx(b)]
            if k == 'g':
                want.append(hx(m[a, b]) if (a, b) in m else 'N')
            elif k == 'v':
                cmd.append(hx(v))
                want.append(hx(m.get((a, b), v)))
            else:
                want.append('01'[(a, b) in m])
        elif k == 'p':
            cmd += [k, hx(a), hx(b), hx(v)]
            if a and a not in sects and (a, b) not in m:
                sects.append(a)
            m[a, b] = v
        elif k == 'P':
            cmd += [k, hx(a), hx(b)]
        elif k == 'S':
            cmd.append(k)
            want.append(('S', sorted(hx(x) for x in sects if x)))
        elif k == 'K':
            cmd.append(k)
            want.append(('K', sorted((hx(x), hx(y), hx(z)) for (x, y), z in m.items())))
        elif k in 'Ww':
            cmd.append(k)
            want.append('1')
            sects = sorted({x for x, _ in m if x})
        else:
            cmd.append(k)
            want.append('0' if m else '1')
    cmd += ['S', 'K']
    want += [('S', sorted(hx(x) for x in sects if x)), ('K', sorted((hx(x), hx(y), hx(z)) for (x, y), z in m.items()))]

    def f(out):
        p = out.split()
        i = 0
        for n, w in enumerate(want):
            if isinstance(w, tuple):
                if p[i] != '{':
                    return 'observation %d: %s' % (n, p[i])
                j = p.index('}', i)
                x = p[i + 1:j]
                if w[0] == 'S':
                    # the section without a name may or may not be listed
                    x = [y for y in x if y != '-']
                else:
                    x = list(zip(x[::3], x[1::3], x[2::3]))
                if sorted(x) != w[1]:
                    return 'observation %d: iterating %s gives %s, expected %s' % (n, w[0], sorted(x)[:20], w[1][:20])
                i = j
            elif p[i] != w:
                return 'observation %d: %s, expected %s' % (n, p[i], w)
            i += 1
        if i != len(p):
            return 'extra answers'
    return ' '.join(cmd), f


def cases(r, n):
    for _ in range(n):
        yield case(r)


def streams(r, n):
    yield 'c41', (), [c for c, _ in cases(r, n)]


def check(ck):
    d = Driver(ck, Tree('all'), 'c41')
    d.check(list(cases(ck.sub('c'), ck.n(8000, 150000))))
    d.check([('n 3000', '1 F')])
    ck.rule = ('generated INI texts (comments, blanks, all line ends, malformed lines, duplicates) and histories of get/getv/has/put/iterators/'
               'write/writef+load on them against a map; writes to a full device; 3000 loads in one process')


TECH = 'runtime monitoring: model-based oracle over generated texts and operation histories; write faults injected'
NOTE = ('values put contain no comment character, line end or outer blanks (the format cannot express them); blanks are spaces and tabs; whether '
        'bysection lists the nameless section, and sections without keys after writing, are not judged')
