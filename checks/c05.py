"""C05: match against a first-match model over generated pattern matrices."""
from vf.core import *
from vf.pats import *
from vf.progs import Packer, Test

TECH = 'runtime monitoring: generated match statements are run on values derived from their own patterns and the executed arm and captures compared with a first-match model'
NOTE = 'scrutinees of up to 14 leaves, 2 to 9 arms; or-patterns, constants, strings and pointer patterns at any depth'


def matrix(w, t, n):
    """Useful, exhaustive rows of patterns (without captures)."""
    r = w.r
    rows = []
    for _ in range(n):
        p = w.pat(t, 5, r.choice([.1, .3, .5]))
        alts = p[1] if p[0] == 'or' else [p]
        keep = []
        for a in alts:
            if alluseful(t, rows + keep, a):
                keep.append(a)
        if len(keep) > 1:
            # each row of or alternatives counts as one arm
            rows.append(('or', keep))
        elif keep:
            rows.append(keep[0])
    if useful([t], [[x] for x in rows], [('_',)]):
        rows.append(('_',))
    return rows


def alluseful(t, rows, p):
    """every or-free alternative of p matches something no earlier row or alternative does"""
    done = [[x] for x in rows]
    for a in expand(p):
        if not useful([t], done, [a]):
            return False
        done.append([a])
    return True


def expand(p):
    """or-free alternatives, leftmost or first"""
    if p is None or p[0] in ('_', 'var', 'lit', 'const'):
        return [p]
    if p[0] == 'or':
        return [y for x in p[1] for y in expand(x)]
    if p[0] == 'ptr':
        return [('ptr', x) for x in expand(p[1])]
    if p[0] == 'con':
        return [('con', p[1], x) for x in expand(p[2])] if p[2] else [p]
    out = [[]]
    for s in p[1]:
        out = [o + [x] for o in out for x in expand(s)]
        if len(out) > 24:
            raise TooBig
    return [('rec', o) for o in out]


def gen(r, name):
    while True:
        w = PWorld(r, name)
        t = w.type(3, 14)
        try:
            rows = matrix(w, t, r.choice([1, 2, 3, 4, 6, 8]))
        except TooBig:
            continue
        if len(rows) >= 2 or r.random() < .05:
            break
    arms, text = [], []
    for i, p in enumerate(rows):
        p, caps = w.capor(t, p) if p[0] == 'or' and r.random() < .8 else w.capture(t, p)
        arms.append((p, caps))
        b = '\tdio.word("a%d")\n' % i
        cs = list(caps)
        if r.random() < .3:
            r.shuffle(cs)
        b += ''.join('\t%s(%s)\n' % (w.show(q), n) for n, q in cs)
        arms[-1] = (p, cs)
        text.append('| %s:\n%s' % (w.text(t, p, True), b))
    f = w.id('f')
    form = r.random()
    if form < .25:
        # inside a loop and behind a pointer, with the scrutinee overwritten by the arms
        body = 'var y, i\nfor i = 0; i < 2; i++\ny = x\nmatch y\n' + ''.join(text) + ';;\ndio.word(";")\n;;'
        rep = 2
    elif form < .4:
        body = 'match %s(x)\n' % w.ident(t) + ''.join(text) + ';;'
        rep = 1
    elif form < .5:
        body = 'var p = &x\nmatch p#\n' + ''.join(text) + ';;'
        rep = 1
    else:
        body = 'match x\n' + ''.join(text) + ';;'
        rep = 1
    w.decls.append('const %s = {x : %s -> void\n%s\n}' % (f, t.name, body))
    # loops over a pattern run their body for the elements it matches
    lp = None
    if r.random() < .3 and not t.has('ptr'):
        lp = r.choice(rows)
        lp, lcaps = (lp, []) if lp[0] == 'or' else w.capture(t, lp)
        if lp[0] == 'or':
            lp = None
    vals = []
    for p, _ in arms:
        for _ in range(2):
            vals.append(w.inst(t, p))
        vals.append(w.mutate(t, w.inst(t, p)))
    vals += [w.value(t) for _ in range(2)]
    uniq = []
    for v in vals:
        if repr(v) not in [repr(u) for u in uniq]:
            uniq.append(v)
    bd, ex = [], []
    hit = set()
    for v in uniq:
        bd += ['%s(%s)' % (f, w.lit(t, v)), 'dio.endl()']
        for i, (p, caps) in enumerate(arms):
            env = {}
            if match(t, p, v, env):
                hit.add(i)
                ws = ['a%d' % i] + [x for n, q in caps for x in w.words(q, env[n])]
                ex.append(' '.join((ws + [';']) * 2 if rep == 2 else ws))
                break
    if lp:
        g = w.id('g')
        w.decls.append('const %s = {x : %s[:] -> void\nfor %s : x\n\tdio.word("m")\n%s;;\n}' % (
            g, t.name, w.text(t, lp, True), ''.join('\t%s(%s)\n' % (w.show(q), n) for n, q in lcaps)))
        bd += ['%s([%s][:])' % (g, ', '.join(w.lit(t, v) for v in uniq)), 'dio.endl()']
        ws = []
        for v in uniq:
            env = {}
            if match(t, lp, v, env):
                ws += ['m'] + [x for n, q in lcaps for x in w.words(q, env[n])]
        ex.append(' '.join(ws))
    return Test(name, '\n'.join(w.decls), bd, ex, info=(len(uniq), len(hit), len(arms)))


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c05')
    r = ck.sub('gen')
    tests = [gen(r, 'g%d' % i) for i in range(ck.n(1000, 14000))]
    pk.check(tests, per=20)
    ck.count('scrutinee values', sum(t.info[0] for t in tests))
    ck.count('arms taken', sum(t.info[1] for t in tests))
    ck.count('arms generated', sum(t.info[2] for t in tests))
    ck.rule = 'the arm that runs is the first matching one, and every captured variable prints as the sub-value at its position'
