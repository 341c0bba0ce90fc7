"""C06: exhaustiveness verdicts of the compiler against the usefulness algorithm."""
from vf.core import *
from vf.pats import *
from vf.progs import Packer, Test
from checks.c05 import matrix, gen
import os

TECH = 'runtime monitoring: the compiler is run on generated pattern matrices and its verdict, exit status and output files are compared with an independent usefulness decision; for a rejected matrix the oracle has an uncovered value'
NOTE = 'scrutinees of up to 12 leaves, up to 8 arms; accepted matrices are also executed (the C05 generator)'


def holed(r, name):
    """a match that misses some value: (source, witness)"""
    while True:
        w = PWorld(r, name)
        t = w.type(r.choice([1, 2, 3, 3]), 12)
        try:
            rows = matrix(w, t, r.choice([1, 2, 3, 5, 7]))
            full = list(rows)
            if r.random() < .5 and len(rows) > 1:
                # drop the last rows until something is missed
                while rows and not useful([t], [[x] for x in rows], [('_',)]):
                    rows.pop()
            elif len(rows) > 1:
                # drop one row, or one alternative of a row, anywhere
                i = r.randrange(len(rows))
                if rows[i][0] == 'or' and r.random() < .7:
                    alts = list(rows[i][1])
                    alts.pop(r.randrange(len(alts)))
                    rows[i] = alts[0] if len(alts) == 1 else ('or', alts)
                else:
                    rows.pop(i)
            if not rows or not useful([t], [[x] for x in rows], [('_',)]):
                continue
        except TooBig:
            continue
        if rows:
            break
    arms = ''
    for i, p in enumerate(rows):
        p, caps = w.capture(t, p)
        arms += '| %s: std.put("%d\\n")\n' % (w.text(t, p, True), i)
    f = w.id('f')
    form = r.random()
    scr = 'x'
    pre = post = ''
    if form < .2:
        pre, post = 'while true\n', ';;\n'
    elif form < .3:
        pre, post = 'const g = {\n', '}\ng()\n'
    elif form < .4:
        scr = '(&x)#'
    body = '%smatch %s\n%s;;\n%s' % (pre, scr, arms, post)
    val = w.lit(t, w.value(t))
    return 'use std\n%s\nconst %s = {x : %s -> void\n%s}\nconst main = {\n\t%s(%s)\n}\n' % (
        '\n'.join(w.decls), f, t.name, body, f, val)


def wide(r):
    """a match on all the values of an 8-bit integer but one (or but one of its combinations)"""
    ty = r.choice(['byte', 'uint8', 'int8', 'byte'])
    vals = list(range(-128, 128)) if ty == 'int8' else list(range(256))
    miss = r.choice([vals[0], vals[-1], vals[127], r.choice(vals), r.choice(vals)])
    shape = r.randrange(4)
    if shape == 0:
        t, wrap, val = ty, '%s', '%d' % miss
        rows = ['%d' % v for v in vals if v != miss]
    elif shape == 1:
        t = '(%s, bool)' % ty
        have = r.choice(['true', 'false'])
        rows = ['(%d, _)' % v for v in vals if v != miss] + ['(%d, %s)' % (miss, have)]
        val = '(%d, %s)' % (miss, 'false' if have == 'true' else 'true')
    elif shape == 2:
        t = '(bool, %s)' % ty
        rows = ['(true, _)'] + ['(false, %d)' % v for v in vals if v != miss]
        val = '(false, %d)' % miss
    else:
        t = 'u'
        rows = ['`A %d' % v for v in vals if v != miss] + ['`B']
        val = '`A %d' % miss
    r.shuffle(rows)
    arms = ''
    while rows:
        k = r.choice([1, 1, 1, 4, 30])
        arms += '| %s: n++\n' % ' || '.join(rows[:k])
        rows = rows[k:]
    return 'use std\ntype u = union\n\t`A %s\n\t`B\n;;\nconst f = {x : %s -> int\n\tvar n\n\tn = 0\nmatch x\n%s;;\n\t-> n\n}\nconst main = {\n\tstd.put("{}\\n", f(%s))\n}\n' % (ty, t, arms, val)


def check(ck):
    tree = Tree('all')
    r = ck.sub('gen')
    pk = Packer(ck, tree, 'c06')
    pk.check([gen(r, 'g%d' % i) for i in range(ck.n(300, 3000))], per=15)
    n = ck.n(500, 6000)
    srcs = [holed(r, 'h%d' % i) for i in range(n)]
    nw = ck.n(30, 200)
    srcs += [wide(r) for i in range(nw)]
    n += nw
    d = os.path.join(scratch(), 'c06')
    os.makedirs(d, exist_ok=True)

    def one(i):
        src = os.path.join(d, 'h%d.myr' % i)
        with open(src, 'w') as f:
            f.write(srcs[i])
        obj = src[:-4] + '.o'
        p = tree.compile(src, cwd=d)
        out = p.stdout.decode('latin1')
        why = None
        if p.returncode == 0:
            why = 'the compiler accepts a match that misses values'
        elif p.returncode != 1:
            why = 'the compiler ends with status %d: %s' % (p.returncode, out[-300:])
        elif 'nonexhaustive' not in out or 'h%d.myr:' % i not in out:
            why = 'not diagnosed as nonexhaustive: ' + out[-300:]
        elif os.path.exists(obj):
            why = 'an object file is left behind'
        for x in (obj, src):
            if os.path.exists(x):
                os.remove(x)
        return why
    for i, why in enumerate(pmap(one, range(n))):
        ck.saw(srcs[i])
        if why:
            ck.violation('nonexhaustive match h%d seed %d' % (i, ck.seed), why, {'h%d.myr' % i: srcs[i]})
    ck.count('nonexhaustive matches judged', n)
    ck.rule = 'a match with an uncovered value is refused with exit 1, a located nonexhaustive diagnostic and no object file; a covering one is accepted and takes the first matching arm'
