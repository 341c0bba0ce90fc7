"""C15: initialisers run once, before main, after those they depend on."""
import shutil, subprocess
from vf.build import Tree, pmap
from vf.multi import Proj, Failed
from vf.core import Inconclusive

TECH = 'runtime monitoring: programs of random acyclic file and package graphs log their __init__ and __fini__ calls and the state they find; an offline checker tests the log against the graph'
NOTE = 'up to 5 packages of up to 4 files and up to 4 local files of the program; files in any order on the command line of muse and ld; no two files of one package share a name, files of different packages may'


def graph(r, i):
    """[(name, package or None, [uses], has init, has fini)] in dependency order"""
    mods = []
    npkg = r.randrange(0, 5)
    base = ['a', 'b', 'c', 'util', 'x_y', 'z1']
    pkgs = []
    for p in range(npkg):
        pn = 'p%dg%d' % (p, i)
        names = r.sample(base, r.randrange(1, 5))
        mine = []
        for n in names:
            uses = [('pkg', q) for q in pkgs if r.random() < .4]
            uses += [('file', m) for m in mine if r.random() < .5]
            r.shuffle(uses)
            m = dict(name=n, pkg=pn, uses=uses, init=r.random() < .7, fini=r.random() < .4, id='%s.%s' % (pn, n))
            mods.append(m)
            mine.append(m)
        pkgs.append(pn)
    local = []
    for n in r.sample(base, r.randrange(0, 5)):
        uses = [('pkg', q) for q in pkgs if r.random() < .3] + [('file', m) for m in local if r.random() < .5]
        r.shuffle(uses)
        m = dict(name='l' + n, pkg=None, uses=uses, init=r.random() < .7, fini=r.random() < .4, id='l' + n)
        mods.append(m)
        local.append(m)
    uses = [('pkg', q) for q in pkgs if r.random() < .6] + [('file', m) for m in local if r.random() < .7]
    r.shuffle(uses)
    mods.append(dict(name='main', pkg=None, uses=uses, init=r.random() < .7, fini=r.random() < .5, id='main'))
    return mods, pkgs


def text(m, mods, r, k):
    """a file: globals that hold values known beforehand, and code that tells of them"""
    v = m['id'].replace('.', '_')
    c = k * 7 + 3
    out = ['use std']
    for t, u in m['uses']:
        out.append('use %s' % u if t == 'pkg' else 'use "%s"' % u['name'])
    if m['name'] != 'main':
        out.append('pkg %s =' % (m['pkg'] or ''))
        out += ['\tvar st_%s : int' % v, '\tvar tab_%s : (int, byte[:])[:]' % v, '\tconst get_%s : (-> int)' % v, ';;']
        out.append('var st_%s = %d' % (v, c))
    else:
        out.append('var st_%s : int = %d' % (v, c))
    out.append('const k_%s = %d' % (v, k))
    out.append('const arr_%s : int[3] = [%d, 2, 3]' % (v, k))
    out.append('var tab_%s%s = [(k_%s, "%s"), (%d, "t")][:]' % (v, ' : (int, byte[:])[:]' if m['name'] == 'main' else '', v, v, k + 1))
    out.append('const get_%s = {-> int\n\t-> st_%s + arr_%s[0] - %d\n}' % (v, v, v, k))

    def see():
        o = []
        for t, u in m['uses']:
            for w in mods:
                if t == 'pkg' and w['pkg'] == u or t == 'file' and w is u:
                    x = w['id'].replace('.', '_')
                    q = u + '.' if t == 'pkg' else ''
                    o.append('\tstd.put("see %s %s {} {} {} {}\\n", %sst_%s, %sget_%s(), %stab_%s[0].1, %stab_%s.len)' % (m['id'], w['id'], q, x, q, x, q, x, q, x))
        return o
    if m['init']:
        out += ['const __init__ = {', '\tstd.put("init %s {} {}\\n", st_%s, tab_%s)' % (m['id'], v, v)] + see() + ['\tst_%s += 1000' % v, '}']
    if m['fini']:
        out += ['const __fini__ = {', '\tstd.put("fini %s {}\\n", st_%s)' % (m['id'], v), '\tst_%s += 5000' % v, '}']
    if m['name'] == 'main':
        out += ['const main = {', '\tstd.put("main {}\\n", st_%s)' % v] + see() + ['}']
    return '\n'.join(out) + '\n'


def closure(m, mods, memo):
    """what m depends on, directly or not"""
    if m['id'] not in memo:
        s = {}
        for t, u in m['uses']:
            for w in mods:
                if t == 'pkg' and w['pkg'] == u or t == 'file' and w is u:
                    s[w['id']] = w
                    s.update(closure(w, mods, memo))
        memo[m['id']] = s
    return memo[m['id']]


def judge(mods, rc, out, err):
    if rc:
        return 'status', 'exit %d, %s' % (rc, err[-200:])
    memo = {}
    main = mods[-1]
    part = dict(closure(main, mods, memo))
    part['main'] = main
    by = {m['id']: (k, m) for k, m in enumerate(mods)}
    st = {m['id']: k * 7 + 3 for k, m in enumerate(mods)}
    inits, finis, mainat, seen = [], [], None, []
    for l in out.splitlines():
        w = l.split()
        if w[0] == 'init':
            i = w[1]
            if mainat is not None:
                return 'late', '%s initialised after main' % i
            if i in inits:
                return 'twice', '%s initialised twice' % i
            k = by[i][0]
            exp = 'init %s %d [(%d, %s), (%d, t)]' % (i, k * 7 + 3, k, i.replace('.', '_'), k + 1)
            if l != exp:
                return 'value', 'printed %r, expected %r' % (l, exp)
            for d in memo[i] if i in memo else closure(by[i][1], mods, memo):
                if by[d][1]['init'] and d not in inits:
                    return 'order', '%s initialised before %s, which it uses' % (i, d)
            inits.append(i)
            st[i] += 1000
        elif w[0] == 'main':
            if mainat is not None:
                return 'main', 'main ran twice'
            mainat = l
            if int(w[1]) != st['main']:
                return 'value', l
        elif w[0] == 'fini':
            if mainat is None:
                return 'early', '%s finished before main' % w[1]
            if w[1] in finis:
                return 'twice', '%s finished twice' % w[1]
            if int(w[2]) != st[w[1]]:
                return 'value', l
            finis.append(w[1])
            st[w[1]] += 5000
        elif w[0] == 'see':
            k = by[w[2]][0]
            v = k * 7 + 3 + (1000 if w[2] in inits else 0)
            if l != 'see %s %s %d %d %s 2' % (w[1], w[2], v, v, w[2].replace('.', '_')):
                return 'value', 'printed %r, expected the value %d' % (l, v)
        else:
            return 'output', l
    if mainat is None:
        return 'main', 'main did not run'
    # a package comes in whole
    inpkg = {part[p]['pkg'] for p in part}
    for m in mods:
        if m['id'] in part and m['init'] and m['id'] not in inits:
            return 'missing', '%s was not initialised' % m['id']
        if m['id'] in part and m['fini'] and m['id'] not in finis:
            return 'missing', '%s was not finished' % m['id']
    return None


def one(tree, r, i):
    mods, pkgs = graph(r, i)
    p = Proj(tree)
    try:
        texts = {}
        done = {}
        for k, m in enumerate(mods):
            d = 'lib/%s/' % m['pkg'] if m['pkg'] else ''
            t = text(m, mods, r, k)
            texts[d + m['name'] + '.myr'] = t
            p.write(d + m['name'] + '.myr', t)
            if not m['pkg'] and k and mods[k - 1]['pkg']:
                fs = done.pop(mods[k - 1]['pkg'])
                r.shuffle(fs)
                p.package(mods[k - 1]['pkg'], fs)
            elif m['pkg'] and k and mods[k - 1]['pkg'] != m['pkg']:
                fs = done.pop(mods[k - 1]['pkg'])
                r.shuffle(fs)
                p.package(mods[k - 1]['pkg'], fs)
            b = p.cc(d + m['name'] + '.myr')
            if m['pkg']:
                done.setdefault(m['pkg'], []).append(b)
        part = closure(mods[-1], mods, {})
        objs = [m['name'] for m in mods if not m['pkg'] and (m['id'] in part or m['name'] == 'main')]
        r.shuffle(objs)
        p.link('prog', objs)
        rc, out, err = p.exec('prog')
        bad = judge(mods, rc, out, err)
        det = None
        if bad:
            det = (bad[0], '%s\n%s' % (bad[1], out[:3000]))
    except Failed as e:
        out = ''
        det = (e.step.split()[0], str(e))
    except subprocess.TimeoutExpired as e:
        out = ''
        det = ('hang', str(e))
    finally:
        shutil.rmtree(p.dir, ignore_errors=True)
    return mods, out, det, texts


def check(ck):
    tree = Tree('all')
    n = ck.n(60, 1500)
    for mods, out, det, texts in pmap(lambda i: one(tree, ck.sub('g', i), i), range(n)):
        ck.saw(tuple((m['id'], tuple(str(u if t == 'pkg' else u['id']) for t, u in m['uses'])) for m in mods))
        ck.count('files', len(mods))
        ck.count('initialisers run', out.count('init '))
        ck.count('finalisers run', out.count('fini '))
        ck.count('values looked at', out.count('see '))
        if det:
            ck.violation(det[0], det[1], {f.replace('/', '_'): t for f, t in texts.items()})
    ck.rule = 'each __init__ in the closure of main ran once, after those of all it uses and before main; each __fini__ once after main; globals hold their initial values throughout'
