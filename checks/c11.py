"""C11: splitting a program across files and packages does not change it."""
import re, shutil, subprocess
from vf.build import Tree, pmap
from vf.multi import Proj, Failed
from vf.progs import Test
from checks import c02, c04, c05, c08, c09, c14

TECH = 'runtime monitoring: generated programs are cut at random into local files and packages, built through use files, and what they print is compared with the model of the undivided program; references to hidden declarations must be rejected'
NOTE = 'programs of the generators of C02, C04, C05, C08, C09 and C14, in up to 5 parts (files of the program, and packages of 1-3 files), some with their body turned into a generic function so that all of it passes through a use file'

TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//[^\n]*|[A-Za-z_]\w*')


class Item:
    __slots__ = ('kind', 'text', 'names', 'refs', 'deps', 'mod', 'exp')


def split(decls):
    items = []
    end = None
    for l in decls.split('\n'):
        if not l.strip():
            continue
        if end is None:
            assert re.match(r'(type|trait|impl|generic|const|var)\b', l), l
            items.append([l])
            if re.match(r'(const|generic)\b.*= \{', l) and not l.rstrip().endswith('}'):
                end = '}'
            elif re.match(r'type\b.*= (struct|union)$|(trait|impl)\b', l):
                end = ';;'
        else:
            items[-1].append(l)
            if l.rstrip() == end:
                end = None
    out = []
    for ls in items:
        it = Item()
        it.text = '\n'.join(ls)
        it.kind = ls[0].split()[0]
        it.exp = False
        it.mod = None
        it.names = []
        if it.kind != 'impl':
            it.names.append(re.match(r'\w+ (\w+)', ls[0]).group(1))
        if it.kind == 'trait':
            it.names += re.findall(r'^\t(\w+)\s*:', it.text, re.M)
        if it.kind == 'type':
            it.names += re.findall(r'^\t`(\w+)', it.text, re.M)
            if ' union' in ls[0] and len(ls) == 1:
                raise ValueError(it.text)
        out.append(it)
    return out


def refs(text):
    return [t for t in TOK.findall(text) if t[0] not in '"\'/']


def order(r, items):
    """a random order in which each item comes after those it mentions; cycles stay together"""
    owner = {}
    for k, it in enumerate(items):
        for n in it.names:
            owner[n] = k
    n = len(items)
    dep = [set() for _ in items]
    for k, it in enumerate(items):
        it.refs = set(refs(it.text))
        dep[k] = {owner[x] for x in it.refs if x in owner} - {k}
    # impls precede whatever may need them
    early, todo = set(), [k for k in range(n) if items[k].kind in ('impl', 'type', 'trait')]
    while todo:
        k = todo.pop()
        if k not in early:
            early.add(k)
            todo += dep[k]
    imp = {k for k in early if items[k].kind == 'impl'}
    for k in range(n):
        if k not in early:
            dep[k] |= imp
    # strongly connected components by reachability
    reach = [set() for _ in items]
    for k in range(n):
        st = [k]
        while st:
            for d in dep[st.pop()]:
                if d not in reach[k]:
                    reach[k].add(d)
                    st.append(d)
    comp, seen = [], set()
    for k in range(n):
        if k not in seen:
            c = [j for j in range(n) if j == k or j in reach[k] and k in reach[j]]
            seen |= set(c)
            comp.append(c)
    out, placed = [], set()
    left = list(comp)
    while left:
        ok = [c for c in left if all(d in placed or d in c for j in c for d in dep[j])]
        c = ok[0] if r.random() < .5 else r.choice(ok)
        left.remove(c)
        placed |= set(c)
        out.append(c)
    return [[items[j] for j in c] for c in out]


def proto(it):
    """the line that announces a const or generic in the pkg block, and the text of its definition; None: define it there"""
    ls = it.text.split('\n')
    m = re.match(r'(const|generic) (\w+) = \{(.*)$', ls[0])
    if m:
        sig = m.group(3)
        s, sep, cons = sig.partition(' :: ')
        s = s.strip()
        if '->' not in s:
            return None
        # every parameter needs a type to be announced
        ps, ret = s.rsplit('->', 1) if s.count('->') == 1 else (None, None)
        if ps is None:
            # the arrow of the function is the one outside all brackets
            d = 0
            for i, c in enumerate(s):
                if c in '([':
                    d += 1
                elif c in ')]':
                    d -= 1
                elif c == '-' and s[i:i + 2] == '->' and d == 0:
                    ps, ret = s[:i], s[i + 2:]
                    break
            else:
                return None
        d = 0
        parts, cur = [], ''
        for c in ps:
            if c in '([':
                d += 1
            elif c in ')]':
                d -= 1
            if c == ',' and d == 0:
                parts.append(cur)
                cur = ''
            else:
                cur += c
        parts.append(cur)
        if ps.strip() and not all(':' in p for p in parts):
            return None
        return '\t%s %s : (%s)%s' % (m.group(1), m.group(2), s, ' :: ' + cons if cons else '')
    m = re.match(r'(const|var) (\w+) : ([^=]*?) = ', ls[0])
    if m:
        return '\t%s %s : %s' % (m.group(1), m.group(2), m.group(3))
    m = re.match(r'var (\w+) : ([^=]*)$', it.text)
    if m:
        return '\t' + it.text
    m = re.match(r'impl [^=]*(?= =)', ls[0])
    if m:
        return '\t' + m.group(0)
    return None


def body(it):
    """the definition beside its announcement: the type is given once"""
    if re.match(r'var (\w+) : ([^=]*)$', it.text):
        return it.text.split(' :')[0]
    return re.sub(r'^(const|var) (\w+) : [^=]*? = ', r'\1 \2 = ', it.text) if it.kind != 'generic' else it.text


def cut(r, test):
    """[(package or None, file, items)], owner"""
    items = split(test.decls)
    t = Item()
    t.exp, t.mod = False, None
    if r.random() < .5:
        t.kind = 'generic'
        t.text = 'generic t_%s = {dmyarg : @dmy -> void\n%s\n}' % (test.name, '\n'.join('\t' + l for l in test.body))
        call = 't_%s(%s)' % (test.name, r.choice(['1', 'true', '"s"', '(1, "a")']))
    else:
        t.kind = 'const'
        t.text = 'const t_%s = {-> void\n%s\n}' % (test.name, '\n'.join('\t' + l for l in test.body))
        call = 't_%s()' % test.name
    t.names = ['t_' + test.name]
    items.append(t)
    if len({n for it in items for n in it.names}) != sum(len(it.names) for it in items):
        raise ValueError('names')
    comps = order(r, items)
    # a constant that is a pattern needs its initialiser, which is known elsewhere only for primitive types
    for i, c in reversed(list(enumerate(comps))):
        for it in c:
            if it.kind == 'const' and re.match(r'k\w+$', it.names[0]) and ' = {' not in it.text and not re.match(r'const \w+ : (u?int\d*|byte|char|bool|flt\d*) =', it.text):
                it.exp = None
    k = r.randrange(1, 6)
    cuts = sorted(r.randrange(len(comps) + 1) for _ in range(k - 1))
    mods = []
    last = 0
    pk = 0
    for c in cuts + [len(comps)]:
        its = [i for g in comps[last:c] for i in g]
        last = c
        x = r.random()
        if x < .35:
            p = None
        elif x < .7 or not mods or mods[-1][0] is None:
            pk += 1
            p = 'pk%d%s' % (pk, test.name)
        else:
            p = mods[-1][0]
        # a package cannot use the program's own files: those come last
        mods.append([p, 'f%d' % len(mods), its])
    own = {n: (j, it) for j, m in enumerate(mods) for it in m[2] for n in it.names}
    for j, m in enumerate(mods):
        for it in m[2]:
            if any(n in own and own[n][1].exp is None and own[n][0] != j for n in it.refs):
                for i in items:
                    i.exp = False
                return None
    for it in items:
        it.exp = False
    seenlocal = False
    for j, m in enumerate(mods):
        if m[0] is None:
            seenlocal = True
        elif seenlocal:
            m[0] = None
    for m in mods:
        for it in m[2]:
            it.mod = m
    return items, mods, call


def render(r, mods, m, owner, imports):
    """text of one file"""
    head = ['use std', 'use sys', 'use dio']
    used = {}
    for it in m[2]:
        for n in it.refs:
            o = owner.get(n)
            if o is not None and o.mod is not m:
                used[o.mod[1]] = o.mod
    # impls come only through use
    for o in mods:
        if o is m:
            break
        if any(i.kind == 'impl' for i in o[2]):
            used[o[1]] = o
    us = []
    for u in used.values():
        us.append('use %s' % u[0] if u[0] != m[0] and u[0] else 'use "%s"' % u[1])
    us = sorted(set(us))
    r.shuffle(us)

    def q(text, impl=False):
        def f(x):
            n = x.group(0)
            o = owner.get(n)
            if o is not None and o.mod[0] and o.mod[0] != m[0]:
                return o.mod[0] + '.' + n
            return n
        ls = text.split('\n')
        for i, l in enumerate(ls):
            k = re.match(r'\t\w+ = ', l) if impl else None
            p = k.group(0) if k else ''
            ls[i] = p + TOK.sub(f, l[len(p):])
        return '\n'.join(ls)
    pb, out = [], []
    for it in m[2]:
        t = q(it.text, it.kind == 'impl')
        if not it.exp:
            out.append(t)
            continue
        x = Item()
        x.text, x.kind = t, it.kind
        p = proto(x)
        # a definition in the block comes before the rest of the file, where a generic's type is not known yet
        early = it.kind != 'impl' and '=' in it.text and all(owner[n].mod is not m or owner[n].kind in ('type', 'trait') for n in it.refs if n in owner and owner[n] is not it)
        if it.kind in ('type', 'trait') or p is None or early and r.random() < .4:
            pb.append('\n'.join('\t' + l for l in t.split('\n')))
        else:
            pb.append(p)
            out.append(body(x))
    if r.random() < .3:
        # the announcements may come in any order, types first
        r.shuffle(pb)
    txt = head + us
    if pb or m[0] or r.random() < .5:
        txt += ['pkg %s =' % (m[0] or '')] + pb + [';;']
    return '\n'.join(txt + out) + '\n', us


def one(tree, dio, r, i):
    mod, name = r.choice([(c02, 'f'), (c04, 'v'), (c05, 'm'), (c08, 'c'), (c09, 'g'), (c09, 'h'), (c14, 'i')])
    test = mod.gen(r, '%s%d' % (name, i))
    c = None
    while c is None:
        c = cut(r, test)
    items, mods, call = c
    owner = {n: it for it in items for n in it.names}
    main = ['main']
    # what must be visible: what another file names
    items[-1].exp = True
    for it in items:
        if it.kind == 'impl':
            it.exp = True
        for n in it.refs:
            o = owner.get(n)
            if o is not None and o.mod is not it.mod:
                o.exp = True
    for it in items:
        if not it.exp and r.random() < .2:
            it.exp = True
        # an impl is only as visible as what it is made of
        if it.kind == 'impl':
            for n in it.refs:
                o = owner.get(n)
                if o is not None and o.kind in ('type', 'trait'):
                    o.exp = True
    for it in items:
        if it.exp and (it.kind in ('type', 'trait', 'impl') or proto(it)):
            sig = it.text if it.kind in ('type', 'trait') else proto(it)
            for n in refs(sig):
                o = owner.get(n)
                if o is not None and o.kind in ('type', 'trait') and r.random() < .9:
                    o.exp = True
    p = Proj(tree)
    p.libs.append('dio')
    texts, objs, hidden = {}, [], 0
    det = None
    out = ''
    try:
        shutil.copytree(dio, p.dir + '/lib/dio')
        allus = set()
        pend = []
        for k, m in enumerate(mods):
            t, us = render(r, mods, m, owner, None)
            d = 'lib/%s/' % m[0] if m[0] else ''
            texts[d + m[1] + '.myr'] = t
            p.write(d + m[1] + '.myr', t)
            b = p.cc(d + m[1] + '.myr')
            if m[0]:
                pend.append(b)
                if k + 1 == len(mods) or mods[k + 1][0] != m[0]:
                    r.shuffle(pend)
                    p.package(m[0], pend)
                    pend = []
            else:
                objs.append(b)
        last = items[-1].mod
        us = []
        for m in mods:
            u = 'use %s' % m[0] if m[0] else 'use "%s"' % m[1]
            if u not in us:
                us.append(u)
        head = ['use std', 'use dio'] + us
        t = '\n'.join(head + ['const main = {', '\t%s%s' % (last[0] + '.' if last[0] else '', call), '}']) + '\n'
        texts['main.myr'] = t
        p.write('main.myr', t)
        objs.append(p.cc('main.myr'))
        p.link('prog', objs)
        rc, out, err = p.exec('prog')
        got = [l.rstrip() for l in out.splitlines()]
        exp = [l.rstrip() for l in test.expect]
        if rc:
            det = ('status', 'exit %d, %s' % (rc, err[-300:]))
        elif got != exp:
            det = ('output', 'printed\n%s\ninstead of\n%s' % (out[:1500], '\n'.join(exp)[:1500]))
        # hidden declarations
        cand = [it for it in items if not it.exp and it.kind in ('const', 'generic', 'var', 'type')]
        r.shuffle(cand)
        for it in cand[:2]:
            if det:
                break
            nm = it.names[0]
            qn = it.mod[0] + '.' + nm if it.mod[0] else nm
            use = 'var v : %s#\n\tstd.put("{}", v)' % qn if it.kind == 'type' else 'var v = %s\n\tstd.put("{}", v)' % qn
            if it.kind == 'type' and re.match(r'type \w+\(', it.text):
                continue
            t = '\n'.join(head + ['const main = {', '\t' + use, '}']) + '\n'
            p.write('neg.myr', t)
            q = subprocess.run([tree.mc] + p.inc() + ['neg.myr'], cwd=p.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            hidden += 1
            if q.returncode != 1:
                texts['neg.myr'] = t
                det = ('hidden ' + it.kind, '%s is not exported, but main can name it: 6m exits %d' % (qn, q.returncode))
    except Failed as e:
        det = (e.step.split()[0], str(e))
    except subprocess.TimeoutExpired as e:
        det = ('hang', str(e)[-200:])
    finally:
        shutil.rmtree(p.dir, ignore_errors=True)
    return items, mods, out, hidden, det, texts


def diolib(tree):
    import os
    from vf.core import VERIF, scratch
    p = Proj(tree, os.path.join(scratch(), 'c11dio'))
    p.write('lib/dio/dio.myr', open(os.path.join(VERIF, 'drivers/dio.myr')).read())
    p.package('dio', [p.cc('lib/dio/dio.myr')])
    return p.dir + '/lib/dio'


def check(ck):
    tree = Tree('all')
    dio = diolib(tree)
    n = ck.n(200, 4000)
    for items, mods, out, hidden, det, texts in pmap(lambda i: one(tree, dio, ck.sub('g', i), i), range(n)):
        ck.saw(tuple(sorted(texts.items())))
        ck.count('files', len(mods) + 1)
        ck.count('packages', len({m[0] for m in mods if m[0]}))
        ck.count('declarations exported', sum(i.exp for i in items))
        ck.count('declarations kept hidden', sum(not i.exp for i in items))
        ck.count('values printed', len(out.split()))
        ck.count('hidden declarations named by main', hidden)
        if det:
            ck.violation(det[0], det[1], {f.replace('/', '_'): t for f, t in texts.items()})
    ck.rule = 'the divided program builds and prints what the undivided one means; naming a hidden declaration is rejected with status 1'
