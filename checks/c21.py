"""C21: library code never touches memory outside live allocations.

The drivers of the behavioural checks are linked with a guarding allocator
(csrc/guard.c) over libraries rebuilt so that slices have exactly the size that
was asked for, and are given the histories those checks generate.  A stray
access faults, a bad free is reported, bytes before a block are verified, and
two runs that fill fresh memory differently have to give equal answers."""
import importlib, os, re, subprocess
from vf.build import Tree, scratch, BuildError, VERIF
from vf.core import Driver, hx, pmap

TECH = ('runtime monitoring: the libraries, rebuilt with exactly sized slices, run on a guarding allocator (every block against an inaccessible page, '
        'no reuse, sizes checked on free, two fill patterns compared) under the histories of the behavioural checks; block accounting around make-use-free sequences')
NOTE = ('heap memory only, not the stack; reads up to 16 bytes before a slice reach its header unseen; leaks are judged for the objects of std, bio, regex, json, '
        'inifile, date and crypto that have a function to free them, on the second of two equal commands (caches may fill on the first)')
STREAMS = ['c22', 'c23', 'c24', 'c25', 'c26', 'c27', 'c28', 'c29', 'c30', 'c31', 'c35', 'c36', 'c37', 'c38', 'c39', 'c40', 'c41', 'c42', 'c43', 'c44', 'c45',
           'c46', 'c47', 'c49', 'c50', 'c51']
COST = {'c38': .35, 'c39': .5, 'c41': .4, 'c37': .6, 'c29': .6}
RANDOM = {('c35', 'b'), ('c46', 'R')}  # answers drawn from the system's entropy
WRAP = ['--wrap=std$bytealloc', '--wrap=std$zbytealloc', '--wrap=std$bytefree']


def exact(tree):
    """slices without slack: no rounding, no end marker, growth to the length asked for.
    An edit that does not apply leaves that slack in place."""
    p = os.path.join(tree.root, 'lib/std/alloc.myr')
    with open(p) as f:
        s = f.read()
    edits = [(r'\n\t*sz = allocsz\(sz\)', ''), (r'alloc\(sz \+ sizeof\(size\)\)', 'alloc(sz)'),
             (r'bytefree\(\(head : byte#\), sz \+ sizeof\(size\)\)', 'bytefree((head : byte#), sz)'),
             (r'\n\t*pend# = 0xfee1deadfee1dead', ''), (r'\n\t*iassert\(pend# ==[^\n]*', '')]
    t = s
    done = []
    for a, b in edits:
        t, n = re.subn(a, b, t)
        done.append(n)
    # the first five belong together
    tree.exact = done == [2, 2, 1, 1, 1]
    if tree.exact:
        s = t
    s, n = re.subn(r'new = slalloc\(nel\)', 'new = slalloc(len)', s)
    tree.growth = n == 1
    with open(p, 'w') as f:
        f.write(s)


def guard(fill):
    o = os.path.join(scratch(), 'guard%x.o' % fill)
    p = subprocess.run(['gcc', '-c', '-O1', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-mno-sse', '-DFILL=%d' % fill, '-o', o,
                        os.path.join(VERIF, 'csrc/guard.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('guard.c: ' + p.stdout.decode()[-500:])
    return o


def streams(ck, tree, c, guards):
    m = importlib.import_module('checks.' + c)
    st = m.streams(ck.sub(c), max(40, int(ck.n(900, 20000) * COST.get(c, 1))))
    st = [st] if isinstance(st, tuple) else list(st)
    for k, (drv, extra, cmds) in enumerate(st):
        cmds = list(cmds)
        ds = []
        for i, g in enumerate(guards):
            d = Driver(ck, tree, drv, flags=getattr(m, 'FLAGS', ()), local=getattr(m, 'LOCAL', ()), extra_src=extra, link=[g] + WRAP,
                       sub='%s-%d-%d' % (c, k, i))
            ds.append(d)
        a = ds[0].run(cmds, timeout=300, par=2)
        b = ds[1].run(cmds, timeout=300, par=2, cwd=ds[0].dir)
        for q, x, y in zip(cmds, a, b):
            if '!skipped' in (x, y):
                ck.count('skipped after crashes')
                continue
            ck.saw((c, q), '%s: %s' % (c, q[:300]))
            ck.count('commands of ' + c.upper())
            bad = None
            for z in (x, y):
                if z.startswith('!crash'):
                    bad = z[1:]
            if not bad and x != y and (c, q.split(' ', 1)[0]) not in RANDOM:
                bad = 'the answer depends on the contents of fresh memory: %.300s and %.300s' % (x, y)
            if bad:
                g = re.search(r'guard: ([a-z ]*)', bad)
                ck.violation('%s %s: %s' % (c, q.split(' ', 1)[0], g.group(1) if g else bad[:40]), '%s driver, command %s: %s' % (drv, q[:1500], bad[:1500]),
                             {'cmd.txt': q + '\n'})


def leakcases(r, n):
    def txt(k=12, al='abcxyz'):
        return ''.join(r.choice(al) for _ in range(r.randint(0, k))).encode()
    c38 = importlib.import_module('checks.c38')
    pats = ['ab*c', '(a|b)*c[a-z]{2}', '[a-é]+|[^k]x?', '(a)(b)?', 'a*', '(a', '(a|b', '[a', 'a)b', '*a', 'a|b**', 'xa|b\\', 'a(b', '(?:a|b)+', '(?a)', '(a)(b|', '\\p{L}+',
            '\\p{Lx}', '\\u{41}', '\\u{110000}', '[^a-z]', '()', '(((a)))', '(((a))', 'a||b', 'a?b+?c', '^a$', '\\<a\\>', '.+', '', '\\W\\d']
    js = ['{"a":[1,true,null,"x\\u0041"],"b":{}}', '[1,2,"x",', '{"a":[1,2,"x"],"b":tru}', '{"a":1,}', '"abc', '{"a" 1}', '[]', '[[[[1]]],2', '{"a":{"b":{"c":[1.5e3]}}}',
          '{"a":"b" "c"}', '["a\\q"]', '["a\\u12"]', '[1 2]', '{"a":[}', '-', '[-]', '{"k":1,2}', '"a" x', '[true] ]', '1.5e', '{"a":"\\ud800"}', '[nul]']
    inis = ['a=b\n[c]\nd=e\ng=f\n', 'a=b\n[c\nd=e\n', 'a=b\na=c\nd\n', '[s]\n[t]\n[s]\nx=1\n', '; c\n\n[s] # x\nk = v ; z\n', '[s]\nk=1\n[t]\nk=1\n[s]\nk=2\n', '=\n', '[]\n=x\n', 'x',
            '[a]b\n']
    for i in range(n):
        k = r.choice('rruujjihbbgmssppffddxoec')
        if k == 'r':
            v = [r.choice(pats).encode(), txt()]
        elif k == 'u':
            p, g = r.choice([('(a)(b)?', 2), ('a*', 0), ('(x)|(y)', 2), ('((a)b)', 2), ('(a|b)+', 1), ('c', 0), ('(a', 1)])
            v = [p.encode(), txt()] + [txt(4) for _ in range(g)]
        elif k == 'j':
            s = bytearray(r.choice(js).encode())
            if r.random() < .4 and s:
                j = r.randrange(len(s))
                if r.random() < .5:
                    s[j:j + 1] = r.choice([b'', b'"', b'[', b'}', b',', b'1', b'\\'])
                else:
                    del s[j:]
            v = [bytes(s)]
        elif k == 'i':
            v = [r.choice(inis).encode()] + [txt(2, 'cdk') for _ in range(3 * r.randint(0, 6))]
        elif k == 'h':
            v = [txt(3) for _ in range(r.randint(1, 60))]
        elif k in 'gm':
            f = lambda m: bytes(r.choice([0, 1, 255, r.randrange(256)]) for _ in range(r.randint(0, m)))
            v = [f(90), f(40), r.choice([str(r.getrandbits(200)), '-12', '0', '12x', '', '0x12']).encode()] if k == 'g' else [f(12), f(6), f(12)]
        elif k == 'd':
            v = [x.encode() for x in r.choice([('%Y-%m-%d', '2011-02-03'), ('%Y-%m-%d', '2011-02x03'), ('%Y %Z', '2011 UTC'), ('%H:%M', '25:00'), ('%Y %z', '2011 +0130'),
                                              ('%Y %Z', '2011 Europe/Berlin'), ('%Y %Z', '2011 Nowhere/Else'), ('%q', 'x'), ('%a %b', 'Mon Jan'), ('%c', 'nonsense')])]
        elif k == 'p':
            v = [txt(14, 'ab./') for _ in range(r.randint(2, 5))]
        elif k == 'c':
            v = [bytes(r.randrange(256) for _ in range(r.randint(1, 32)))]
        elif k == 'o':
            v = [txt(200, 'abc\n') for _ in range(r.randint(1, 5))]
        else:
            v = [txt(60, 'abc<&" \'\\xé'), txt(30, 'a xé"')]
        yield k + ' ' + ' '.join(hx(x) for x in v)


def leaks(ck, tree, g):
    d = Driver(ck, tree, 'c21', extra_src=('vfg.myr',), link=[g] + WRAP)
    cmds = []
    for c in leakcases(ck.sub('l'), ck.n(1500, 30000)):
        cmds += [c, c]
    dirs = [os.path.join(scratch(), 'c21-%d' % i) for i in range(4)]
    parts = [cmds[2 * (len(cmds) * i // 8):2 * (len(cmds) * (i + 1) // 8)] for i in range(4)]
    for p in dirs:
        os.makedirs(p)
    outs = pmap(lambda i: d.batch(parts[i], timeout=300, cwd=dirs[i]), range(4))
    for p, o in zip(parts, outs):
        for q, x in list(zip(p, o))[1::2]:
            if x == '!skipped':
                ck.count('skipped after crashes')
                continue
            ck.saw(('leak', q), 'leak: %s -> %s' % (q[:200], x))
            ck.count('make-use-free ' + q[0])
            if x.startswith('!crash'):
                bad, sig = x[1:], 'crash'
            else:
                left, made = [int(w) for w in x.split()]
                ck.count('blocks allocated and freed', made)
                bad, sig = '%d of %d blocks stay allocated' % (left, made), 'leak'
                if left == 0:
                    continue
                if left < 0:
                    bad, sig = '%d blocks that were there before are gone' % -left, 'overfree'
            ck.violation('leak %s: %s' % (q[0], sig), '%s: %s' % (q[:1000], bad[:1000]), {'cmd.txt': q + '\n'})


def check(ck):
    tree = Tree('all', patch=exact)
    ck.count('slices without slack', int(tree.exact))
    ck.count('growth without slack', int(tree.growth))
    gs = [guard(0xA5), guard(0)]
    leaks(ck, tree, gs[0])
    pmap(lambda c: streams(ck, tree, c, gs), STREAMS, 5)
    ck.rule = ('no access outside a live block, no bad free, equal answers for both fill patterns, over the generated histories of the other library checks; '
               'no block left over, and none too many freed, by make-use-free sequences, failing ones included')
