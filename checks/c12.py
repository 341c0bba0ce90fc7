"""C12: the compiler stays within its memory and ends by itself on any input file."""
import glob, hashlib, os, re, shutil, subprocess
from vf.core import *
from vf.build import *
from vf.progs import Test
from checks import c02, c04, c05, c06, c07, c08, c09, c14

TECH = 'the compiler built with AddressSanitizer and UBSan, run on valid programs of every construct and on mutated ones; exit status, diagnostics and outputs monitored'
NOTE = 'memory leaks are not judged (the compiler never frees by design); a time limit of 60 s stands for termination'

CFLAGS = '-g -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer'
TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|[A-Za-z_]\w*|[0-9]\w*|\s+|[-+*/%=<>!&|^]+=?|.', re.S)
KW = {'var', 'const', 'if', 'elif', 'else', 'while', 'for', 'match', 'struct', 'union', 'trait', 'impl', 'generic', 'pkg', 'use', 'type', 'goto',
      'auto', 'break', 'continue', 'sizeof', 'extern', 'castto', 'void', 'main'}
TYPES = ['int', 'uint8', 'byte', 'char', 'flt32', 'flt64', 'bool', 'void', 'int64', '@a', '@b', 'byte[:]', 'int#', '(int, bool)', 'int[3]', '(x : int -> int)']
LITS = ['0', '1', '-1', '3.5', "'x'", '"abc"', 'true', '99999999999', '{x;-> x}', '[1,2][:]', '(1,2)', '`std.None', '`std.Some 1', '[.a=1]', 'void', '[]', 'a', '&a',
        '1.0/0.0', '1/0', '(-9223372036854775808)/(-1)', '1 << 200', '~0', '""', "'\\u{10ffff}'", 'sizeof(int[3])', '0xffffffffffffffff', '1e400', '[.x=1, .y=2]', '{;}', '({;})()']
ANY = ['0', '-1', '99999999999999999999', '"x"', "'c'", 'void', '{', '}', '(', ')', '[', ']', ';;', 'match', '|', '@a', '#', '&', '`Foo', 'struct', 'union', 'trait', 'impl',
       'generic', '.x', '::', '->', 'auto', 'sizeof', 'for', 'while', 'if', 'else', 'elif', 'goto', 'break', 'int', '[:]', '\x00', '\\', '1e999', '0x', '$noret', 'extern', 'pkg',
       'use', 'type', 'var x', 'const', 'castto', '"\\u{110000}"', '"\\x', "'", '"', '/*', '*/', '\xff', '\xc3', '0b12', '0o9', '1__2', '12u8', '3zz', '...', '__init__', 'a.b.c']


def semantic(r, t):
    """a change that most often still parses"""
    toks = TOK.findall(t)
    ids = [i for i, x in enumerate(toks) if re.match(r'[A-Za-z_]', x) and x not in KW]
    lits = [i for i, x in enumerate(toks) if re.match(r'[0-9"\']', x)]
    ops = [i for i, x in enumerate(toks) if re.match(r'[-+*/%=<>!&|^.#]', x)]
    for _ in range(r.choice([1, 1, 2, 3])):
        x = r.random()
        if x < .4 and len(ids) > 1:
            toks[r.choice(ids)] = toks[r.choice(ids)]
        elif x < .5 and ids:
            toks[r.choice(ids)] = r.choice(TYPES + ['1', '"s"', 'std', 'main', 'undefd'])
        elif x < .7 and lits:
            toks[r.choice(lits)] = r.choice(LITS)
        elif x < .8 and ops:
            toks[r.choice(ops)] = r.choice(['+', '-', '*', '/', '%', '==', '<', '&&', '||', '&', '#', '.', '=', '+=', '::', '->', '<<'])
        elif x < .9:
            ls = ''.join(toks).split('\n')
            i, j = r.randrange(len(ls)), r.randrange(len(ls))
            y = r.random()
            if y < .4:
                del ls[i]
            elif y < .8:
                ls[i], ls[j] = ls[j], ls[i]
            else:
                ls.insert(i, ls[j])
            return '\n'.join(ls)
        elif ids:
            i = r.choice(ids)
            toks[i] += r.choice(['#', '[0]', '.x', '()', '[:]', '(1)', '.len', '[1:2]', '.0', '.tag', '++', '--'])
    return ''.join(toks)


def lexical(r, t):
    toks = TOK.findall(t)
    for _ in range(r.choice([1, 1, 1, 2, 3, 6])):
        if len(toks) < 3:
            break
        i, x = r.randrange(len(toks)), r.random()
        if x < .25:
            del toks[i]
        elif x < .4:
            toks.insert(i, toks[r.randrange(len(toks))])
        elif x < .6:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x < .8:
            toks[i] = toks[r.randrange(len(toks))]
        elif x < .9:
            toks[i] = r.choice(ANY)
        elif x < .95:
            del toks[i:min(len(toks), i + r.randrange(1, 40))]
        else:
            toks = toks[:i]
    t = ''.join(toks)
    if r.random() < .1:
        b = bytearray(t.encode('latin1'))
        for _ in range(r.randrange(1, 8)):
            if b:
                b[r.randrange(len(b))] = r.randrange(256)
        t = bytes(b[:r.randrange(len(b) + 1)] if b and r.random() < .5 else b).decode('latin1')
    return t


def special(r, i):
    """inputs whose size or nesting is the point"""
    n = r.choice([10, 100, 1000])
    k = i % 14
    if k == 0:
        return ''
    if k == 1:
        return bytes(r.randrange(256) for _ in range(n)).decode('latin1')
    if k == 2:
        return 'const main = {\n\tvar x = ' + '(' * n + '1' + ')' * n + '\n}\n'
    if k == 3:
        return 'const main = {\n\tvar x = ' + '-' .join(['1'] * n) + '\n}\n'
    if k == 4:
        return 'const main = {\n' + ''.join('\tvar v%d = %d\n' % (j, j) for j in range(n)) + '}\n'
    if k == 5:
        return 'const main = {\n' + '\tif true\n' * n + '\t;;\n' * n + '}\n'
    if k == 6:
        return 'const s = "' + ''.join(r.choice(['\\n', '\\x41', '\\u{%x}' % r.choice([65, 233, 0x10ffff, 0x110000, 0xd800]), 'abc', '\\', '\\q']) for _ in range(n)) + '"\n'
    if k == 7:
        return 'type t = struct\n' + ''.join('\tm%d : %s\n' % (j, r.choice(['int', 'byte', 't', 't#', 'int[%d]' % j])) for j in range(min(n, 200))) + ';;\nconst main = {\n\tvar x : t\n}\n'
    if k == 8:
        return 'type u = union\n' + ''.join('\t`C%d%s\n' % (j, r.choice(['', ' int', ' u#', ' u', ' (int, bool)'])) for j in range(min(n, 300))) + ';;\nconst main = {\n\tvar x : u\n\tmatch x\n' + ''.join('\t| `C%d%s: \n' % (j, r.choice(['', ' _', ' a', ' 3'])) for j in range(min(n, 300))) + '\t;;\n}\n'
    if k == 9:
        a = 'a' * (n * 10)
        return 'const %s = 1\nconst main = {\n\tvar b%s = %s\n\tb%s.%s()\n}\n' % (a, a, a, a, a)
    if k == 10:
        return 'const f = {' + ', '.join('a%d : %s' % (j, r.choice(['int', 'byte[:]', 'flt64', 'int[20]'])) for j in range(min(n, 200))) + '\n\t-> 1\n}\nconst main = {\n\tf(' + ', '.join(['1'] * min(n, 200)) + ')\n}\n'
    if k == 11:
        return 'const main = {\n\tvar x : ' + r.choice(['(', 'int[', 'byte#']) * n + 'int' + '[:]' * n + '\n}\n'
    if k == 12:
        return 'const main = {\n\tvar x = ' + r.choice(['0x', '0b', '0o', '', '1e', '1.']) + r.choice('0123456789abcdef_') * n + r.choice(['', 'ul', 'i', 'zz', '.']) + '\n}\n'
    return 'generic f = {x : @a -> @a\n\t-> g((x, x)).0\n}\ngeneric g = {x : @a -> @a\n\tf(1)\n\t-> x\n}\nconst main = {\n\tf(%s)\n}\n' % r.choice(LITS)


def run_one(cc, inc, d, text):
    with open(d + '/m.myr', 'w', encoding='latin1') as f:
        f.write(text)
    env = clean_env({'ASAN_OPTIONS': 'detect_leaks=0:quarantine_size_mb=4:exitcode=99:max_allocation_size_mb=4000', 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98'})
    try:
        p = subprocess.run([cc] + inc + ['-o', 'm.o', 'm.myr'], cwd=d, env=env, stdout=-1, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=60)
    except subprocess.TimeoutExpired:
        return 'timeout', ('does not end', 'the compiler was still running after 60 s')
    out = p.stdout.decode('latin1')
    obj = os.path.exists(d + '/m.o')
    kind = 'accepted' if p.returncode == 0 else 'syntax error' if 'syntax error' in out else 'other error'
    if p.returncode not in (0, 1):
        m = re.search(r'runtime error: (.*)|AddressSanitizer: (\S+)|\w+: ([^\n]*Assertion[^\n]*)', out)
        what = next((g for g in m.groups() if g), '') if m else out.strip().split('\n')[-1]
        fr = [x for x in re.findall(r'#\d+ 0x\w+ in (\w+) [^\n]*?/(?:parse|mi|6|util|muse)/', out) if x not in ('die', 'xalloc', 'fatalv')]
        what = re.sub(r'0x[0-9a-f]+|\d+', 'N', what)[:90]
        return kind, ('crash %s %s' % (what, fr[0] if fr else ''), 'exit status %d\n%s' % (p.returncode, out[-3000:]))
    if p.returncode == 1 and obj:
        return kind, ('object', 'exit status 1, and an object file')
    if p.returncode == 1 and not out.strip():
        return kind, ('silent', 'exit status 1 without a diagnostic')
    if p.returncode == 0 and not obj:
        return kind, ('no object', 'exit status 0 and no object file')
    return kind, None


def check(ck):
    tree = Tree('all')
    san = Tree('c', name='san', cflags=CFLAGS)
    inc = tree.incdirs()
    top = scratch() + '/c12'
    shutil.rmtree(top, ignore_errors=True)
    corpus = []
    for f in sorted(glob.glob(REPO + '/test/*.myr') + glob.glob(REPO + '/lib/*/*.myr') + glob.glob(REPO + '/lib/*/test/*.myr') + glob.glob(REPO + '/mbld/*.myr')):
        t = open(f, encoding='latin1').read()
        if len(t) < 30000:
            corpus.append((os.path.relpath(f, REPO), t))
    gens = [c02, c04, c05, c06, c07, c08, c09, c14]
    gr = ck.sub('gen')
    progs = []
    for i in range(ck.n(60, 800)):
        g = gr.choice(gens)
        if not hasattr(g, 'gen'):
            continue
        t = g.gen(gr, 'g%d' % i)
        progs.append(('generated %s' % g.__name__[-3:], 'use std\nuse sys\nuse "dio"\n' + t.text() + '\nconst main = {\n' + ''.join('\t%s\n' % l for l in []) + '}\n'))
    jobs = []
    valid = list(corpus)
    ck.sub('pick').shuffle(valid)
    for n, t in valid[:ck.n(250, 10000)] + progs:
        jobs.append(('valid', n, t))
    pool = corpus + progs
    for i in range(ck.n(1200, 40000)):
        r = ck.sub('mut', i)
        n, t = r.choice(pool)
        small = 12000
        while len(t) > small:
            n, t = r.choice(pool)
        jobs.append(('mutated', n, (semantic if r.random() < .75 else lexical)(r, t)))
    for i in range(ck.n(56, 700)):
        jobs.append(('special', 'special %d' % (i % 14), special(ck.sub('sp', i), i)))

    # the programs' own "use" files: without them a use is just an error
    def one(j):
        d = '%s/%s' % (top, hashlib.sha1(('%s%d' % (jobs[j][2], j)).encode('latin1')).hexdigest()[:16])
        os.makedirs(d)
        try:
            return run_one(san.mc, inc, d, jobs[j][2])
        finally:
            shutil.rmtree(d)
    for j, (kind, bad) in zip(range(len(jobs)), pmap(one, range(len(jobs)))):
        what, name, text = jobs[j]
        ck.saw((what, hashlib.sha1(text.encode('latin1')).hexdigest()))
        ck.count('%s inputs: %s' % (what, kind))
        if bad:
            ck.violation(bad[0], '%s (%s)\n%s' % (name, what, bad[1]), {'m.myr': text.encode('latin1')})
    ck.rule = 'the sanitized compiler exits 0 with an object, or 1 with a diagnostic and no object; no sanitizer report, signal or abort'
