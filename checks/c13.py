"""C13: compilation is deterministic."""
import ctypes, hashlib, os, re, shutil, subprocess
from vf.build import Tree, pmap, clean_env
from vf.core import VERIF, scratch, Inconclusive
from vf.progs import Packer
from checks import c02, c04, c05, c08, c09, c11, c14

TECH = 'runtime monitoring: each source is compiled several times under different address layouts, heap contents and thresholds, environments, directory depths and orders; the assembly, use file and object bytes are compared'
NOTE = 'library sources and generated programs, alone and as packages merged by muse; object files are compared without debug information where the working directory differs, as it records the directory; source positions in assembly comments, which are cut to a fixed length, are ignored'

LIBC = ctypes.CDLL(None, use_errno=True)


def noaslr():
    LIBC.personality(0x0040000)


def big():
    import resource
    resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))


VARIANTS = [
    ({}, None),
    ({'MALLOC_PERTURB_': '165', 'JUNK': 'x' * 50000, 'HOME': '/nonexistent/a/b'}, None),
    ({'MALLOC_PERTURB_': '51', 'GLIBC_TUNABLES': 'glibc.malloc.mmap_threshold=2048:glibc.malloc.tcache_count=0', 'LC_ALL': 'C'}, big),
    ({'GLIBC_TUNABLES': 'glibc.malloc.perturb=255:glibc.malloc.top_pad=9000000', 'A': '1', 'TZ': 'Asia/Tokyo'}, noaslr),
    ({'MALLOC_PERTURB_': '1', 'MALLOC_TOP_PAD_': '1', **{'V%d' % i: 'y' * i for i in range(200)}}, None),
]


def read(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except OSError:
        return None


def compile(tree, root, src, obj, v, flags=(), timeout=60):
    """one compilation with cwd root; returns {kind: bytes} and how it ended"""
    env, pre = VARIANTS[v]
    base = obj[:-2]
    for s in ('.s', '.use', '.o'):
        if os.path.exists(os.path.join(root, base + s)):
            os.unlink(os.path.join(root, base + s))
    p = subprocess.run([tree.mc, '-S'] + list(flags) + ['-o', obj, src], cwd=root, env=clean_env(env, tmp=tree.tmp()), preexec_fn=pre,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
    out = {'status': str(p.returncode).encode(), 'messages': p.stdout}
    for s in ('.s', '.use', '.o'):
        out[s] = read(os.path.join(root, base + s))
    if out['.s'] is not None:
        out['.s'] = re.sub(rb'(?m)^\t#.*\n', b'', out['.s'].replace(root.encode(), b'ROOT'))
    if out['.o'] is not None:
        q = subprocess.run(['objcopy', '-g', base + '.o', base + '.x'], cwd=root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out['.o'] = read(os.path.join(root, base + '.x')) if q.returncode == 0 else b'objcopy: ' + q.stdout
        if q.returncode == 0:
            os.unlink(os.path.join(root, base + '.x'))
    return out


def differs(outs):
    for v, o in enumerate(outs[1:], 1):
        for k in o:
            if o[k] != outs[0][k]:
                a, b = outs[0][k], o[k]
                if a is None or b is None:
                    return k, 'only one of the two compilations wrote the %s file (variant %d)' % (k, v)
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return k, 'variant %d: %d and %d bytes, first difference at %d:\n%r\n%r' % (v, len(a), len(b), i, a[max(0, i - 80):i + 80], b[max(0, i - 80):i + 80])
    return None


def roots(tree, tag):
    """one working directory per variant, at different depths, with the use files of the tree"""
    out = []
    for v in range(len(VARIANTS)):
        d = os.path.join(scratch(), 'c13' + tag + '/'.join(['', 'r', 'deep/deeper/%s' % ('d' * 60), 'x', 'y/z', 'q' * 30][v:v + 1]) + str(v))
        os.makedirs(d)
        if tag == 'lib':
            os.symlink(os.path.join(tree.root, 'lib'), d + '/lib')
            for r, ds, fs in os.walk(os.path.join(tree.root, 'obj')):
                for f in fs:
                    if f.endswith('.use'):
                        p = os.path.join(d, os.path.relpath(os.path.join(r, f), tree.root))
                        os.makedirs(os.path.dirname(p), exist_ok=True)
                        shutil.copy(os.path.join(r, f), p)
        else:
            for f in ('dio.use',):
                shutil.copy(os.path.join(scratch(), 'progs-c13', f), d)
        out.append(d)
    return out


def check(ck):
    tree = Tree('all')
    # library files
    rs = roots(tree, 'lib')
    libs = []
    for r, ds, fs in os.walk(os.path.join(tree.root, 'obj/lib')):
        for f in sorted(fs):
            src = os.path.relpath(os.path.join(r, f[:-4] + '.myr'), os.path.join(tree.root, 'obj'))
            if f.endswith('.use') and os.path.exists(os.path.join(tree.root, src)):
                libs.append(src)
    libs.sort()
    rnd = ck.sub('lib')
    rnd.shuffle(libs)
    libs = libs[:ck.n(60, len(libs))]

    def lib(src):
        l = src.split('/')[1]
        flags = []
        for d in sorted(os.listdir(os.path.join(tree.root, 'obj/lib'))):
            if d != l:
                flags += ['-I', 'obj/lib/' + d]
        outs = []
        for v, root in enumerate(rs):
            # the output goes beside links to the other use files of its package
            o = 'obj/' + src[:-4] + '.use'
            priv = os.path.join(root, 'priv', src.replace('/', '_'))
            os.makedirs(priv, exist_ok=True)
            top = 'obj/lib/' + l
            for r, ds, fs in os.walk(os.path.join(root, top)):
                for f in fs:
                    p = os.path.join(priv, os.path.relpath(os.path.join(r, f), os.path.join(root, top)))
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    os.symlink(os.path.join(r, f), p)
            x = compile(tree, root, src, os.path.relpath(os.path.join(priv, os.path.relpath(o[:-4] + '.o', top)), root), v, flags)
            shutil.rmtree(priv)
            outs.append(x)
        return src, outs
    n = 0
    for src, outs in pmap(lib, libs):
        ck.saw(src)
        ck.count('compilations', len(outs))
        ck.count('library files compiled', outs[0]['status'] == b'0')
        n += outs[0]['status'] == b'0'
        ck.count('bytes of assembly compared', len(outs[0]['.s'] or b'') * (len(outs) - 1))
        bad = differs(outs)
        if bad:
            ck.violation('%s of %s' % (bad[0], src), bad[1])
    if n < len(libs) * .8:
        raise Inconclusive('%d of %d library files compile: %s' % (n, len(libs), outs[0]['messages'][-300:]))

    # generated programs
    pk = Packer(ck, tree, 'c13')
    gs = roots(tree, 'gen')
    gens = [(c02, 'f'), (c04, 'v'), (c05, 'm'), (c08, 'c'), (c09, 'g'), (c14, 'i')]

    def prog(i):
        r = ck.sub('g', i)
        tests = []
        for k in range(4):
            m, n = r.choice(gens)
            tests.append(m.gen(r, '%s%dx%d' % (n, i, k)))
        text = pk.source(tests)
        outs = []
        for v, root in enumerate(gs):
            with open(os.path.join(root, 'p%d.myr' % i), 'w') as f:
                f.write(text)
            outs.append(compile(tree, root, 'p%d.myr' % i, 'p%d.o' % i, v, tree.incdirs()))
            for s in ('.s', '.o', '.use', '.myr'):
                if os.path.exists(os.path.join(root, 'p%d%s' % (i, s))):
                    os.unlink(os.path.join(root, 'p%d%s' % (i, s)))
        return text, outs
    for text, outs in pmap(prog, range(ck.n(60, 1500))):
        ck.saw(hashlib.blake2b(text.encode()).hexdigest())
        ck.count('compilations', len(outs))
        ck.count('generated programs compiled', outs[0]['status'] == b'0')
        ck.count('bytes of assembly compared', len(outs[0]['.s'] or b'') * (len(outs) - 1))
        bad = differs(outs)
        if bad:
            ck.violation('%s of a generated program' % bad[0], bad[1], {'p.myr': text})

    # a package of several files: the merged use file depends on the files and their order alone
    dio = c11.diolib(tree)

    def package(i):
        r = ck.sub('p', i)
        test = c09.gen(r, 'g%d' % i)
        items = c11.split(test.decls)
        for it in items:
            it.exp, it.refs = True, set(c11.refs(it.text))
        comps = c11.order(r, items)
        k = len(comps) // 2
        m = [('pk', 'a', [x for c in comps[:k] for x in c]), ('pk', 'b', [x for c in comps[k:] for x in c])]
        for mm in m:
            for it in mm[2]:
                it.mod = mm
        owner = {n: it for it in items for n in it.names}
        st = r.getrandbits(32)
        res, texts = [], {}
        import random
        for v in range(len(VARIANTS)):
            d = tree.tmp()
            shutil.copytree(dio, d + '/lib/dio')
            out = {}
            rr = random.Random(st)
            for mm in m:
                t, _ = c11.render(rr, m, mm, owner, None)
                texts[mm[1] + '.myr'] = t
                open(d + '/%s.myr' % mm[1], 'w').write(t)
                o = compile(tree, d, mm[1] + '.myr', mm[1] + '.o', v, tree.incdirs() + ['-I', 'lib/dio'])
                out.update({mm[1] + k: x for k, x in o.items()})
            env, pre = VARIANTS[v]
            p = subprocess.run([tree.muse, '-o', 'pk.use', '-p', 'pk', 'a.use', 'b.use'], cwd=d, env=clean_env(env), preexec_fn=pre,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=60)
            out['muse'] = p.stdout + str(p.returncode).encode()
            out['pk.use'] = read(d + '/pk.use')
            shutil.rmtree(d)
            res.append(out)
        return texts, res
    for texts, outs in pmap(package, range(ck.n(20, 500))):
        ck.saw(tuple(sorted(texts.items())))
        ck.count('compilations', 2 * len(outs))
        ck.count('packages merged', len(outs) if outs[0]['pk.use'] else 0)
        bad = differs(outs)
        if bad:
            ck.violation('%s of a package' % bad[0], bad[1], texts)
    ck.rule = 'all outputs of compilations of the same source, options and use files are the same bytes'
