"""C32: file helpers under clamped and failing system calls, and on generated file trees, against the file system itself."""
import os
import socket
import stat
import subprocess
from vf.core import *
from vf.build import Tree

TECH = 'runtime monitoring: the helpers run with short and failing system calls injected at the system-call stub, on generated trees (links, loops, odd names, special files); every outcome is compared with the file system before and after'
NOTE = 'transfers up to 300 kB, directories up to 1500 entries, trees up to 60 nodes; runs as an unprivileged user inside a scratch directory'

NOBODY = 65534


def demote():
    os.setgroups([])
    os.setgid(NOBODY)
    os.setuid(NOBODY)
    os.umask(0o022)


def own(*ps):
    for p in ps:
        os.lchown(p, NOBODY, NOBODY)


def shim():
    o = os.path.join(scratch(), 'sysfault.o')
    p = subprocess.run(['gcc', '-c', '-O1', '-fno-stack-protector', '-fno-pic', '-mno-sse', '-o', o,
                        os.path.join(VERIF, 'csrc/sysfault.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError('sysfault.c: ' + p.stdout.decode()[-500:])
    return o


def plan(r):
    k = r.random()
    if k < .15:
        return ''
    n = r.choice([1, 2, 5, 30, 300, 3000])
    v = [r.choice([0, 1, 2, 7, 100, 4095, 4096, 4097]) if r.random() < .8 else r.randint(1, 9000) for _ in range(n)]
    if k < .3:
        v = [r.choice([1, 3, 1000])] * n
    if r.random() < .35:
        v[r.randrange(min(n, 12))] = r.choice([-4, -5, -5, -28, -11])
    return ' ' + ' '.join(map(str, v))


SIZES = [0, 1, 2, 15, 16, 2047, 2048, 2049, 4095, 4096, 4097, 6144, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072]


def data(r):
    n = r.choice(SIZES) if r.random() < .6 else int(2 ** (r.random() * 18))
    return r.randbytes(n)


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def outcome(t):
    """(hits, last injected error, status, rest)"""
    return int(t[0]), -int(t[1]), t[2], t[3:]


def transfers(ck, d, n, r, tag):
    base = os.path.join(scratch(), 'c32-' + tag)
    os.mkdir(base)
    own(base)
    cases = []
    for i in range(n):
        p = os.path.join(base, 'f%d' % i)
        k = r.choice('ssffrrwwwbbB')
        old = data(r)
        pl = plan(r)
        mk = r.random()
        if k in 'sfr' or mk < .6:
            with open(p, 'wb') as f:
                f.write(old)
            os.chmod(p, 0o640)
            own(p)
            was = old
        elif mk < .65:
            os.mkdir(p)
            own(p)
            was = None if k == 'b' else 0
        else:
            was = b'' if k != 'b' else 1
        if was == 0:
            continue
        if k == 'b' and r.random() < .1:
            p = os.path.join(p, 'x', 'y')
            was = None
        h = hx(p)
        if k == 's':
            c = 's %s%s' % (h, pl)

            def judge(t, was=was, p=p):
                hits, e, st, rest = outcome(t)
                if st == 'ok':
                    if e and e != 4:
                        return 'reports success although error %d was returned' % e
                    return None if unhx(rest[0]) == was else 'returned %d bytes that are not the file (%d bytes)' % (len(unhx(rest[0])), len(was))
                return None if e and abs(int(rest[0])) == e else 'reported error %s but the injected one was %d' % (rest[0], e)
        elif k == 'f':
            off = r.choice([0, 0, 1, len(was) // 2, len(was)]) if was else 0
            c = 'f %s %d%s' % (h, off, pl)

            def judge(t, was=was[off:], p=p):
                hits, e, st, rest = outcome(t)
                if st == 'ok':
                    if e and e != 4:
                        return 'reports success although error %d was returned' % e
                    return None if unhx(rest[0]) == was else 'returned %d bytes that are not the rest of the file (%d bytes)' % (len(unhx(rest[0])), len(was))
                return None if e and abs(int(rest[0])) == e else 'reported error %s but the injected one was %d' % (rest[0], e)
        elif k == 'r':
            m = r.choice([0, len(was), len(was), len(was) + 1, max(0, len(was) - 1), r.randint(0, 2 * len(was) + 10)])
            c = 'r %s %d%s' % (h, m, pl)

            def judge(t, was=was, m=m, p=p):
                hits, e, st, rest = outcome(t)
                if st == 'ok':
                    if e and e != 4:
                        return 'reports success although error %d was returned' % e
                    want = min(m, len(was))
                    if int(rest[0]) != want:
                        return 'read %s bytes of %d' % (rest[0], want)
                    return None if unhx(rest[1]) == was[:want] + b'\xee' * (m - want) else 'the bytes are not those of the file'
                return None if e and abs(int(rest[0])) == e else 'reported error %s but the injected one was %d' % (rest[0], e)
        elif k == 'w':
            b = data(r)
            c = 'w %s %s%s' % (h, hx(b), pl)

            def judge(t, was=was, b=b, p=p):
                hits, e, st, rest = outcome(t)
                now = rd(p)
                if st == 'ok':
                    if e and e != 4:
                        return 'reports success although error %d was returned' % e
                    if int(rest[0]) != len(b):
                        return 'reports %s bytes of %d' % (rest[0], len(b))
                    return None if now == was + b else 'the file does not hold what was written'
                if not e or abs(int(rest[0])) != e:
                    return 'reported error %s but the injected one was %d' % (rest[0], e)
                k = int(rest[1])
                return None if now == was + b[:k] else 'reports %d bytes written before the error, the file grew by %d' % (k, len(now) - len(was))
        elif k == 'b':
            b = data(r)
            perm = r.choice([0o644, 0o600, 0o755, 0o666])
            c = 'b %s %s %d%s' % (h, hx(b), perm, pl)

            def judge(t, was=was, b=b, p=p, perm=perm):
                e, st = -int(t[1]), t[2]
                if was is None:
                    return 'reports success without a file to write' if st == '1' else None
                now = rd(p)
                if st == '1':
                    if e and e != 4:
                        return 'reports success although error %d was returned' % e
                    if now != b:
                        return 'the file holds %d bytes that are not the %d given' % (len(now), len(b))
                    md = os.stat(p).st_mode & 0o7777
                    want = 0o640 if isinstance(was, bytes) else perm & ~0o022
                    return None if md == want else 'mode %o instead of %o' % (md, want)
                if not e:
                    return 'reports failure without any'
                return None if b.startswith(now) else 'holds something other than a prefix after a failure'
        else:
            b = data(r)
            c = 'B %s %s%s' % (h, hx(b), pl)

            def judge(t, was=was, b=b, p=p):
                e, st = -int(t[1]), t[2]
                now = rd(p)
                if st == '1':
                    if e and e != 4:
                        return 'reports success although error %d was returned' % e
                    return None if now == was + b else 'the file does not hold what was written'
                if not e:
                    return 'reports failure without any'
                return None if (was + b).startswith(now) and now.startswith(was) else 'holds something other than a prefix after a failure'
        cases.append((k, c, judge))
    outs = d.batch([c for _, c, _ in cases], 60, base, None, preexec=demote)
    for (k, c, judge), o in zip(cases, outs):
        ck.saw(c[:3] + tag + str(len(c)) + o[:40], c[:200] + ' -> ' + o[:120])
        if o.startswith('!'):
            if o != '!skipped':
                ck.violation('crash ' + k, '%s: %s' % (c[:300], o[:300]), {'cmd.txt': c})
            continue
        t = o.split()
        try:
            ck.count('short or failed calls injected', int(t[0]))
            ck.count('transfers with an injected error', int(t[1] != '0'))
            w = judge(t)
        except (ValueError, IndexError, OSError) as x:
            w = 'malformed answer or missing file: %s' % x
        ck.count('op ' + {'s': 'slurp', 'f': 'fslurp', 'r': 'readall', 'w': 'writeall', 'b': 'blat', 'B': 'fblat'}[k])
        if w:
            ck.violation('%s: %s' % (k, w.split(' ')[0]), '%s\nanswer %s\n%s' % (c[:600], o[:200], w), {'cmd.txt': c})
    wipe(base)


def wipe(base):
    for dp, ds, fs in os.walk(base):
        os.chmod(dp, 0o755)
    subprocess.run(['rm', '-rf', '--one-file-system', base], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


BAD = set(b'/\0')


def name(r):
    k = r.random()
    if k < .4:
        return ('n%d' % r.randrange(10**6)).encode()
    if k < .5:
        return r.choice([b'...', b'.h', b'..a', b'.', b'a ', b' ', b'-rf', b'*', b'x\n', b'~', b'a.b.c', b'$HOME', b'..b..', b'..', b'\\']).replace(b'\n', b'N')
    n = r.choice([1, 2, 3, 8, 30, 100, 254, 255])
    return bytes(x if x not in BAD else 65 for x in r.randbytes(n))


def names(r, n):
    s = set()
    while len(s) < n:
        x = name(r)
        if x not in (b'.', b'..'):
            s.add(x)
    return sorted(s)


def dirs(ck, d, n, r, tag):
    base = os.path.join(scratch(), 'c32d-' + tag)
    os.mkdir(base)
    cases = []
    for i in range(n):
        p = os.path.join(base, 'd%d' % i).encode()
        m = r.choice([0, 1, 2, 5, 40, 120, r.randint(0, 500), 1500 if i % 7 == 0 else 3])
        os.mkdir(p)
        ns = names(r, m)
        for x in ns:
            q = os.path.join(p, x)
            k = r.random()
            if k < .8:
                open(q, 'wb').close()
            elif k < .9:
                os.mkdir(q)
            else:
                os.symlink(b'/nonexistent', q)
        pl = ''.join(' %d' % r.choice([0, 280, 281, 300, 512, 1000, 5000]) for _ in range(r.choice([0, 3, 50, 400])))
        cases.append(('d %s%s' % (hx(p), pl), sorted(ns)))
        cases.append(('D %s%s' % (hx(p), pl), sorted(ns + [b'.', b'..'])))
    outs = d.batch([c for c, _ in cases], 60, base, None, preexec=demote)
    for (c, want), o in zip(cases, outs):
        ck.saw(c + tag, '%s (%d entries)' % (c[:60], len(want)))
        ck.count('op directory listing')
        ck.count('directory entries read', len(want))
        if o.startswith('!'):
            if o != '!skipped':
                ck.violation('crash ' + c[0], '%s: %s' % (c[:300], o[:300]), {'cmd.txt': c})
            continue
        got = sorted(unhx(x) for x in o.split()) if not o.startswith('err') else None
        if got != want:
            ck.violation('directory listing', '%s\nlisted %s entries, the directory has %d; differing: %s' % (
                c[:300], len(got) if got is not None else 'no', len(want), sorted(set(got or []) ^ set(want))[:4]), {'cmd.txt': c})
    wipe(base)


def snap(root):
    """path -> what lies there, without following links"""
    out = {}
    todo = [root]
    while todo:
        p = todo.pop()
        try:
            st = os.lstat(p)
        except OSError:
            continue
        if stat.S_ISDIR(st.st_mode):
            out[p] = ('dir', st.st_mode)
            todo += [os.path.join(p, x) for x in os.listdir(p)]
        elif stat.S_ISLNK(st.st_mode):
            out[p] = ('link', os.readlink(p))
        elif stat.S_ISREG(st.st_mode):
            out[p] = ('file', st.st_mode, rd(p))
        else:
            out[p] = ('special', stat.S_IFMT(st.st_mode))
    return out


def mktree(r, base):
    """A random tree below base: directories, files, hard links, symbolic links of every kind, special files."""
    ds = [base]
    files, nodes = [], []
    for i in range(r.choice([0, 1, 3, 10, 25, 60])):
        p = os.path.join(r.choice(ds[-4:] if r.random() < .5 else ds), name(r))
        if os.path.lexists(p) or p.endswith((b'/.', b'/..')) or len(p) > 3000:
            continue
        k = r.random()
        if k < .35:
            os.mkdir(p)
            ds.append(p)
        elif k < .6:
            with open(p, 'wb') as f:
                f.write(b'content %d' % i)
            files.append(p)
        elif k < .68 and files:
            os.link(r.choice(files), p)
        elif k < .9:
            tgt = r.choice([r.choice(ds), r.choice(ds), r.choice(files or ds), b'.', b'..', b'nowhere', os.path.relpath(r.choice(ds), os.path.dirname(p)), p,
                            os.path.join(base, b'..', b'out'), os.path.join(base, b'..', b'out', b'sub')])
            os.symlink(tgt, p)
        elif k < .95:
            os.mkfifo(p)
        else:
            s = socket.socket(socket.AF_UNIX)
            try:
                s.bind(p)
            except OSError:
                continue
            finally:
                s.close()
        nodes.append(p)
        own(p)
    return ds, nodes


def dirid(p):
    st = os.stat(p)
    return st.st_dev, st.st_ino


def walkable(root):
    """(directory identity, entry) pairs a walk has to report: everything that is not a directory, links followed, each directory once"""
    seen, want = set(), set()
    todo = [root]
    while todo:
        p = todo.pop()
        i = dirid(p)
        if i in seen:
            continue
        seen.add(i)
        st = os.stat(p)
        if st.st_mode & 0o500 != 0o500:
            continue
        for x in os.listdir(p):
            q = os.path.join(p, x)
            if os.path.isdir(q):
                todo.append(q)
            else:
                want.add((i, x))
    return want


def trees(ck, d, r, tag):
    top = os.path.join(scratch(), 'c32t-' + tag).encode()
    os.mkdir(top)
    out = os.path.join(top, b'out')
    os.makedirs(os.path.join(out, b'sub'))
    for q in (b'keep', b'sub/keep2'):
        with open(os.path.join(out, q), 'wb') as f:
            f.write(b'outside')
    base = os.path.join(top, b'in')
    os.mkdir(base)
    own(top, out, os.path.join(out, b'sub'), os.path.join(out, b'keep'), os.path.join(out, b'sub/keep2'), base)
    ds, nodes = mktree(r, base)
    wd = base.decode('latin1').encode('latin1')

    def bad(sig, msg, c=''):
        ck.violation(sig, '%s\n%s' % (msg, c[:500]), {'cmd.txt': c, 'tree.txt': '\n'.join('%r %r' % x for x in sorted(snap(top).items()))})

    def call(c):
        o = d.batch([c], 30, wd, None, preexec=demote)[0]
        ck.count('op ' + {'W': 'walk', 'R': 'rmrf', 'x': 'remove', 'k': 'mkpath', 'q': 'queries'}[c[0]])
        ck.saw(c + tag, c[:200] + ' -> ' + o[:100])
        if o.startswith('!'):
            bad('crash ' + c[0], o[:300], c)
            return None
        return o.split()

    def form(p):
        if r.random() < .3 and p.startswith(base + b'/'):
            return p[len(base) + 1:].lstrip(b'/') or b'.'
        return p

    # walking
    for _ in range(2):
        root = r.choice(ds + [base])
        got = call('W %s%s' % (hx(form(root)), r.choice(['', ' 280 280 280 280', ' 300' * 100])))
        if got is not None:
            pairs = []
            for g in got:
                p = os.path.join(wd, unhx(g))
                try:
                    pairs.append((dirid(os.path.dirname(p)), os.path.basename(p)))
                except OSError:
                    bad('walk reports what is not there', repr(p))
            want = walkable(root)
            ck.count('entries walked', len(want))
            if len(set(pairs)) != len(pairs):
                bad('walk repeats an entry', repr([x for x in pairs if pairs.count(x) > 1][:3]))
            elif set(pairs) != want:
                bad('walk is wrong', 'missing %r, extra %r' % (sorted(want - set(pairs))[:3], sorted(set(pairs) - want)[:3]), 'root %r' % root)
    # queries
    qs = r.sample(nodes, min(5, len(nodes))) + [base, os.path.join(base, b'none')]
    for p in qs:
        try:
            if r.random() < .5:
                t = r.choice([0, r.randrange(2**33 * 10**9), -r.randrange(10**18), 1_000_000_999])
                os.utime(p, ns=(t, t))
        except OSError:
            pass
        got = call('q ' + hx(form(p)))
        if got is None:
            continue
        try:
            st = os.stat(p)
            want = ['1', str(int(stat.S_ISDIR(st.st_mode))), str(int(stat.S_ISREG(st.st_mode))), str(st.st_size), str(st.st_mtime_ns // 1000)]
        except OSError:
            want = ['0', '0', '0', 'err', 'err']
            got = got[:4] + got[5:6] if len(got) == 7 else got
        if got != want:
            bad('query', '%r: %s instead of %s' % (p, got, want))
    # making paths
    for _ in range(3):
        par = r.choice(ds + nodes if nodes else ds)
        comps = [r.choice([b'a', b'b', b'c', b'..', b'.', b'', b'dd', b'e' * 255]) for _ in range(r.randint(0, 5))]
        p = b'/'.join([par] + comps)
        assert p.startswith(base)
        if len(p) > 3500:
            continue
        p = form(p)
        full = os.path.join(wd, p)
        before = snap(top)
        got = call('k ' + hx(p))
        if got is None:
            continue
        after = snap(top)
        if (got[0] == '0') != os.path.isdir(full):
            bad('mkpath result', 'mkpath %r answered %s but the path %s a directory' % (p, got[0], 'is' if os.path.isdir(full) else 'is not'))
        elif any(after.get(k) != v for k, v in before.items()):
            bad('mkpath changed something', 'mkpath %r' % p)
        else:
            allowed = set()
            for i in range(1, len(full) + 1):
                if i == len(full) or full[i:i + 1] == b'/':
                    try:
                        allowed.add(os.path.realpath(full[:i]))
                    except OSError:
                        pass
            extra = [k for k in after if k not in before and os.path.realpath(k) not in allowed]
            if extra:
                bad('mkpath created something else', 'mkpath %r made %r' % (p, extra[:3]))
        try:
            os.makedirs(full, exist_ok=True)
            can = True
        except OSError:
            can = False
        if can and got[0] != '0' and b'..' not in comps:
            bad('mkpath refuses', 'mkpath %r answered %s' % (p, got[0]))
    # removing one thing
    for p in r.sample(nodes, min(4, len(nodes))) + [os.path.join(base, b'none')]:
        if not os.path.lexists(p):
            if p != os.path.join(base, b'none'):
                continue
        before = snap(top)
        isd = before.get(p, ('',))[0] == 'dir'
        want = p in before and not (isd and os.listdir(p))
        got = call('x ' + hx(form(p)))
        if got is None:
            continue
        after = snap(top)
        if got[0] != str(int(want)):
            bad('remove result', 'remove %r (%s) answered %s' % (p, before.get(p, ('nothing',))[0], got[0]))
        if want:
            before.pop(p)
        if after != before:
            bad('remove touched something else', 'remove %r: %r' % (p, sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))[:3]))
    # removing subtrees
    for _ in range(r.choice([1, 2, 4])):
        live = [p for p in nodes if os.path.lexists(p)]
        p = r.choice(live + [base, os.path.join(base, b'none')]) if r.random() < .8 else base
        ro = None
        sub = [q for q in live if q.startswith(p + b'/') and os.path.isdir(q) and not os.path.islink(q) and os.listdir(q)]
        if sub and r.random() < .25:
            ro = r.choice(sub)
            os.chmod(ro, r.choice([0o555, 0o444, 0o000]))
        before = snap(top)
        isd = before.get(p, ('',))[0] == 'dir'
        got = call('R %s%s' % (hx(form(p) + (b'/' if isd and r.random() < .2 else b'')), r.choice(['', ' 280 280 280 280'])))
        if ro and os.path.isdir(ro):
            os.chmod(ro, 0o755)
        if got is None:
            continue
        after = snap(top)
        inside = {k for k in before if k == p or k.startswith(p + b'/')}
        ck.count('entries removed recursively', len(inside - set(after)))
        touched = [k for k in set(before) | set(after) if k not in inside and before.get(k) != after.get(k)]
        if touched:
            bad('rmrf touched something outside', 'rmrf %r (%s): %r' % (p, before.get(p), sorted(touched)[:3]))
        want = p in before and not ro
        if got[0] != str(int(want)):
            bad('rmrf result', 'rmrf %r (%s) answered %s%s' % (p, before.get(p, ('nothing',))[0], got[0], ' with an undeletable directory inside' if ro else ''))
        if want and inside & set(after):
            bad('rmrf left something', 'rmrf %r left %r' % (p, sorted(inside & set(after))[:3]))
        if ro:
            kept = {k for k in inside if k == ro or os.path.dirname(k) == ro or ro.startswith(k + b'/')}
            if not kept <= set(after):
                bad('rmrf removed the undeletable', repr(ro))
        if p == base and not os.path.lexists(base):
            break
    wipe(top.decode())


def temps(ck, d, n, r, tag):
    base = os.path.join(scratch(), 'c32m-' + tag)
    tmp = os.path.join(base, 'tmpdir')
    os.makedirs(tmp)
    own(base, tmp)
    env = dict(clean_env(), TMPDIR=tmp, HOME='/some/home')
    cmds = []
    for _ in range(n):
        k = r.choice('tT')
        dr = r.choice(['', base, base + '/', '.', os.path.join(base, 'missing')])
        b = r.choice(['', 'x', 'pre-', 'a.b', 'y' * 200])
        mode = r.choice([0o600, 0o644]) if k == 't' else r.choice([0o700, 0o755])
        cmds.append((k, dr, b, mode, '%s %s %s %d' % (k, hx(dr), hx(b), mode)))
    cmds += [('p', '', b, 0, 'p ' + hx(b)) for b in ('', 'q', 'long' * 20)] + [('h', '', '', 0, 'h')]
    outs = d.batch([c[-1] for c in cmds], 30, base, env, preexec=demote)
    seen = set()
    for (k, dr, b, mode, c), o in zip(cmds, outs):
        ck.saw(c + tag + o, c + ' -> ' + o[:150])
        ck.count('op temporary names')
        w = None
        t = o.split()
        if o.startswith('!'):
            w = o[:300] if o != '!skipped' else None
        elif k == 'h':
            w = None if [unhx(x).decode() for x in t] == [tmp, '/some/home'] else 'tmpdir, homedir: %s' % o
        elif k == 'p':
            p = unhx(t[0]).decode()
            w = None if t[1] == '0' and os.path.dirname(p) == tmp and os.path.basename(p).startswith(b) and not os.path.lexists(p) else 'bad temporary path %r %s' % (p, t[1])
        elif dr.endswith('missing'):
            w = None if t[0] == 'err' and abs(int(t[1])) == 2 else 'answered %s for a missing directory' % o
        elif t[0] != 'ok':
            w = 'failed: ' + o
        else:
            p = os.path.join(base, unhx(t[1]).decode())
            st = os.lstat(p) if os.path.lexists(p) else None
            if st is None:
                w = 'names %r, which does not exist' % p
            elif os.path.realpath(os.path.dirname(p)) != os.path.realpath(os.path.join(base, dr or tmp)):
                w = 'made %r, not in %r' % (p, dr or tmp)
            elif not os.path.basename(p).startswith(b) or p in seen:
                w = 'made %r' % p
            elif stat.S_IMODE(st.st_mode) != mode or (stat.S_ISDIR(st.st_mode) != (k == 'T')):
                w = 'mode %o' % st.st_mode
            elif k == 't' and rd(p) != unhx(t[1]):
                w = 'the descriptor does not belong to the file'
            seen.add(p)
        if w:
            ck.violation('temporary ' + k, '%s: %s' % (c, w), {'cmd.txt': c})
    have = {os.path.join(dp, x) for dp, dd, ff in os.walk(base) for x in dd + ff} - {tmp}
    if {os.path.realpath(p) for p in seen} != {os.path.realpath(p) for p in have} and not any(o.startswith('!') for o in outs):
        ck.violation('temporary files left behind', '%s' % sorted(have ^ seen)[:4])
    wipe(base)


def check(ck):
    tree = Tree('all')
    d = Driver(ck, tree, 'c32', extra_src=('vfs.myr',), link=[shim(), '--wrap=sys$syscall'])
    os.chmod(scratch(), 0o755)
    for p in (d.dir, d.exe):
        os.chmod(p, 0o755)
    n = ck.n(16, 200)
    jobs = [lambda i=i: transfers(ck, d, 60, ck.sub('x%d' % i), 'x%d' % i) for i in range(n)]
    jobs += [lambda i=i: dirs(ck, d, 8, ck.sub('d%d' % i), 'd%d' % i) for i in range(ck.n(8, 80))]
    jobs += [lambda i=i: trees(ck, d, ck.sub('t%d' % i), 't%d' % i) for i in range(ck.n(180, 5000))]
    jobs += [lambda i=i: temps(ck, d, 40, ck.sub('m%d' % i), 'm%d' % i) for i in range(ck.n(6, 60))]
    pmap(lambda f: f(), jobs)
    ck.rule = ('transfer results and file contents equal the bytes given whatever the injected split or error; listings, walks and removals '
               'equal what the file system held before, and nothing outside the named tree changes')
