"""C57: testr programs and mbld test."""
import os, re
from vf.core import *
from vf.build import Tree
from vf.mb import Mb, write

TECH = 'runtime monitoring: generated suites of passing, failing, crashing and exiting cases; the exact protocol output, the reports of mbld test and its exit status are judged'
NOTE = 'cases share one process, so a crash ends its suite (which must then be reported as failed); benchmarks are not judged'


class Case:
    pass


def q(s):
    return '"%s"' % ''.join('\\n' if c == '\n' else '\\' + c if c in '"\\' else c for c in s)


def fmtq(s):
    return q(s.replace('{', '{{').replace('}', '}}'))


def gencase(r, i, plain=False):
    c = Case()
    c.name = r.choice(['case', 'a b', 'x.y', 'é', 'long name of a case', '(paren)', 'tab', 'q"q', '100%', '{brace}']) + str(i)
    body, out = [], ''
    c.end = 'ok'
    c.reason = None

    def noise():
        nonlocal out
        k = r.randrange(6)
        if k == 0:
            t = 'noise %d' % r.randrange(100)
            nl = r.random() < .6
        elif k == 1:
            t, nl = 'x' * r.choice([1, 70, 500, 5000]), True
        elif k == 2:
            t, nl = '', True
        elif k == 3:
            t, nl = 'ok', True
        else:
            return
        body.append('std.put("%s%s")' % (t, '\\n' if nl else ''))
        out += t + ('\n' if nl else '')
    noise()
    kind = r.choice(['pass', 'pass', 'pass', 'checkok', 'eqok', 'check', 'fail', 'eq', 'neq', 'soft', 'softcheck', 'deep', 'streq'] +
                    ([] if plain else ['crash', 'exit0', 'exit3', 'fatal', 'fullexit']))
    if kind in ('crash', 'exit0', 'exit3', 'fatal') and r.random() < .5:
        kind = 'pass'
    c.kind = kind
    n = r.randrange(1000)
    msg = r.choice(['bad %d' % n, 'with {braces} %d' % n, 'é%d' % n, 'two  spaces %d' % n])
    if kind == 'checkok':
        body += ['testr.check(c, %d == %d, "no")' % (n, n), 'testr.ok(c)']
    elif kind == 'eqok':
        body += ['testr.eq(c, %d, %d)' % (n, n), 'testr.neq(c, "a", "b")', 'testr.eq(c, "s%d", "s%d")' % (n, n)]
    elif kind == 'check':
        body += ['testr.check(c, %d == %d, %s)' % (n, n + 1, fmtq(msg)), 'std.put("unreachable\\n")']
        c.reason = msg
    elif kind == 'fail':
        body += ['testr.fail(c, "{} {}", %d, %s)' % (n, q(msg)), 'std.put("unreachable\\n")']
        c.reason = '%d %s' % (n, msg)
    elif kind == 'eq':
        body += ['testr.eq(c, %d, %d)' % (n, n + 1), 'std.put("unreachable\\n")']
        c.reason = '%d != %d\n' % (n, n + 1)
    elif kind == 'neq':
        body += ['testr.neq(c, %d, %d)' % (n, n), 'std.put("unreachable\\n")']
        c.reason = '%d != %d\n' % (n, n)
    elif kind == 'streq':
        body += ['testr.eq(c, "p%d", "q")' % n, 'std.put("unreachable\\n")']
        c.reason = 'p%d != q\n' % n
    elif kind == 'soft':
        body += ['testr.softfail(c, %s)' % fmtq(msg), 'std.put("after\\n")', 'testr.softfail(c, "second")']
        c.reason = msg
        out += 'after\n'
    elif kind == 'softcheck':
        body += ['testr.softfail(c, %s)' % fmtq(msg), 'testr.eq(c, 1, 2)', 'std.put("unreachable\\n")']
        c.reason = msg
    elif kind == 'deep':
        body += ['for var i = 0; i < 10; i++', '\tdive(c, 20, i)', ';;', 'std.put("unreachable\\n")']
        c.reason = 'deep 3'
    elif kind == 'crash':
        body += ['var p : int# = (0 : int#)', 'p# = 1']
        c.end = 'sig'
    elif kind in ('exit0', 'exit3'):
        body += ['std.exit(%s)' % kind[4:]]
        c.end = int(kind[4:])
    elif kind == 'fullexit':
        body += ['std.exit(0)']
        c.end = 0
    elif kind == 'fatal':
        body += ['std.fatal("dead\\n")']
        c.end = 1
    if kind in ('pass', 'checkok', 'eqok'):
        noise()
    c.body = body
    c.out = out
    if c.reason is not None:
        c.end = 'fail'
    return c


DIVE = '''const dive = {c : testr.ctx#, n : int, i : int
	if n > 0
		dive(c, n - 1, i)
	elif i == 3
		testr.fail(c, "deep {}", i)
	;;
}
'''


class Suite:
    def __init__(self, r, name):
        self.name = name
        self.kind = r.choice(['testr'] * 6 + ['plain'])
        self.banner = r.choice(['', '', '', 'a banner\n', 'line\n' * r.choice([3, 3000])])
        if self.kind == 'plain':
            self.end = r.choice([0, 0, 1, 7, 'sig'])
            self.cases = []
            self.src = 'use std\nconst main = {\n\tvar p : int#\n\tp = (0 : int#)\n\tstd.put("plain\\n")\n\t%s\n}\n' % (
                'p# = 1' if self.end == 'sig' else 'std.exit(%d)' % self.end)
            self.out = 'plain\n'
            return
        calm = r.random() < .55
        self.cases = [gencase(r, i, calm or i < 1) for i in range(r.choice([1, 2, 3, 5, 9]))]
        if r.random() < .35:
            for c in self.cases:
                if c.end != 'ok':
                    d = gencase(r, 0, True)
                    while d.end != 'ok':
                        d = gencase(r, 0, True)
                    d.name = c.name
                    self.cases[self.cases.index(c)] = d
        b = self.banner
        ban = ''
        if b:
            ban = '\tfor var i = 0; i < %d; i++\n\t\tstd.put(%s)\n\t;;\n' % (b.count('\n'), q(b.split('\n')[0] + '\n'))
        self.src = 'use std\nuse testr\n\n' + DIVE + 'const main = {\n' + ban + '\ttestr.run([\n' + ''.join(
            '\t\t[.name=%s, .fn={c : testr.ctx#\n%s\n\t\t}],\n' % (q(c.name), '\n'.join('\t\t\t' + l for l in c.body))
            for c in self.cases) + '\t][:])\n\tstd.put("the end\\n")\n}\n'
        self.end = 0

    def expect(self, only=None):
        """Exact output, cases reported, exit of the program."""
        if self.kind == 'plain':
            return self.out, [], self.end
        o = self.banner + 'MTEST %d\n' % len(self.cases)
        rep = []
        for c in self.cases:
            if only is not None and c.name != only:
                continue
            o += 'test %s <<{!\n' % c.name + c.out
            if c.end == 'ok':
                o += '!}>> ok\n'
                rep.append((c.name, True, ''))
            elif c.end == 'fail':
                o += '!}>> fail %s\n' % c.reason
                rep.append((c.name, False, c.reason.split('\n')[0].strip()))
            else:
                return o, rep, c.end
        return o + 'the end\n', rep, 0

    def passes(self, only=None):
        o, rep, end = self.expect(only)
        if self.kind == 'plain':
            return end == 0
        n = len([c for c in self.cases if only is None or c.name == only])
        return end == 0 and len(rep) == n and all(x[1] for x in rep)


def project(ck, mb, r, i):
    d = os.path.join(mb.tree.tmp(), 'p')
    os.makedirs(d)
    suites = [Suite(r, 's%d' % k) for k in range(r.choice([1, 2, 4]))]
    if r.random() < .3:
        suites = [s for s in suites if s.passes()] or suites
    files = {'bld.proj': 'lib prog =\n%s;;\n' % ''.join('\t%s.myr\n' % s.name for s in suites)}
    for s in suites:
        files[s.name + '.myr'] = 'pkg prog =\n\tconst f%s : (-> int)\n;;\n\nconst f%s = {\n\t-> 1\n}\n' % (s.name, s.name)
        files['test/%s.myr' % s.name] = s.src
    write(d, files)

    def bad(what, detail):
        ck.violation(what, detail, dict(files))

    r1 = mb.run(d, ['test'], timeout=90)
    # the programs on their own
    for s in suites:
        exe = os.path.join(d, 'obj/test', s.name)
        if not os.path.exists(exe):
            return bad('test not built', 'obj/test/%s missing:\n%s' % (s.name, r1.text[-1500:]))
        for only in [None] + [c.name for c in s.cases if r.random() < .2 and ',' not in c.name]:
            p = run([exe], timeout=20, env=clean_env({'MTEST_SUBSET': only} if only else {}))
            out, rep, end = s.expect(only)
            ck.saw((s.src, only))
            ck.count('test programs judged')
            ck.count('cases judged', len(rep))
            got = p.out.decode('utf-8', 'replace')
            if got.replace(p.err.decode('latin1'), '') != out:
                bad('protocol output', 'suite %s subset %s printed\n%s\nexpected\n%s' % (s.name, only, got[-1500:], out[-1500:]))
            if (p.rc != end) if end != 'sig' else p.rc >= 0:
                bad('exit of test program', 'suite %s: exit %s, expected %s' % (s.name, p.rc, end))
    report(ck, r1, suites, None, bad)
    # a selection
    s = r.choice(suites)
    if s.kind == 'testr':
        c = r.choice(s.cases)
        if not re.search(r'[^\w. ()%]', c.name):
            r2 = mb.run(d, ['test', '%s:%s' % (s.name, c.name)], timeout=90)
            report(ck, r2, [s], c.name, bad)


def report(ck, r, suites, only, bad):
    ok = all(s.passes(only) for s in suites)
    ck.count('mbld test runs judged')
    ck.count('mbld test runs expected to %s' % ('pass' if ok else 'fail'))
    text = r.out.decode('utf-8', 'replace')
    if r.timed_out or (r.rc != 0) == ok or r.rc < 0:
        return bad('mbld test status', 'mbld test exited with %s, expected %s:\n%s' % (r.rc, 'success' if ok else 'failure', text[-2500:]))
    got, cur, fails, cnt = {}, None, [], 0
    infail = False
    for l in text.split('\n'):
        m = re.match(r'run obj/test/(\S+): (.*)', l)
        m2 = re.match(r'\trun (.*):\t(PASS|FAIL ?(.*)|)$', l)
        if m:
            cur = m.group(1)
            got[cur] = [m.group(2), []]
        elif l.startswith('FAILURES: '):
            infail, cnt = True, int(l[10:])
        elif infail and l.startswith('\t'):
            fails.append(l.strip())
        elif m2 and cur:
            got[cur][1].append((m2.group(1).strip(), m2.group(2) == 'PASS', (m2.group(3) or '').strip()))
        elif l in ('CRASH', 'FAIL') and cur:
            got[cur][0] = l
        elif re.match(r'(.*)(CRASH|FAIL)$', l) and cur and not l.startswith('TESTS'):
            got[cur][0] = re.match(r'(.*)(CRASH|FAIL)$', l).group(2)
    if ('TESTS PASSED' in text) != ok or ('TESTS FAILED' in text) == ok:
        return bad('mbld test verdict', 'no %s verdict:\n%s' % ('pass' if ok else 'fail', text[-2500:]))
    if sorted(got) != sorted(s.name for s in suites):
        return bad('suites run', 'suites run: %s, expected %s\n%s' % (sorted(got), [s.name for s in suites], text[-2500:]))
    nf = 0
    for s in suites:
        o, rep, end = s.expect(only)
        g = got[s.name]
        if s.kind == 'plain':
            want = 'PASS' if end == 0 else 'CRASH' if end == 'sig' else 'FAIL'
            if g[0] != want:
                bad('suite result', '%s reported as %s, expected %s\n%s' % (s.name, g[0], want, text[-2500:]))
        else:
            # the case a crash interrupted has no result
            res = [x for x in g[1] if x[0]]
            want = [(n.strip(), p, m) for n, p, m in rep]
            have = [(n, p, m.replace('\\{', '{').replace('\\}', '}').replace('\\"', '"')) for n, p, m in res]
            if end != 0 and len(have) == len(want) + 1 and not have[-1][1] and have[-1][2] == '':
                have = have[:-1]
            if [x[:2] for x in have] != [x[:2] for x in want]:
                bad('cases reported', '%s: reported %s, expected %s\n%s' % (s.name, have, want, text[-2500:]))
            if end == 'sig' and g[0] != 'CRASH':
                bad('suite result', '%s crashed but is reported as %r\n%s' % (s.name, g[0], text[-2500:]))
            nf += sum(not x[1] for x in rep)
        if not s.passes(only):
            nf += 1
            if not any(f.endswith('obj/test/' + s.name) for f in fails):
                bad('failure list', 'suite %s is not in the list of failures %s' % (s.name, fails))
        for n, p, m in rep:
            if not p and not any(f.endswith('obj/test/%s/%s' % (s.name, n.strip())) for f in fails):
                bad('failure list', 'case %s of %s is not in the list of failures %s' % (n, s.name, fails))
    if cnt != nf or len(fails) != nf:
        bad('failure count', '%d failures reported, %d listed, expected %d\n%s' % (cnt, len(fails), nf, text[-2500:]))


def check(ck):
    tree = Tree('all')
    mb = Mb(tree)
    r = ck.sub('gen')
    seeds = [r.getrandbits(60) for _ in range(ck.n(70, 1500))]
    import random
    pmap(lambda a: project(ck, mb, random.Random(a[1]), a[0]), list(enumerate(seeds)))
    ck.rule = 'protocol output, cases reported, failure lists, verdict and exit status all match what the cases do'
