"""C39: regex captures and substitutions against the reference matcher of C38."""
from vf.core import *
from checks.c38 import *
from checks import c38


def scase(r):
    root, p, al = pattern(r, r.choice([1, 2, 3, 3, 4]))
    caps = [n for n in nodes(root) if n[0] == 'cap']
    s = r.choice(subjects(r, root, al, 6))
    subst = [r.choice(['', 'X', 'é', '<%d>' % i, 'long replacement text ' * 3, 'a', '\\1']) for i in range(len(caps))]
    return root, p, s, subst


class Spans:
    """Replays a substitution over the spans of iexec/isearch obtained by a second command."""


def apply(b, spans, lo, hi, subst):
    out, off = b'', lo
    for k, sp in enumerate(spans[1:]):
        if sp[0] >= off and sp[1] != -1:
            out += b[off:sp[0]] + subst[k]
            off = sp[1]
    return out + b[off:hi]


def subs(ck, d, cs):
    """sub/suball against the spans that isearch/iexec report for the same pattern."""
    first = d.run(['r %s %s' % (hx(p), hx(s)) for _, p, s, _ in cs], timeout=120)
    cases = []
    for (root, p, s, subst), out in zip(cs, first):
        if out[0] in '!E':
            ck.violation('c38: r %s %s' % (hx(p), hx(s)), 'pattern %s on %r: %s' % (p, s, out[:300]))
            continue
        ncap = len(subst)
        ex, iex, se, ise = parse_results(out, ncap)[0]
        b = s.encode()
        sub = [x.encode() for x in subst]
        m = M(s)
        rel = any(n[0] in ('star', 'plus') and n[2] for n in nodes(root))
        # out of order spans (left over from an earlier iteration) have no definite meaning
        order = [n[1] for n in nodes(root) if n[0] == 'cap']

        def nested(spans):
            cur = 0
            last = spans[0][0]
            act = [x for x in spans[1:] if x[1] != -1]
            return all(x[0] >= y[0] for x, y in zip(act[1:], act))

        def f(ans, iex=iex, ise=ise, b=b, sub=sub, ncap=ncap, m=m, root=root, rel=rel, s=s):
            t = ans.split()
            if t[0] != str(ncap + 1):
                return '%s groups' % t[0]
            if iex is None:
                if t[1] != 'N' or t[2] != '0' or unhx(t[3]) != b'<':
                    return 'sub changed a string that does not match: %s' % ' '.join(t[1:4])
            else:
                if t[1] == 'N' or t[2] != '1' or unhx(t[3]) != b'<' + unhx(t[1]):
                    return 'sub and sbsub disagree or failed: %s' % ' '.join(t[1:4])
                if nested(iex) and unhx(t[1]) != apply(b, iex, 0, len(b), sub):
                    return 'sub gave %r, expected %r' % (unhx(t[1]), apply(b, iex, 0, len(b), sub))
            if unhx(t[5]) != b'>' + unhx(t[4]):
                return 'suball and sbsuball disagree'
            if ncap == 0 and unhx(t[4]) != b:
                return 'suball without groups changed the text'
            if t[6] != 'N':
                sp = list(map(int, t[7:t.index(')', 7)]))
                sp = list(zip(sp[::2], sp[1::2]))
                if ise is None or sp != ise:
                    return 'isearch after the substitutions: %s, before: %s' % (sp, ise)
            elif ise is not None:
                return 'isearch after the substitutions finds nothing'
            return None
        cases.append(('s %s %s %s' % (hx(p), hx(s), ' '.join(hx(x) for x in sub)), f))
    d.check(cases, timeout=120)


def suballs(ck, d, r, n):
    """suball where the successive matches and their groups are unambiguous: a group around the whole match,
    or delimited fields."""
    cases = []
    for _ in range(n):
        root, p, al = pattern(r, r.choice([1, 2, 3, 3]), None)
        k = r.randrange(2)
        if any(x[0] in ('star', 'plus') and x[2] for x in nodes(root)):
            continue
        root = number(('cap', 0, strip(root)))
        p = text(root)
        s = r.choice(subjects(r, root, al, 6))
        rep = r.choice(['', 'X', 'é', '<new>'])
        m = M(s)
        out, i, last = '', 0, -1
        while i <= len(s):
            e = m.ends(root, i)
            if e and not (max(e) == i == last):
                j = max(e)
                out += rep
                last = j
                if j == i:
                    out += s[i:i + 1]
                    i += 1
                else:
                    i = j
            else:
                out += s[i:i + 1]
                i += 1

        def f(ans, out=out):
            t = ans.split()
            if unhx(t[4]) != out.encode():
                return 'suball gave %r, expected %r' % (unhx(t[4]).decode('utf-8', 'replace'), out)
        cases.append(('s %s %s %s' % (hx(p), hx(s), hx(rep)), f))
    d.check(cases, timeout=120)


def strip(n):
    if n[0] == 'cap':
        return ('grp', strip(n[2]))
    return tuple(strip(x) if isinstance(x, tuple) else x for x in n)


def streams(r, n):
    yield 'c38', (), ['s %s %s %s' % (hx(p), hx(s), ' '.join(hx(x) for x in sub)) for _, p, s, sub in (scase(r) for _ in range(n))]


def check(ck):
    d = Driver(ck, Tree('all'), 'c38')
    r = ck.sub('p')
    d.check([rcase(r, True) for _ in range(ck.n(4000, 80000))], timeout=120)
    subs(ck, d, [scase(ck.sub('s%d' % i)) for i in range(ck.n(4000, 60000))])
    suballs(ck, d, ck.sub('a'), ck.n(4000, 60000))
    ck.rule = ('generated patterns and subjects as in C38: spans of every group against the set-of-ends matcher of its sub-pattern, leftmost '
               'start, longest end, greedy/reluctant preference; sub and suball recomputed from the reported spans, suball of whole-match groups '
               'recomputed from the reference matcher')


TECH = 'runtime monitoring: reference matcher and substitution model as oracles over generated patterns'
NOTE = ('search is taken to report the leftmost match, the longest one when no operator is reluctant; a group replaced inside a replaced '
        'group is gone; suball skips an empty match adjoining the previous match; substitutions are not judged when the groups of the '
        'match are out of order')
