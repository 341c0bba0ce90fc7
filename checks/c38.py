"""C38: regex matching against an independent set-of-ends matcher over the pattern's syntax tree."""
import itertools, time, unicodedata
from vf.core import *

ALPHA = ['a', 'b', 'c', 'A', '0', '1', '_', ' ', '\n', '\t', '-', '!', 'é', 'λ', 'ü', 'ß', 'į', '€', '–', '漢', '😀', '\U0010ffff',
         '\x7f', '\x80', '\u07ff', '\u0800', '\uffff', '\U00010000']
OLD = unicodedata.ucd_3_2_0
META = set('\\|*+?[]^$.()')
ASC = {'d': '0123456789', 'x': '0123456789abcdefABCDEF', 's': '\t\n\v\f\r ', 'h': '\t ',
       'w': '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'}


def isword(c):
    # the tables of std are those of an early Unicode version
    return c == '_' or OLD.category(c)[0] == 'L' or OLD.category(c) == 'Nd'


# nodes: ('chr', c) ('set', fn, text) ('alt', a, b) ('cat', a, b) ('star', a, rel) ('plus', a, rel) ('quest', a)
#        ('cap', k, a) ('grp', a) ('bol',) ('eol',) ('bow',) ('eow',)

def chrtext(r, c):
    if c in META:
        return '\\' + c
    k = r.random()
    if k < .12:
        return '\\u{%s}' % (('%x' if r.random() < .5 else '%X') % ord(c))
    if k < .3 and c == '\n':
        return '\\n'
    return c


def mkset(r, al):
    neg = r.random() < .35
    items = []
    txt = '[^' if neg else '['
    rs = []
    first = True
    for _ in range(r.choice([1, 1, 2, 3, 5])):
        a = r.choice(al)
        if a in '^-' or (a == ']' and not first):
            a = 'a'
        if a == '^':
            a = 'b'
        if r.random() < .5:
            b = r.choice(al)
            if b in ']-':
                b = 'z'
            txt += a + '-' + b
            rs.append((min(a, b), max(a, b)))
        else:
            txt += a
            rs.append((a, a))
        first = False
    txt += ']'
    return ('set', lambda c, rs=tuple(rs), neg=neg: any(x <= c <= y for x, y in rs) != neg, txt)


PCLS = {'L': ('L', 'Letter'), 'Lu': ('Lu', 'Uppercase_Letter'), 'Ll': ('Ll', 'Lowercase_Letter'),
        'Lt': ('Lt', 'Titlecase_Letter'), 'N': ('N', 'Number'), 'Z': ('Z', 'Separator'), 'Zs': ('Zs', 'Space_Separator')}


def pclass(k, c):
    cat = unicodedata.category(c)
    if k == 'L':
        return cat[0] == 'L'
    if k == 'N':
        return cat == 'Nd'
    if k == 'Z':
        return cat[0] == 'Z' or c in '\t\n\v\f\r\x85'
    if k == 'Zs':
        return cat == 'Zs' or c == '\t'
    return cat == k


def gen(r, depth, al, st):
    if depth <= 0 or r.random() < .12:
        k = r.random()
        if k < .62:
            c = r.choice(al)
            return ('chr', c, chrtext(r, c))
        if k < .74:
            return mkset(r, al)
        if k < .80:
            return ('set', lambda c: True, '.')
        if k < .86:
            x = r.choice('dxswh')
            neg = r.random() < .4
            return ('set', lambda c, x=x, neg=neg: (c in ASC[x]) != neg, '\\' + (x.upper() if neg else x))
        if k < .91:
            p = r.choice(sorted(PCLS))
            neg = r.random() < .4
            t = '\\' + ('P' if neg else 'p')
            t += p if len(p) == 1 and r.random() < .5 else '{%s}' % r.choice(PCLS[p])
            return ('set', lambda c, p=p, neg=neg: pclass(p, c) != neg, t)
        return (r.choice(['bol', 'eol', 'bow', 'eow']),)
    k = r.random()
    if k < .40:
        return ('cat', gen(r, depth - 1, al, st), gen(r, depth - 1, al, st))
    if k < .55:
        return ('alt', gen(r, depth - 1, al, st), gen(r, depth - 1, al, st))
    if k < .66:
        return ('star', gen(r, depth - 1, al, st), r.random() < .3)
    if k < .73:
        return ('plus', gen(r, depth - 1, al, st), r.random() < .3)
    if k < .80:
        return ('quest', gen(r, depth - 1, al, st))
    if k < .95 and st['caps'] < 15:
        st['caps'] += 1
        return ['cap', 0, gen(r, depth - 1, al, st)]
    return ('grp', gen(r, depth - 1, al, st))


def number(n, k=None):
    """Numbers the groups in order of their opening and freezes the tree."""
    if k is None:
        k = [1]
    if n[0] == 'cap':
        m = k[0]
        k[0] += 1
        return ('cap', m, number(n[2], k))
    return tuple(number(x, k) if isinstance(x, (tuple, list)) else x for x in n)


def text(n, prec=0):
    """prec: 0 alternation, 1 concatenation, 2 operand of a repetition"""
    t = n[0]
    if t in ('chr', 'set'):
        return n[2]
    if t == 'cap':
        return '(' + text(n[2]) + ')'
    if t == 'grp':
        return '(?:' + text(n[1]) + ')'
    if t == 'alt':
        s, p = text(n[1], 1) + '|' + text(n[2], 0), 0
    elif t == 'cat':
        s, p = text(n[1], 2) + text(n[2], 1), 1
    elif t in ('star', 'plus'):
        s, p = text(n[1], 3) + ('*' if t == 'star' else '+') + ('?' if n[2] else ''), 2
    elif t == 'quest':
        s, p = text(n[1], 3) + '?', 2
    else:
        s, p = {'bol': '^', 'eol': '$', 'bow': '\\<', 'eow': '\\>'}[t], 3
    return '(?:' + s + ')' if p < prec else s


class M:
    """Reference semantics over one subject (a str); positions are character indexes."""

    def __init__(self, s):
        self.s = s
        self.memo = {}
        self.off = [0]
        for c in s:
            self.off.append(self.off[-1] + len(c.encode('utf-8')))

    def ends(self, n, i):
        key = (id(n), i)
        v = self.memo.get(key)
        if v is None:
            v = self.memo[key] = frozenset(self._ends(n, i))
        return v

    def _ends(self, n, i):
        t, s = n[0], self.s
        if t == 'chr':
            return [i + 1] if i < len(s) and s[i] == n[1] else []
        if t == 'set':
            return [i + 1] if i < len(s) and n[1](s[i]) else []
        if t == 'cat':
            return {k for j in self.ends(n[1], i) for k in self.ends(n[2], j)}
        if t == 'alt':
            return self.ends(n[1], i) | self.ends(n[2], i)
        if t == 'quest':
            return self.ends(n[1], i) | {i}
        if t in ('cap', 'grp'):
            return self.ends(n[-1], i)
        if t in ('star', 'plus'):
            seen = set()
            todo = [i]
            first = True
            if t == 'star':
                seen.add(i)
            while todo:
                j = todo.pop()
                for k in self.ends(n[1], j):
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
            return seen
        w = lambda j: 0 <= j < len(s) and isword(s[j])
        ok = {'bol': i == 0 or s[i - 1] == '\n', 'eol': i == len(s) or s[i] == '\n',
              'bow': w(i) and not w(i - 1), 'eow': w(i - 1) and not w(i)}[t]
        return [i] if ok else []


def nodes(n):
    yield n
    for x in n[1:]:
        if isinstance(x, tuple):
            yield from nodes(x)


def sample(r, n, out, depth=0):
    """A string likely to match."""
    t = n[0]
    if t == 'chr':
        out.append(n[1])
    elif t == 'set':
        c = [c for c in ALPHA if n[1](c)]
        out.append(r.choice(c) if c else 'q')
    elif t == 'alt':
        sample(r, n[r.choice([1, 2])], out)
    elif t == 'cat':
        sample(r, n[1], out)
        sample(r, n[2], out)
    elif t in ('star', 'plus', 'quest'):
        k = r.choice([0, 1, 1, 2, 3])
        if t == 'quest':
            k = min(k, 1)
        if t == 'plus':
            k = max(k, 1)
        for _ in range(k):
            if len(out) < 24:
                sample(r, n[1], out)
    elif t in ('cap', 'grp'):
        sample(r, n[-1], out)


def parse_results(out, ncap):
    """Splits an answer into (exec, iexec, search, isearch) groups."""
    toks = out.split()
    res = []
    i = 0
    cur = []
    while i < len(toks):
        if toks[i] == 'N':
            cur.append(None)
            i += 1
        elif toks[i] == '(':
            j = toks.index(')', i)
            v = toks[i + 1:j]
            if len(cur) % 2 == 0:
                v = [unhx(x) for x in v]
            else:
                v = list(map(int, v))
                v = list(zip(v[::2], v[1::2]))
            if len(v) != ncap + 1:
                raise ValueError('%d groups for %d' % (len(v) - 1, ncap))
            cur.append(v)
            i = j + 1
        else:
            raise ValueError(toks[i])
        if len(cur) == 4:
            res.append(tuple(cur))
            cur = []
    return res


ALPHABETS = [list('ab'), list('abc'), list('ab_ '), ['a', 'é', '€', '😀'], list('a0 \n_'), ['é', 'ü', 'į', 'λ', 'ß'],
             ['a', '\x7f', '\x80', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff'], ['a', '!', 'é', 'λ', ' '],
             list('a|*+?[].()\\^$'), ALPHA]


def subjects(r, root, al, n):
    S = ['']
    for _ in range(n):
        o = []
        if r.random() < .7:
            sample(r, root, o)
            k = r.random()
            if k < .25 and o:
                o[r.randrange(len(o))] = r.choice(al)
            elif k < .4 and o:
                del o[r.randrange(len(o))]
            elif k < .55:
                o.insert(r.randrange(len(o) + 1), r.choice(al))
            if r.random() < .35:
                o = [r.choice(al) for _ in range(r.randrange(4))] + o + [r.choice(al) for _ in range(r.randrange(4))]
        else:
            o = [r.choice(al) for _ in range(r.randrange(8))]
        S.append(''.join(o)[:40])
    return S


def wanted(root, S, full=False):
    """The judge of one 'r' answer.  full: also judge the captures (C39)."""
    def f(out):
        if out.startswith('E'):
            return 'the pattern was rejected'
        caps = {n[1]: n for n in nodes(root) if n[0] == 'cap'}
        res = parse_results(out, len(caps))
        if len(res) != len(S):
            return '%d results for %d subjects' % (len(res), len(S))
        rel = any(n[0] in ('star', 'plus') and n[2] for n in nodes(root))
        for s, (ex, iex, se, ise) in zip(S, res):
            m = M(s)
            b = s.encode('utf-8')
            whole = len(s) in m.ends(root, 0)
            if (ex is not None) != whole or (iex is not None) != whole:
                return 'exec/iexec on %r: %s/%s, but the string %s' % (s, ex, iex, 'matches' if whole else 'does not match')
            start = next((i for i in range(len(s) + 1) if m.ends(root, i)), None)
            if (se is not None) != (start is not None) or (ise is not None) != (start is not None):
                return 'search/isearch on %r: %s/%s, but %s' % (s, se, ise, 'nothing matches' if start is None else
                                                                'the text at %d matches' % start)
            if not full:
                continue
            for what, strs, idx in (('exec', ex, iex), ('search', se, ise)):
                if strs is None:
                    continue
                spans = []
                for k, (x, (lo, hi)) in enumerate(zip(strs, idx)):
                    if lo == -1 or hi == -1:
                        if k == 0 or x != b'':
                            return '%s on %r: group %d unset but text %r' % (what, s, k, x)
                        spans.append(None)
                        continue
                    if not 0 <= lo <= hi <= len(b):
                        return '%s on %r: group %d spans (%d, %d)' % (what, s, k, lo, hi)
                    if x != b[lo:hi]:
                        return '%s on %r: group %d is %r by string and (%d, %d) by index' % (what, s, k, x, lo, hi)
                    if lo not in m.off or hi not in m.off:
                        return '%s on %r: group %d spans (%d, %d), inside a character' % (what, s, k, lo, hi)
                    spans.append((m.off.index(lo), m.off.index(hi)))
                lo, hi = spans[0]
                if what == 'exec' and (lo, hi) != (0, len(s)):
                    return 'exec on %r: group 0 spans (%d, %d)' % (s, lo, hi)
                if hi not in m.ends(root, lo):
                    return '%s on %r: group 0 (%d, %d) does not match' % (what, s, lo, hi)
                if what == 'search':
                    if lo != start:
                        return 'search on %r: starts at %d, leftmost match at %d' % (s, lo, start)
                    if not rel and hi != max(m.ends(root, lo)):
                        return 'search on %r: ends at %d, longest match ends at %d' % (s, hi, max(m.ends(root, lo)))
                for k, n in caps.items():
                    if spans[k] is None:
                        continue
                    x, y = spans[k]
                    if x < lo or y > hi:
                        return '%s on %r: group %d (%d, %d) outside of the match (%d, %d)' % (what, s, k, x, y, lo, hi)
                    if y not in m.ends(n, x):
                        return '%s on %r: group %d (%d, %d) is not matched by its sub-pattern' % (what, s, k, x, y)
                bad = prefer(root, s, m, lo, hi, spans)
                if bad:
                    return '%s on %r: %s' % (what, s, bad)
        return None
    return f


def nullable(n):
    t = n[0]
    if t in ('chr', 'set'):
        return False
    if t in ('star', 'quest', 'bol', 'eol', 'bow', 'eow'):
        return True
    if t == 'cat':
        return nullable(n[1]) and nullable(n[2])
    if t == 'alt':
        return nullable(n[1]) or nullable(n[2])
    return nullable(n[-1]) if t in ('cap', 'grp') else nullable(n[1])


def prefer(root, s, m, lo, hi, spans):
    """Greedy operators prefer to repeat, reluctant ones not to, alternatives are preferred left to right:
    the captures are those of the first parse of s[lo:hi] in that order.  Not judged when the body of a
    repetition can be empty."""
    if any(n[0] in ('star', 'plus') and nullable(n[1]) for n in nodes(root)):
        return None
    # compile to a program and search it depth first, never revisiting (pc, position)
    prog = []

    def g(n):
        t = n[0]
        if t in ('chr', 'set', 'bol', 'eol', 'bow', 'eow'):
            prog.append(('test', n))
        elif t == 'cat':
            g(n[1])
            g(n[2])
        elif t == 'alt':
            f = len(prog)
            prog.append(None)
            g(n[1])
            j = len(prog)
            prog.append(None)
            prog[f] = ('fork', f + 1, len(prog))
            g(n[2])
            prog[j] = ('jmp', len(prog))
        elif t == 'quest':
            f = len(prog)
            prog.append(None)
            g(n[1])
            prog[f] = ('fork', f + 1, len(prog))
        elif t in ('star', 'plus'):
            if t == 'plus':
                g(n[1])
            f = len(prog)
            prog.append(None)
            g(n[1])
            prog.append(('jmp', f))
            prog[f] = ('fork', len(prog), f + 1) if n[2] else ('fork', f + 1, len(prog))
        elif t == 'cap':
            prog.append(('set', n[1], 0))
            g(n[2])
            prog.append(('set', n[1], 1))
        else:
            g(n[1])
    g(root)
    prog.append(('match',))
    seen = set()
    stack = [(0, lo, {})]
    while stack:
        pc, i, caps = stack.pop()
        if (pc, i) in seen:
            continue
        seen.add((pc, i))
        op = prog[pc]
        if op[0] == 'test':
            for j in m.ends(op[1], i):
                stack.append((pc + 1, j, caps))
        elif op[0] == 'fork':
            stack.append((op[2], i, caps))
            stack.append((op[1], i, caps))
        elif op[0] == 'jmp':
            stack.append((op[1], i, caps))
        elif op[0] == 'set':
            c = dict(caps)
            c[op[1], op[2]] = i
            stack.append((pc + 1, i, c))
        elif i == hi:
            for k in range(1, len(spans)):
                w = (caps[k, 0], caps[k, 1]) if (k, 0) in caps else None
                if spans[k] != w:
                    return 'group %d is %s, the preferred parse has %s' % (k, spans[k], w)
            return None
    return 'no parse'


def pattern(r, depth=None, al=None):
    al = al or r.choice(ALPHABETS)
    st = {'caps': 0}
    root = number(gen(r, depth if depth is not None else r.choice([1, 2, 3, 3, 4, 5]), al, st))
    return root, text(root), al


def rcase(r, full=False):
    root, p, al = pattern(r)
    S = subjects(r, root, al, 10)
    return ('r %s %s' % (hx(p), ' '.join(hx(s) for s in S)), wanted(root, S, full))


# patterns that must be rejected
def malformed(r):
    root, p, al = pattern(r, r.choice([1, 2, 3]), list('abé'))
    k = r.randrange(10)
    bad = ['(', '(?:', '[', '[a', '[^', '[a-', 'a)', ')', '*', '+', '?', '(*a)', '()', '(|a)', 'a|', '|a', 'a||b', '(a|)', '\\', '\\y', '\\q',
           '\\u', '\\u{', '\\u{41', '\\u{110000}', '\\u{ffffffff41}', '\\u{100000041}', '\\p{Foo}', '\\pQ', '\\p', '\\p{', '\\p{L', '(a', '(?a)', '(?', '((a)', 'a**', 'a+*', 'a?*', 'a*+',
           '(a))', '|', '[^', '[]', '[^]', '\\P', 'a??', '(a)' * 16]
    b = r.choice(bad)
    if '|' in p or k < 6:
        return b
    if b[0] in '*+?)|' and b != ')':
        return b
    if b.endswith('[') or '[' in b:
        return p + b if ']' not in p + b[1:] else b
    if b in ('a|', '(a|)'):
        return p + b
    if b.startswith(')'):
        return p + b
    if b.startswith('\\p{'):
        return b
    return p + b


def cases(r, n):
    for i in range(n):
        yield rcase(r)


def streams(r, n):
    yield 'c38', (), [c for c, _ in cases(r, n)] + ['p ' + hx(malformed(r)) for _ in range(n)]


def exhaustive(r, ck):
    """Every pattern of up to a few nodes over {a, b} on every subject up to a length."""
    lits = [('chr', 'a', 'a'), ('chr', 'b', 'b'), ('set', lambda c: True, '.'), ('set', lambda c: c != 'a', '[^a]'), ('bol',), ('eol',),
            ('eow',)]
    level = {1: lits}

    def mk(n):
        if n in level:
            return level[n]
        o = []
        for x in mk(n - 1):
            o += [('star', x, False), ('plus', x, False), ('quest', x), ('cap', 0, x), ('star', x, True)]
        for k in range(1, n - 1):
            for x in mk(k):
                for y in mk(n - 1 - k):
                    o += [('cat', x, y), ('alt', x, y)]
        level[n] = o
        return o
    S = [''.join(t) for k in range(4) for t in itertools.product('ab', repeat=k)] + ['a\nb', 'aabb', 'abab']
    pats = mk(1) + mk(2) + mk(3)
    four = mk(4)
    pats += four if not ck.quick else r.sample(four, min(len(four), 2500))
    hs = ' '.join(hx(s) for s in S)
    for x in pats:
        x = number(x)
        yield ('r %s %s' % (hx(text(x)), hs), wanted(x, S))


def fuzzcases(r, n):
    """Arbitrary bytes and metacharacter soup: compiled or rejected, never a crash."""
    for _ in range(n):
        k = r.randrange(3)
        if k == 0:
            p = bytes(r.randrange(256) for _ in range(r.randrange(12)))
        elif k == 1:
            p = ''.join(r.choice('()[]{}\\|*+?^$.-abpPu:éLN0<>') for _ in range(r.randrange(14))).encode()
        else:
            p = pattern(r)[1].encode()
            if p:
                i = r.randrange(len(p))
                p = p[:i] + r.choice([b'', bytes([r.randrange(256)]), b'[', b'(', b'\\']) + p[i + r.randrange(2):]
        s = bytes(r.choice(b'ab\xc3\xa9\xe2\x82\xac\x80\xff 0\n') for _ in range(r.randrange(10)))

        def f(out):
            return None
        yield ('r %s %s' % (hx(p), hx(s)), f)


def classes(ck, r):
    old = unicodedata.ucd_3_2_0
    cs = [chr(i) for i in range(0x110000) if not 0xd800 <= i < 0xe000]
    if ck.quick:
        keep = [c for c in cs if ord(c) < 0x3100]
        edges = set()
        prev = None
        for c in cs:
            k = unicodedata.category(c)
            if k != prev:
                edges |= {ord(c) - 1, ord(c)}
            prev = k
        cs = keep + [c for c in cs if ord(c) >= 0x3100 and (ord(c) in edges or r.random() < .002)]

    def must(p, c):
        if p in list("dxswh"):
            return c in ASC[p]
        a = pclass(p, c)
        k = old.category(c)
        b = {'L': k[0] == 'L', 'N': k == 'Nd', 'Z': k[0] == 'Z' or c in '\t\n\v\f\r\x85', 'Zs': k == 'Zs' or c == '\t'}.get(p, k == p)
        return a if a == b else None
    out = []
    for p in list('dxswh') + sorted(PCLS):
        for neg in (False, True):
            if p in 'dxswh':
                t = '\\' + (p.upper() if neg else p)
            else:
                t = '\\%s{%s}' % ('P' if neg else 'p', p)
            for i in range(0, len(cs), 4000):
                part = cs[i:i + 4000]
                def f(ans, part=part, p=p, neg=neg):
                    if len(ans) != len(part):
                        return 'length'
                    for a, c in zip(ans, part):
                        w = must(p, c)
                        if w is not None and (a == '1') != (w != neg):
                            return 'U+%04X: %s' % (ord(c), a)
                out.append(('c %s %s' % (hx(t), hx(''.join(part))), f))
    return out


def timing(ck, d):
    """Ambiguous patterns: the time stays polynomial."""
    pats = [('(a?' * 10 + ')' * 10 + 'b', 'a' * 400), ('(a?|b?)' * 12 + 'c', 'ab' * 200), ('((a*)*)*b', 'a' * 400),
            ('(?:' * 30 + 'a*' + ')*' * 30 + 'b', 'a' * 200), ('(?:a|a|ab|a)*c', 'ab' * 300),
            ('(?:a?a?a?a?a?a?a?a?a?a?)*b', 'a' * 300), ('(?:a?)' * 60 + 'a' * 60, 'a' * 60), ('(?:a*b?)*' * 10 + 'c', 'ab' * 100),
            ('(?:.*a.*|.*b.*|.*c.*)*d', 'abc' * 60), ('(?:(?:a+)+)+b', 'a' * 300), ('(?:a|b|ab)*(?:bc|c)' * 8, 'ab' * 100 + 'c')]
    for p, s in pats:
        t = time.time()
        outs = d.batch(['r %s %s' % (hx(p), hx(s))], timeout=40)
        dt = time.time() - t
        ck.count('time-limited runs')
        ck.saw('time' + p)
        if outs[0].startswith('!') or outs[0].startswith('E'):
            ck.violation('time: ' + p[:80], 'pattern %s on %d bytes: %s after %.1fs' % (p, len(s), outs[0][:300], dt),
                         {'commands.txt': 'r %s %s\n' % (hx(p), hx(s))})


def check(ck):
    d = Driver(ck, Tree('all'), 'c38')
    r = ck.sub('p')
    d.check(list(cases(r, ck.n(3000, 60000))), timeout=120)
    d.check(list(exhaustive(ck.sub('x'), ck)), timeout=120)
    ms = {malformed(ck.sub('m%d' % i)) for i in range(ck.n(300, 3000))}
    d.check([('p ' + hx(p), lambda out: None if out.startswith('E') else 'malformed pattern accepted') for p in sorted(ms)])
    d.check(list(fuzzcases(ck.sub('f'), ck.n(4000, 100000))), timeout=120)
    d.check(classes(ck, ck.sub('k')), timeout=120)
    timing(ck, d)
    ck.rule = ('patterns generated from syntax trees (all operators, 10 alphabets covering every UTF-8 length) on sampled, mutated and '
               'random subjects, every pattern of up to 3 nodes (4 sampled) on every subject up to 3 characters, malformed and random '
               'byte patterns, all class escapes over the character range, ambiguous patterns under a time limit; reference: set-of-end-positions matcher')


TECH = 'runtime monitoring: reference matcher as oracle over generated and exhaustively enumerated patterns; time-limited ambiguous patterns'
NOTE = ("Unicode classes are judged where Unicode 3.2 and the host's Unicode agree; \\p{N} is taken as decimal digits, \\p{Z} and \\p{Zs} "
        "include the ASCII controls in the library's tables; subjects are valid UTF-8 except in the crash-only part")
