"""C49: escaping formatters against the readers they escape for."""
import html, os, subprocess, tempfile, urllib.parse
from vf.core import *

TECH = 'runtime monitoring: round-trip oracle through the real readers (HTML and URL decoders, POSIX shells, the regex engine) over generated bytes'
NOTE = 'the empty regex is not a regex; HTML text is judged for character data and quoted attribute values; regexes are executed on valid UTF-8 and compared as bytes otherwise'

SPECIAL = {'h': b'&<>"\'/;#xa39', 's': b"'\\\"$`!*?[]{}()|&;<>~# \t\n-=", 'u': b"%:/?#[]@!$&'()*+,;= \"<>\\^`{|}~-_.\x00\x7f\x80\xff",
           'r': b'\\|*+?[]()^$.{}-,&/~dwsSnu<>'}
META = set(b'\\|*+?[]()^$.')
SAFE = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~%')


def text(r, op):
    n = r.choice([0, 1, 2, 3, 5, 10, 30, 100])
    k = r.randrange(4)
    if k == 0:
        b = r.randbytes(n)
    elif k == 1:
        b = bytes(r.choices(SPECIAL[op], k=n))
    elif k == 2:
        b = ''.join(r.choice('ab é\u20ac\U0001f600') if r.random() < .6 else chr(r.choice(SPECIAL[op]) & 127) for _ in range(n)).encode()
    else:
        b = b''.join(r.choice([b'&amp;', b'&lt;', b"'\\''", b'%41', b'%%', b'\\\\', b'\\.', b'a' * 300, b'$(id)', b'&#65;', b'<b>', b'{}', b'%{x}']) for _ in range(n // 4))
    if op == 's':
        b = b.replace(b'\0', b'0')
    return b


def hjudge(b):
    def f(o):
        try:
            e = unhx(o)
        except ValueError:
            return 'no output: ' + o[:80]
        if any(c in e for c in b'<>"\''):
            return 'raw markup in %r for %r' % (e, b)
        # latin-1 keeps every byte distinct while the entities are decoded
        t = e.decode('latin-1')
        i = 0
        while True:  # every & starts a complete reference
            i = t.find('&', i)
            if i < 0:
                break
            j = t.find(';', i)
            if j < 0 or not t[i + 1:j].lstrip('#').isalnum():
                return 'stray & in %r for %r' % (e, b)
            i += 1
        d = bytearray()
        i = 0
        while i < len(t):
            if t[i] == '&':
                j = t.index(';', i)
                d += html.unescape(t[i:j + 1]).encode()
                i = j + 1
            else:
                d.append(ord(t[i]))
                i += 1
        return None if bytes(d) == b else '%r reads back as %r, not %r' % (e, bytes(d), b)
    return f


def ujudge(b):
    def f(o):
        try:
            e = unhx(o)
        except ValueError:
            return 'no output: ' + o[:80]
        raw = set(e) - SAFE
        if raw:
            return 'raw %r in %r for %r' % (bytes(raw), e, b)
        for i, c in enumerate(e):
            if c == 37 and not all(x in b'0123456789abcdefABCDEF' for x in e[i + 1:i + 3] or b'-') or c == 37 and len(e) < i + 3:
                return 'incomplete escape in %r' % e
        d = urllib.parse.unquote_to_bytes(e)
        return None if d == b else '%r reads back as %r, not %r' % (e, d, b)
    return f


def rref(b):
    return b''.join(bytes([92, c]) if c in META else bytes([c]) for c in b)


def rjudge(b):
    def f(o):
        try:
            e = unhx(o)
        except ValueError:
            return 'no output: ' + o[:80]
        # undo: a backslash before a punctuation character stands for it
        d, i = bytearray(), 0
        while i < len(e):
            if e[i] == 92:
                if i + 1 == len(e) or e[i + 1] not in META:
                    return 'bad escape in %r for %r' % (e, b)
                i += 1
            elif e[i] in META:
                return 'bare metacharacter in %r for %r' % (e, b)
            d.append(e[i])
            i += 1
        return None if bytes(d) == b else '%r stands for %r, not %r' % (e, bytes(d), b)
    return f


def near(r, b):
    s = b.decode()
    for _ in range(20):
        t = list(s)
        k = r.randrange(4)
        if k == 0 and t:
            t[r.randrange(len(t))] = r.choice('abz.\\*\u20ac')
        elif k == 1 and t:
            del t[r.randrange(len(t))]
        elif k == 2:
            t.insert(r.randrange(len(t) + 1), r.choice('ab.\\*('))
        elif t:
            i = r.randrange(len(t))
            t[i:i + 1] = [t[i], t[i]]
        t = ''.join(t)
        if t != s:
            return t.encode()
    return None


def rexec(r):
    while True:
        b = text(r, 'r')
        try:
            if 0 < len(b.decode()) <= 60:
                break
        except UnicodeDecodeError:
            pass
    ts = [b, b'x' + b + b'y', b'x' + b * 2 + b'y']
    for _ in range(3):
        t = near(r, b)
        if t is not None:
            ts += [t, b'x' + t + b'y']
    e = []
    for t in ts:
        e.append('y' if t == b else 'n')
        m = t[1:-1] if len(t) > 1 and t[:1] == b'x' and t[-1:] == b'y' else None
        e.append('y' if m and len(m) % len(b) == 0 and m == b * (len(m) // len(b)) else 'n')
    return 'x %s %d %s' % (hx(b), len(ts), ' '.join(map(hx, ts))), ' '.join(e)


def case(r):
    op = r.choice('huuhrrx')
    if op == 'x':
        return rexec(r)
    b = text(r, op)
    return op + ' ' + hx(b), {'h': hjudge, 'u': ujudge, 'r': rjudge}[op](b)


def cases(r, n):
    return [case(r) for _ in range(n)]


def streams(r, n):
    yield 'c49', (), [c for c, _ in cases(r, n)] + ['s ' + hx(text(r, 's')) for _ in range(n // 5)]


def shell(ck, d, r, n):
    """The escaped words as a shell reads them, at the start, inside and at the end of a command line."""
    ts = [text(r, 's') for _ in range(n)] + [bytes([c]) * k for c in range(1, 256) for k in (1, 2)]
    outs = []
    res = d.run(['s ' + hx(t) for t in ts])
    for t, o in zip(ts, res):
        try:
            outs.append((t, unhx(o)))
        except ValueError:
            ck.violation('shell: no output', '%r: %s' % (t, o))
    script = b''
    want = []
    for i, (t, e) in enumerate(outs):
        k = i % 3
        if k == 0:
            script += b"printf '%s\\0' " + e + b'\n'
            want.append([t])
        elif k == 1:
            script += b"printf '%s\\0' pre" + e + b"post " + e + e + b'\n'
            want.append([b'pre' + t + b'post', t + t])
        else:
            script += b'v=' + e + b"; printf '%s\\0' \"$v\" \"a\"" + e + b'\n'
            want.append([t, b'a' + t])
    for sh in ('/bin/dash', '/bin/bash', '/bin/sh'):
        with tempfile.TemporaryDirectory(dir='/dev/shm') as tmp:
            open(tmp + '/s', 'wb').write(script)
            os.chmod(tmp, 0o755)
            p = subprocess.run([sh, tmp + '/s'], cwd=tmp, capture_output=True, timeout=120, user=65534, group=65534, extra_groups=[], env={'PATH': '/nonexistent', 'LC_ALL': 'C'})
        got = p.stdout.split(b'\0')[:-1]
        flat = [(i, w) for i, ws in enumerate(want) for w in ws]
        ck.count('shell words', len(want))
        for g, (i, w) in zip(got, flat):
            if g != w:
                ck.violation('shell: word changed', '%s read %r as %r; wanted %r' % (sh, outs[i][1], g, w))
                break
        else:
            if len(got) != len(flat):
                ck.violation('shell: words lost', '%s printed %d words for %d: %r' % (sh, len(got), len(flat), p.stderr[:200]))


def check(ck):
    d = Driver(ck, Tree('all'), 'c49')
    # every byte through every escaper, alone and doubled
    for op, j in (('h', hjudge), ('u', ujudge), ('r', rjudge)):
        d.check([('%s %s' % (op, hx(b)), j(b)) for c in range(256) for b in (bytes([c]), bytes([c, c]), bytes([97, c, 98]))], timeout=60)
    d.check(cases(ck.sub('c'), ck.n(9000, 150000)), timeout=200)
    shell(ck, d, ck.sub('s'), ck.n(2000, 40000))
    ck.rule = ('every byte alone, doubled and surrounded; generated bytes of every kind; HTML and URL text decoded with the Python decoders and searched '
               'for raw markup; escaped words executed by dash, bash and sh in several positions; escaped patterns compiled and run on the text and on its neighbours')
