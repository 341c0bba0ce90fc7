"""C43: date formatting against a field-by-field model, and parsing as its inverse."""
from vf.core import *
from checks.c42 import *
from checks import c42

AD = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat']
FD = ['Sunday', 'Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday']
FM = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
MULTI = {'c': '%Y-%m-%d %H:%M:%S %z', 'D': '%m/%d/%y', 'F': '%Y-%m-%d', 'r': '%I:%M:%S %P', 'R': '%H:%M', 'T': '%H:%M:%S', 'x': '%Y-%m-%d %z', 'X': '%H:%M:%S %z'}
SPEC = 'aAbBcCdDeFhHIjklmMnpPrRsSTtuUxXyYzZ%'


def fmt(f, tm, off, z):
    _, y, m, d, wd, h, mi, s, us, off, _, lp = fields(tm, off, z)
    yd = days(y, m, d) - days(y, 1, 1) + 1
    out, i = '', 0
    while i < len(f):
        c = f[i]
        i += 1
        if c != '%':
            out += c
            continue
        c = f[i]
        i += 1
        o = abs(off) // 1000000
        if c in MULTI:
            out += fmt(MULTI[c], tm, off, z)
        else:
            out += {'a': AD[wd], 'A': FD[wd], 'b': FM[m - 1][:3], 'B': FM[m - 1], 'C': '%02d' % (y // 100), 'd': '%02d' % d, 'e': '%2d' % d,
                    'h': FM[m - 1][:3], 'H': '%02d' % h, 'I': '%02d' % (h % 12 or 12), 'j': '%03d' % yd, 'k': '%02d' % h, 'l': '%d' % (h % 12 or 12),
                    'm': '%02d' % m, 'M': '%02d' % mi, 'n': '\n', 'p': 'AP'[h // 12] + 'M', 'P': 'ap'[h // 12] + 'm', 's': str(tm // 1000000),
                    'S': '%02d' % s, 't': '\t', 'u': str(wd), 'U': '%02d' % ((yd + 6 - wd) // 7), 'y': '%02d' % (y % 100), 'Y': str(y),
                    'z': '%s%02d%02d' % ('+-'[off < 0], o // 3600, o % 3600 // 60), 'Z': z, '%': '%'}[c]
    return out


LITS = [' ', '-', ':', '/', 'T', ' at ', 'é', '日', '.', '(', ')', '', '%%', "'", ' of the year ', '\n', '_', '=']


def fcase(r):
    z = rzone(r)
    t = rtm(r, z)
    if t // 1000000 < 0 and t % 1000000:
        t -= t % 1000000        # %s of a fraction before 1970 may round either way
    f = ''.join(r.choice(LITS) + '%' + r.choice(SPEC) for _ in range(r.choice([1, 2, 5, 12]))) + r.choice(LITS)
    w = fmt(f, t, offset(z, t), z)

    def ok(out):
        if out == hx(w):
            return
        if 'k' in f or 'u' in f:
            # the padding of %k and the number of Sunday in %u differ between implementations
            return relaxed(f, out, t, z)
        return 'got %r, expected %r' % (unhx(out), w)
    return 'f %d %s %s' % (t, hx(z), hx(f)), ok


def relaxed(f, out, t, z):
    got = unhx(out)
    off = offset(z, t)
    fl = fields(t, off, z)
    for k in ('%02d', '%2d'):
        for u in (str(fl[4]), str(fl[4] or 7)):
            g, i = '', 0
            while i < len(f):
                if f[i] == '%':
                    g += k % fl[5] if f[i + 1] == 'k' else u if f[i + 1] == 'u' else fmt(f[i:i + 2], t, off, z)
                    i += 2
                else:
                    g += f[i]
                    i += 1
            if got == g.encode():
                return
    return 'got %r, expected %r' % (got, g)


def canned(r):
    z = rzone(r)
    t = rtm(r, z)
    o = offset(z, t)
    dt, d, tt = '%c', '%x', '%X'
    return 'F %d %s' % (t, hx(z)), ' '.join(hx(fmt(f, t, o, z)) for f in (dt, d, tt, dt))


def determining(r):
    """A format that determines the instant to the second, and the kind of zone it carries."""
    k = r.random()
    lit = lambda: r.choice([' ', '-', '/', ':', 'T', ' at ', ' é ', '日', '.', '%%', '%t', '%n', '()', ', '.replace(',', ';')])
    if k < .12:
        return r.choice(['%s', 'x%s', '%s %a', '[%s]', '%s%%', '%%%s;']), 's'
    date = r.choice([['%F'], ['%F'], ['%Y', r.choice(['%m', '%b', '%B', '%h']), r.choice(['%d', '%e'])]])
    time = r.choice([['%T'], ['%T'], ['%r'], ['%R', '%S'], [r.choice(['%H', '%k']), '%M', '%S'], [r.choice(['%I', '%l']), '%M', '%S', r.choice(['%p', '%P'])]])
    if r.random() < .1:
        parts = r.choice([['%c'], ['%x', '%T'], ['%F', '%X']])
    else:
        parts = date + time
        zk = r.choice(['', '', '%z', '%z', '%Z'])
        if zk:
            parts.append(zk)
        if r.random() < .3:
            parts.append(r.choice(['%a', '%A']))
        r.shuffle(parts)
    f = r.choice(['', '', 'on ', '%%', '%n'])
    for i, p in enumerate(parts):
        f += p
        nxt = parts[i + 1] if i + 1 < len(parts) else ''
        if nxt:
            # the year, unpadded hours and names of zones need something after them
            f += ' ' if p == '%Z' else lit() if r.random() < .8 or '%Z' in (p, nxt) or p in ('%l', '%k', '%e') or p in ('%Y',) and nxt not in ('%m', '%d', '%H') else ''
    j = ' '.join(parts)
    return f, 'z' if any(x in f for x in ('%z', '%c', '%x', '%X')) else 'Z' if '%Z' in f else ''


BADTAIL = ['x', ' x', '\x00', '日', '!']


def pcase(r):
    while True:
        f, k = determining(r)
        z = rzone(r, .8) if k in 'zZ' and k else ''
        if k == 'Z':
            z = z or 'UTC'
        t = rtm(r, z)
        t -= t % 1000000
        o = offset(z, t)
        fl = fields(t, o, z)
        if not 1000 <= fl[1] <= 9999 or o % 60000000 and k == 'z':
            continue
        if k == 'Z' and z not in ('', 'UTC') and local2utc(z, *fl[1:4], *fl[5:8]) != t:
            continue
        break
    s = fmt(f, t, o, z)
    zone = '' if k != 'Z' else z
    if k == 's':
        o = 0
    want = show(t, o, zone)
    q = r.random()
    if q < .6:
        return 'P %s %s' % (hx(f), hx(s)), fieldsok(want)
    if q < .75 and k:
        z2 = rzone(r, .6)
        if z2 not in ('', 'UTC') and not -4 * 10**15 < t < LAST32:
            z2 = ''
        return 'Z %s %s %s' % (hx(f), hx(s), hx(z2)), fieldsok(show(t, offset(z2, t), z2))
    return bad(r, f, s, t, fl)


def fieldsok(want):
    def f(out):
        if out != want:
            return 'got %s, expected %s' % (out, want)
    return f


def rej(out):
    if not out.startswith('E') or ' ' in out:
        return 'accepted: %s' % out


def bad(r, f, s, t, fl):
    """A string that does not match the format, or a format that is not one."""
    k = r.randrange(7)
    if k == 0 and not f.endswith(('%Z', '%t', '%n', '%s', '%l', '%k', '%Y', '%z')):
        return 'P %s %s' % (hx(f), hx(s + r.choice(BADTAIL))), rej
    if k == 1 and len(s) > 1 and not f.endswith(('%Z', '%Y', '%s', '%l', '%t', '%n', '%S', '%M', '%m', '%H', '%I', '%k', '%e', '%T', '%X', '%F', '%x', '%R', '%d', '%z', '%c')):
        return 'P %s %s' % (hx(f), hx(s[:-1])), rej
    if k == 2:
        # a specifier given twice
        c = r.choice('YmdHMSabBsIpz')
        return 'P %s %s' % (hx('%' + c + ' %' + c), hx(fmt('%' + c + ' %' + c, 0, 0, ''))), lambda out: None if out == 'EDoublefmt' else 'got %s, expected EDoublefmt' % out
    if k == 3:
        c = r.choice('QEGgiqvwJKLNOVWéfo1')
        return 'P %s %s' % (hx('%Y%' + c), hx('2001' + r.choice(['', 'x', '12']))), lambda out: None if out == 'EBadfmt' else 'got %s, expected EBadfmt' % out
    if k == 4:
        # fields out of range
        y = r.choice([1900, 2001, 2023, 2100])
        s = r.choice(['%d-13-01 00:00:00', '%d-00-10 00:00:00', '%d-01-00 00:00:00', '%d-01-32 00:00:00', '%d-02-29 00:00:00', '%d-04-31 00:00:00', '%d-06-10 24:00:00',
                      '%d-06-10 12:60:00', '%d-06-10 12:00:61', '%d-06-10 99:00:00', '%d-06-99 00:00:00', '%d-11-31 01:01:01']) % y
        return 'P %s %s' % (hx('%F %T'), hx(s)), rej
    if k == 5:
        s2 = r.choice([('%Y', ''), ('%Y', 'abcd'), ('%d', '5'), ('%d', 'x5'), ('%b', 'Foo'), ('%b', 'Ja'), ('%B', 'Octobe'), ('%a', 'Moo'), ('%A', 'Friday!'), ('%p', 'xm'), ('%p', 'A'),
                       ('%z', '0500'), ('%z', ''), ('%z', '+'), ('%z', '+x'), ('%z', '-1'), ('%Z', 'Nowhere/Land'), ('%Z', 'xyzzy'), ('%s', ''), ('%s', 'now'), ('%%', ''), ('%%', 'x'),
                       ('x', ''), ('x', 'y'), ('%n', ''), ('%n', ' '), ('a%Yb', 'a2001c'), ('a%Yb', '2001b'), ('', 'x'), ('%Y-%m', '2001/12'), ('%H:%M', '12;30'), ('日', '曰'), ('日', ''),
                       ('%', ''), ('%Y%', '2001'), ('%Y %', '2001 '), ('%b', 'jan'), ('%b', 'NONE'), ('%B', 'NONE'), ('%H', ''), ('%M', 'é'), ('%Y', '٢٠٠١'), ('%Z', '../../etc/passwd'), ('%I', '')])
        return 'P %s %s' % tuple(map(hx, s2)), rej
    # a separator replaced
    i = r.randrange(0, 6)
    a = '%04d-%02d-%02dT%02d:%02d:%02d' % (2001, fl[2], fl[3] if fl[3] < 29 else 1, fl[5], fl[6], fl[7])
    p = [4, 7, 10, 13, 16][i % 5]
    c = r.choice(['x', ' ', '\x00', '日', '.'])
    return 'P %s %s' % (hx('%Y-%m-%dT%H:%M:%S'), hx(a[:p] + c + a[p + 1:])), lambda out: None if out == 'EBadsep' else 'got %s, expected EBadsep' % out


def cases(r, n):
    for _ in range(n):
        k = r.random()
        yield fcase(r) if k < .4 else canned(r) if k < .45 else pcase(r)


def streams(r, n):
    yield 'c42', (), [c for c, _ in cases(r, n)]


def check(ck):
    d = Driver(ck, Tree('all'), 'c42')
    d.check(list(cases(ck.sub('c'), ck.n(25000, 400000))), timeout=120)
    # each specifier alone, over the days of some years
    r = ck.sub('s')
    cs = []
    for c in SPEC:
        for _ in range(ck.n(40, 800)):
            y = r.choice([1969, 1970, 1999, 2000, 2001, 2004, 2100, r.randrange(1, 9999)])
            t = days(y, 1, 1) * DAY + r.randrange(366 * 86400) * 1000000
            w = fmt('%' + c, t, 0, '')
            cs.append(('f %d - %s' % (t, hx('%' + c)), lambda out, t=t, c=c: relaxed('%' + c, out, t, '')))
    d.check(cs, timeout=120)
    ck.rule = ('generated formats and instants in several zones: every specifier against a field model; formats that determine the instant parsed back; '
               'mutated strings and malformed formats must be rejected')


TECH = 'runtime monitoring: differential oracle (field model of the specifiers) and parse-back and rejection monitors over generated formats'
NOTE = ('parse-back is judged for years 1000 to 9999 and whole seconds; %k may pad with a space, %u may number Sunday 0 or 7; two-digit years and '
        'centuries determine no instant and are not parsed back')
