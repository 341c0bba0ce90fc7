"""C31: optparse against a reference scanner."""
from vf.core import *

TECH = 'runtime monitoring: reference scanner over generated option specifications and argument vectors'
NOTE = ('a detached value is the next argument, whatever it looks like; positional arguments may be mixed with '
        'options; refusals are observed as exit statuses of a child')


class Refuse(Exception):
    pass


class Help(Exception):
    pass


def parse(spec, mn, mx, noargs, args):
    table = {}
    for i, (c, fl) in enumerate(spec):
        table.setdefault(c, (i, fl))
    dest = {i: b'unset' for i, (c, fl) in enumerate(spec) if fl & 4}
    opts, pos = [], []
    i = 1
    raw = False
    while i < len(args):
        a = args[i]
        i += 1
        if raw or not a.startswith(b'-'):
            pos.append(a)
            continue
        if a == b'--':
            raw = True
            continue
        s = a[1:].decode('utf-8')
        if not s:
            pos.append(a)
            continue
        j = 0
        while j < len(s):
            c = s[j]
            j += 1
            if c not in table:
                raise Help if c in 'h?' else Refuse
            k, fl = table[c]
            if fl & 1:
                if j < len(s):
                    v = s[j:].encode()
                    j = len(s)
                elif i < len(args):
                    v = args[i]
                    i += 1
                elif fl & 2:
                    v = b''
                else:
                    raise Refuse
                if fl & 4:
                    dest[k] = v
                opts.append((c, v))
            else:
                opts.append((c, b''))
    if len(pos) < mn or (mx and len(pos) > mx) or (noargs and pos):
        raise Refuse
    return opts, pos, dest


CH = 'abcdefgxyzABZ019_+=.é漢𝄞hH?'


def case(r):
    n = r.randrange(0, 9)
    spec = [(r.choice(CH), r.choice([0, 0, 1, 1, 5, 5, 3, 7, 4])) for _ in range(n)]
    known = [c for c, _ in spec]

    def word(r):
        return r.choice([b'', b'a', b'foo', b'bar', b'x=1', b'/etc/passwd', b'1', b' ', b'--', b'-', b'-a', b'\xff\xfe',
                         'é'.encode(), b'a-b', b'--foo'])

    def optw():
        s = ''
        for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
            if known and r.random() < .97:
                s += r.choice(known)
            else:
                s += r.choice(CH)
        if r.random() < .2:
            s += r.choice(['foo', 'val', '-', '--', '=1'])
        return ('-' + s).encode()

    args = [r.choice([b'prog', b'', b'/bin/x', b'-a'])]
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 15, 40])):
        k = r.random()
        if k < .5:
            args.append(optw())
        elif k < .93:
            w = word(r)
            # a word which looks like an option is one, and must be readable
            if w[:1] == b'-' and r.random() < .6:
                w = b'w'
            args.append(w)
        elif k < .95:
            args.append(b'--')
        else:
            args.append(b'-')
    mn = r.choice([0, 0, 0, 1, 3])
    mx = r.choice([0, 0, 0, 2, 6])
    no = r.random() < .07
    try:
        opts, pos, dest = parse(spec, mn, mx, no, args)
        exp = [hx(args[0]), str(len(opts))]
        for c, v in opts:
            exp += [str(ord(c)), hx(v)]
        exp += [str(len(pos))] + [hx(p) for p in pos] + [hx(dest[i]) for i in sorted(dest)]
        exp, op = ' '.join(exp), 'o'
    except Refuse:
        exp, op = 'failed', 'e'
    except Help:
        exp, op = 'exit 0', 'e'
    cmd = [op, str(n)]
    for c, f in spec:
        cmd += [str(ord(c)), str(f)]
    cmd += [str(mn), str(mx), str(int(no)), str(len(args))] + [hx(a) for a in args]
    return ' '.join(cmd), exp


def cases(r, n):
    return [case(r) for _ in range(n)]


def streams(r, n):
    return [('c31', (), [c for c, _ in cases(r, n) if c[0] == 'o'])]


def check(ck):
    d = Driver(ck, Tree('std'), 'c31')
    d.check(cases(ck.sub('c'), ck.n(12000, 300000)))
    ck.rule = 'options, values, positional arguments, destinations and refusals of each argument vector'
