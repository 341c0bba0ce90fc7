"""C34: address texts against the platform's parser, dial strings against a model, sockets against peers on the loopback interface."""
import ipaddress
import os
import re
import shutil
import socket
import threading
import time
from vf.core import *
from vf.build import Tree

TECH = 'runtime monitoring: generated and mutated address texts are parsed and formatted next to inet_pton; dial strings against a model; TCP, UDP and Unix connections in both directions with peers that check every byte'
NOTE = 'IPv4 numbers with leading zeros may be taken or refused; no name resolution over the network; transfers up to 300 kB'


def pton(s):
    for f, k in ((socket.AF_INET, '4'), (socket.AF_INET6, '6')):
        try:
            return k + ' ' + socket.inet_pton(f, s.decode('latin1')).hex()
        except (OSError, ValueError):
            pass
    return 'none'


def v4(r):
    return '.'.join(str(r.choice([0, 1, 9, 10, 99, 100, 127, 199, 200, 249, 250, 254, 255, r.randrange(256)])) for _ in range(4))


def v6(r):
    b = r.randbytes(16)
    b = bytes(0 if r.random() < .5 else x for x in b)
    k = r.random()
    if k < .3:
        return ipaddress.IPv6Address(b).compressed
    if k < .4:
        return ipaddress.IPv6Address(b).exploded
    g = ['%x' % (r.choice([0, 0, 1, 0xffff, 0x8000, r.randrange(65536)])) for _ in range(8)]
    g = [x.upper() if r.random() < .2 else x.zfill(r.randint(1, 4)) for x in g]
    if r.random() < .2:
        g[6:] = [v4(r)]
    if r.random() < .6:
        i = r.randint(0, len(g))
        j = r.randint(i, len(g))
        return ':'.join(g[:i]) + '::' + ':'.join(g[j:])
    return ':'.join(g)


def text(r):
    s = v4(r) if r.random() < .35 else v6(r)
    if r.random() < .55:
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            i = r.randint(0, len(s))
            k = r.random()
            if k < .3:
                s = s[:i] + s[i + 1:]
            elif k < .65:
                s = s[:i] + r.choice(':::...0019afgG_-+x% /\n') + s[i:]
            elif k < .75:
                s = s[:i] + s[i:i + 5] * 2 + s[i + 5:]
            elif k < .85:
                s = s[:i] + str(r.choice([256, 300, 999, 1000, 65536, 2**32, 2**64, 2**64 + 1, '10000', 'fffff'])) + s[i:]
            else:
                s = s[:i] + r.choice(['::', '1::', '.', ':', '::1', '0x1', 'é'])
    return s


def addresses(ck, d, r, n):
    cases = []
    for _ in range(n):
        s = text(r).encode('latin1')
        want = pton(s)
        zero = re.search(rb'(^|[.:])0\d{1,2}(\.|$)', s) and b'.' in s

        def judge(o, s=s, want=want, zero=zero, k='p'):
            if o == want:
                return None
            if zero and (o == 'none' or o == pton(re.sub(rb'(?<![0-9a-fA-F])0+(?=\d+(\.|$))', b'', s))):
                return None
            return 'parsed as %s instead of %s' % (o, want)
        cases.append(('pp ' + hx(s), judge))
        for v in '46':
            if r.random() < .3:
                cases.append(('p%s %s' % (v, hx(s)), lambda o, v=v, want=want, s=s, j=judge: None if o == (want if want[0] == v else 'none') or (want == 'none' and v == '4' and b':' not in s and j(o) is None) or (v == '6' and b'.' in s and j(o) is None) else 'parsed as %s instead of %s' % (o, want if want[0] == v else 'none')))
    for _ in range(n // 2):
        b = r.randbytes(r.choice([4, 16]))
        b = bytes(0 if r.random() < .4 else x for x in b)

        def fj(o, b=b):
            t = o.split()
            try:
                a = ipaddress.ip_address(unhx(t[0]).decode('ascii')).packed
            except ValueError:
                return 'formats as %r' % unhx(t[0])
            return None if a == b and t[1:] == ['4' if len(b) == 4 else '6', b.hex()] else 'formats as %r, which parses as %s' % (unhx(t[0]), t[1:])
        cases.append(('f ' + b.hex(), fj))
    for _ in range(n // 4):
        a, net, port = (r.choice(x) for x in (['host', 'tcp!host', 'host!80', 'tcp!host!80', '', '::1', 'a!b!c!d', '!', 'x!'], ['', 'tcp', 'udp', 'net'], ['', '80', 'http']))
        segs = a.count('!')
        if segs >= 2:
            w = a
        elif segs == 1:
            w = a + '!' + port if port else net + '!' + a if net else a
        elif port:
            w = (net or 'net') + '!' + a + '!' + port
        else:
            w = net + '!' + a if net else a
        cases.append(('n %s %s %s' % (hx(a), hx(net), hx(port)), hx(w)))
    d.check(cases)


def refused(ck, d, r):
    host = ['127.0.0.1', '::1', '', '1.2.3', '300.1.1.1', '*']
    port = ['', '-1', '65536', '65616', '4294967376', '80x', ' 80', 'nosuch']
    ss = ['tcp!%s!%s' % (h, p) for h in host[:2] for p in port] + ['net!%s!%s' % (h, p) for h in host[:1] for p in port]
    ss += ['', 'tcp', 'tcp!', 'tcp!!80', 'foo!127.0.0.1!80', 'tcp!127.0.0.1', '127.0.0.1!80', '!', '!!', '!!!', 'unix!' + '/x' * 60, 'unix!' + 'y' * 300,
           'unix!/nonexistent/sock', 'TCP!127.0.0.1!80']
    cases = []
    for s in ss:
        cases.append(('ed ' + hx(s), 'err'))
        if not s.startswith('net!'):
            cases.append(('ea ' + hx(s), 'err'))
    d.check(cases, timeout=60)


def free(fam=socket.AF_INET, typ=socket.SOCK_STREAM):
    s = socket.socket(fam, typ)
    s.bind(('::1' if fam == socket.AF_INET6 else '127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


def have6():
    try:
        free(socket.AF_INET6)
        return True
    except OSError:
        return False


def echo_peer(srv, conns, r, dgram):
    srv.settimeout(40)
    try:
        if dgram:
            while True:
                b, a = srv.recvfrom(70000)
                srv.sendto(b, a)
        for _ in range(conns):
            c, _ = srv.accept()
            c.settimeout(40)
            while True:
                b = c.recv(r.choice([1, 100, 4096, 70000]))
                if not b:
                    break
                c.sendall(b)
            c.close()
    except OSError:
        pass
    finally:
        srv.close()


def dials(ck, d, r, tag, six):
    dr = os.path.join(scratch(), 'c34-' + tag)
    os.mkdir(dr)
    kind = r.choice(['tcp', 'tcp', 'net', 'udp', 'unix'] + (['tcp6', 'udp6'] if six else []))
    fam = socket.AF_UNIX if kind == 'unix' else socket.AF_INET6 if '6' in kind else socket.AF_INET
    dgram = 'udp' in kind
    srv = socket.socket(fam, socket.SOCK_DGRAM if dgram else socket.SOCK_STREAM)
    if kind == 'unix':
        p = os.path.join(dr, 's' * r.randint(1, 107 - len(dr) - 1))
        srv.bind(p)
        ds = 'unix!' + p
    else:
        h = '::1' if fam == socket.AF_INET6 else '127.0.0.1'
        srv.bind((h, 0))
        ds = '%s!%s!%d' % (kind.rstrip('6'), r.choice(['0:0::1', h]) if fam == socket.AF_INET6 else h, srv.getsockname()[1])
    n = r.randint(1, 4)
    if not dgram:
        srv.listen(10)
    th = threading.Thread(target=echo_peer, args=(srv, n, r, dgram), daemon=True)
    th.start()
    cmds, sizes = [], []
    for _ in range(n):
        b = r.randbytes(r.choice([1, 2, 100, 4096, 65536, 200000]) if not dgram else r.choice([1, 100, 1400, 9000]))
        k = r.choice([1, 7, 500, 4096, 30000])
        k = max(k, len(b) // 400 + 1)
        cmds.append('d %s %s %d' % (hx(ds), hx(b), k))
        sizes.append(len(b))
    outs = d.batch(cmds, 30, dr, None)
    srv.close() if dgram else None
    for c, o, m in zip(cmds, outs, sizes):
        ck.saw(tag + c[:1000], '%s %d bytes -> %s' % (ds, m, o))
        ck.count('dialled ' + kind)
        ck.count('bytes echoed', m)
        if o != '1 %d' % m and o != '!skipped':
            ck.violation('dial ' + kind, '%s: %d bytes sent, answer %s' % (ds, m, o), {'cmd.txt': c[:100000]})
    shutil.rmtree(dr, ignore_errors=True)


def listens(ck, d, r, tag, six):
    dr = os.path.join(scratch(), 'c34l-' + tag)
    os.mkdir(dr)
    kind = r.choice(['tcp', 'tcp', 'unix'] + (['tcp6', 'star'] if six else []))
    ready = os.path.join(dr, 'ready')
    n = r.randint(1, 4)
    if kind == 'unix':
        p = os.path.join(dr, 'sock')
        if r.random() < .3:
            open(p, 'w').close()
        addr, ds, fam = p, 'unix!' + p, socket.AF_UNIX
    else:
        fam = socket.AF_INET6 if kind == 'tcp6' else socket.AF_INET
        h = {'tcp': '127.0.0.1', 'tcp6': '::1', 'star': '127.0.0.1'}[kind]
        addr = (h, free(fam))
        ds = 'tcp!%s!%d' % ('*' if kind == 'star' else h, addr[1])
    res, bad, total = [], [], 0
    th = threading.Thread(target=lambda: res.append(d.batch(['l %s %s %d' % (hx(ds), hx(ready), n)], 40, dr, None)), daemon=True)
    th.start()
    t0 = time.time()
    while not os.path.exists(ready) and time.time() - t0 < 20:
        time.sleep(.005)
    for _ in range(n):
        b = r.randbytes(r.choice([0, 1, 100, 10000, 10001, 65536, 300000]))
        total += len(b)
        s = socket.socket(fam, socket.SOCK_STREAM)
        s.settimeout(20)
        try:
            s.connect(addr)
            out = []

            def send(s=s, b=b):
                i = 0
                try:
                    while i < len(b):
                        k = r.choice([1, 100, 5000, 100000])
                        s.sendall(b[i:i + k])
                        i += k
                    s.shutdown(socket.SHUT_WR)
                except OSError:
                    pass
            w = threading.Thread(target=send, daemon=True)
            w.start()
            while True:
                x = s.recv(65536)
                if not x:
                    break
                out.append(x)
            w.join(20)
            if b''.join(out) != b:
                bad.append('%d bytes came back of %d' % (len(b''.join(out)), len(b)))
        except OSError as e:
            bad.append('connection failed: %s' % e)
        s.close()
    th.join(50)
    ck.saw(tag + ds, '%s, %d connections, %d bytes' % (ds, n, total))
    ck.count('announced ' + kind)
    ck.count('bytes echoed', total)
    if bad:
        ck.violation('announce ' + kind, '%s: %s; driver %s' % (ds, bad, res))
    elif not res or res[0] != [str(total)]:
        ck.violation('announce ' + kind, '%s: driver answered %s for %d bytes' % (ds, res, total))
    shutil.rmtree(dr, ignore_errors=True)


def check(ck):
    tree = Tree('all')
    d = Driver(ck, tree, 'c34')
    six = have6()
    ck.extra['IPv6 loopback'] = six
    addresses(ck, d, ck.sub('a'), ck.n(30000, 600000))
    refused(ck, d, ck.sub('r'))
    jobs = [lambda i=i: dials(ck, d, ck.sub('d%d' % i), 'd%d' % i, six) for i in range(ck.n(40, 500))]
    jobs += [lambda i=i: listens(ck, d, ck.sub('l%d' % i), 'l%d' % i, six) for i in range(ck.n(40, 500))]
    pmap(lambda f: f(), jobs)
    ck.rule = 'texts parse exactly as inet_pton says, formatted addresses parse back, dial strings outside the documented form are refused, every byte sent over a connection comes back in order'
