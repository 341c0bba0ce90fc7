"""C17: calls in both directions between generated Myrddin and C code, every leaf of every value compared with what was sent."""
import os
import re
import shutil
import struct
import subprocess
from vf.core import *
from vf.build import Tree

TECH = 'runtime monitoring: generated signatures are called from Myrddin into C and from C into Myrddin, directly and through values; both sides report every leaf of every argument and result, compared with the values generated; an assembly probe checks callee-saved registers, stack pointer and direction flag around generated bodies, C code clobbers every caller-saved register'
NOTE = 'up to 20 arguments; the C side is gcc -O0 to -O2, freestanding; empty structs, unions and variable argument lists are left out; sub-word extension is not required'

SC = [('int8', 'signed char', 1), ('int16', 'short', 2), ('int32', 'int', 4), ('int', 'int', 4), ('int64', 'long', 8), ('uint8', 'unsigned char', 1),
      ('uint16', 'unsigned short', 2), ('uint32', 'unsigned', 4), ('uint', 'unsigned', 4), ('uint64', 'unsigned long', 8), ('byte', 'unsigned char', 1),
      ('char', 'unsigned', 4), ('bool', '_Bool', 1), ('flt32', 'float', 4), ('flt64', 'double', 8), ('flt32', 'float', 4), ('flt64', 'double', 8),
      ('byte#', 'void *', 8), ('std.size', 'long', 8)]
SIGNED = {'int8', 'int16', 'int32', 'int', 'int64', 'std.size'}


class T:
    pass


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.m, self.c = [], []

    def scalar(self):
        t = T()
        t.kind = 'sc'
        t.myr, t.c, t.size = self.r.choice(SC)
        return t

    def type(self, depth=0):
        r = self.r
        if depth > 2 or r.random() < (.45 if depth == 0 else .7):
            return self.scalar()
        t = T()
        self.n += 1
        me = self.n
        k = r.random()
        t.kind = 'struct' if k < .6 else 'tuple'
        nf = r.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 8])
        t.sub = [self.type(depth + 1) for _ in range(nf)]
        if r.random() < .5:
            # a homogeneous small one
            s = self.scalar()
            t.sub = [s] * r.choice([1, 2, 3, 4, 8])
        t.arr = [r.choice([0, 0, 0, 0, 1, 2, 3, 5]) if t.kind == 'struct' or r.random() < .3 else 0 for _ in t.sub]
        t.c = 'struct s%d' % me
        fm = [s.myr + ('[%d]' % a if a else '') for s, a in zip(t.sub, t.arr)]
        if t.kind == 'struct':
            t.myr = 's%d' % me
            self.m.append('\ttype s%d = struct\n%s\n\t;;' % (me, '\n'.join('\t\tm%d : %s' % (i, x) for i, x in enumerate(fm))))
        else:
            if len(t.sub) == 1:
                t.sub, t.arr = t.sub * 2, t.arr * 2
                fm = fm * 2
            t.myr = '(%s)' % ', '.join(fm)
        self.c.append('struct s%d { %s };' % (me, ' '.join('%s m%d%s;' % (s.c, i, '[%d]' % a if a else '') for i, (s, a) in enumerate(zip(t.sub, t.arr)))))
        return t

    def value(self, t):
        r = self.r
        if t.kind != 'sc':
            return [[self.value(s) for _ in range(a)] if a else self.value(s) for s, a in zip(t.sub, t.arr)]
        if t.myr == 'bool':
            return r.randrange(2)
        if t.myr == 'byte[:]':
            return (r.getrandbits(46) * 2 + 2, r.getrandbits(20))
        if t.myr == 'byte#':
            return r.getrandbits(47)
        if t.myr == 'char':
            return r.randrange(0x20, 0xd800)
        b = 8 * t.size
        if t.myr in ('flt32', 'flt64'):
            return r.getrandbits(b) if r.random() < .7 else struct.unpack('<Q' if b == 64 else '<I', struct.pack('<d' if b == 64 else '<f', r.choice([0., -0., 1., -2.5, 1e10])))[0]
        v = r.choice([0, 1, (1 << b) - 1, 1 << (b - 1), (1 << (b - 1)) - 1]) if r.random() < .3 else r.getrandbits(b)
        if t.myr in SIGNED and v >> (b - 1):
            v -= 1 << b
        return v

    # leaves as both sides report them
    def leaves(self, t, v):
        if t.kind != 'sc':
            out = []
            for s, a, x in zip(t.sub, t.arr, v):
                for y in (x if a else [x]):
                    out += self.leaves(s, y)
            return out
        if t.myr == 'byte[:]':
            return list(v)
        return [v & (1 << 64) - 1]

    def mlit(self, t, v):
        """(declarations, expression) of a Myrddin value"""
        if t.kind == 'struct':
            return '[%s]' % ', '.join('.m%d = %s' % (i, self.marr(s, a, x)) for i, (s, a, x) in enumerate(zip(t.sub, t.arr, v)))
        if t.kind == 'tuple':
            return '(%s)' % ', '.join(self.marr(s, a, x) for s, a, x in zip(t.sub, t.arr, v))
        if t.myr == 'bool':
            return 'tru()' if v else '!tru()'
        if t.myr == 'byte#':
            return '(q64(0x%x) : byte#)' % v
        if t.myr == 'byte[:]':
            return '(q64(0x%x) : byte#)[:%d]' % v
        if t.myr == 'flt64':
            return 'std.flt64frombits(q64(0x%x))' % v
        if t.myr == 'flt32':
            return 'std.flt32frombits((q64(0x%x) : uint32))' % v
        return '(q64(0x%x) : %s)' % (v & (1 << 64) - 1, t.myr)

    def marr(self, s, a, x):
        if not a:
            return self.mlit(s, x)
        return '[%s]' % ', '.join(self.mlit(s, y) for y in x)

    def clit(self, t, v):
        if t.kind != 'sc':
            return '(%s){%s}' % (t.c, ', '.join('{%s}' % ', '.join(self.clit(s, y) for y in x) if a else self.clit(s, x) for s, a, x in zip(t.sub, t.arr, v)))
        if t.myr == 'byte[:]':
            return '(struct sl){(void*)q64(0x%xul), %d}' % v
        if t.myr == 'flt64':
            return 'fd(q64(0x%xul))' % v
        if t.myr == 'flt32':
            return 'ff(q64(0x%xul))' % v
        if t.myr == 'byte#':
            return '(void*)q64(0x%xul)' % v
        return '(%s)q64(0x%xul)' % (t.c, v & (1 << 64) - 1)

    def mshow(self, t, e):
        if t.kind == 'sc':
            if t.myr == 'bool':
                return ['if %s' % e, '\tput(1)', 'else', '\tput(0)', ';;']
            if t.myr == 'byte[:]':
                return ['put(((%s : byte#) : uint64))' % e, 'put((%s.len : uint64))' % e]
            if t.myr == 'flt64':
                return ['put(std.flt64bits(%s))' % e]
            if t.myr == 'flt32':
                return ['put((std.flt32bits(%s) : uint64))' % e]
            return ['put((%s : uint64))' % e]
        out = []
        for i, (s, a) in enumerate(zip(t.sub, t.arr)):
            f = '%s.%s%d' % (e, 'm' if t.kind == 'struct' else '', i)
            if t.kind == 'tuple':
                f = '%s.%d' % (e, i)
            for j in range(a or 1):
                out += self.mshow(s, '%s[%d]' % (f, j) if a else f)
        return out

    def cshow(self, t, e):
        if t.kind == 'sc':
            if t.myr == 'byte[:]':
                return 'q$put((unsigned long)%s.p); q$put(%s.n); ' % (e, e)
            if t.myr == 'flt64':
                return 'q$put(bd(%s)); ' % e
            if t.myr == 'flt32':
                return 'q$put(bf(%s)); ' % e
            return 'q$put((unsigned long)%s); ' % e
        out = ''
        for i, (s, a) in enumerate(zip(t.sub, t.arr)):
            for j in range(a or 1):
                out += self.cshow(s, '%s.m%d%s' % (e, i, '[%d]' % j if a else ''))
        return out


CPRE = r'''
struct sl { void *p; long n; };
static volatile unsigned long qv;
static unsigned long q64(unsigned long x) { qv = x; return qv; }
static double fd(unsigned long x) { double d; __builtin_memcpy(&d, &x, 8); return d; }
static float ff(unsigned long x) { float d; unsigned y = x; __builtin_memcpy(&d, &y, 4); return d; }
static unsigned long bd(double d) { unsigned long x; __builtin_memcpy(&x, &d, 8); return x; }
static unsigned long bf(float d) { unsigned x; __builtin_memcpy(&x, &d, 4); return x; }
static char out[1 << 20];
static long nout;
static long sys3(long n, long a, long b, long c) { long r; asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
void q$flush(void) { long o = 0, k; while (o < nout && (k = sys3(1, 1, (long)out + o, nout - o)) > 0) o += k; nout = 0; }
static void emit(char c) { if (nout >= (long)sizeof out) q$flush(); out[nout++] = c; }
void q$put(unsigned long x) { int i; for (i = 60; i > 0 && !(x >> i); i -= 4); for (; i >= 0; i -= 4) emit("0123456789abcdef"[x >> i & 15]); emit(' '); }
void q$line(unsigned long k) { emit('\n'); q$put(k); }
/* everything a function may change */
static inline void clobber(void) { asm volatile(
	"movq $0x5a5a5a5a, %%rcx; movq %%rcx, %%rax; movq %%rcx, %%rdx; movq %%rcx, %%rsi; movq %%rcx, %%rdi; movq %%rcx, %%r8; movq %%rcx, %%r9; movq %%rcx, %%r10; movq %%rcx, %%r11;"
	"pcmpeqd %%xmm0,%%xmm0; movaps %%xmm0,%%xmm1; movaps %%xmm0,%%xmm2; movaps %%xmm0,%%xmm3; movaps %%xmm0,%%xmm4; movaps %%xmm0,%%xmm5; movaps %%xmm0,%%xmm6; movaps %%xmm0,%%xmm7;"
	"movaps %%xmm0,%%xmm8; movaps %%xmm0,%%xmm9; movaps %%xmm0,%%xmm10; movaps %%xmm0,%%xmm11; movaps %%xmm0,%%xmm12; movaps %%xmm0,%%xmm13; movaps %%xmm0,%%xmm14; movaps %%xmm0,%%xmm15"
	::: "rax","rcx","rdx","rsi","rdi","r8","r9","r10","r11","xmm0","xmm1","xmm2","xmm3","xmm4","xmm5","xmm6","xmm7","xmm8","xmm9","xmm10","xmm11","xmm12","xmm13","xmm14","xmm15","memory","cc"); }
/* the stack has to be aligned at every call */
#define aligned() do { if ((unsigned long)__builtin_frame_address(0) & 15) q$put(0xbad5ac); } while (0)
/* calls f and says what it failed to preserve */
unsigned long vf_probe(void (*f)(void));
asm(".globl vf_probe\nvf_probe:\n push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n sub $8,%rsp\n"
" mov %rsp,vf_sp(%rip)\n mov $0x1111111111,%rbx\n mov $0x2222222222,%rbp\n mov $0x3333333333,%r12\n mov $0x4444444444,%r13\n mov $0x5555555555,%r14\n mov $0x6666666666,%r15\n"
" call *%rdi\n mov $0,%eax\n pushfq\n pop %rcx\n and $0x400,%ecx\n or %ecx,%eax\n"
" mov $0x1111111111,%rcx\n cmp %rcx,%rbx\n je 1f\n or $1,%eax\n1: mov $0x2222222222,%rcx\n cmp %rcx,%rbp\n je 1f\n or $2,%eax\n1: mov $0x3333333333,%rcx\n cmp %rcx,%r12\n je 1f\n or $4,%eax\n"
"1: mov $0x4444444444,%rcx\n cmp %rcx,%r13\n je 1f\n or $8,%eax\n1: mov $0x5555555555,%rcx\n cmp %rcx,%r14\n je 1f\n or $16,%eax\n1: mov $0x6666666666,%rcx\n cmp %rcx,%r15\n je 1f\n or $32,%eax\n"
"1: cmp %rsp,vf_sp(%rip)\n je 1f\n or $64,%eax\n mov vf_sp(%rip),%rsp\n1: cld\n add $8,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n.bss\n.p2align 3\nvf_sp: .quad 0\n.text\n");
#define W(n) __attribute__((noinline)) n
void *memcpy(void *d, const void *s, unsigned long n) { char *a = d; const char *b = s; while (n--) *a++ = *b++; return d; }
void *memset(void *d, int c, unsigned long n) { char *a = d; while (n--) *a++ = c; return d; }
'''


def body(r, g):
    """A Myrddin function body with register pressure, for the preservation probe."""
    n = r.choice([2, 6, 9, 14, 25, 40])
    L = ['var a%d : uint64 = q64(%d)' % (i, r.getrandbits(30)) for i in range(n)]
    x = lambda: 'a%d' % r.randrange(n)
    for _ in range(r.randint(3, 30)):
        k = r.random()
        if k < .5:
            L.append('%s = %s %s %s' % (x(), x(), r.choice('+-*&|^'), x()))
        elif k < .6:
            L.append('%s = %s %s (%s | 1)' % (x(), x(), r.choice('/%'), x()))
        elif k < .7:
            L.append('%s = %s %s (%s & 63)' % (x(), x(), r.choice(['<<', '>>']), x()))
        elif k < .8:
            L += ['for var i : uint64 = 0; i < %d; i++' % r.randint(1, 5), '\t%s += %s ^ i' % (x(), x()), ';;']
        elif k < .9:
            L += ['if %s < %s' % (x(), x()), '\t%s = q64(%s)' % (x(), x()), ';;']
        else:
            L.append('%s = q64(%s)' % (x(), x()))
    L.append('sink(%s)' % ' ^ '.join('a%d' % i for i in range(n)))
    return L


def program(r, tag):
    g = Gen(r)
    decl, m, runs, c, want = [], [], [], [], []
    ncase = 24
    for k in range(ncase):
        na = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 7, 8, 9, 10, 14, 20])
        if r.random() < .25:
            s = g.type()
            ts = [s if r.random() < .8 else g.type() for _ in range(na)]
        else:
            ts = [g.type() for _ in range(na)]
        rt = g.type() if r.random() < .85 else None
        av = [g.value(t) for t in ts]
        rv = g.value(rt) if rt else None
        al = [x for t, v in zip(ts, av) for x in g.leaves(t, v)]
        rl = g.leaves(rt, rv) if rt else []
        sig = '(%s -> %s)' % (', '.join('a%d : %s' % (i, t.myr) for i, t in enumerate(ts)), rt.myr if rt else 'void')
        cargs = ', '.join('%s a%d' % (t.c, i) for i, t in enumerate(ts)) or 'void'
        crt = rt.c if rt else 'void'
        if k % 6 == 5:
            # preservation of registers
            decl.append('\tconst p%d : (-> void)' % k)
            m.append('const p%d = {\n%s\n}' % (k, '\n'.join('\t' + x for x in body(r, g))))
            c.append('void q$p%d(void);\nvoid q$c%d(void) { q$put(vf_probe(q$p%d)); }' % (k, k, k))
            decl.append('\textern const c%d : (-> void)' % k)
            runs += ['line(%d)' % k, 'c%d()' % k]
            want.append(('registers', 'a generated body', [0]))
            continue
        if k % 2 == 0:
            # Myrddin calls C; live values around the call
            decl.append('\textern const f%d : %s' % (k, sig))
            show = ''.join(g.cshow(t, 'a%d' % i) for i, t in enumerate(ts))
            c.append('%s W(q$f%d)(%s) { aligned(); %sclobber(); %s}' % (crt, k, cargs, show, 'return %s; ' % g.clit(rt, rv) if rt else ''))
            live = [r.getrandbits(40) for _ in range(r.choice([0, 3, 9]))]
            lf = [r.getrandbits(62) for _ in range(r.choice([0, 0, 2]))]
            b = ['var l%d : uint64 = q64(0x%x)' % (i, v) for i, v in enumerate(live)]
            b += ['var d%d : flt64 = std.flt64frombits(q64(0x%x))' % (i, v) for i, v in enumerate(lf)]
            fn = 'f%d' % k
            how = r.randrange(4)
            if how == 1:
                b.append('var h = f%d' % k)
                fn = 'h'
            elif how == 2:
                b.append('var hs = [f%d, f%d][:]' % (k, k))
                fn = 'hs[(q64(1) : std.size)]'
            inline = r.random() < .5
            if not inline:
                b += ['var a%d : %s = %s' % (i, t.myr, g.mlit(t, v)) for i, (t, v) in enumerate(zip(ts, av))]
            call = '%s(%s)' % (fn, ', '.join(g.mlit(t, v) if inline and not (t.kind == 'sc' and 0) else 'a%d' % i for i, (t, v) in enumerate(zip(ts, av))))
            if rt:
                b += ['var res : %s = %s' % (rt.myr, call)] + g.mshow(rt, 'res')
            else:
                b.append(call)
            b += ['put(l%d)' % i for i in range(len(live))] + ['put(std.flt64bits(d%d))' % i for i in range(len(lf))]
            if not inline:
                for i, t in enumerate(ts):
                    b += g.mshow(t, 'a%d' % i)
            m.append('const r%d = {\n%s\n}' % (k, '\n'.join('\t' + x for x in b)))
            runs += ['line(%d)' % k, 'r%d()' % k]
            want.append(('myrddin calls C', sig, al + rl + live + lf + ([] if inline else al)))
        else:
            # C calls Myrddin
            decl.append('\tconst g%d : %s' % (k, sig))
            b = [x for i, t in enumerate(ts) for x in g.mshow(t, 'a%d' % i)]
            if rt:
                b.append('-> %s' % g.mlit(rt, rv))
            m.append('const g%d = {%s\n%s\n}' % (k, ', '.join('a%d' % i for i in range(na)), '\n'.join('\t' + x for x in b)))
            decl.append('\textern const c%d : (-> void)' % k)
            c.append('%s q$g%d(%s);\nvoid q$c%d(void) { %s unsigned long k0 = q64(0x1234567), k1 = q64(0x89abcdef), k2 = q64(77); %sq$g%d(%s); %s q$put(k0); q$put(k1); q$put(k2); %s}' % (
                crt, k, cargs, k, ' '.join('%s a%d = %s;' % (t.c, i, g.clit(t, v)) for i, (t, v) in enumerate(zip(ts, av))),
                crt + ' res = ' if rt else '', k, ', '.join('a%d' % i for i in range(na)), g.cshow(rt, 'res') if rt else '', ''.join(g.cshow(t, 'a%d' % i) for i, t in enumerate(ts))))
            runs += ['line(%d)' % k, 'c%d()' % k]
            want.append(('C calls myrddin', sig, al + rl + [0x1234567, 0x89abcdef, 77] + al))
    q = ('use std\n\npkg q =\n%s\n\textern const put : (x : uint64 -> void)\n\textern const line : (x : uint64 -> void)\n\textern const flush : (-> void)\n\tconst run : (-> void)\n;;\n'
         'var qv : uint64 = 0\nconst q64 = {x : uint64 -> uint64\n\tqv = x\n\t-> qv\n}\nconst tru = {-> bool\n\t-> q64(1) == 1\n}\nconst sink = {x : uint64 -> void\n\tqv = x\n}\n' % '\n'.join(g.m + decl))
    q += '\n'.join(m) + '\nconst run = {\n%s\n\tflush()\n}\n' % '\n'.join('\t' + x for x in runs)
    return q, CPRE + '\n'.join(g.c + c) + '\n', want


def one(ck, tree, r, tag):
    q, c, want = program(r, tag)
    d = os.path.join(scratch(), 'c17-' + tag)
    os.mkdir(d)
    for n, s in (('q.myr', q), ('q.c', c), ('main.myr', 'use std\nuse "q"\nconst main = {\n\tq.run()\n}\n')):
        with open(os.path.join(d, n), 'w') as f:
            f.write(s)
    opt = r.choice(['-O0', '-O1', '-O2'])
    files = {'q.myr': q, 'q.c': c}
    p = subprocess.run(['gcc', '-c', opt, '-w', '-ffreestanding', '-fno-stack-protector', '-fno-pic', '-o', 'qc.o', 'q.c'], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('generated C: ' + ' '.join(l for l in p.stdout.decode().split('\n') if 'error' in l)[:300])
    for n in ('q', 'main'):
        p = tree.compile(os.path.join(d, n + '.myr'), os.path.join(d, n + '.o'), cwd=d)
        if p.returncode != 0:
            ck.violation('rejected: ' + re.sub(r'[0-9]+|".*"', '', p.stdout.decode('latin1').strip().split('\n')[0].split(': ', 1)[-1])[:60], 'exit %d\n%s' % (p.returncode, p.stdout.decode('latin1')[-1500:]), files)
            return
    exe = os.path.join(d, 'prog')
    p = tree.link(exe, [os.path.join(d, x) for x in ('main.o', 'q.o', 'qc.o')])
    if p.returncode:
        ck.violation('does not link', p.stdout.decode('latin1')[-800:], files)
        return
    res = run([exe], b'', 20, cwd=d)
    lines = res.out.decode('latin1').split('\n')[1:]
    for k, (what, sig, leaves) in enumerate(want):
        ck.saw(what + sig, '%s %s' % (what, sig[:150]))
        ck.count(what)
        ck.count('values compared', len(leaves))
        got = lines[k].split() if k < len(lines) else None
        w = ['%x' % x for x in [k] + leaves]
        if got == w:
            continue
        if got is None or (k == len(lines) - 1 and res.rc != 0):
            ck.violation('%s: died' % what, '%s\n%s %s' % (sig, how(res), res.err.decode('latin1')[-200:]), files)
            break
        i = next((i for i in range(min(len(w), len(got))) if w[i] != got[i]), min(len(w), len(got)))
        if what == 'registers':
            x = int(got[1], 16) if len(got) > 1 else -1
            n = [s for b, s in ((1, 'rbx'), (2, 'rbp'), (4, 'r12'), (8, 'r13'), (16, 'r14'), (32, 'r15'), (64, 'rsp'), (0x400, 'direction flag')) if x & b]
            ck.violation('registers ' + ' '.join(n), 'p%d changes %s' % (k, n), files)
            continue
        ck.violation('%s: value' % what, 'case %d (%s) %s\nitem %d of %d: %s instead of %s' % (k, opt, sig, i, len(w), got[i] if i < len(got) else 'nothing', w[i] if i < len(w) else 'nothing'), files)
    shutil.rmtree(d, ignore_errors=True)


def check(ck):
    tree = Tree('all')
    pmap(lambda i: one(ck, tree, ck.sub(str(i)), str(i)), range(ck.n(100, 2500)))
    ck.rule = 'every leaf of every argument and result arrives bit for bit on the other side; callee-saved registers, the stack pointer and live values survive every call'
