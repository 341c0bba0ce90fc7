"""C58: setjmp and longjmp scripts against a stack model; option and result helpers over generated types."""
import re
from vf.core import *
from vf.aggr import World, copy
from vf.build import Tree
from vf.progs import Packer, Test

TECH = 'runtime monitoring: generated programs jump between live frames by script and print every live value, compared with a stack model; registers are read back by an assembly probe; helpers run on values of generated types'
NOTE = 'values not modified after setjmp; up to 6 nested frames, jumps through up to 40 further frames'


def jumps(r, name):
    w = World(r, name)
    nf = r.randint(1, 6)
    vals = []
    for i in range(nf):
        vs = [(t, w.value(t)) for t in (w.type(2, 8) if r.random() < .4 else w.scalar() for _ in range(r.randint(1, 10)))]
        vals.append(vs)
    D = w.decls
    pre = 'k' + name
    D.append('var %sb : std.jmpbuf#[%d]\nvar %ss : (int, int, int)[:]\nvar %sp : int = 0' % (pre, nf, pre, pre))
    D.append('const %snext = {-> (int, int, int)\n\t%sp++\n\t-> %ss[%sp - 1]\n}' % (pre, pre, pre, pre))
    # the way down before a jump: live values all around, calls in between
    nb = r.randint(1, 12)
    op = [r.choice('+-^*|') for _ in range(nb)]
    loc = '\n'.join('\tvar x%d : int64 = (d : int64) * %d %s a' % (i, r.randrange(1, 99), o) for i, o in enumerate(op))
    how = r.choice(['std.longjmp(%sb[k])', 'var lj = std.longjmp\n\t\tlj(%sb[k])', 'var jb = %sb[k]\n\t\tvar go = {; std.longjmp(jb)}\n\t\tgo()'])
    D.append('const %sburn = {d : int, k : int, a : int64, f : flt64 -> int64\n%s\n\tif d == 0\n\t\t%s\n\t;;\n\tvar y : int64 = %sburn(d - 1, k, a + x0, f * 1.5)\n\t-> y %s\n}' % (
        pre, loc, how % pre, pre, ' '.join('+ x%d' % i for i in range(nb))))
    for i in range(nf - 1, -1, -1):
        vs = vals[i]
        par = [j for j in range(len(vs)) if r.random() < .5]
        b = ['var jb : std.jmpbuf']
        if r.random() < .5:
            b.append('var pad : byte[%d]' % r.choice([1, 40, 4000]))
            b += ['std.slfill(pad[:], 0xaa)']
        b += ['var v%d : %s = %s(%s)' % (j, vs[j][0].name, w.ident(vs[j][0]), w.lit(*vs[j])) for j in range(len(vs)) if j not in par]
        b.append('%sb[%d] = &jb' % (pre, i))
        show = ['%s(v%d)' % (w.show(t), j) for j, (t, _) in enumerate(vs)] + ['dio.endl()']
        land = ['dio.word("j%d")' % i, 'dio.num((%sp : int64))' % pre] + show
        first = ['dio.word("c%d")' % i, 'dio.endl()']
        f = r.randrange(4)
        if f == 0:
            b += ['if std.setjmp(&jb)'] + land + ['else'] + first + [';;']
        elif f == 1:
            b += ['match std.setjmp(&jb)', '| false:'] + first + ['| true:'] + land + [';;']
        elif f == 2:
            b += ['var q : bool = std.setjmp(&jb)', 'if !q'] + first + ['else'] + land + [';;']
        else:
            b += ['var sj = std.setjmp', 'if !sj(&jb)'] + first + ['else'] + land + [';;']
        call = '%sf%d(%s)' % (pre, i + 1, ', '.join(w.lit(*vals[i + 1][j]) for j in vals_par[i + 1])) if i + 1 < nf else 'void'
        b += ['while true', 'match %snext()' % pre, '| (0, _, _):', '\t-> void', '| (1, k, d):', '\t%sburn(d, k, 3, 0.5)' % pre,
              '| _:', '\t' + call, '\tdio.word("r%d")' % i] + show + [';;', ';;']
        if i == nf - 1:
            vals_par = {}
        vals_par[i] = par
        D.append('const %sf%d = {%s -> void\n%s\n}' % (pre, i, ', '.join('v%d : %s' % (j, vs[j][0].name) for j in par), '\n'.join('\t' + x for x in b)))
    # the script and its trace
    sc, ex = [], []
    words = [[x for t, v in vs for x in w.words(t, v)] for vs in vals]
    top = 0
    ex.append('c0')
    for _ in range(r.randint(3, 40)):
        x = r.random()
        if x < .4 and top + 1 < nf:
            sc.append((2, 0, 0))
            top += 1
            ex.append('c%d' % top)
        elif x < .5 and top > 0:
            sc.append((0, 0, 0))
            top -= 1
            ex.append(' '.join(['r%d' % top] + words[top]))
        else:
            k = r.randint(0, top)
            sc.append((1, k, r.choice([0, 1, 2, 5, 40])))
            top = k
            ex.append(' '.join(['j%d' % k, str(len(sc))] + words[k]))
    while top >= 0:
        sc.append((0, 0, 0))
        top -= 1
        if top >= 0:
            ex.append(' '.join(['r%d' % top] + words[top]))
    body = ['%ss = [%s][:]' % (pre, ', '.join('(%d, %d, %d)' % s for s in sc)), '%sp = 0' % pre,
            '%sf0(%s)' % (pre, ', '.join(w.lit(*vals[0][j]) for j in vals_par[0]))]
    return Test(name, '\n'.join(D), body, ex, info=sum(1 for s in sc if s[0] == 1))


def options(r, name):
    w = World(r, name)
    body, ex = [], []
    for k in range(r.randint(2, 5)):
        t, u = w.type(3, 12), w.type(2, 12)
        st, su = w.show(t), w.show(u)
        v, v2, e = w.value(t), w.value(t), w.value(u)
        lv, lv2, le = w.lit(t, v), w.lit(t, v2), w.lit(u, e)
        f = w.id('f')
        # values pass through a function that cannot know which branch is taken
        w.decls.append('const %so = {b : bool, x : %s -> std.option(%s)\n\tif b\n\t\t-> `std.Some x\n\t;;\n\t-> `std.None\n}' % (f, t.name, t.name))
        w.decls.append('const %sr = {b : bool, x : %s, y : %s -> std.result(%s, %s)\n\tif b\n\t\t-> `std.Ok x\n\t;;\n\t-> `std.Err y\n}' % (
            f, t.name, u.name, t.name, u.name))
        V, V2, E = w.words(t, v), w.words(t, v2), w.words(u, e)
        steps = [
            (['%s(std.get(%so(true, %s)))' % (st, f, lv)], V),
            (['%s(std.getv(%so(true, %s), %s))' % (st, f, lv, lv2)], V),
            (['%s(std.getv(%so(false, %s), %s))' % (st, f, lv, lv2)], V2),
            (['dio.flag(std.canget(%so(true, %s)))' % (f, lv)], ['1']),
            (['dio.flag(std.canget(%so(false, %s)))' % (f, lv)], ['0']),
            (['%s(std.tryv(%sr(true, %s, %s), %s))' % (st, f, lv, le, lv2)], V),
            (['%s(std.tryv(%sr(false, %s, %s), %s))' % (st, f, lv, le, lv2)], V2),
            (['match %sr(false, %s, %s)' % (f, lv, le), '| `std.Ok x: %s(x)' % st, '| `std.Err y: %s(y)' % su, ';;'], E),
            (['match %sr(true, %s, %s)' % (f, lv, le), '| `std.Ok x: %s(x)' % st, '| `std.Err y: %s(y)' % su, ';;'], V),
            (['match %so(true, %s)' % (f, lv), '| `std.Some x: %s(x)' % st, '| `std.None: dio.word("none")', ';;'], V),
            (['match %so(false, %s)' % (f, lv), '| `std.Some x: %s(x)' % st, '| `std.None: dio.word("none")', ';;'], ['none']),
            (['var o%d = %so(true, %s)' % (k, f, lv), 'o%d = %so(true, %s)' % (k, f, lv2), '%s(std.get(o%d))' % (st, k)], V2),
            (['%s(std.get(std.get((`std.Some %so(true, %s) : std.option(std.option(%s))))))' % (st, f, lv, t.name)], V),
            (['dio.flag(std.canget(std.get((`std.Some %so(false, %s) : std.option(std.option(%s))))))' % (f, lv, t.name)], ['0']),
        ]
        if u.kind == 'scal' or u.name == 'byte[:]':
            # std.try formats its error, so any type will do
            pass
        steps.append((['%s(std.try(%sr(true, %s, %s)))' % (st, f, lv, le)], V))
        r.shuffle(steps)
        for b, x in steps:
            body += b + ['dio.endl()']
            ex.append(' '.join(x))
    return Test(name, '\n'.join(w.decls), body, ex, info=len(ex))


REGS = r'''
.globl drv$probe
drv$probe:
	pushq %rbp
	movq %rsp, %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	pushq %rdi
	pushq %rsi
	pushq %rdx
	movq %rdi, %rax
	movq %rdx, %rdi
	movq 0(%rax), %rbx
	movq 8(%rax), %rbp
	movq 16(%rax), %r12
	movq 24(%rax), %r13
	movq 32(%rax), %r14
	movq 40(%rax), %r15
	movq %rsp, drv$sp(%rip)
	call std$setjmp
	movq drv$sp(%rip), %rcx
	subq %rsp, %rcx
	movq 8(%rsp), %rsi
	movq %rbx, 0(%rsi)
	movq %rbp, 8(%rsi)
	movq %r12, 16(%rsi)
	movq %r13, 24(%rsi)
	movq %r14, 32(%rsi)
	movq %r15, 40(%rsi)
	movq %rcx, 48(%rsi)
	movzbq %al, %rax
	movq %rax, 56(%rsi)
	testb %al, %al
	jnz 1f
	movq (%rsp), %rdi
	xorl %ebx, %ebx
	xorl %r12d, %r12d
	movq $-1, %r13
	call drv$jump
1:
	movq drv$sp(%rip), %rsp
	popq %rdx
	popq %rsi
	popq %rdi
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.comm drv$sp,8,8
.section .note.GNU-stack,"",@progbits
'''

DRV = '''use std
pkg drv =
	extern const probe : (inp : uint64#, out : uint64#, jb : std.jmpbuf# -> void)
	const jump : (jb : std.jmpbuf# -> void)
	var saw : uint64[8]
	var out : uint64[8]
;;
var saw
var out
const deep = {jb : std.jmpbuf#, d : int, a : int64, b : int64 -> int64
	var c = a * b + (d : int64)
	var e = a ^ b
	var f = a - b
	if d == 0
		std.longjmp(jb)
	;;
	-> deep(jb, d - 1, c, e) + c + e + f
}
const jump = {jb
	saw = out
	deep(jb, %(depth)d, 3, 4)
}
'''

PROBE = '''use std
use "dio"
use "drv"
const main = {
	var jb : std.jmpbuf
	for inp : [%(rows)s][:]
		drv.probe(&inp[0], &drv.out[0], &jb)
		for s : [drv.saw, drv.out][:]
			for x : s
				dio.unum(x)
			;;
			dio.endl()
		;;
	;;
}
'''

DIE = '''use std
type big = struct
	a : int64[9]
;;
const main = {args : byte[:][:]
	var o : std.option(big) = `std.None
	var p : std.option(byte) = `std.None
	var e : std.result(int, byte[:]) = `std.Err "no such luck"
	var f : std.result(big, int) = `std.Err -42
	var g : std.result(void, char) = `std.Err 'q'
	var x = [.a = [1, 2, 3, 4, 5, 6, 7, 8, 9]]
	match (args[1][0] : char)
	| '0': x = std.get(o)
	| '1': std.put("{}\\n", std.get(p))
	| '2': std.put("{}\\n", std.try(e))
	| '3': x = std.try(f)
	| '4': std.try(g)
	| '5':
		o = `std.Some x
		p = `std.Some 0
		e = `std.Ok 0
		f = `std.Ok x
		g = `std.Ok void
		std.try(g)
		x = std.get(o)
		x = std.try(f)
		std.put("{} {}\\n", std.get(p), std.try(e))
	| _:
	;;
	std.put("after {}\\n", x.a[8])
}
'''
NONE = b'error: option had `None\n'
DIES = [(1, b'', NONE), (1, b'', NONE), (1, b'', b'error: no such luck\n'), (1, b'', b'error: -42\n'), (1, b'', b'error: q\n'), (0, b'0 0\nafter 9\n', b'')]


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c58')
    r = ck.sub('jump')
    tests = [jumps(r, 'j%d' % i) for i in range(ck.n(300, 5000))]
    pk.check(tests, per=20)
    ck.count('jumps', sum(t.info for t in tests))
    r = ck.sub('opt')
    tests = [options(r, 'o%d' % i) for i in range(ck.n(140, 3000))]
    pk.check(tests, per=16)
    ck.count('helper calls', sum(t.info for t in tests))
    d = pk.dir
    # registers
    r = ck.sub('regs')
    with open(os.path.join(d, 'probe.s'), 'w') as f:
        f.write(REGS)
    subprocess.run(['as', '-o', 'probe_s.o', 'probe.s'], cwd=d, check=True)
    for k in range(ck.n(4, 20)):
        rows = [[r.choice([0, 2**64 - 1, r.getrandbits(64), r.getrandbits(31)]) for _ in range(6)] for _ in range(12)]
        drv = DRV % {'depth': r.choice([0, 1, 7, 60])}
        src = PROBE % {'rows': ', '.join('[%s]' % ', '.join('0x%x' % x for x in w + [0, 0]) for w in rows)}
        for n, t in ('drv', drv), ('probe', src):
            with open(os.path.join(d, n + '.myr'), 'w') as f:
                f.write(t)
            p = tree.compile(os.path.join(d, n + '.myr'), cwd=d)
            if p.returncode:
                break
        if p.returncode:
            ck.violation('probe', 'valid program rejected: ' + p.stdout.decode('latin1')[-800:], {'probe.myr': src, 'drv.myr': drv})
            return
        exe = os.path.join(d, 'probe')
        q = tree.link(exe, [exe + '.o', exe + '_s.o', os.path.join(d, 'drv.o'), os.path.join(d, 'dio.o')])
        if q.returncode:
            raise Inconclusive('probe does not link: ' + q.stdout.decode('latin1')[-500:])
        res = run([exe], timeout=20)
        exp = [' '.join(str(x) for x in w + [0, j]) for w in rows for j in (0, 1)]
        got = [l.rstrip() for l in res.out.decode('latin1').split('\n')[:-1]]
        ck.saw(('regs', drv, src))
        ck.count('register files', len(rows) * 2)
        if got != exp or res.rc:
            i = next((i for i in range(len(exp)) if i >= len(got) or got[i] != exp[i]), len(exp))
            ck.violation('registers', 'probe %s; line %d (rbx rbp r12 r13 r14 r15 rsp-difference result): got %s, expected %s' % (
                how(res), i + 1, got[i] if i < len(got) else 'nothing', exp[i] if i < len(exp) else 'no more'), {'probe.myr': src, 'drv.myr': drv, 'probe.s': REGS})
    # the ends of get and try
    with open(os.path.join(d, 'die.myr'), 'w') as f:
        f.write(DIE)
    p = tree.compile(os.path.join(d, 'die.myr'), cwd=d)
    exe = os.path.join(d, 'die')
    if p.returncode:
        ck.violation('die', 'valid program rejected: ' + p.stdout.decode('latin1')[-800:], {'die.myr': DIE})
        return
    q = tree.link(exe, [exe + '.o'])
    if q.returncode:
        ck.violation('die', 'program does not link: ' + q.stdout.decode('latin1')[-800:], {'die.myr': DIE})
        return
    for i, (rc, out, err) in enumerate(DIES):
        res = run([exe, str(i)], timeout=20)
        ck.saw(('die', i))
        msg = re.sub(rb'^[^\n]*?(?=error)', b'', res.err)
        if (res.rc, res.out, msg) != (rc, out, err):
            ck.violation('get and try case %d' % i, '%s, wrote %r and %r; expected exit status %d, %r and %r' % (how(res), res.out, res.err, rc, out, err), {'die.myr': DIE})
    ck.rule = 'every landing shows the values of its frame as they were at setjmp, in the order the script jumps; helpers give back what was wrapped or end the program with the error'
