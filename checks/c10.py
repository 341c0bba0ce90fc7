"""C10: ill-typed programs are rejected with a diagnostic; inference is transparent."""
import os, re, shutil, subprocess
from vf.build import Tree, pmap, clean_env
from vf.core import Inconclusive
from vf.progs import Packer, Test
from checks import c04, c05, c08, c14

TECH = 'runtime monitoring: programs with exactly one planted violation of the typing rules, amid generated valid code, are compiled beside their corrected twins; an oracle checks exit status, position of the message and absence of an object file, and programs with redundant annotations removed are run against the model of the annotated ones'
NOTE = 'about 70 kinds of fault over random types and positions; the line reported must be the line of the fault (for faults of a whole declaration, a line of that declaration)'

INTS = ['int', 'int8', 'int16', 'int32', 'int64', 'uint', 'uint8', 'uint16', 'uint32', 'uint64', 'byte', 'char']
FLTS = ['flt32', 'flt64']


class Env:
    """A few types with values, under names that occur nowhere else."""
    def __init__(self, r, tag):
        self.r, self.tag, self.n = r, tag, 0
        self.decls = []
        self.st = self.id('s')
        self.un = self.id('u')
        self.f1, self.f2 = 'qa' + tag, 'qb' + tag
        t1, t2 = r.choice(INTS), r.choice(FLTS)
        self.decls += ['type %s = struct' % self.st, '\t%s : %s' % (self.f1, t1), '\t%s : %s' % (self.f2, t2), ';;',
                       'type %s = union' % self.un, '\t`T%sa' % tag, '\t`T%sb %s' % (tag, t1), ';;']
        self.mt = {self.f1: t1, self.f2: t2}

    def id(self, p='v'):
        self.n += 1
        return '%s%s_%d' % (p, self.tag, self.n)

    def ty(self, kinds=None):
        r = self.r
        c = kinds or ['int', 'int', 'flt', 'bool', 'str', 'tup', 'arr', 'ptr', 'st', 'un', 'slice']
        k = r.choice(c)
        if k == 'int':
            return r.choice(INTS)
        if k == 'flt':
            return r.choice(FLTS)
        if k == 'bool':
            return 'bool'
        if k == 'str':
            return 'byte[:]'
        if k == 'tup':
            return '(%s, %s)' % (r.choice(INTS), r.choice(FLTS + ['bool']))
        if k == 'arr':
            return '%s[%d]' % (r.choice(INTS + FLTS), r.randrange(1, 4))
        if k == 'ptr':
            return r.choice(INTS + FLTS + [self.st]) + '#'
        if k == 'slice':
            return r.choice(INTS[:10] + FLTS + [self.st]) + '[:]'
        return self.st if k == 'st' else self.un

    def two(self, kinds=None):
        a = self.ty(kinds)
        while True:
            b = self.ty(kinds)
            if a != b and {a, b} != {'byte', 'uint8'} and {a, b} != {'byte[:]', 'uint8[:]'}:
                return a, b

    def val(self, t):
        """the name of a new function that gives a value of type t"""
        f = self.id('g')
        self.decls += ['const %s = {-> %s' % (f, t), '\tvar z : %s' % t, '\tstd.clear(&z)' if False else '\t-> zero%s()' % self.tag, '}']
        return f + '()'


def prelude(tag):
    return ['generic zero%s = {-> @z' % tag, '\tvar p : @z#', '\tp = std.alloc()', '\t-> p#', '}']


FAULTS = {}


def fault(f):
    FAULTS[f.__name__] = f
    return f


# Each fault gives (good, bad): lists of lines of a function body, of the same length, that differ in one line;
# or a pair of lists of top-level lines when the first element is 'decl'.

def body(good, bad):
    return ('body', good, bad)


def decl(good, bad):
    return ('decl', good, bad)


@fault
def operand(e):
    a, b = e.two(['int', 'flt'])
    op = e.r.choice(['+', '-', '*', '/', '==', '<', '>=', '!='])
    x, y = e.id(), e.id()
    return body(['var %s : %s = %s' % (x, a, e.val(a)), 'var %s : %s = %s' % (y, b, e.val(b)), 'use%s(%s %s %s)' % (e.tag, x, op, x)],
                ['var %s : %s = %s' % (x, a, e.val(a)), 'var %s : %s = %s' % (y, b, e.val(b)), 'use%s(%s %s %s)' % (e.tag, x, op, y)])


@fault
def bitoperand(e):
    a, b = e.two(['int'])
    op = e.r.choice(['&', '|', '^', '%'])
    return body(['use%s(%s %s %s)' % (e.tag, e.val(a), op, e.val(a))], ['use%s(%s %s %s)' % (e.tag, e.val(a), op, e.val(b))])


@fault
def argument(e):
    a, b = e.two()
    f = e.id('f')
    e.decls += ['const %s = {x : int, y : %s -> int' % (f, a), '\tuse%s(y)' % e.tag, '\t-> x', '}']
    return body(['use%s(%s(1, %s))' % (e.tag, f, e.val(a))], ['use%s(%s(1, %s))' % (e.tag, f, e.val(b))])


@fault
def argument_value(e):
    a, b = e.two()
    x = e.id()
    c = '{x : %s -> %s; -> x}' % (a, a)
    return body(['var %s = %s' % (x, c), 'use%s(%s(%s))' % (e.tag, x, e.val(a))], ['var %s = %s' % (x, c), 'use%s(%s(%s))' % (e.tag, x, e.val(b))])


@fault
def returned(e):
    a, b = e.two()
    f = e.id('f')
    va, vb = e.val(a), e.val(b)
    return decl(['const %s = {x : int -> %s' % (f, a), '\tuse%s(x)' % e.tag, '\t-> %s' % va, '}'],
                ['const %s = {x : int -> %s' % (f, a), '\tuse%s(x)' % e.tag, '\t-> %s' % vb, '}'])


@fault
def returned_early(e):
    a, b = e.two()
    f = e.id('f')
    va, vb = e.val(a), e.val(b)
    return decl(['const %s = {x : int -> %s' % (f, a), '\tif x > 3', '\t\t-> %s' % va, '\t;;', '\t-> %s' % va, '}'],
                ['const %s = {x : int -> %s' % (f, a), '\tif x > 3', '\t\t-> %s' % vb, '\t;;', '\t-> %s' % va, '}'])


@fault
def assigned(e):
    a, b = e.two()
    x = e.id()
    return body(['var %s : %s = %s' % (x, a, e.val(a)), '%s = %s' % (x, e.val(a)), 'use%s(%s)' % (e.tag, x)],
                ['var %s : %s = %s' % (x, a, e.val(a)), '%s = %s' % (x, e.val(b)), 'use%s(%s)' % (e.tag, x)])


@fault
def initialised(e):
    a, b = e.two()
    x = e.id()
    return body(['var %s : %s = %s' % (x, a, e.val(a)), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = %s' % (x, a, e.val(b)), 'use%s(%s)' % (e.tag, x)])


@fault
def compound(e):
    a, b = e.two(['int', 'flt'])
    x = e.id()
    op = e.r.choice(['+=', '-=', '*=', '/='])
    return body(['var %s : %s = %s' % (x, a, e.val(a)), '%s %s %s' % (x, op, e.val(a)), 'use%s(%s)' % (e.tag, x)],
                ['var %s : %s = %s' % (x, a, e.val(a)), '%s %s %s' % (x, op, e.val(b)), 'use%s(%s)' % (e.tag, x)])


@fault
def arity(e):
    n = e.r.randrange(0, 4)
    m = e.r.choice([k for k in range(0, 6) if k != n])
    f = e.id('f')
    e.decls += ['const %s = {%s -> int' % (f, ', '.join('x%d : int' % i for i in range(n)))] + ['\tuse%s(x%d)' % (e.tag, i) for i in range(n)] + ['\t-> 1', '}']
    return body(['use%s(%s(%s))' % (e.tag, f, ', '.join('1' * n))], ['use%s(%s(%s))' % (e.tag, f, ', '.join('1' * m))])


@fault
def undeclared(e):
    x = e.id()
    return body(['var %s = 3' % x, 'use%s(%s + 1)' % (e.tag, x)], ['var %s = 3' % x, 'use%s(%s + nosuch%s)' % (e.tag, x, e.tag)])


@fault
def undeclared_function(e):
    return body(['use%s(1)' % e.tag], ['nosuch%s(1)' % e.tag])


@fault
def undeclared_in_package(e):
    return body(['std.put("")'], ['std.nosuch%s("")' % e.tag])


@fault
def out_of_scope(e):
    x, y = e.id(), e.id()
    return body(['var %s = 3' % x, 'if %s > 2' % x, '\tvar %s = 4' % y, '\tuse%s(%s)' % (e.tag, y), ';;', 'use%s(%s)' % (e.tag, x)],
                ['var %s = 3' % x, 'if %s > 2' % x, '\tvar %s = 4' % y, '\tuse%s(%s)' % (e.tag, y), ';;', 'use%s(%s)' % (e.tag, y)])


@fault
def undeclared_type(e):
    x = e.id()
    return body(['var %s : %s#' % (x, e.st), '%s = std.zalloc()' % x, 'use%s(%s)' % (e.tag, x)], ['var %s : nosuch%s#' % (x, e.tag), '%s = std.zalloc()' % x, 'use%s(%s)' % (e.tag, x)])


@fault
def member(e):
    x = e.id()
    v = e.val(e.st)
    return body(['var %s = %s' % (x, v), 'use%s(%s.%s)' % (e.tag, x, e.f1)], ['var %s = %s' % (x, v), 'use%s(%s.nosuch)' % (e.tag, x)])


@fault
def member_of_scalar(e):
    t = e.ty(['int', 'flt', 'bool'])
    return body(['use%s(%s.%s)' % (e.tag, e.val(e.st), e.f1)], ['use%s(%s.%s)' % (e.tag, e.val(t), e.f1)])


@fault
def member_type(e):
    x, v = e.id(), e.val(e.st)
    a = e.mt[e.f1]
    b = e.r.choice([t for t in INTS + FLTS + ['bool'] if t != a and {t, a} != {'byte', 'uint8'}])
    return body(['var %s = %s' % (x, v), '%s.%s = %s' % (x, e.f1, e.val(a)), 'use%s(%s)' % (e.tag, x)], ['var %s = %s' % (x, v), '%s.%s = %s' % (x, e.f1, e.val(b)), 'use%s(%s)' % (e.tag, x)])


@fault
def literal_member(e):
    x = e.id()
    return body(['var %s : %s = [.%s = %s]' % (x, e.st, e.f1, e.val(e.mt[e.f1])), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = [.nosuch = %s]' % (x, e.st, e.val(e.mt[e.f1])), 'use%s(%s)' % (e.tag, x)])


@fault
def literal_member_type(e):
    x = e.id()
    a = e.mt[e.f1]
    b = e.r.choice([t for t in INTS + FLTS + ['bool'] if t != a and {t, a} != {'byte', 'uint8'}])
    return body(['var %s : %s = [.%s = %s]' % (x, e.st, e.f1, e.val(a)), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = [.%s = %s]' % (x, e.st, e.f1, e.val(b)), 'use%s(%s)' % (e.tag, x)])


@fault
def tag(e):
    x = e.id()
    return body(['var %s : %s = `T%sa' % (x, e.un, e.tag), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = `T%sz' % (x, e.un, e.tag), 'use%s(%s)' % (e.tag, x)])


@fault
def tag_argument(e):
    x = e.id()
    a = e.mt[e.f1]
    b = e.r.choice([t for t in INTS + FLTS + ['bool'] if t != a and {t, a} != {'byte', 'uint8'}])
    return body(['var %s : %s = `T%sb %s' % (x, e.un, e.tag, e.val(a)), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = `T%sb %s' % (x, e.un, e.tag, e.val(b)), 'use%s(%s)' % (e.tag, x)])


@fault
def tag_arity(e):
    x = e.id()
    good = 'var %s : %s = `T%sa' % (x, e.un, e.tag)
    bad = e.r.choice(['var %s : %s = `T%sa %s' % (x, e.un, e.tag, e.val('int')), 'var %s : %s = `T%sb' % (x, e.un, e.tag)])
    return body([good, 'use%s(%s)' % (e.tag, x)], [bad, 'use%s(%s)' % (e.tag, x)])


@fault
def tag_pattern(e):
    v = e.val(e.un)
    return body(['match %s' % v, '| `T%sa: use%s(1)' % (e.tag, e.tag), '| _:', ';;'], ['match %s' % v, '| `T%sz: use%s(1)' % (e.tag, e.tag), '| _:', ';;'])


@fault
def pattern_type(e):
    a, b = e.r.choice([('int', '"x"'), ('int16', 'true'), ('byte[:]', '3'), ('bool', '1'), ('flt64', '"a"'), (e.st, '1'), (e.un, '(1, 2)'), ('(int, bool)', '(1, 2, 3)'), ('int[2]', '[1, 2, 3]'), ('char', '"a"')])
    v = e.val(a)
    return body(['match %s' % v, '| _: use%s(1)' % e.tag, ';;', ''], ['match %s' % v, '| %s: use%s(2)' % (b, e.tag), '| _: use%s(1)' % e.tag, ';;'])


@fault
def trait_missing(e):
    tr, f, g = e.id('tr'), e.id('m'), e.id('h')
    a, b = e.two(['int', 'flt', 'bool', 'st', 'un'])
    e.decls += ['trait %s @a =' % tr, '\t%s : (x : @a -> int)' % f, ';;', 'impl %s %s =' % (tr, a), '\t%s = {x' % f, '\t\tuse%s(x)' % e.tag, '\t\t-> 1', '\t}', ';;',
                'generic %s = {x : @t -> int :: %s @t' % (g, tr), '\t-> %s(x) + 1' % f, '}']
    c = e.r.choice([f, g])
    return body(['use%s(%s(%s))' % (e.tag, c, e.val(a))], ['use%s(%s(%s))' % (e.tag, c, e.val(b))])


@fault
def trait_missing_builtin(e):
    op = e.r.choice(['+', '-', '*', '/', '<', '>'])
    t = e.r.choice([e.st, e.un, 'bool', '(int, int)', 'byte[:]', 'int[3]'])
    return body(['use%s(%s %s %s)' % (e.tag, e.val('int'), op, e.val('int'))], ['use%s(%s %s %s)' % (e.tag, e.val(t), op, e.val(t))])


@fault
def trait_param(e):
    g = e.id('h')
    return decl(['generic %s = {x : @t, y : @t -> @t :: numeric @t' % g, '\t-> x + y', '}'], ['generic %s = {x : @t, y : @t -> @t' % g, '\t-> x + y', '}'])


@fault
def trait_integral(e):
    op = e.r.choice(['&', '|', '^', '<<', '>>', '%'])
    t = e.r.choice(['flt32', 'flt64', 'bool'])
    return body(['use%s(%s %s %s)' % (e.tag, e.val('int'), op, e.val('int'))], ['use%s(%s %s %s)' % (e.tag, e.val(t), op, e.val(t))])


@fault
def impl_incomplete(e):
    tr, f, g = e.id('tr'), e.id('m'), e.id('m')
    e.decls += ['trait %s @a =' % tr, '\t%s : (x : @a -> int)' % f, '\t%s : (x : @a -> int)' % g, ';;']
    fn = ['\t%s = {x', '\t\t-> 1', '\t}']
    return decl(['impl %s %s =' % (tr, e.st)] + ['\t%s = {x' % f] + fn[1:] + ['\t%s = {x' % g] + fn[1:] + [';;'], ['impl %s %s =' % (tr, e.st)] + ['\t%s = {x' % f] + fn[1:] + [';;'] + [''] * 3)


@fault
def impl_type(e):
    tr, f = e.id('tr'), e.id('m')
    e.decls += ['trait %s @a =' % tr, '\t%s : (x : @a -> int)' % f, ';;']
    return decl(['impl %s %s =' % (tr, e.st), '\t%s = {x : %s -> int' % (f, e.st), '\t\t-> 1', '\t}', ';;'], ['impl %s %s =' % (tr, e.st), '\t%s = {x : %s, y : int -> int' % (f, e.st), '\t\t-> 1', '\t}', ';;'])


@fault
def impl_unknown(e):
    tr, f = e.id('tr'), e.id('m')
    e.decls += ['trait %s @a =' % tr, '\t%s : (x : @a -> int)' % f, ';;']
    return decl(['impl %s %s =' % (tr, e.st), '\t%s = {x' % f, '\t\t-> 1', '\t}', ';;'], ['impl nosuch%s %s =' % (e.tag, e.st), '\t%s = {x' % f, '\t\t-> 1', '\t}', ';;'])


@fault
def const_assigned(e):
    t = e.r.choice(INTS + FLTS + ['bool', 'char'])
    x = e.id('k')
    v = {'bool': 'true', 'char': "'c'"}.get(t, '3.0' if t in FLTS else '3')
    op = '%s = %s' % (x, v)
    if t in INTS + FLTS:
        op = e.r.choice([op, '%s += %s' % (x, v)] + (['%s++' % x] if t in INTS else []))
    return body(['const %s : %s = %s' % (x, t, v), 'use%s(%s)' % (e.tag, x)], ['const %s : %s = %s' % (x, t, v), op])


@fault
def const_global_assigned(e):
    x, y = e.id('k'), e.id('w')
    e.decls += ['const %s = 12' % x, 'var %s = 12' % y]
    return body(['%s = 3' % y], ['%s = 3' % x])


@fault
def function_assigned(e):
    f, g = e.id('f'), e.id('w')
    e.decls += ['const %s = {-> int; -> 1}' % f, 'var %s = {-> int; -> 1}' % g]
    return body(['%s = {-> int; -> 2}' % g], ['%s = {-> int; -> 2}' % f])


@fault
def nonlvalue(e):
    x = e.id()
    bad = e.r.choice(['%s = 2' % e.val('int'), '1 = %s' % x, '(%s + 1) = 2' % x, '-%s = 2' % x, '(%s : int8) = 2' % x, '%s++' % e.val('int'), '%s += 1' % e.val('int')])
    return body(['var %s = 1' % x, 'use%s(%s)' % (e.tag, x), '%s = 2' % x], ['var %s = 1' % x, 'use%s(%s)' % (e.tag, x), bad])


@fault
def address_of_value(e):
    x = e.id()
    return body(['var %s = 1' % x, 'use%s(&%s)' % (e.tag, x)], ['var %s = 1' % x, 'use%s(&%s)' % (e.tag, e.r.choice(['1', '(%s + 1)' % x, '(%s, 2)' % x]))])


@fault
def call_nonfunction(e):
    t = e.ty()
    x = e.id()
    return body(['var %s : %s = %s' % (x, t, e.val(t)), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = %s' % (x, t, e.val(t)), '%s(1)' % x])


@fault
def function_as_value(e):
    f = e.id('f')
    e.decls += ['const %s = {x : int -> int; -> x}' % f]
    return body(['use%s(%s(1) + 1)' % (e.tag, f)], ['use%s(%s + 1)' % (e.tag, f)])


@fault
def index_scalar(e):
    t = e.r.choice(['int', 'flt64', 'bool', e.st, e.un])
    return body(['use%s(%s[0])' % (e.tag, e.val('int[3]'))], ['use%s(%s[0])' % (e.tag, e.val(t))])


@fault
def index_type(e):
    t = e.r.choice(['flt64', 'bool', 'byte[:]', e.st])
    x, y = e.id(), e.id()
    return body(['var %s : int[:] = [1, 2][:]' % x, 'var %s : %s = %s' % (y, t, e.val(t)), 'use%s((%s, %s[1]))' % (e.tag, y, x)], ['var %s : int[:] = [1, 2][:]' % x, 'var %s : %s = %s' % (y, t, e.val(t)), 'use%s(%s[%s])' % (e.tag, x, y)])


@fault
def slice_scalar(e):
    t = e.r.choice(['int', 'flt64', 'bool', e.st])
    return body(['use%s(%s[0:1])' % (e.tag, e.val('int[3]'))], ['use%s(%s[0:1])' % (e.tag, e.val(t))])


@fault
def deref(e):
    t = e.ty(['int', 'flt', 'bool', 'str', 'tup', 'arr', 'st', 'un'])
    return body(['use%s(%s#)' % (e.tag, e.val('int#'))], ['use%s(%s#)' % (e.tag, e.val(t))])


@fault
def condition(e):
    t = e.ty(['int', 'flt', 'str', 'ptr', 'st'])
    v = e.val(t)
    g, b = e.r.choice([('if %s', 'if %s'), ('while %s', 'while %s')])
    return body([g % e.val('bool'), '\tuse%s(1)' % e.tag, ';;'], [b % v, '\tuse%s(1)' % e.tag, ';;'])


@fault
def logical(e):
    t = e.ty(['int', 'flt', 'str', 'ptr'])
    op = e.r.choice(['%s && true', 'true || %s', '!%s'])
    return body(['use%s(%s)' % (e.tag, op % e.val('bool'))], ['use%s(%s)' % (e.tag, op % e.val(t))])


@fault
def ternary(e):
    a, b = e.two(['int', 'flt', 'bool', 'str', 'st'])
    return body(['use%s(%s ? %s : %s)' % (e.tag, e.val('bool'), e.val(a), e.val(a))], ['use%s(%s ? %s : %s)' % (e.tag, e.val('bool'), e.val(a), e.val(b))])


@fault
def uninitialised(e):
    t = e.ty(['int', 'flt', 'bool', 'ptr'])
    x = e.id()
    v = e.val(t)
    return body(['var %s : %s' % (x, t), '%s = %s' % (x, v), 'use%s(%s)' % (e.tag, x)], ['var %s : %s' % (x, t), '', 'use%s(%s)' % (e.tag, x)])


@fault
def noreturn(e):
    f = e.id('f')
    t = e.ty()
    v = e.val(t)
    return decl(['const %s = {x : int -> %s' % (f, t), '\tuse%s(x)' % e.tag, '\t-> %s' % v, '}'], ['const %s = {x : int -> %s' % (f, t), '\tuse%s(x)' % e.tag, '', '}'])


@fault
def noreturn_branch(e):
    f = e.id('f')
    t = e.ty()
    v = e.val(t)
    return decl(['const %s = {x : int -> %s' % (f, t), '\tif x > 1', '\t\t-> %s' % v, '\t;;', '\t-> %s' % v, '}'], ['const %s = {x : int -> %s' % (f, t), '\tif x > 1', '\t\t-> %s' % v, '\t;;', '', '}'])


@fault
def infinite(e):
    s = e.id('i')
    k = e.r.choice(['x : %s', 'x : %s[2]', 'x : (int, %s)', 'x : struct\n\t\ty : %s\n\t;;'])
    good = ['type %s = struct' % s, '\tx : %s#' % s, ';;', '', '']
    bad = ['type %s = struct' % s] + ('\t' + k % s).split('\n') + [';;']
    return decl(good, bad + [''] * (5 - len(bad)))


@fault
def infinite_pair(e):
    s, t = e.id('i'), e.id('i')
    return decl(['type %s = struct' % s, '\tx : %s' % t, ';;', 'type %s = union' % t, '\t`A%s %s#' % (t, s), '\t`B%s' % t, ';;'],
                ['type %s = struct' % s, '\tx : %s' % t, ';;', 'type %s = union' % t, '\t`A%s %s' % (t, s), '\t`B%s' % t, ';;'])


@fault
def duplicate_local(e):
    x, y = e.id(), e.id()
    return body(['var %s = 1' % x, 'var %s = 2' % y, 'use%s(%s)' % (e.tag, x), 'use%s(%s)' % (e.tag, y)], ['var %s = 1' % x, 'var %s = 2' % x, 'use%s(%s)' % (e.tag, x), ''])


@fault
def duplicate_global(e):
    x, y = e.id('w'), e.id('w')
    k = e.r.choice(['var %s = 2', 'const %s = 2', 'const %s = {-> int; -> 2}'])
    return decl(['var %s = 1' % x, k % y], ['var %s = 1' % x, k % x])


@fault
def duplicate_type(e):
    x, y = e.id('d'), e.id('d')
    return decl(['type %s = int' % x, 'type %s = byte' % y], ['type %s = int' % x, 'type %s = byte' % x])


@fault
def duplicate_tag(e):
    x, y = e.id('d'), e.id('d')
    return decl(['type %s = union' % x, '\t`D%s' % x, ';;', 'type %s = union' % y, '\t`D%s' % y, ';;'], ['type %s = union' % x, '\t`D%s' % x, ';;', 'type %s = union' % y, '\t`D%s' % x, ';;'])


@fault
def duplicate_impl(e):
    tr, f = e.id('tr'), e.id('m')
    e.decls += ['trait %s @a =' % tr, '\t%s : (x : @a -> int)' % f, ';;']
    i = ['impl %s %%s =' % tr, '\t%s = {x; -> 1}' % f, ';;']
    return decl([l % e.st if '%' in l else l for l in i] + [l % e.un if '%' in l else l for l in i], [l % e.st if '%' in l else l for l in i] * 2)


@fault
def duplicate_argument(e):
    f = e.id('f')
    return decl(['const %s = {x : int, y : int' % f, '\tuse%s(x)' % e.tag, '}'], ['const %s = {x : int, x : int' % f, '\tuse%s(x)' % e.tag, '}'])


@fault
def tuple_size(e):
    x = e.id()
    return body(['var %s : (int, int) = (1, 2)' % x, 'use%s(%s)' % (e.tag, x)], ['var %s : (int, int) = (1, 2, 3)' % x, 'use%s(%s)' % (e.tag, x)])


@fault
def tuple_member(e):
    v = e.val('(int, bool)')
    return body(['use%s(%s.1)' % (e.tag, v)], ['use%s(%s.2)' % (e.tag, v)])


@fault
def array_size(e):
    x = e.id()
    return body(['var %s : int[2] = [1, 2]' % x, 'use%s(%s)' % (e.tag, x)], ['var %s : int[2] = [1, 2, 3]' % x, 'use%s(%s)' % (e.tag, x)])


@fault
def array_elements(e):
    x = e.id()
    return body(['var %s = [%s, %s]' % (x, e.val('int'), e.val('int')), 'use%s(%s)' % (e.tag, x)], ['var %s = [%s, %s]' % (x, e.val('int'), e.val('bool')), 'use%s(%s)' % (e.tag, x)])


@fault
def cast(e):
    a, b = e.r.choice([('byte[:]', 'int'), (e.st, 'int'), ('int', e.st), ('(int, int)', 'int'), ('flt64', 'byte[:]'), (e.un, 'flt32'), ('int', '(int, int)'), ('int[3]', 'int')])
    return body(['use%s((%s : int64))' % (e.tag, e.val('int'))], ['use%s((%s : %s))' % (e.tag, e.val(a), b)])


@fault
def literal_range(e):
    t, v = e.r.choice([('int8', '300'), ('uint8', '256'), ('int16', '70000'), ('uint16', '65536'), ('int32', '0x1ffffffff'), ('uint32', '0x100000000')])
    x = e.id()
    return body(['var %s : %s = 100' % (x, t), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = %s' % (x, t, v), 'use%s(%s)' % (e.tag, x)])


@fault
def literal_kind(e):
    t, g, b = e.r.choice([('int', '3', '3.5'), ('flt64', '3.5', '"a"'), ('bool', 'true', '1'), ('byte[:]', '"a"', "'a'"), ('int', '1', 'true'), ('flt32', '1.5', 'false'), ('char', "'a'", '"a"'), ('int', '1', '"x"')])
    x = e.id()
    return body(['var %s : %s = %s' % (x, t, g), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = %s' % (x, t, b), 'use%s(%s)' % (e.tag, x)])


@fault
def generic_arguments(e):
    b = e.id('b')
    e.decls += ['type %s(@a, @b) = struct' % b, '\tx : @a', '\ty : @b', ';;']
    x = e.id()
    bad = e.r.choice(['%s(int)', '%s(int, int, int)', '%s']) % b
    return body(['var %s : %s(int, int)#' % (x, b), '%s = std.zalloc()' % x, 'use%s(%s)' % (e.tag, x)], ['var %s : %s#' % (x, bad), '%s = std.zalloc()' % x, 'use%s(%s)' % (e.tag, x)])


@fault
def generic_mismatch(e):
    g = e.id('h')
    e.decls += ['generic %s = {x : @t, y : @t -> @t' % g, '\tuse%s(y)' % e.tag, '\t-> x', '}']
    a, b = e.two()
    return body(['use%s(%s(%s, %s))' % (e.tag, g, e.val(a), e.val(a))], ['use%s(%s(%s, %s))' % (e.tag, g, e.val(a), e.val(b))])


@fault
def generic_assumes(e):
    g = e.id('h')
    v = e.val('int')
    return decl(['generic %s = {x : @t -> @t' % g, '\tvar y : @t = x', '\t-> y', '}'], ['generic %s = {x : @t -> @t' % g, '\tvar y : @t = %s' % v, '\t-> y', '}'])


@fault
def label(e):
    l = e.id('l')
    return body(['goto %s' % l, ':%s' % l], ['goto %sx' % l, ':%s' % l])


@fault
def loop_over(e):
    t = e.r.choice(['int', 'flt64', 'bool', e.st, e.un])
    x = e.id()
    return body(['for %s : %s' % (x, e.val('int[:]')), '\tuse%s(%s)' % (e.tag, x), ';;'], ['for %s : %s' % (x, e.val(t)), '\tuse%s(%s)' % (e.tag, x), ';;'])


@fault
def loop_element(e):
    x, y = e.id(), e.id()
    return body(['var %s : int = 0' % y, 'for %s : %s' % (x, e.val('int[:]')), '\t%s = %s' % (y, x), ';;', 'use%s(%s)' % (e.tag, y)], ['var %s : int = 0' % y, 'for %s : %s' % (x, e.val('int[:]')), '\t%s = %s.len' % (y, x), ';;', 'use%s(%s)' % (e.tag, y)])


@fault
def void_value(e):
    f = e.id('f')
    e.decls += ['const %s = {x : int -> void' % f, '\tuse%s(x)' % e.tag, '}']
    return body(['use%s(%s + 1)' % (e.tag, e.val('int'))], ['use%s(%s(2) + 1)' % (e.tag, f)])


@fault
def negate(e):
    t = e.r.choice(['bool', 'byte[:]', e.st, '(int, int)', 'int#'])
    return body(['use%s(-%s)' % (e.tag, e.val('int'))], ['use%s(-%s)' % (e.tag, e.val(t))])


@fault
def nested_call(e):
    a, b = e.two(['int', 'flt', 'bool', 'str'])
    f, g = e.id('f'), e.id('f')
    e.decls += ['const %s = {x : int -> %s' % (f, a), '\tuse%s(x)' % e.tag, '\t-> %s' % e.val(a), '}'] if False else []
    va, vb = e.val(a), e.val(b)
    e.decls += ['const %s = {x : %s -> int' % (g, a), '\tuse%s(x)' % e.tag, '\t-> 1', '}']
    return body(['use%s(1 + 2 * %s(%s))' % (e.tag, g, va)], ['use%s(1 + 2 * %s(%s))' % (e.tag, g, vb)])


@fault
def inferred_conflict(e):
    x = e.id()
    a, b = e.two(['int', 'flt', 'bool', 'str', 'st'])
    return body(['var %s' % x, '%s = %s' % (x, e.val(a)), '%s = %s' % (x, e.val(a)), 'use%s(%s)' % (e.tag, x)], ['var %s' % x, '%s = %s' % (x, e.val(a)), '%s = %s' % (x, e.val(b)), 'use%s(%s)' % (e.tag, x)])


@fault
def alias(e):
    n = e.id('a')
    e.decls += ['type %s = int' % n]
    x = e.id()
    return body(['var %s : %s = (%s : %s)' % (x, n, e.val('int'), n), 'use%s(%s)' % (e.tag, x)], ['var %s : %s = %s' % (x, n, e.val('int')), 'use%s(%s)' % (e.tag, x)])


@fault
def alias_arg(e):
    n, f = e.id('a'), e.id('f')
    e.decls += ['type %s = int' % n, 'const %s = {x : %s' % (f, n), '\tuse%s((x : int))' % e.tag, '}']
    return body(['%s((%s : %s))' % (f, e.val('int'), n)], ['%s(%s)' % (f, e.val('int'))])


@fault
def closure_return(e):
    a, b = e.two(['int', 'flt', 'bool', 'str'])
    x = e.id()
    return body(['var %s = {x : int -> %s; -> %s}' % (x, a, e.val(a)), 'use%s(%s(1))' % (e.tag, x)], ['var %s = {x : int -> %s; -> %s}' % (x, a, e.val(b)), 'use%s(%s(1))' % (e.tag, x)])


@fault
def function_type(e):
    x, f = e.id(), e.id('f')
    a, b = e.two(['int', 'flt', 'bool', 'str', 'st'])
    e.decls += ['const %s = {x : %s -> int; -> 1}' % (f, a)]
    return body(['var %s : (x : %s -> int) = %s' % (x, a, f), 'use%s(%s)' % (e.tag, x)], ['var %s : (x : %s -> int) = %s' % (x, b, f), 'use%s(%s)' % (e.tag, x)])


def program(r, i, name, good):
    """text of the whole program, and the lines among which the message has to be"""
    e = Env(r, 'z%d' % i)
    kind, g, b = FAULTS[name](e)
    ls = b if not good else g
    decoy = [r.choice([c04, c05, c08]).gen(r, '%s%d' % ('dec', k)) for k in range(r.randrange(0, 3))]
    before, after = decoy[:len(decoy) // 2], decoy[len(decoy) // 2:]
    out = ['use std', 'use sys', 'use "dio"']
    for t in before:
        out += t.text().split('\n')
    out += prelude(e.tag) + ['generic use%s = {x : @u -> void' % e.tag, '\tstd.put("{}", x)', '}'] + e.decls
    depth = r.randrange(0, 3)
    if kind == 'body':
        h = e.id('fn')
        out.append('const %s = {-> void' % h)
        for d in range(depth):
            out.append('\t' * (d + 1) + r.choice(['if %s' % 'true', 'for var i%d = 0; i%d < 1; i%d++' % (d, d, d)]))
        at = len(out)
        out += ['\t' * (depth + 1) + l for l in ls]
        for d in reversed(range(depth)):
            out.append('\t' * (d + 1) + ';;')
        out.append('}')
        diff = [k for k in range(max(len(g), len(b))) if (g[k:k + 1] or ['']) != (b[k:k + 1] or [''])]
        where = {at + k + 1 for k in diff}
        if name == 'uninitialised':
            where = {at + 3}
        if name in ('inferred_conflict', 'label', 'duplicate_local'):
            where = {at + k + 1 for k in range(len(b))}
    else:
        at = len(out)
        out += ls
        where = {at + k + 1 for k in range(len(b))}
    for t in after:
        out += t.text().split('\n')
    out += ['const main = {', '}']
    return '\n'.join(out) + '\n', where


def compile(tree, dio, text):
    d = tree.tmp()
    try:
        shutil.copy(dio, d)
        with open(d + '/m.myr', 'w') as f:
            f.write(text)
        p = tree.compile(d + '/m.myr', cwd=d)
        return p.returncode, p.stdout.decode('latin1'), os.path.exists(d + '/m.o')
    finally:
        shutil.rmtree(d)


def one(tree, dio, ck, name, i):
    import random
    r = ck.sub(name, i)
    st = r.getrandbits(48)
    good, _ = program(random.Random(st), i, name, True)
    bad, where = program(random.Random(st), i, name, False)
    rc, out, obj = compile(tree, dio, good)
    if rc != 0:
        return 'good ' + name, 'the corrected program is rejected: exit %d\n%s' % (rc, out[:600]), good
    rc, out, obj = compile(tree, dio, bad)
    if rc != 1:
        return 'accepted ' + name, 'exit %d, expected a diagnostic for line %s\n%s' % (rc, sorted(where), out[:600]), bad
    m = re.search(r'm\.myr:(\d+)', out)
    if not m or int(m.group(1)) not in where:
        return 'line ' + name, 'the fault is on line %s; the message is:\n%s' % (sorted(where), out[:600]), bad
    if obj:
        return 'object ' + name, 'an object file was written', bad
    return None


ANN = re.compile(r'^(\s*var \w+) : [^=]*? = ((?:id|mk|mut)\w*\(.*\))$')


def strip(lines, r):
    n = 0
    out = []
    for l in lines:
        m = ANN.match(l)
        if m and r.random() < .8:
            # the initialiser is one call to the end
            d = 0
            ok = True
            s = m.group(2)
            for k, c in enumerate(s):
                d += (c == '(') - (c == ')')
                if d == 0 and c == ')' and k < len(s) - 1:
                    ok = False
            if ok and '"' not in s and "'" not in s:
                l = m.group(1) + ' = ' + s
                n += 1
        out.append(l)
    return out, n


def check(ck):
    tree = Tree('all')
    pk = Packer(ck, tree, 'c10')
    dio = os.path.join(pk.dir, 'dio.use')
    per = ck.n(6, 150)
    jobs = [(n, i) for n in sorted(FAULTS) for i in range(per)]
    for (n, i), res in zip(jobs, pmap(lambda j: one(tree, dio, ck, *j), jobs)):
        ck.saw((n, i))
        ck.count('faulty programs')
        ck.count('corrected programs')
        if res:
            ck.violation(res[0], res[1], {'m.myr': res[2]})
    ck.count('kinds of fault', len(FAULTS))
    tests, removed = [], 0
    r = ck.sub('ann')
    for i in range(ck.n(120, 3000)):
        t = r.choice([c04, c05, c08, c14]).gen(r, 'a%d' % i)
        b, n = strip(t.body, r)
        d, m = strip(t.decls.split('\n'), r)
        if n + m:
            tests.append(Test(t.name, '\n'.join(d), b, t.expect))
            removed += n + m
    pk.check(tests, per=6)
    ck.count('annotations removed', removed)
    ck.rule = 'each faulty program is rejected with status 1 and a message at the fault, leaving no object file; its twin is accepted; programs without redundant annotations print what they did with them'
