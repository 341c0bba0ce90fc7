"""Integer types of the language and random expressions with their exact values."""


class IT:
    def __init__(self, name, bits, signed):
        self.name, self.bits, self.signed = name, bits, signed
        self.lo = -(1 << (bits - 1)) if signed else 0
        self.hi = (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1

    def wrap(self, v):
        v &= (1 << self.bits) - 1
        if self.signed and v >> (self.bits - 1):
            v -= 1 << self.bits
        return v

    def __repr__(self):
        return self.name


TYPES = [IT('int8', 8, True), IT('int16', 16, True), IT('int32', 32, True), IT('int64', 64, True), IT('int', 32, True),
         IT('uint8', 8, False), IT('uint16', 16, False), IT('uint32', 32, False), IT('uint64', 64, False),
         IT('uint', 32, False), IT('byte', 8, False), IT('char', 32, False)]
BY = {t.name: t for t in TYPES}
SUF = {'uint8': 'ub', 'int16': 's', 'uint16': 'us', 'int32': 'i', 'uint32': 'ui', 'int64': 'l',
       'uint64': 'ul'}


def value(r, t):
    """A boundary-biased value of t."""
    k = r.random()
    if k < 0.25:
        v = r.choice([0, 1, 2, 3, 5, 7, 10, -1, -2, 4, 8, 16])
    elif k < 0.45:
        v = r.choice([t.lo, t.hi, t.hi - 1, t.lo + 1, t.hi >> 1, (t.hi >> 1) + 1])
    elif k < 0.65:
        v = (1 << r.randrange(0, t.bits)) + r.choice([-1, 0, 1])
        if t.signed and r.random() < .5:
            v = -v
    elif k < 0.75:
        v = r.choice([0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff,
                      0x100000000, -0x80, -0x8000, -0x80000000, -129])
    else:
        v = r.getrandbits(r.choice([4, 8, 16, 24, 31, 32, 33, 48, 63, 64]))
        if r.random() < .5:
            v = -v
    return t.wrap(v)


def lit(r, t, v):
    """Source text of a literal of type t."""
    if r is not None and r.random() < 0.15 and t.name == 'char' and 32 < v < 127 and chr(v) not in "'\\":
        return "'%s'" % chr(v)
    neg, m = v < 0, abs(v)
    if t.name in SUF and ((r is not None and r.random() < 0.3) or not -(1 << 31) < v < (1 << 31)):
        suf = SUF[t.name]
        if v == t.lo and t.signed:
            return '(%s%s : %s)' % (hex(m), SUF['u' + t.name], t.name)
        if suf.endswith('b'):
            x = '0o' + oct(m)[2:] if r is not None and r.random() < .3 else str(m) if m else '0x0'
            if x == '0x0':
                return '(0 : %s)' % t.name
        else:
            x = num(r, m)
        return '%s%s%s' % ('-' if neg else '', x, suf)
    if not -(1 << 31) < v < (1 << 31):
        # a plain literal defaults to int
        return '(%s : %s)' % (num(r, m) + ('ui' if m < 1 << 32 else 'ul') if not neg else '-' + num(r, m) + 'l', t.name)
    return '(%s : %s)' % (num(r, v), t.name)


def num(r, v):
    if v < 0:
        if v == -(1 << 63):
            return '-0x8000000000000000'
        return '-' + num(r, -v)
    k = r.random() if r is not None else 0
    if k < 0.6:
        return str(v)
    if k < 0.8:
        return hex(v)
    if k < 0.9:
        return '0b' + bin(v)[2:]
    s = oct(v)[2:]
    return '0o' + s


class Bad(Exception):
    pass


def binop(op, t, a, b):
    if op == '+':
        return t.wrap(a + b)
    if op == '-':
        return t.wrap(a - b)
    if op == '*':
        return t.wrap(a * b)
    if op in '/%':
        if b == 0 or (t.signed and b == -1 and a == t.lo):
            raise Bad
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return t.wrap(q if op == '/' else a - q * b)
    if op == '&':
        return t.wrap(a & b)
    if op == '|':
        return t.wrap(a | b)
    if op == '^':
        return t.wrap(a ^ b)
    if op == '<<':
        if not 0 <= b < t.bits:
            raise Bad
        return t.wrap(a << b)
    if op == '>>':
        if not 0 <= b < t.bits:
            raise Bad
        return t.wrap(a >> b)
    raise Bad


def cmpop(op, a, b):
    return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]


CMP = ['==', '!=', '<', '<=', '>', '>=']
AR = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
