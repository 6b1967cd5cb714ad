"""Typed April expressions: random generation, printing as April source, and reference
evaluation by an independent implementation of the language's typing and arithmetic rules."""
import math
import struct

INTS = {'sbyte': (8, True), 'byte': (8, False), 'short': (16, True), 'ushort': (16, False),
        'int': (32, True), 'uint': (32, False), 'long': (64, True), 'ulong': (64, False)}
FLOATS = ('float', 'double')


def wrap(t, v):
    bits, signed = INTS[t]
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def rng_of(t):
    bits, signed = INTS[t]
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def int_promote(a, b):
    """Result type of + - * / % & | ^ on two integer types."""
    if a == 'ulong' or b == 'ulong':
        return 'ulong'
    if a == 'long' or b == 'long':
        return 'long'
    if a == 'uint' or b == 'uint':
        o = b if a == 'uint' else a
        return 'uint' if o in ('uint', 'byte', 'ushort') else 'long'
    return 'int'


def bin_type(op, a, b):
    if op in ('&&', '||'):
        return 'bool' if a == b == 'bool' else None
    if op in ('==', '!=', '<', '>', '<=', '>='):
        if a in INTS and b in INTS:
            return 'bool'
        if (a in FLOATS or b in FLOATS) and (a in INTS or a in FLOATS) and (b in INTS or b in FLOATS):
            return 'bool'
        if a == b == 'bool' and op in ('==', '!='):
            return 'bool'
        if a == b == 'char':
            return 'bool'
        return None
    if op in ('<<', '>>'):
        if a in INTS and b in INTS:
            return int_promote(a, b)
        return None
    if a in INTS and b in INTS:
        return int_promote(a, b)
    if op in ('+', '-', '*', '/') and (a in FLOATS or b in FLOATS) and \
            (a in INTS or a in FLOATS) and (b in INTS or b in FLOATS):
        return 'double' if 'double' in (a, b) else 'float'
    return None


def convert(v, frm, to):
    if frm == to:
        return v
    if to in INTS:
        if frm in INTS:
            return wrap(to, v)
        if frm == 'char':
            return wrap(to, v)
        if frm in FLOATS:
            lo, hi = rng_of(to)         # elsewhere the result is not defined
            if not lo - 1 < v < hi + 1:
                raise EvalError('range')
            return wrap(to, int(v))
        raise ValueError((frm, to))
    if to == 'double':
        return float(v)
    if to == 'float':
        return f32(float(v))
    if to == 'char':
        return v & 0xffff
    raise ValueError((frm, to))


def cdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


class EvalError(Exception):
    pass


def cxx_common(a, b):
    """The type a C++ compiler computes in."""
    pa = a if a in ('int', 'uint', 'long', 'ulong') else 'int'
    pb = b if b in ('int', 'uint', 'long', 'ulong') else 'int'
    rank = {'int': 0, 'uint': 1, 'long': 2, 'ulong': 3}
    return pa if rank[pa] >= rank[pb] else pb


def bin_eval(op, ta, a, tb, b):
    """Evaluates; inputs on which two defensible readings of the rules for mixed operands
    (convert to the result type first / compute in the wider operand type) disagree are
    refused, so the reference never takes sides."""
    v = bin_eval1(op, ta, a, tb, b)
    if ta in INTS and tb in INTS:
        if op in ('<<', '>>'):
            c = ta if ta in ('int', 'uint', 'long', 'ulong') else 'int'
            w = bin_eval1(op, c, a, c, b)
        else:
            c = cxx_common(ta, tb)
            w = bin_eval1(op, c, wrap(c, a), c, wrap(c, b))
        if w != v:
            raise EvalError('ambiguous')
    return v


def bin_eval1(op, ta, a, tb, b):
    """Evaluates with the operands already values of types ta, tb."""
    r = bin_type(op, ta, tb)
    if op in ('==', '!=', '<', '>', '<=', '>='):
        if ta in INTS and tb in INTS:
            p = int_promote(ta, tb)
            a, b = wrap(p, a), wrap(p, b)
        elif ta in FLOATS or tb in FLOATS:
            p = 'double' if 'double' in (ta, tb) else 'float'
            a, b = convert(a, ta, p), convert(b, tb, p)
        return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b,
                '<=': a <= b, '>=': a >= b}[op]
    if op == '&&':
        return a and b
    if op == '||':
        return a or b
    if r in INTS:
        if op in ('<<', '>>'):
            bits = INTS[r][0]
            a = wrap(r, a)
            if not 0 <= b < bits:
                raise EvalError('shift')
            return wrap(r, a << b if op == '<<' else a >> b)
        a, b = wrap(r, a), wrap(r, b)
        if op == '+':
            return wrap(r, a + b)
        if op == '-':
            return wrap(r, a - b)
        if op == '*':
            return wrap(r, a * b)
        if op in ('/', '%'):
            if b == 0:
                raise EvalError('div0')
            if b == -1 and a == rng_of(r)[0]:
                raise EvalError('min/-1')
            return wrap(r, cdiv(a, b) if op == '/' else a - cdiv(a, b) * b)
        if op == '&':
            return wrap(r, a & b)
        if op == '|':
            return wrap(r, a | b)
        if op == '^':
            return wrap(r, a ^ b)
        raise ValueError(op)
    a, b = convert(a, ta, r), convert(b, tb, r)
    if op == '+':
        v = a + b
    elif op == '-':
        v = a - b
    elif op == '*':
        v = a * b
    elif op == '/':
        if b == 0:
            if a == 0 or a != a:
                raise EvalError('nan')
            v = math.copysign(math.inf, a) * math.copysign(1.0, b)
        else:
            v = a / b
    else:
        raise ValueError(op)
    if r == 'float':
        v = f32(v)
    if math.isnan(v):                   # how a NaN is printed is not specified
        raise EvalError('nan')
    return v


def un_type(op, a):
    if op == '!':
        return 'bool' if a == 'bool' else None
    if op == '+':
        if a in INTS:
            return a if a in ('int', 'uint', 'long', 'ulong') else 'int'
        return a if a in FLOATS else None
    if op == '-':
        if a in INTS:
            return {'uint': None, 'long': 'long', 'ulong': None}.get(a, 'int')
        return a if a in FLOATS else None
    if op == '~':
        if a in INTS:
            return a if a in ('int', 'uint', 'long', 'ulong') else 'int'
    return None


def un_eval(op, ta, a):
    r = un_type(op, ta)
    if op == '!':
        return not a
    if op == '+':
        return a
    if op == '-':
        return wrap(r, -a) if r in INTS else -a
    if op == '~':
        return wrap(r, ~a)


def fmt_g(v):
    """How a C++ stream prints a floating value by default (%g)."""
    return '%g' % v


def show(t, v):
    if t == 'bool':
        return 'True' if v else 'False'
    if t in INTS:
        return str(v)
    if t in FLOATS:
        return fmt_g(v)
    if t == 'char':
        return chr(v)
    return v


# Precedence levels (higher binds tighter) for printing with a minimum of parentheses.
PREC = {'||': 3, '&&': 4, '|': 5, '^': 6, '&': 7, '==': 8, '!=': 8, '<': 9, '>': 9,
        '<=': 9, '>=': 9, '<<': 10, '>>': 10, '+': 11, '-': 11, '*': 12, '/': 12, '%': 12}
UNARY = 13
PRIMARY = 15
COND = 2


class E:
    """Node: kind in lit var bin un cast cond raw."""
    __slots__ = ('k', 't', 'op', 'a', 'v', 'paren')

    def __init__(self, k, t, op=None, a=(), v=None):
        self.k, self.t, self.op, self.a, self.v = k, t, op, tuple(a), v
        self.paren = False


def lit_src(t, v):
    if t == 'bool':
        return 'true' if v else 'false'
    if t == 'int':
        if v < 0:
            if v == -2147483648:
                return '(-2147483647 - 1)'
            return '(-%d)' % -v
        return str(v)
    if t == 'long':
        if v < 0:
            if v == -(1 << 63):
                return '(-9223372036854775807L - 1L)'
            return '(-%dL)' % -v
        return '%dL' % v
    if t in INTS:
        if v < 0:
            return '(%s)(-%d)' % (t, -v)
        if t == 'ulong':
            return '%dUL' % v
        if t == 'uint':
            return '%dU' % v
        return '(%s)%d' % (t, v)
    if t == 'double':
        s = repr(abs(v))
        if 'e' not in s and '.' not in s:
            s += '.0'
        return s if math.copysign(1.0, v) > 0 else '(-%s)' % s
    if t == 'float':
        s = lit_src('double', v)
        if v * 2 == int(v * 2):         # both spellings
            return s[:-1] + 'f)' if s.endswith(')') else s + 'f'
        return '(float)%s' % s
    if t == 'char':
        return "'%s'" % chr(v)
    raise ValueError(t)


def src(e, full=False):
    """April source of e. full: parenthesise everything."""
    return _src(e, full)[0]


def _wrap(child, need, full):
    s, p = _src(child, full)
    if p < need or (full and p < PRIMARY) or child.paren and p < PRIMARY:
        return '(' + s + ')'
    return s


def _src(e, full):
    if e.k == 'lit':
        s = lit_src(e.t, e.v)
        return s, (UNARY if s.startswith('(') and not s.endswith(')') else PRIMARY)
    if e.k in ('var', 'raw'):
        return e.v, PRIMARY
    if e.k == 'bin':
        p = PREC[e.op]
        return '%s %s %s' % (_wrap(e.a[0], p, full), e.op, _wrap(e.a[1], p + 1, full)), p
    if e.k == 'un':
        s = _wrap(e.a[0], UNARY + 1, full)
        return e.op + s, UNARY
    if e.k == 'cast':
        s = _wrap(e.a[0], UNARY + 1, full)
        return '(%s)%s' % (e.t, s), UNARY
    if e.k == 'cond':
        return '%s ? %s : %s' % (_wrap(e.a[0], COND + 1, full), _wrap(e.a[1], COND + 1, full),
                                 _wrap(e.a[2], COND, full)), COND
    raise ValueError(e.k)


def ev(e, env):
    k = e.k
    if k == 'lit':
        return e.v
    if k == 'var':
        return env[e.v]
    if k == 'bin':
        a = ev(e.a[0], env)
        if e.op == '&&':
            return bool(a) and ev(e.a[1], env)
        if e.op == '||':
            return bool(a) or ev(e.a[1], env)
        return bin_eval(e.op, e.a[0].t, a, e.a[1].t, ev(e.a[1], env))
    if k == 'un':
        return un_eval(e.op, e.a[0].t, ev(e.a[0], env))
    if k == 'cast':
        v = ev(e.a[0], env)
        if e.a[0].t in FLOATS and e.t in INTS:
            lo, hi = rng_of(e.t)
            if not lo <= v <= hi:
                raise EvalError('range')
        return convert(v, e.a[0].t, e.t)
    if k == 'cond':
        return ev(e.a[1] if ev(e.a[0], env) else e.a[2], env)
    if k == 'raw':
        return e.op(env)
    raise ValueError(k)
