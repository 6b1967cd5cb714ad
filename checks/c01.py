"""C01: arithmetic, comparison, bitwise, shift, unary, cast, conversion, compound-assignment and
increment expressions evaluate to what the language's typing and arithmetic rules say."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import aexpr as A
from aexpr import E
from suite import Case

NUM = list(A.INTS) + ['float', 'double']
ARITH = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
CMP = ['==', '!=', '<', '>', '<=', '>=']


def values(t, r, n):
    if t == 'bool':
        return [False, True]
    if t in A.FLOATS:
        base = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, -2.5, 100.0, 1024.25, -3.75, 7.0, 255.0, 65536.0]
        return r.sample(base, min(n, len(base)))
    lo, hi = A.rng_of(t)
    base = {0, 1, 2, 3, 7, hi, hi - 1, lo, lo + 1, hi // 2, 100, 31}
    if lo < 0:
        base |= {-1, -2, -7, -100}
    for b in (7, 8, 15, 16, 31, 32, 63):
        if (1 << b) <= hi:
            base |= {1 << b, (1 << b) - 1, (1 << b) + 1 if (1 << b) + 1 <= hi else 1}
    base = sorted(v for v in base if lo <= v <= hi)
    out = r.sample(base, min(n, len(base)))
    while len(out) < n:
        out.append(r.randint(lo, hi))
    return out


def lit(t, v):
    return A.lit_src(t, v)


def wrap_main(lines, members='', types=''):
    return vlib.program('\n'.join('        ' + l for l in lines), members, types)


def binary_cases(chk, r):
    """Every operator on every pair of operand types."""
    for ta in NUM + ['bool', 'char']:
        for tb in NUM + ['bool', 'char']:
            lines, exp, tags = ['%s a;' % ta, '%s b;' % tb], [], []
            for op in ARITH + CMP + ['&&', '||']:
                t = A.bin_type(op, ta, tb)
                if t is None or excluded(op, ta, tb):
                    continue
                n = 0
                for _ in range(60):
                    if n >= chk.scale(5, 24):
                        break
                    va, vb = pick(ta, r), pick(tb, r)
                    if op in ('<<', '>>'):
                        vb = r.choice([0, 1, 2, 5, 7, 8, 15, 16, 31, 32, 33, 63])
                        if tb not in A.INTS or vb > A.rng_of(tb)[1]:
                            continue
                    try:
                        v = A.bin_eval(op, ta, va, tb, vb)
                    except A.EvalError:
                        continue
                    n += 1
                    lines += ['a = %s;' % lit(ta, va), 'b = %s;' % lit(tb, vb),
                              'Console.WriteLine(a %s b);' % op]
                    exp.append(A.show(t, v))
                if n:
                    tags.append('%s %s %s' % (ta, op, tb))
            if tags:
                yield Case('C01 binary %s,%s' % (ta, tb), wrap_main(lines), '\n'.join(exp) + '\n', tags)


def pick(t, r):
    if t == 'char':
        return r.choice(b'ABCxyz019')
    return r.choice(values(t, r, 8))


def excluded(op, ta, tb):
    return False



def unary_cases(chk, r):
    for ta in NUM + ['bool']:
        lines, exp, tags = ['%s a;' % ta], [], []
        for op in ('+', '-', '~', '!'):
            t = A.un_type(op, ta)
            if t is None:
                continue
            for va in values(ta, r, chk.scale(8, 16)):
                if op == '-' and va == 0 and ta in A.FLOATS:
                    continue
                lines += ['a = %s;' % lit(ta, va), 'Console.WriteLine(%sa);' % op]
                exp.append(A.show(t, A.un_eval(op, ta, va)))
            tags.append('%s%s' % (op, ta))
        yield Case('C01 unary %s' % ta, wrap_main(lines), '\n'.join(exp) + '\n', tags)


def castable(frm, to, v):
    """Whether the conversion is defined for the value."""
    if frm in A.FLOATS and to in A.INTS:
        lo, hi = A.rng_of(to)
        return lo <= v <= hi
    return True


def cast_cases(chk, r):
    """Every explicit cast, from a variable, from a constant, and chained."""
    for frm in NUM + ['char']:
        lines, exp, tags = ['%s a;' % frm], [], []
        for to in NUM + ['char']:
            if 'char' in (frm, to) and (frm in A.FLOATS or to in A.FLOATS):
                continue
            for _ in range(chk.scale(6, 20)):
                va = pick(frm, r)
                if to == 'char':
                    if frm == 'char':
                        pass
                    else:
                        va = r.choice(b'ABCxyz019')
                if not castable(frm, to, va):
                    continue
                v = A.convert(va, frm, to)
                lines += ['a = %s;' % lit(frm, va), 'Console.WriteLine((%s)a);' % to]
                exp.append(A.show(to, v))
            tags.append('(%s)%s' % (to, frm))
        yield Case('C01 cast %s' % frm, wrap_main(lines), '\n'.join(exp) + '\n', tags)


# implicit conversions the language performs: value of the first type where the second is required
IMPLICIT = [('sbyte', 'short'), ('sbyte', 'int'), ('sbyte', 'long'), ('short', 'int'), ('short', 'long'),
            ('int', 'long'), ('byte', 'ushort'), ('byte', 'uint'), ('byte', 'ulong'), ('ushort', 'uint'),
            ('ushort', 'ulong'), ('uint', 'ulong'), ('float', 'double')]


def implicit_cases(chk, r):
    """Implicit conversion in declarations, assignments, arguments, results, elements, fields."""
    for frm, to in IMPLICIT:
        members = """
    public static void Take(%(t)s x) { Console.WriteLine(x); }
    public static %(t)s Give(%(f)s x) { return x; }
    public static %(t)s Pick(bool c, %(f)s x, %(t)s y) { return c ? x : y; }
""" % {'t': to, 'f': frm}
        types = "class Holder { public %s F; public %s P { get { return F; } set { F = value; } } }" % (to, to)
        lines, exp = ['%s a;' % frm, '%s b;' % to, '%s[] e = new %s[2];' % (to, to),
                      'Holder h = new Holder();', '%s z = %s;' % (to, lit(to, 1))], []
        for va in values(frm, r, chk.scale(4, 12)):
            s = A.show(to, A.convert(va, frm, to))
            lines += ['a = %s;' % lit(frm, va), 'b = a;', 'Console.WriteLine(b);', 'Take(a);',
                      'Console.WriteLine(Give(a));', 'e[1] = a;', 'Console.WriteLine(e[1]);',
                      'h.F = a;', 'Console.WriteLine(h.F);', 'h.P = a;', 'Console.WriteLine(h.P);',
                      'Console.WriteLine(Pick(true, a, z));', 'Console.WriteLine(Pick(false, a, z));']
            exp += [s] * 7 + [A.show(to, A.convert(1, to, to) if to not in A.FLOATS else 1.0)]
        yield Case('C01 implicit %s->%s' % (frm, to), wrap_main(lines, members, types),
                   '\n'.join(exp) + '\n', ['%s => %s %s' % (frm, to, w) for w in
                                            ('assign', 'argument', 'result', 'element', 'field', 'property', 'branch')])


TARGETS = ['local', 'param', 'refparam', 'field', 'element']


def target(kind, t, lines):
    """Returns the lvalue expression, with the code that makes it available."""
    if kind == 'local':
        lines.append('%s x = %s;' % (t, lit(t, 1 if t not in A.FLOATS else 1.0)))
        return 'x'
    if kind == 'field':
        lines.append('Holder h = new Holder();')
        return 'h.F'
    if kind == 'property':
        lines.append('Holder h = new Holder();')
        return 'h.P'
    if kind == 'element':
        lines.append('%s[] e = new %s[3];' % (t, t))
        lines.append('int i = 1;')
        return 'e[i]'
    return 'x'


def compound_cases(chk, r):
    """op= and ++/-- on every kind of target: the new value of the target and the value of the
    expression itself."""
    for t in NUM:
        for kind in TARGETS:
            lines, exp, tags = [], [], []
            lv = target(kind, t, lines)
            for op in ARITH:
                if op not in COMPOUND_OPS or not compound_ok(kind, t, op):
                    continue
                if A.bin_type(op, t, t) is None:
                    continue
                n = 0
                for _ in range(40):
                    if n >= chk.scale(3, 10):
                        break
                    va, vb = pick(t, r), pick(t, r)
                    if op in ('<<', '>>'):
                        vb = r.choice([0, 1, 3, 5])
                    try:
                        rt = A.bin_type(op, t, t)
                        v = A.bin_eval(op, t, va, t, vb)
                        v = A.convert(v, rt, t)
                    except A.EvalError:
                        continue
                    n += 1
                    lines += ['%s = %s;' % (lv, lit(t, va)), '%s %s= %s;' % (lv, op, lit(t, vb)),
                              'Console.WriteLine(%s);' % lv]
                    exp.append(A.show(t, v))
                    if t in ('int', 'uint', 'long', 'ulong', 'double'):
                        lines += ['%s = %s;' % (lv, lit(t, va)),
                                  'Console.WriteLine(%s %s= %s);' % (lv, op, lit(t, vb)),
                                  'Console.WriteLine(%s = %s);' % (lv, lit(t, vb))]
                        exp += [A.show(t, v), A.show(t, vb)]
                tags.append('%s %s= %s' % (kind, op, t))
            for op in ('++', '--'):
                for pre in (True, False):
                    if not incdec_ok(kind, t, op, pre):
                        continue
                    for va in values(t, r, 3):
                        if t in A.FLOATS:
                            nv = A.convert(va + (1 if op == '++' else -1), 'double', t)
                        else:
                            nv = A.wrap(t, va + (1 if op == '++' else -1))
                        e = (op + lv) if pre else (lv + op)
                        lines += ['%s = %s;' % (lv, lit(t, va)), '%s;' % e, 'Console.WriteLine(%s);' % lv]
                        exp.append(A.show(t, nv))
                        if value_ok(kind, t, pre):
                            lines += ['%s = %s;' % (lv, lit(t, va)), 'Console.WriteLine(%s);' % e,
                                      'Console.WriteLine(%s);' % lv]
                            exp += [A.show(t, nv if pre else va), A.show(t, nv)]
                    tags.append('%s %s%s %s' % (kind, 'pre' if pre else 'post', op, t))
            types = 'class Holder { public %s F; public %s P { get { return F; } set { F = value; } } }' % (t, t)
            if kind in ('param', 'refparam'):
                ref = 'ref ' if kind == 'refparam' else ''
                members = '    public static void Work(%s%s x)\n    {\n%s\n    }\n' % (
                    ref, t, '\n'.join('        ' + l for l in lines))
                src = wrap_main(['%s v = %s;' % (t, lit(t, 1 if t not in A.FLOATS else 1.0)), 'Work(%sv);' % ref],
                                members, types)
            else:
                src = wrap_main(lines, '', types)
            yield Case('C01 compound %s %s' % (kind, t), src, '\n'.join(exp) + '\n', tags)


COMPOUND_OPS = set(ARITH)


def compound_ok(kind, t, op):
    return True


def incdec_ok(kind, t, op, pre):
    return True


def value_ok(kind, t, pre):
    return True


class Deep:
    """Random deep expressions over variables of every type with implicit mixing."""

    def __init__(self, r, vars_):
        self.r, self.vars = r, vars_

    def leaf(self):
        r = self.r
        t = r.choice(list(self.vars))
        if r.random() < 0.7:
            return E('var', t, v=self.vars[t][0])
        if t == 'float':
            return E('var', t, v=self.vars[t][0])
        return E('lit', t, v=pick(t, r))

    def gen(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.1:
            return self.leaf()
        for _ in range(20):
            k = r.random()
            if k < 0.68:
                op = r.choice(ARITH + ARITH + CMP + ['&&', '||'])
                a, b = self.gen(d - 1), self.gen(d - 1)
                if op in ('<<', '>>'):
                    b = E('lit', 'int', v=r.randint(0, 20))
                t = A.bin_type(op, a.t, b.t)
                if t:
                    e = E('bin', t, op, (a, b))
                    e.paren = r.random() < 0.2
                    return e
            elif k < 0.8:
                a = self.gen(d - 1)
                op = r.choice(['-', '+', '~', '!'])
                t = A.un_type(op, a.t)
                if t:
                    return E('un', t, op, (a,))
            elif k < 0.93:
                a = self.gen(d - 1)
                if a.t != 'bool':
                    t = r.choice(NUM)
                    return E('cast', t, a=(a,))
            else:
                c = self.gen(d - 1)
                a, b = self.gen(d - 1), self.gen(d - 1)
                if c.t == 'bool' and a.t == b.t:
                    return E('cond', a.t, a=(c, a, b))
        return self.leaf()


def deep_cases(chk, r, n, per=14, opts=(0, 0, 1, 2)):
    for i in range(n):
        vs = {}
        env = {}
        lines, exp = [], []
        for t in NUM + ['bool']:
            nm = 'v_' + t
            v = pick(t, r)
            vs[t] = (nm, v)
            env[nm] = v
            lines.append('%s %s = %s;' % (t, nm, lit(t, v)))
        g = Deep(r, vs)
        k = 0
        tags = set()
        while k < per:
            e = g.gen(r.randint(2, 5))
            if e.k in ('lit', 'var'):
                continue
            try:
                v = A.ev(e, env)
            except (A.EvalError, OverflowError):
                continue
            if e.t in A.FLOATS and v == 0:
                continue        # the sign of a zero is not part of the property
            k += 1
            lines.append('Console.WriteLine(%s);' % A.src(e))
            exp.append(A.show(e.t, v))
            shape(e, tags)
        o = opts[i % len(opts)]
        yield Case('C01 deep #%d -O%d' % (i, o), wrap_main(lines), '\n'.join(exp) + '\n', tags,
                   args=('-O', str(o)) if o else ())


def shape(e, tags):
    for c in e.a:
        if isinstance(c, E):
            tags.add('%s>%s' % (e.op or e.k, c.op or c.k))
            shape(c, tags)


def build_cases(chk, scale=1.0):
    r = chk.rng
    cs = list(binary_cases(chk, r)) + list(unary_cases(chk, r)) + list(cast_cases(chk, r)) + \
        list(implicit_cases(chk, r)) + list(compound_cases(chk, r))
    if scale < 1:
        cs = r.sample(cs, max(1, int(len(cs) * scale)))
    return cs + list(deep_cases(chk, r, max(1, int(chk.scale(240, 6000) * scale))))


def main():
    chk = vlib.Check('C01', rule=(
        'One program per operand-type pair with every operator on boundary and random values held in variables; '
        'every unary operator, explicit cast, implicit conversion context, compound assignment and increment on every '
        'kind of target; random expressions nested to depth 5 over all types, printed with minimal parentheses. '
        'Inputs whose result two readings of the rules disagree on (mixed-sign operands, overflowing shifts, '
        'division by zero, float overflow) are never generated. Distinct: operator x operand types, cast pairs, '
        'conversion contexts, target x operator x type, and parent>child operator shapes.'),
        assumptions=['reference evaluator lib/aexpr.py', 'clang-compiled runtime on x86-64'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(200)


if __name__ == '__main__':
    suite.main(main)
