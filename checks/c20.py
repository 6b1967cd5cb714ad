"""C20: the System library: Console writes every value of every built-in type completely and in order, Math computes the
function it is named after for every argument type."""
import math
import os
import random
import struct
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import aexpr as A
from suite import Case

INTS = ['sbyte', 'byte', 'short', 'ushort', 'int', 'uint', 'long', 'ulong']


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def g(x):
    return '%g' % x


def dsrc(x):
    s = repr(abs(x))
    if '.' not in s and 'e' not in s and 'inf' not in s:
        s += '.0'
    return '(0.0 - %s)' % s if x < 0 or (x == 0 and math.copysign(1, x) < 0) else s


def rnd_double(r):
    k = r.randint(0, 6)
    if k == 0:
        return float(r.randint(-1000, 1000))
    if k == 1:
        return r.uniform(-1, 1)
    if k == 2:
        return r.randint(-10 ** 9, 10 ** 9) / 1000.0
    if k == 3:
        return r.choice([1, -1]) * 10.0 ** r.randint(-30, 30)
    if k == 4:
        return r.choice([0.5, -0.5, 1.5, 2.5, 999999.5, 1000000.0, 999999.0, 0.0001, 0.00001, 123456.5, 1e15, 1e16, 0.1])
    return r.uniform(-1e6, 1e6)


def int_value(t, r):
    lo, hi = A.rng_of(t)
    return r.choice([lo, hi, 0, 1, lo + 1, hi - 1, r.randint(lo, hi), r.randint(lo, hi), max(lo, min(hi, r.randint(-100, 100)))])


def lit(t, v):
    s = A.lit_src(t, v)
    return '(%s)(%s)' % (t, s) if t in ('sbyte', 'byte', 'short', 'ushort') else s


def value(r):
    """(type, source, text)"""
    t = r.choice(INTS + ['bool', 'char', 'double', 'double', 'float', 'string', 'nullstring'])
    if t in INTS:
        v = int_value(t, r)
        return t, lit(t, v), str(v)
    if t == 'bool':
        v = r.random() < 0.5
        return t, str(v).lower(), str(v)
    if t == 'char':
        c = chr(r.choice([q for q in range(32, 127) if q not in (39, 92, 96)]))
        return t, "'%s'" % c, c
    if t == 'double':
        v = rnd_double(r)
        return t, dsrc(v), g(v)
    if t == 'float':
        v = f32(rnd_double(r))
        if v == 0:
            v = 0.25
        s = '%.9g' % abs(v)
        return t, ('(0.0F - %sF)' % s if v < 0 else s + 'F'), g(v)
    if t == 'nullstring':
        return 'string', 'null', ''
    n = r.choice([0, 1, 3, 10, 50, 200])
    s = ''.join(chr(r.choice([q for q in range(32, 127) if q not in (34, 92, 96)])) for _ in range(n))
    return t, '"%s"' % s, s


def console_case(r, i):
    body, out, tags, members = [], [], set(), []
    n = 0
    for _ in range(r.randint(30, 90)):
        t, s, x = value(r)
        line = r.random() < 0.5
        call = 'Console.WriteLine' if line else 'Console.Write'
        k = r.randint(0, 5)
        n += 1
        if k == 0 and s != 'null':
            body.append('%s(%s);' % (call, s))
        elif k == 1 and t != 'string':
            body.append('%s[] a%d = new %s[] { %s }; %s(a%d[0]);' % (t, n, t, s, call, n))
        elif k == 2:
            members.append('    static %s F%d() { return %s; }' % (t, n, s))
            body.append('%s(F%d());' % (call, n))
        elif k == 3:
            members.append('    static void W%d(%s v) { %s(v); }' % (n, t, call))
            body.append('W%d(%s);' % (n, s))
        else:
            body.append('%s v%d = %s; %s(v%d);' % (t, n, s, call, n))
        if r.random() < 0.05:
            body.append('Console.WriteLine();')
            x += '\n' if line else ''
            line = True
            tags.add('empty line')
        out.append(x + ('\n' if line else ''))
        tags.add('%s %s %d' % (call, t, k))
    body.append('Console.WriteLine("end");')
    out.append('end\n')
    return vlib.program('\n        '.join(body), '\n'.join(members)), ''.join(out), tags


FUN1 = {'Sqrt': (math.sqrt, lambda r: abs(rnd_double(r))), 'Sin': (math.sin, lambda r: r.uniform(-20, 20)),
        'Cos': (math.cos, lambda r: r.uniform(-20, 20)), 'Tan': (math.tan, lambda r: r.uniform(-1.5, 1.5)),
        'Sinh': (math.sinh, lambda r: r.uniform(-20, 20)), 'Cosh': (math.cosh, lambda r: r.uniform(-20, 20)),
        'Tanh': (math.tanh, lambda r: r.uniform(-4, 4)), 'Asin': (math.asin, lambda r: r.uniform(-1, 1)),
        'Acos': (math.acos, lambda r: r.uniform(-1, 1)), 'Atan': (math.atan, lambda r: rnd_double(r)),
        'Asinh': (math.asinh, lambda r: r.uniform(-100, 100)), 'Acosh': (math.acosh, lambda r: 1 + abs(r.uniform(0, 50))),
        'Atanh': (math.atanh, lambda r: r.uniform(-0.99, 0.99)), 'Log': (math.log, lambda r: abs(rnd_double(r)) + 0.001),
        'Log10': (math.log10, lambda r: abs(rnd_double(r)) + 0.001)}


def wrap(t, v):
    lo, hi = A.rng_of(t)
    return (v - lo) % (hi - lo + 1) + lo


def math_case(r, i):
    body, out, tags = [], [], set()
    for n in range(r.randint(30, 80)):
        f = r.choice(['Max', 'Min', 'Abs', 'Sign'] * 3 + sorted(FUN1) + ['Pow', 'Pow'])
        if f in FUN1:
            fn, dom = FUN1[f]
            x = dom(r)
            y = fn(x)
            body.append('double x%d = %s; Console.WriteLine(Math.%s(x%d)); Console.WriteLine(%s);' % (n, dsrc(x), f, n,
                        'Math.%s(x%d) - Math.%s(%s)' % (f, n, f, dsrc(x))))
            out += [g(y), '0']
            tags.add(f)
        elif f == 'Pow':
            x, y = r.choice([(abs(rnd_double(r)) % 1000 + 0.01, r.uniform(-5, 5)), (float(r.randint(-20, 20)) or 2.0, float(r.randint(-6, 9)))])
            body.append('Console.WriteLine(Math.Pow(%s, %s));' % (dsrc(x), dsrc(y)))
            out.append(g(x ** y))
            tags.add(f)
        else:
            t = r.choice((INTS if f in ('Max', 'Min') else ['sbyte', 'short', 'int', 'long']) + ['float', 'double'])
            if t in INTS:
                a, b = int_value(t, r), int_value(t, r)
                if r.random() < 0.2:
                    b = a
                sa, sb = lit(t, a), lit(t, b)
                v = {'Max': max(a, b), 'Min': min(a, b), 'Abs': wrap(t, abs(a)), 'Sign': (a > 0) - (a < 0)}[f]
                x = str(v)
            else:
                a, b = rnd_double(r), rnd_double(r)
                if t == 'float':
                    a, b = f32(a), f32(b)
                sa, sb = [('(float)' if t == 'float' else '') + '(%s)' % dsrc(q) for q in (a, b)]
                v = {'Max': max(a, b), 'Min': min(a, b), 'Abs': abs(a), 'Sign': (a > 0) - (a < 0)}[f]
                x = str(v) if f == 'Sign' else g(v)
            args = '%s, %s' % (sa, sb) if f in ('Max', 'Min') else sa
            rt = 'int' if f == 'Sign' else t
            if r.random() < 0.5:
                body.append('Console.WriteLine(Math.%s(%s));' % (f, args))
            else:
                body.append('%s a%d = %s; %s b%d = %s; %s c%d = Math.%s(%s); Console.WriteLine(c%d);' % (
                    t, n, sa, t, n, sb, rt, n, f, 'a%d, b%d' % (n, n) if f in ('Max', 'Min') else 'a%d' % n, n))
            out.append(x)
            tags.add('%s %s' % (f, t))
    return vlib.program('\n        '.join(body)), '\n'.join(out) + '\n', tags


def volume_case(r, i):
    """long outputs, in order, complete, also when the program ends in an uncaught exception"""
    n = r.choice([2000, 20000, 60000])
    fail = r.random() < 0.5
    body = ['for (int i = 0; i < %d; i++) { Console.Write(i); Console.Write(":"); Console.Write(i %% 7 == 0); Console.WriteLine(" x"); }' % n]
    exp = ''.join('%d:%s x\n' % (q, q % 7 == 0) for q in range(n))
    if fail:
        body.append('Console.Write("last"); int[] a = new int[1]; Console.WriteLine(a[%d]);' % r.randint(1, 5))
        exp += 'last' + 'Uncaught Exception: OutOfRangeException\n'
    return vlib.program('\n'.join(body)), exp, {'volume %d %s' % (n, fail)}


def build_cases(chk, scale=1.0):
    n = lambda a, b: max(1, int(chk.scale(a, b) * scale))
    out = []
    for name, fn, k in (('console', console_case, n(250, 6000)), ('math', math_case, n(250, 6000)), ('volume', volume_case, n(8, 60))):
        for i in range(k):
            r = random.Random('C20/%s/%d/%d' % (name, vlib.SEED, i))
            src, exp, tags = fn(r, i)
            o = (0, 0, 2, 3)[i % 4]
            out.append(Case('C20 %s#%d seed %d -O%d' % (name, i, vlib.SEED, o), src, exp, tags, args=('-O', str(o)) if o else ()))
            chk.count('%s_programs' % name)
    return out


def main():
    chk = vlib.Check('C20', rule=(
        'Random sequences of Console.Write and WriteLine over all overloads, values (extremes included), and argument shapes '
        '(literals, locals, elements, results, parameters), compared as one text; all Math functions and overloads against Python '
        'integers and the C library; long outputs ending normally or by an uncaught exception. Distinct: overload x shape, function x type.'),
        assumptions=['floating values are written with 6 significant digits (%g)', 'carriage returns are ignored'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk), timeout=30)
    chk.finish(100)


if __name__ == '__main__':
    suite.main(main)
