"""C05: method calls: each argument reaches its parameter, by value or by reference, in order; results
return; calls nest and recurse without disturbing one another; overloads by exact parameter types."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import aexpr as A
from suite import Case

PT = ['sbyte', 'byte', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'double', 'bool', 'char', 'string',
      'Box', 'Pair', 'Trio']


def value(t, r, k):
    """(source, shown) of a value of type t; k makes it unique."""
    if t == 'bool':
        v = r.random() < 0.5
        return ('true' if v else 'false'), ('True' if v else 'False')
    if t == 'char':
        c = chr(ord('A') + k % 26)
        return "'%s'" % c, c
    if t == 'string':
        return '"s%d"' % k, 's%d' % k
    if t == 'double':
        return '%d.25' % k, '%d.25' % k
    if t == 'Box':
        return 'new Box(%d)' % k, 'box%d' % k
    if t == 'Pair':
        return 'new Pair(%d, %dL)' % (k, k + 1), 'pair%d,%d' % (k, k + 1)
    if t == 'Trio':
        return 'new Trio(%dL, %d, %dL)' % (k, k % 100, k + 2), 'trio%d,%d,%d' % (k, k % 100, k + 2)
    lo, hi = A.rng_of(t)
    v = (k * 7919) % (hi - lo + 1) + lo if r.random() < 0.7 else r.choice([lo, hi])
    return A.lit_src(t, v), str(v)


def show(t, e, ind='        '):
    """Statements that print the value of expression e."""
    if t == 'Box':
        return '%sConsole.Write("box"); Console.WriteLine(%s.N);' % (ind, e)
    if t == 'Pair':
        return '%sConsole.Write("pair"); Console.Write(%s.A); Console.Write(","); Console.WriteLine(%s.B);' % (ind, e, e)
    if t == 'Trio':
        return ('%sConsole.Write("trio"); Console.Write(%s.A); Console.Write(","); Console.Write(%s.B); '
                'Console.Write(","); Console.WriteLine(%s.C);' % (ind, e, e, e))
    return '%sConsole.WriteLine(%s);' % (ind, e)


TYPES = '''
class Box { public int N; public Box(int n) { N = n; } }
struct Pair { public int A; public long B; public Pair(int a, long b) { A = a; B = b; } }
struct Trio { public long A; public byte B; public long C; public Trio(long a, int b, long c) { A = a; B = (byte)b; C = c; } }
'''


def signature_program(r, nmeth):
    """Methods with random signatures, static, instance and virtual, called with unique values."""
    statics, insts, body, exp, tags = [], [], [], [], set()
    ctr = [0]

    def val(t):
        ctr[0] += 1
        return value(t, r, ctr[0])
    for m in range(nmeth):
        kind = r.choice(['static', 'instance', 'virtual'])
        n = r.randint(0, 9)
        ps = [(r.choice(['', '', '', '', 'ref', 'out']), r.choice(PT)) for _ in range(n)]
        ret = r.choice(['void'] + PT)
        name = 'M%d' % m
        decl = ', '.join('%s%s p%d' % (md + ' ' if md else '', t, i) for i, (md, t) in enumerate(ps))
        code, news = [], []
        for i, (md, t) in enumerate(ps):
            if md != 'out':
                code.append(show(t, 'p%d' % i))
        # writes to parameters: local for values, visible for ref
        for i, (md, t) in enumerate(ps):
            if md or r.random() < 0.4:
                s, v = val(t)
                code.append('        p%d = %s;' % (i, s))
                code.append(show(t, 'p%d' % i))
                news.append((i, s, v))
        retv = None
        if ret != 'void':
            same = [i for i, (md, t) in enumerate(ps) if t == ret]
            if same and r.random() < 0.5:
                i = r.choice(same)
                nv = [v for j, s, v in news if j == i]
                retv = ('p%d' % i, ('param', i) if not nv else ('const', nv[0]))
            else:
                s, v = val(ret)
                retv = (s, ('const', v))
            code.append('        return %s;' % retv[0])
        text = '    public %s%s %s(%s)\n    {\n%s\n    }\n' % (
            {'static': 'static ', 'instance': '', 'virtual': 'virtual '}[kind], ret, name, decl, '\n'.join(code))
        (statics if kind == 'static' else insts).append(text)
        tags.add('%s/%d params/returns %s' % (kind, n, ret))
        # two calls
        for call in range(2):
            args, shown, after = [], [], []
            for i, (md, t) in enumerate(ps):
                s, v = val(t)
                shown.append(v)
                if md or r.random() < 0.4:
                    ctr[0] += 1
                    loc = 'x%d' % ctr[0]
                    body.append('        %s %s = %s;' % (t, loc, s))
                    args.append((md + ' ' if md else '') + loc)
                    final = v
                    if md:
                        nv = [w for j, _, w in news if j == i]
                        final = nv[0] if nv else v
                    after.append((t, loc, final))
                else:
                    args.append(s)
                tags.add('%s %s' % (md or 'value', t))
            tgt = {'static': name, 'instance': 'host.' + name, 'virtual': 'host.' + name}[kind]
            exp += [v for v, (md, t) in zip(shown, ps) if md != 'out'] + [v for _, _, v in news]
            e = '%s(%s)' % (tgt, ', '.join(args))
            if ret == 'void':
                body.append('        %s;' % e)
            else:
                ctr[0] += 1
                body.append('        %s r%d = %s;' % (ret, ctr[0], e))
                body.append(show(ret, 'r%d' % ctr[0]))
                k, v = retv[1]
                exp.append(shown[v] if k == 'param' else v)
            for t, loc, v in after:
                body.append(show(t, loc))
                exp.append(v)
    src = vlib.program('        Host host = new Host();\n' + '\n'.join(body), ''.join(statics),
                       TYPES + 'class Host\n{\n    public Host() { }\n%s}\n' % ''.join(insts))
    return src, '\n'.join(exp) + '\n', tags


DT = ['sbyte', 'byte', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'double', 'bool', 'char', 'string', 'Box']


def delegate_program(r):
    """The method a delegate refers to is called, on the object it was taken from, with the arguments given,
    however the delegate got to the place of the call."""
    statics, insts, body, exp, tags = [], [], [], [], set()
    ctr = [0]

    def val(t):
        ctr[0] += 1
        return value(t, r, ctr[0])
    sigs = []
    for i in range(r.randint(1, 3)):
        ps = [r.choice(DT) for _ in range(r.randint(0, 5))]
        sigs.append((ps, r.choice(DT)))
    meths = []
    for i in range(r.randint(2, 6)):
        si = r.randrange(len(sigs))
        ps, ret = sigs[si]
        inst = r.random() < 0.5
        s, v = val(ret)
        same = [j for j, t in enumerate(ps) if t == ret]
        if same and r.random() < 0.5:
            s, v = 'p%d' % same[0], ('p', same[0])
        text = '    public %s%s D%d(%s)\n    {\n        Console.WriteLine("D%d");\n%s%s\n        return %s;\n    }\n' % (
            '' if inst else 'static ', ret, i, ', '.join('%s p%d' % (t, j) for j, t in enumerate(ps)), i,
            '        Console.WriteLine(this.Id);\n' if inst else '',
            '\n'.join(show(t, 'p%d' % j) for j, t in enumerate(ps)), s)
        (insts if inst else statics).append(text)
        meths.append((i, si, inst, v))
    dts = []
    for i, (ps, ret) in enumerate(sigs):
        dt = 'Delegate<%s>' % ', '.join([ret] + ps)
        dts.append(dt)
        decl = ', '.join(['%s f' % dt] + ['%s p%d' % (t, j) for j, t in enumerate(ps)])
        statics.append('    static %s Via%d(%s)\n    {\n        Console.WriteLine("via%d");\n        return f(%s);\n    }\n' % (
            ret, i, decl, i, ', '.join('p%d' % j for j in range(len(ps)))))
        ms = [m for m in meths if m[1] == i and not m[2]]
        if ms:
            statics.append('    static %s Pick%d(int k)\n    {\n%s        return D%d;\n    }\n' % (
                dt, i, ''.join('        if (k == %d) return D%d;\n' % (m[0], m[0]) for m in ms), ms[0][0]))
    hosts = []
    for h in range(2):
        body.append('        Host h%d = new Host(%d);' % (h, 500 + h))
    vars_ = {}
    for step in range(r.randint(4, 10)):
        i, si, inst, v = r.choice(meths)
        ps, ret = sigs[si]
        h = r.randrange(2)
        ref = 'h%d.D%d' % (h, i) if inst else 'D%d' % i
        how = r.choice(['local', 'var', 'pass', 'passvar', 'pick', 'reassign'])
        if how == 'pass' and not inst:      # a static method's name as an argument is not accepted
            how = 'passvar'
        if how == 'pick' and inst:
            how = 'local'
        args, shown = [], []
        for t in ps:
            s, w = val(t)
            args.append(s)
            shown.append(w)
        pre = []
        if how in ('local', 'var', 'passvar'):
            ctr[0] += 1
            f = 'f%d' % ctr[0]
            body.append('        %s %s = %s;' % ('var' if how == 'var' else dts[si], f, ref))
            vars_.setdefault(si, []).append(f)
            call = '%s(%s)' % (f, ', '.join(args))
            if how == 'passvar':
                call = 'Via%d(%s)' % (si, ', '.join([f] + args))
                pre = ['via%d' % si]
        elif how == 'pass':
            call = 'Via%d(%s)' % (si, ', '.join([ref] + args))
            pre = ['via%d' % si]
        elif how == 'pick':
            ctr[0] += 1
            f = 'f%d' % ctr[0]
            body.append('        %s %s = Pick%d(%d);' % (dts[si], f, si, i))
            call = '%s(%s)' % (f, ', '.join(args))
        else:
            if not vars_.get(si):
                continue
            f = r.choice(vars_[si])
            body.append('        %s = %s;' % (f, ref))
            call = '%s(%s)' % (f, ', '.join(args))
        tags.add('delegate %s %s %d args' % ('instance' if inst else 'static', how, len(ps)))
        exp += pre + ['D%d' % i] + ([str(500 + h)] if inst else []) + shown
        ctr[0] += 1
        body.append('        %s r%d = %s;' % (ret, ctr[0], call))
        body.append(show(ret, 'r%d' % ctr[0]))
        exp.append(shown[v[1]] if isinstance(v, tuple) else v)
    src = vlib.program('\n'.join(body), ''.join(statics),
                       TYPES + 'class Host\n{\n    public int Id;\n    public Host(int n) { Id = n; }\n%s}\n' % ''.join(insts))
    return src, '\n'.join(exp) + '\n', tags


def order_program(r):
    """Arguments, operands, indexes and receivers are evaluated left to right, once each."""
    lines, exp = [], []
    n = [0]

    def ex(d):
        """(source, value); the evaluation prints as a side effect through T"""
        n[0] += 1
        k = r.random()
        if d == 0 or k < 0.25:
            v = n[0]
            return 'T(%d)' % v, v, ['%d' % v]
        if k < 0.5:
            a, va, ta = ex(d - 1)
            b, vb, tb = ex(d - 1)
            op = r.choice(['+', '-', '*'])
            return '(%s %s %s)' % (a, op, b), A.bin_eval(op, 'int', va, 'int', vb), ta + tb
        if k < 0.65:
            parts = [ex(d - 1) for _ in range(3)]
            vs = [p[1] for p in parts]
            v = A.wrap('int', vs[0] + 2 * vs[1] + 3 * vs[2])
            return 'Three(%s)' % ', '.join(p[0] for p in parts), v, sum((p[2] for p in parts), []) + ['three']
        if k < 0.8:
            a, va, ta = ex(d - 1)
            return 'o.Chain(%s).Last()' % a, va, ta + ['chain', 'last']
        if k < 0.9:
            c = r.random() < 0.5
            a, va, ta = ex(d - 1)
            b, vb, tb = ex(d - 1)
            return '(C(%s) ? %s : %s)' % ('true' if c else 'false', a, b), (va if c else vb), ['cond'] + (ta if c else tb)
        a, va, ta = ex(d - 1)
        b, vb, tb = ex(d - 1)
        z = r.random() < 0.5
        if z:
            return '(C(%s) && %s == %s ? 1 : 0)' % ('true', a, b), (1 if va == vb else 0), ['cond'] + ta + tb
        return '(C(%s) && %s == %s ? 1 : 0)' % ('false', a, b), 0, ['cond']
    for _ in range(8):
        s, v, t = ex(3)
        lines.append('        Console.WriteLine(%s);' % s)
        exp += t + [str(v)]
    members = '''
    public static int T(int k) { Console.WriteLine(k); return k; }
    public static bool C(bool k) { Console.WriteLine("cond"); return k; }
    public static int Three(int a, int b, int c) { Console.WriteLine("three"); return a + 2 * b + 3 * c; }
'''
    types = '''
class O
{
    public int V;
    public O Chain(int k) { Console.WriteLine("chain"); O o = new O(); o.V = k; return o; }
    public int Last() { Console.WriteLine("last"); return V; }
}
'''
    return vlib.program('        O o = new O();\n' + '\n'.join(lines), members, types), '\n'.join(exp) + '\n'


def overload_program(r):
    """Overloads distinguished by exact parameter types and count."""
    ts = ['int', 'long', 'uint', 'ulong', 'double', 'bool', 'string', 'char', 'Box', 'object', 'int[]', 'Pair', 'byte', 'short']
    chosen = r.sample(ts, r.randint(3, 8))
    sigs = [(t,) for t in chosen]
    for _ in range(r.randint(1, 5)):
        s = tuple(r.choice(chosen) for _ in range(r.randint(2, 3)))
        if s not in sigs:
            sigs.append(s)
    if r.random() < 0.5:
        sigs.append(())
    lines, members, exp = [], '', []
    for i, s in enumerate(sigs):
        members += '    public static void F(%s) { Console.WriteLine("sig%d"); }\n' % (
            ', '.join('%s a%d' % (t, k) for k, t in enumerate(s)), i)
    for t in chosen:
        init = {'Box': 'new Box(1)', 'object': 'new Box(2)', 'int[]': 'new int[2]', 'Pair': 'new Pair(1, 2L)'}.get(t)
        lines.append('        %s v_%s = %s;' % (t, t.replace('[]', 's'), init or value(t, r, 3)[0]))
    for i in r.sample(range(len(sigs)), len(sigs)) + [r.randrange(len(sigs)) for _ in range(4)]:
        lines.append('        F(%s);' % ', '.join('v_' + t.replace('[]', 's') for t in sigs[i]))
        exp.append('sig%d' % i)
    return vlib.program('\n'.join(lines), members, TYPES), '\n'.join(exp) + '\n', ['overload set of %d' % len(sigs)]


def recursion_program(r):
    """Recursive methods with locals and parameters that must survive the inner calls."""
    d = r.randint(5, 120)
    a, b, c = r.randint(1, 9), r.randint(1, 9), r.randint(2, 5)
    body, exp = [], []

    def walk(n, acc):
        if n == 0:
            return acc
        local = A.wrap('int', n * a + acc)
        s = walk(n - 1, A.wrap('int', acc + b))
        return A.wrap('int', s ^ local)

    def tree(n, k):
        if n <= 0:
            return k
        x = n * k
        l = tree(n - 1, k + 1)
        q = tree(n - 2, k + c)
        return A.wrap('long', x + l * 2 - q)

    def ack(m, n):
        if m == 0:
            return n + 1
        if n == 0:
            return ack(m - 1, 1)
        return ack(m - 1, ack(m, n - 1))
    sys.setrecursionlimit(20000)
    tn = r.randint(3, 11)
    am, an = r.choice([(1, 5), (2, 3), (2, 6), (3, 2)])
    n = r.randint(0, 60)
    exp = [str(walk(d, c)), str(tree(tn, a)), str(ack(am, an)), 'True' if n % 2 == 0 else 'False', str(d * (d + 1) // 2)]
    main = '''
        Console.WriteLine(Walk(%d, %d));
        Console.WriteLine(Tree(%d, %d));
        Console.WriteLine(Ack(%d, %d));
        Console.WriteLine(Even(%d));
        int sum = 0;
        Sum(%d, ref sum);
        Console.WriteLine(sum);''' % (d, c, tn, a, am, an, n, d)
    members = '''
    public static int Walk(int n, int acc)
    {
        if (n == 0) return acc;
        int local = n * %d + acc;
        int s = Walk(n - 1, acc + %d);
        return s ^ local;
    }
    public static long Tree(int n, long k)
    {
        if (n <= 0) return k;
        long x = n * k;
        long l = Tree(n - 1, k + 1);
        long q = Tree(n - 2, k + %d);
        return x + l * 2 - q;
    }
    public static int Ack(int m, int n)
    {
        if (m == 0) return n + 1;
        if (n == 0) return Ack(m - 1, 1);
        return Ack(m - 1, Ack(m, n - 1));
    }
    public static bool Even(int n) { if (n == 0) return true; return Odd(n - 1); }
    public static bool Odd(int n) { if (n == 0) return false; return Even(n - 1); }
    public static void Sum(int n, ref int total) { if (n > 0) { total = total + n; Sum(n - 1, ref total); } }
''' % (a, b, c)
    return vlib.program(main, members), '\n'.join(exp) + '\n'


def build_cases(chk, scale=1.0):
    cs = []

    def k(q, t):
        return max(1, int(chk.scale(q, t) * scale))
    for i in range(k(220, 4000)):
        r = random.Random('C05sig/%d/%d' % (vlib.SEED, i))
        src, exp, tags = signature_program(r, r.randint(2, 5))
        o = (0, 0, 1, 2)[i % 4]
        cs.append(Case('C05 signature#%d -O%d' % (i, o), src, exp, tags, args=('-O', str(o)) if o else ()))
    for i in range(k(100, 2000)):
        r = random.Random('C05ord/%d/%d' % (vlib.SEED, i))
        src, exp = order_program(r)
        cs.append(Case('C05 order#%d' % i, src, exp, ['order#%d' % i]))
    for i in range(k(120, 2500)):
        r = random.Random('C05dlg/%d/%d' % (vlib.SEED, i))
        src, exp, tags = delegate_program(r)
        o = (0, 0, 1, 2)[i % 4]
        cs.append(Case('C05 delegate#%d -O%d' % (i, o), src, exp, tags, args=('-O', str(o)) if o else ()))
    for i in range(k(80, 1500)):
        r = random.Random('C05ovl/%d/%d' % (vlib.SEED, i))
        src, exp, tags = overload_program(r)
        cs.append(Case('C05 overload#%d' % i, src, exp, tags))
    for i in range(k(30, 400)):
        r = random.Random('C05rec/%d/%d' % (vlib.SEED, i))
        src, exp = recursion_program(r)
        cs.append(Case('C05 recursion#%d' % i, src, exp, ['recursion#%d' % i]))
    return cs


def main():
    chk = vlib.Check('C05', rule=(
        'Methods with 0-9 parameters of 14 types (integers of every width, double, bool, char, string, class, '
        'struct), static, instance and virtual, by value and by ref, each argument a unique value printed by the '
        'callee and re-read by the caller after the call; expressions whose every evaluation prints, checking '
        'left-to-right single evaluation; overload sets by exact types; recursive and mutually recursive methods '
        'with live locals; random programs of mutually calling functions against a reference interpreter. '
        'Distinct: parameter mode x type, kind x arity x result type, and each generated program.'),
        assumptions=['reference values computed by the generator', 'reference interpreter lib/agen.py'])
    fl = vlib.build_plain()
    cs = build_cases(chk)
    cs += suite.generated(chk, chk.scale(400, 12000), ['switch', 'calls', 'refs'], nfuncs=6, size=10, label='calls',
                          opts=(0, 0, 2))
    suite.run_cases(chk, fl, cs)
    chk.finish(500)


if __name__ == '__main__':
    suite.main(main)
