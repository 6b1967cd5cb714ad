"""C02: an expression of constants has the same value wherever and whenever it is evaluated: folded by the
compiler at any optimisation level, required as a constant (const, enum value, case label), or computed
by the running program."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import aexpr as A
import c01
from aexpr import E
from suite import Case


class Consts(c01.Deep):
    """Constant expressions: literals and named constants only."""

    def __init__(self, r, types, consts):
        self.r, self.types, self.consts = r, types, consts
        self.vars = {}

    def leaf(self):
        r = self.r
        t = r.choice(self.types)
        cs = [n for n, (ct, _) in self.consts.items() if ct == t]
        if cs and r.random() < 0.4:
            return E('var', t, v=r.choice(cs))
        return E('lit', t, v=c01.pick(t, r))


def leaves(e):
    if not e.a:
        yield e
    for c in e.a:
        yield from leaves(c)


def has_op(e, ops):
    return e.op in ops or any(has_op(c, ops) for c in e.a)


def gen_value(g, r, env, depth, want=None, tries=400):
    for _ in range(tries):
        e = g.gen(r.randint(2, depth))
        if e.k in ('lit', 'var') or (want and e.t not in want):
            continue
        try:
            v = A.ev(e, env)
        except (A.EvalError, OverflowError):
            continue
        return e, v
    return None


def fold_cases(chk, r, n):
    """Random constant expressions printed at every level; half of the programs also hold the same
    expression with its leaves in variables written through a ref parameter (never constant)."""
    types = c01.NUM + ['bool']
    for i in range(n):
        consts, env, lines, exp, tags = {}, {}, [], [], set()
        for t in r.sample(types, 4):
            nm = 'K_' + t
            v = c01.pick(t, r)
            consts[nm] = (t, v)
            env[nm] = v
            lines.append('const %s %s = %s;' % (t, nm, c01.lit(t, v)))
        g = Consts(r, types, consts)
        k = 0
        while k < 12:
            got = gen_value(g, r, env, 5)
            if not got:
                break
            e, v = got
            lines.append('Console.WriteLine(%s);' % A.src(e))
            exp.append(A.show(e.t, v))
            c01.shape(e, tags)
            # the same computation by the running program: leaves go through an opaque call
            if k % 2 == 0:
                s = A.src(opaque(e, r if k % 4 else None))
                lines.append('Console.WriteLine(%s);' % s)
                exp.append(A.show(e.t, v))
            k += 1
        members = ''.join('    public static %s Id_%s(%s x) { return x; }\n' % (t, t, t) for t in types)
        src = vlib.program('\n'.join('        ' + l for l in lines), members)
        for o in (0, 1, 2, 3) if chk.thorough() else (0, 1 + i % 3):
            yield Case('C02 fold #%d -O%d' % (i, o), src, '\n'.join(exp) + '\n',
                       ['%s @%d' % (t, o) for t in tags], args=('-O', str(o)))


def opaque(e, r=None):
    """The leaves, or some of them, come from calls."""
    if e.k in ('lit', 'var'):
        if r and r.random() < 0.5:
            return e
        return E('raw', e.t, v='Id_%s(%s)' % (e.t, A.src(e)))
    return E(e.k, e.t, e.op, [opaque(c, r) for c in e.a], e.v)


def neutral_cases(chk, r):
    """A constant that an optimiser may take for neutral or absorbing (0, 1, -1, all ones) on either side
    of a value the compiler does not know, for every operator and pair of types."""
    n = 0
    for ta in c01.NUM + ['bool', 'char']:
        for tb in c01.NUM + ['bool', 'char']:
            if not chk.thorough() and ta != tb and r.random() < 0.6:
                continue
            lines, exp, tags = [], [], set()
            for op in c01.ARITH + c01.CMP + ['&&', '||']:
                t = A.bin_type(op, ta, tb)
                if t is None or c01.excluded(op, ta, tb):
                    continue
                for side in (0, 1):
                    ck, ct = (ta, tb) if side == 0 else (tb, ta)
                    for c in neutral(ck):
                        for v in r.sample(probes(ct), min(3, len(probes(ct)))):
                            a, b = (c, v) if side == 0 else (v, c)
                            try:
                                w = A.bin_eval(op, ta, a, tb, b)
                            except (A.EvalError, OverflowError):
                                continue
                            x, y = E('lit', ta, v=a), E('lit', tb, v=b)
                            x, y = (x, opaque(y)) if side == 0 else (opaque(x), y)
                            lines.append('Console.WriteLine(%s);' % A.src(E('bin', t, op, (x, y))))
                            exp.append(A.show(t, w))
                            tags.add('%s const %s %s' % (op, ck, 'left' if side == 0 else 'right'))
            if not lines:
                continue
            types = sorted({ta, tb})
            members = ''.join('    public static %s Id_%s(%s x) { return x; }\n' % (t, t, t) for t in types)
            src = vlib.program('\n'.join('        ' + l for l in lines), members)
            n += 1
            for o in (0, 1, 2, 3) if chk.thorough() else (n % 2, 2 + n % 2):
                yield Case('C02 neutral %s %s -O%d' % (ta, tb, o), src, '\n'.join(exp) + '\n',
                           ['%s @%d' % (t, o) for t in tags], args=('-O', str(o)))


def neutral(t):
    if t == 'bool':
        return [False, True]
    if t == 'char':
        return [48]
    if t in A.FLOATS:
        return [0.0, -0.0, 1.0, -1.0]
    lo, hi = A.rng_of(t)
    return [0, 1] + ([-1] if lo < 0 else [hi])


def probes(t):
    if t == 'bool':
        return [False, True]
    if t == 'char':
        return [48, 65]
    if t in A.FLOATS:
        return [0.0, -0.0, 2.5, -3.75]
    lo, hi = A.rng_of(t)
    return sorted({0, 1, 5, lo, hi, hi // 2 + 1})


def named_cases(chk, r, n):
    """Constants required by the language: const fields and locals built from other constants, enum
    values, case labels."""
    for i in range(n):
        lines, exp, env, consts = [], [], {}, {}
        fields, tags = [], set()
        g = Consts(r, ['int', 'long'], consts)
        for k in range(r.randint(2, 5)):
            got = gen_value(g, r, env, 3, want=('int', 'long'))
            if not got or has_op(got[0], ('<<', '>>')):     # shifts are not constant expressions
                continue
            e, v = got
            nm = 'C%d' % k
            if r.random() < 0.5 and not any(x.k == 'var' for x in leaves(e)):
                fields.append('    const %s F%d = %s;' % (e.t, k, A.src(e)))
                lines.append('Console.WriteLine(F%d);' % k)
            else:
                lines.append('const %s %s = %s;' % (e.t, nm, A.src(e)))
                lines.append('Console.WriteLine(%s);' % nm)
                consts[nm] = (e.t, v)
                env[nm] = v
            exp.append(A.show(e.t, v))
            tags.add('const ' + e.t)
        # enum
        ops = ['+', '-', '*', '|', '&', '^', '/', '%']
        vals, body, prev = [], [], -1
        for k in range(r.randint(2, 6)):
            if r.random() < 0.5:
                a, b = r.randint(0, 60), r.randint(1, 30)
                op = r.choice(ops)
                v = A.bin_eval(op, 'int', a, 'int', b)
                if v < 0:
                    v, op, a, b = a + b, '+', a, b
                body.append('M%d = %d %s %d' % (k, a, op, b))
            else:
                v = prev + 1
                body.append('M%d' % k)
            prev = v
            vals.append(v)
            lines.append('Console.WriteLine((int)En.M%d);' % k)
            exp.append(str(v))
            tags.add('enum')
        # case labels
        labels = {}
        arms = []
        for k in range(r.randint(2, 6)):
            a, b, op = r.randint(0, 40), r.randint(1, 9), r.choice(['+', '-', '*', '|'])
            v = A.bin_eval(op, 'int', a, 'int', b)
            if v in labels:
                continue
            labels[v] = k
            arms.append('            case %d %s %d: Console.WriteLine("arm%d"); break;' % (a, op, b, k))
        probe = r.choice(list(labels) + [9999])
        lines += ['int probe = Id(%d);' % probe, 'switch (probe)\n        {\n%s\n            default: Console.WriteLine("none"); break;\n        }' % '\n'.join(arms)]
        exp.append('arm%d' % labels[probe] if probe in labels else 'none')
        tags.add('case label')
        src = vlib.program('\n'.join('        ' + l for l in lines),
                           '\n'.join(fields) + '\n    public static int Id(int x) { return x; }\n',
                           'enum En { %s }' % ', '.join(body))
        o = i % 4
        yield Case('C02 named #%d -O%d' % (i, o), src, '\n'.join(exp) + '\n',
                   ['%s @%d' % (t, o) for t in tags], args=('-O', str(o)))


def main():
    chk = vlib.Check('C02', rule=(
        'Random expressions over literals and named constants of every type, nested to depth 5, compiled at '
        'optimisation levels 0-3, printed both as constants and with the leaves passed through calls; const '
        'fields and locals, enum values and case labels given by constant expressions. Expected values come from '
        'an independent evaluator. Distinct: operator nesting shape x level.'),
        assumptions=['reference evaluator lib/aexpr.py'])
    fl = vlib.build_plain()
    r = chk.rng
    suite.run_cases(chk, fl, list(fold_cases(chk, r, chk.scale(200, 2000))) + list(neutral_cases(chk, r)) +
                    list(named_cases(chk, r, chk.scale(120, 1500))))
    chk.finish(200)


if __name__ == '__main__':
    suite.main(main)
