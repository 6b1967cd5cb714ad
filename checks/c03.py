"""C03: structured control flow and local variables behave as the language defines for every program."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
from suite import Case


TYPES = {'int': '%d', 'long': '%dL', 'byte': '(byte)%d', 'short': '(short)%d',
         'double': '%d.5', 'uint': '%dU', 'bool': None, 'string': '"s%d"', 'Mix': 'new Mix(%d)', 'Val': 'new Val(%d)'}
STRUCTS = '''struct Mix { public string s; public int v; public Mix(int k) { s = "m"; v = k; } }
struct Val { public byte b; public int v; public long w; public Val(int k) { b = (byte)1; v = k; w = 100000000000L; } }'''


def tree(r, d):
    return [('v' if r.random() < .55 or d == 0 else tree(r, d - 1)) for _ in range(r.randint(1, 4))]


def wide(r):
    return [('v' if r.random() < .4 else [('v' if r.random() < .8 else ['v']) for _ in range(r.randint(1, 3))])
            for _ in range(r.randint(25, 50))]


def scope_program(r, depth):
    """Nested blocks declaring variables of mixed sizes: each keeps its own value while others are
    declared, written and go out of scope; loops re-enter the blocks."""
    out, exp, ctr, tags = [], [], [0], set()

    def lit(t, v):
        if t == 'bool':
            return 'true' if v % 2 else 'false'
        s = TYPES[t] % v
        return s.replace('new ', 'Make') if t in ('Mix', 'Val') and r.random() < 0.4 else s

    def show(t, v):
        if t == 'bool':
            return 'True' if v % 2 else 'False'
        return '%d.5' % v if t == 'double' else 's%d' % v if t == 'string' else str(v)

    def dump(vars_, ind):
        for t, n, v in vars_:
            out.append('%sConsole.WriteLine(%s);' % (ind, n + '.v' if t in ('Mix', 'Val') else n))

    def emit(t, live, ind, times):
        """returns the list of lines one execution prints"""
        mine, lines = [], []
        for x in t:
            if x == 'v':
                ctr[0] += 1
                ty = r.choice(list(TYPES))
                n, val = 'v%d' % ctr[0], ctr[0] + 10
                out.append('%s%s %s = %s;' % (ind, ty, n, lit(ty, val)))
                mine.append((ty, n, val))
                tags.add('decl %s at depth %d' % (ty, len(ind) // 4))
            else:
                k = r.random()
                if k < 0.5:
                    out.append(ind + '{')
                    lines += emit(x, live + mine, ind + '    ', 1)
                    out.append(ind + '}')
                elif k < 0.75:
                    ctr[0] += 1
                    c = 'i%d' % ctr[0]
                    rep = r.randint(1, 3)
                    out.append('%sfor (int %s = 0; %s < %d; %s++)' % (ind, c, c, rep, c))
                    out.append(ind + '{')
                    lines += emit(x, live + mine, ind + '    ', 1) * rep
                    out.append(ind + '}')
                    tags.add('loop scope')
                else:
                    out.append('%sif (%s)' % (ind, 'flag'))
                    out.append(ind + '{')
                    lines += emit(x, live + mine, ind + '    ', 1)
                    out.append(ind + '}')
                    tags.add('if scope')
                dump(live + mine, ind)
                lines += [show(ty, v) for ty, n, v in live + mine]
        if r.random() < 0.3:
            t = r.choice(['Mix', 'Val'])
            out.append('%sConsole.WriteLine(Make%s(%d).v);' % (ind, t, len(out)))
            lines.append(str(len(out) - 1))
            tags.add('temporary ' + t)
        # overwrite one of mine and show everything
        if mine and r.random() < 0.5:
            k = r.randrange(len(mine))
            ty, n, v = mine[k]
            nv = v + 50
            out.append('%s%s = %s;' % (ind, n, lit(ty, nv)))
            mine[k] = (ty, n, nv)
        dump(live + mine, ind)
        lines += [show(ty, v) for ty, n, v in live + mine]
        return lines
    exp = emit(tree(r, depth) if depth else wide(r), [], '        ', 1)
    return vlib.program('        bool flag = One() == 1;\n' + '\n'.join(out),
                        '    public static int One() { return 1; }\n'
                        '    public static Mix MakeMix(int k) { return new Mix(k); }\n'
                        '    public static Val MakeVal(int k) { return new Val(k); }\n', STRUCTS), '\n'.join(exp) + '\n', tags


def scope_cases(n):
    for i in range(n):
        r = random.Random('C03s/%d/%d' % (vlib.SEED, i))
        src, exp, tags = scope_program(r, 0 if i % 8 == 7 else 3)
        o = (0, 0, 2)[i % 3]
        yield Case('C03 scopes#%d seed %d -O%d' % (i, vlib.SEED, o), src, exp, tags, args=('-O', str(o)) if o else ())


FEATURES = ['switch', 'calls']


def build_cases(chk, scale=1.0):
    n = lambda a, b: max(1, int(chk.scale(a, b) * scale))
    cs = suite.generated(chk, n(700, 20000), ['switch'], nfuncs=0, label='flow', opts=(0, 0, 0, 2))
    cs += suite.generated(chk, n(250, 8000), FEATURES, nfuncs=3, size=8, depth=4, label='deep')
    return cs + list(scope_cases(n(300, 6000)))


def main():
    chk = vlib.Check('C03', rule=(
        'Random programs of nested if/else, for, while, do-while, loop-until, switch with fall-out, break, continue, '
        'return, conditional and short-circuit expressions over locals of six types, with a reference interpreter '
        'giving the trace; nested-scope programs that declare variables of mixed sizes in blocks, loops and branches '
        'and print every live variable after each block. Distinct: each program (different seeds) and scope shapes.'),
        assumptions=['reference interpreter lib/agen.py'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(500)


if __name__ == '__main__':
    suite.main(main)
