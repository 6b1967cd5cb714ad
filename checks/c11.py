"""C11: optimisation levels: every program prints the same at -O 0, 1, 2 and 3."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import c01
import c03
import c04
import c05
import c06
import c07
import c08
import c17
import c21
from suite import Case


def level(args, o):
    """args with the optimisation level set to o"""
    a, i = [], 0
    args = list(args)
    while i < len(args):
        if args[i] == '-O':
            i += 2
            continue
        a.append(args[i])
        i += 1
    return tuple(a) + ('-O', str(o))


def build_cases(chk, scale=1.0):
    cs = []
    share = {c01: 0.06, c03: 0.12, c04: 0.12, c05: 0.14, c06: 0.10, c07: 0.12, c08: 0.14, c17: 0.06, c21: 0.1}
    for mod, q in share.items():
        got = mod.build_cases(chk, q * scale)
        for c in got:
            if c.key is not None:
                continue
            for o in (0, 1, 2, 3):
                cs.append(Case('C11 -O%d %s' % (o, c.name), None, c.expected,
                               ['level:%d' % o, 'from:%s' % mod.__name__] + sorted(map(str, c.tags))[:1], prog=c.prog,
                               args=level(c.args, o), files=c.files))
    return cs


def main():
    chk = vlib.Check('C11', rule=(
        'Samples of the programs of C01, C03-C08, C17 and C21 (expressions, control flow, exceptions, calls, classes, '
        'structs, arrays), each run at every optimisation level; each level prints what the reference says. Distinct: '
        'level x generator x first tag of the program.'),
        assumptions=['the reference outputs of C01, C03-C08'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(400)


if __name__ == '__main__':
    suite.main(main)
