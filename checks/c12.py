"""C12: memory safety: compiling and running any valid program touches no memory out of bounds, freed or of the wrong
type, and executes no undefined arithmetic of the host: the same programs under an AddressSanitizer build."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import c01
import c03
import c04
import c05
import c06
import c07
import c08
import c17
import c21
import c10
from suite import Case


def build_cases(chk, scale=1.0):
    cs = []
    share = {c01: 0.15, c03: 0.15, c04: 0.15, c05: 0.25, c06: 0.3, c07: 0.3, c08: 0.3, c17: 0.15, c21: 0.2}
    for mod, q in share.items():
        for c in mod.build_cases(chk, q * scale):
            if c.key is None:
                cs.append(Case('C12 ' + c.name, None, c.expected, ['from:%s' % mod.__name__] + sorted(map(str, c.tags))[:1],
                               prog=c.prog, args=c.args, files=c.files))
    return cs


def main():
    chk = vlib.Check('C12', rule=(
        'Samples of the programs of C01, C03-C08 and of the multi-assembly programs of C10, compiled and executed by a '
        'build of the whole of april with AddressSanitizer and the bounds, bool, return and unreachable checks; any report '
        'aborts the run. The outputs are judged as well. Distinct: generator x first tag.'),
        assumptions=['AddressSanitizer of clang 18 with its red zones', 'leaks are not judged'])
    vlib.build_plain()
    fl = vlib.build_san('asan')
    suite.run_cases(chk, fl, build_cases(chk), timeout=60)
    c10.run_plans(chk, fl, [p for i, p in enumerate(c10.plans(chk, 0.3))])
    chk.finish(400)


if __name__ == '__main__':
    suite.main(main)
