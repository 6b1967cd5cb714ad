"""Cases (a program and what it must print) and their judgement."""
import re
import sys
import time
import traceback

import vlib
import agen
import areduce


class Case:
    """One program with its reference output.

    files: {name: text}; expected: exact stdout after the colour codes and '\\r' are removed;
    tags: what the case exercises (for evidence); prog: agen.Program for shrinking;
    key: stable identity for known-findings matching."""

    def __init__(self, name, src=None, expected='', tags=(), prog=None, key=None, args=(), files=None,
                 weight=1):
        self.name = name
        self.files = files or {'main.cs': src}
        self.expected = expected
        self.tags = tags
        self.prog = prog
        self.key = key
        self.args = tuple(args)
        self.weight = weight


def norm(text):
    # the place in april's own source an uncaught exception is reported from is not part of the output
    return re.sub(r'(?m)(Uncaught Exception: \S+) \[[^\]\n]*\]$', r'\1', vlib.clean(text).replace('\r', ''))


def run(fl, files, args=(), timeout=12):
    return vlib.run_source(fl, None, args=args, timeout=timeout, files=files)


def first_diff(got, exp):
    g, e = got.split('\n'), exp.split('\n')
    i = 0
    while i < min(len(g), len(e)) and g[i] == e[i]:
        i += 1
    return 'line %d: expected %r, got %r' % (
        i + 1, e[i] if i < len(e) else '<end>', g[i] if i < len(g) else '<end>')


def judge(r, expected):
    """None if the run is what the reference says, else what differs."""
    if r.timeout:
        return 'program does not terminate (killed twice by the watchdog)'
    got = norm(r.out)
    if r.rc != 0:
        return 'ended by %s; %s' % (r.status(), first_diff(got, expected))
    if got != expected:
        return first_diff(got, expected)
    return None


def shrink(fl, case):
    t0 = time.time()

    def failing(p):
        if time.time() - t0 > 60:
            return False
        m, u = p.run()
        if u is not None:
            return False
        r = vlib.run_source(fl, None, args=case.args, timeout=5, files={'main.cs': p.src()}, retry=False)
        if r.rc == 1 or 'error CS' in norm(r.out):
            return False
        return judge(r, m.text()) is not None
    try:
        if failing(case.prog):
            areduce.reduce(case.prog, failing, 250)
            m, _ = case.prog.run()
            return case.prog.src(), m.text()
    except Exception:
        pass
    return None


def report(chk, fl, case, why, r):
    files = dict(case.files)
    files['expected.txt'] = case.expected
    files['got.txt'] = '%s\n--- stdout\n%s\n--- stderr\n%s' % (r.status(), norm(r.out), r.err)
    files['command.txt'] = 'april run %s %s System.apl\n' % (' '.join(case.args), ' '.join(case.files))
    if case.prog is not None and not chk.violations:
        s = shrink(fl, case)
        if s:
            files['shrunk.cs'], files['shrunk_expected.txt'] = s
    chk.violation('%s: %s' % (case.name, why), files, case.key)


def run_cases(chk, fl, cases, timeout=12):
    """Runs the cases in parallel; every mismatch is a violation."""
    cases = list(cases)

    def one(c):
        if vlib.out_of_time():
            chk.count('cases_not_run_for_time')
            return None
        return c, run(fl, c.files, c.args, timeout)
    for c, r in vlib.pmap(one, cases):
        why = judge(r, c.expected)
        chk.saw(1, distinct=tuple(c.tags) if c.tags else c.name,
                sample={'case': c.name, 'tags': sorted(map(str, c.tags))[:12],
                        'lines_judged': c.expected.count('\n')})
        chk.count('output_lines_judged', c.expected.count('\n'))
        if why:
            report(chk, fl, c, why, r)


def generated(chk, n, features, types=('int', 'long', 'uint', 'short', 'byte', 'bool'), nfuncs=0,
              size=12, depth=3, label='gen', args=(), opts=None):
    """n random programs with their reference traces; the events the reference saw are counted."""
    import random
    out = []
    for i in range(n):
        rng = random.Random('%s/%d/%s/%d' % (chk.pid, vlib.SEED, label, i))
        p, m = agen.random_program(rng, features, types, nfuncs, size, depth)
        for k, v in m.events.items():
            chk.count('event_' + k, v)
        tags = ['%s:%d' % (label, i)]
        a = tuple(args)
        if opts:
            o = opts[i % len(opts)]
            if o:
                a += ('-O', str(o))
        out.append(Case('%s %s#%d seed %d %s' % (chk.pid, label, i, vlib.SEED, ' '.join(a)), p.src(), m.text(), tags, prog=p, args=a))
    return out


def main(fn):
    try:
        fn()
    except vlib.HarnessError as e:
        print('HARNESS ERROR', e)
        vlib.Check._cleanup(0)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        vlib.Check._cleanup(0)
        sys.exit(2)
