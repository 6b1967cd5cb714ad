"""C18: the project's own containers, string, number, byte and file utilities, driven by random histories of calls
next to plain models, with every memory access checked by AddressSanitizer."""
import os
import re
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite

# histories per process
SECTIONS = {'heap': 700, 'heap_addr': 200, 'xheap': 250, 'svector': 1500, 'tree': 350, 'small': 500, 'algo': 400,
            'bytes': 1200, 'strings': 1200, 'numbers': 2500, 'files': 800}


def main():
    chk = vlib.Check('C18', rule='one evaluation is one call (or one comparison with the model) in a random history; '
                     'distinct is the number of distinct states of the containers reached',
                     assumptions=['containers are driven through their public interface, each by one thread',
                                  'AddressSanitizer sees every access of the instrumented sources, not of the system libraries'])
    vlib.build_plain()
    fl = vlib.build_harness('containers', ('algorithm/', 'common/', 'lib/', 'os/linux/', 'arch/x86_64/'))
    rounds = 8 if vlib.TIER == 'quick' else 160
    jobs = [(s, chk.rng.randrange(1, 1 << 30), SECTIONS[s]) for _ in range(rounds) for s in SECTIONS]
    ops = {}
    states = 0

    def one(job):
        if vlib.out_of_time():
            return None
        section, seed, count = job
        with tempfile.TemporaryDirectory(dir=vlib.scratch()) as d:
            return job, vlib.run_cmd([fl.april, section, str(seed), str(count)], d, fl.env, 300, limit_as=None)

    for job, r in vlib.pmap(one, jobs):
        section, seed, count = job
        m = re.search(r'OK section=\w+ histories=(\d+) ops=(\d+) states=(\d+)', r.out)
        if r.rc == 0 and m:
            ops[section] = ops.get(section, 0) + int(m.group(2))
            chk.evaluations += int(m.group(2))
            for k in range(int(m.group(3))):
                chk.distinct.add((section, seed, k))
            continue
        what = re.search(r'MISMATCH .*', r.out) or re.search(r'ERROR: AddressSanitizer.*', r.err) or \
            re.search(r'runtime error:.*', r.err)
        frames = re.findall(r'#\d+ \S+ in (.*?) (?:/repo/)?(\S+:\d+)', r.err)[:6]
        chk.violation('section %s seed %d: %s %s' % (section, seed, what.group(0) if what else r.status(),
                                                     ' < '.join('%s %s' % f for f in frames)),
                      {'command.txt': '%s %s %d %d\n' % (fl.april, section, seed, count), 'out.txt': r.out[-6000:],
                       'err.txt': r.err[:20000]})
    chk.extra['operations_by_section'] = ops
    chk.samples = ['%s: %d operations' % x for x in sorted(ops.items())]
    return chk.finish(10000)


if __name__ == '__main__':
    suite.main(main)
