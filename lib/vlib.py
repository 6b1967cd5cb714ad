"""Shared machinery of the checks: building april from /repo's working tree, running
programs under it, judging outcomes, writing evidence, replays and verdicts."""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
       'HOME': '/root', 'LC_ALL': 'C.UTF-8'}

ANSI = re.compile(r'\x1b\[[0-9;]*m')


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build

def build_plain():
    """Builds bin/april and System.apl of /repo's working tree the project's own way."""
    lock = open('/tmp/.verif_build%s.lock' % REPO.replace('/', '_'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t = time.time()
        p = subprocess.run(['bash', os.environ.get('VERIF_BUILD', '/opt/vp/build.sh')], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=ENV, timeout=800)
        if p.returncode != 0 or not os.path.exists(REPO + '/bin/april'):
            raise HarnessError('build failed:\n' + p.stdout.decode(errors='replace')[-3000:])
        log('built in %.0f s' % (time.time() - t))
    finally:
        lock.close()
    return Flavour('plain', REPO + '/bin/april', REPO + '/System.apl')


class Flavour:
    def __init__(self, name, april, system, env=None):
        self.name, self.april, self.system = name, april, system
        self.env = dict(ENV)
        if env:
            self.env.update(env)


# ---------------------------------------------------------------- running

class Result:
    __slots__ = ('out', 'err', 'rc', 'timeout')

    def __init__(self, out, err, rc, timeout):
        self.out, self.err, self.rc, self.timeout = out, err, rc, timeout

    @property
    def crashed(self):
        return self.rc is not None and self.rc < 0

    def status(self):
        if self.timeout:
            return 'timeout'
        if self.rc is not None and self.rc < 0:
            try:
                return signal.Signals(-self.rc).name
            except ValueError:
                return 'signal%d' % -self.rc
        return 'exit%d' % self.rc


STOP = threading.Event()      # enough violations seen: no more watchdog retries, no new work
T_START = time.time()
DEADLINE = float(os.environ.get('VERIF_DEADLINE', '0') or 0) or (600 if TIER == 'quick' else 3600)


def out_of_time(part=1.0):
    return time.time() - T_START > DEADLINE * part


def run_cmd(argv, cwd, env, timeout, stdin=None, limit_as=6 << 30):
    """Output is bounded (32 MB per stream), so is the address space unless the build is instrumented."""
    pre = ['prlimit', '--fsize=32000000', '--core=0'] + (['--as=%d' % limit_as] if limit_as else []) + ['--']
    with tempfile.TemporaryFile(dir=scratch()) as fo, tempfile.TemporaryFile(dir=scratch()) as fe:
        p = subprocess.Popen(pre + list(argv), cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                             start_new_session=True)
        late = False
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            late = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        fo.seek(0)
        fe.seek(0)
        return Result(fo.read(4 << 20).decode('utf-8', 'replace'), fe.read(1 << 20).decode('utf-8', 'replace'),
                      p.returncode, late)


SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='verif_')
        import atexit
        atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


_ctr = [0]
_ctr_lock = threading.Lock()


def fresh_dir(tag='d'):
    with _ctr_lock:
        _ctr[0] += 1
        n = _ctr[0]
    d = os.path.join(scratch(), '%s%d' % (tag, n))
    os.makedirs(d)
    return d


def run_source(fl, src, args=(), timeout=12, files=None, keep=None, command="run", retry=True):
    """Runs one source (or several: files={name: text}) in a directory of its own."""
    d = keep or fresh_dir('p')
    try:
        names = []
        if src is not None:
            files = {'main.cs': src}
        for n, text in files.items():
            with open(os.path.join(d, n), 'w', encoding='utf-8') as f:
                f.write(text)
            names.append(n)
        argv = [fl.april, command] + list(args) + names + [fl.system]
        lim = 0 if fl.name != 'plain' else 6 << 30
        r = run_cmd(argv, d, fl.env, timeout, limit_as=lim)
        if r.timeout and retry and not STOP.is_set():  # a watchdog firing under load is not a verdict: try once more
            r = run_cmd(argv, d, fl.env, timeout * 4, limit_as=lim)
        return r
    finally:
        if keep is None:
            shutil.rmtree(d, ignore_errors=True)


def program(body, members='', types='', usings=''):
    return ('import System;\nusing System;\n%s\nclass Program\n{\n    [EntryPoint]\n'
            '    public static void Main()\n    {\n%s\n    }\n%s\n}\n%s\n'
            % (usings, body, members, types))


def clean(text):
    return ANSI.sub('', text)


ERR_RE = re.compile(r'error (CS\d+|[A-Z]+\d+)')


def has_compile_error(r):
    return '* error' in clean(r.out) or 'error CS' in clean(r.out)


def pmap(fn, items, jobs=None):
    """Maps in a thread pool (the work is in subprocesses), yields in order; skips what is left once STOP is set."""
    def guarded(x):
        if STOP.is_set():
            return None
        return fn(x)
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        for x in ex.map(guarded, items):
            if x is not None:
                yield x


# ---------------------------------------------------------------- verdicts

def load_findings(pid):
    """known-findings.jsonl: {"kind": "finding"|"fixed", "property":, "key":, "what":}"""
    res = {}
    path = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                e = json.loads(line)
                if e['kind'] == 'finding' and e['property'] == pid:
                    res[e['key']] = e
    return res


class Check:
    def __init__(self, pid, level='exploration', rule='', assumptions=()):
        self.pid = pid
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = load_findings(pid)
        self.known_hit = {}
        self.assumptions = list(assumptions)
        self.inconclusive = 0
        self.lock = threading.Lock()
        self.rng = random.Random('%s/%d/%s' % (pid, SEED, TIER))
        shutil.rmtree(os.path.join(VERIF, 'replays', pid), ignore_errors=True)

    def thorough(self):
        return TIER == 'thorough'

    def scale(self, quick, thorough):
        return thorough if TIER == 'thorough' else quick

    def saw(self, n=1, distinct=None, sample=None):
        with self.lock:
            self.evaluations += n
            if distinct is not None:
                if isinstance(distinct, (set, list, tuple)):
                    self.distinct.update(distinct)
                else:
                    self.distinct.add(distinct)
            if sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def count(self, name, n=1):
        with self.lock:
            self.extra[name] = self.extra.get(name, 0) + n

    def violation(self, what, replay_files, key=None):
        """Records a violation. key identifies a specific input for known-findings matching."""
        with self.lock:
            if key is not None and key in self.known:
                self.known_hit[key] = what
                return
            n = len(self.violations)
            self.violations.append(what)
            if n + 1 >= 3:
                STOP.set()
            if n >= 5:
                return
            d = os.path.join(VERIF, 'replays', self.pid, '%d' % n)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for name, text in replay_files.items():
                with open(os.path.join(d, name), 'w') as f:
                    f.write(text)
            with open(os.path.join(d, 'WHAT.txt'), 'w') as f:
                f.write('property %s seed %d tier %s\n%s\n' % (self.pid, SEED, TIER, what))
            log('--- violation of %s: %s' % (self.pid, what[:1500]))

    def finish(self, min_evaluations=1):
        ev = {
            'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level,
            'coverage': {
                'evaluations': self.evaluations,
                'distinct_nontrivial': len(self.distinct),
                'rule': self.rule,
                'samples': self.samples or ['none'],
                'inconclusive': self.inconclusive,
                'known_findings_observed': len(self.known_hit),
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 1),
            'violations': len(self.violations),
        }
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, 'evidence', self.pid + '.json'))
        for k in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]['what']))
        if self.violations:
            print('VIOLATION property=%s replay=%s' % (
                self.pid, os.path.join(VERIF, 'replays', self.pid, '0')))
            sys.stdout.flush()
            os._exit(self._cleanup(1))
        if self.evaluations < min_evaluations:
            print('inconclusive: only %d evaluations' % self.evaluations)
            os._exit(self._cleanup(2))
        print('ok property=%s evaluations=%d distinct=%d wall=%.0fs' % (
            self.pid, self.evaluations, len(self.distinct), time.time() - self.t0))
        sys.stdout.flush()
        os._exit(self._cleanup(0))

    @staticmethod
    def _cleanup(rc):
        sys.stdout.flush()
        sys.stderr.flush()
        if SCRATCH:
            shutil.rmtree(SCRATCH, ignore_errors=True)
        return rc


def compare_output(chk, name, src, r, expected, key=None, extra_files=None):
    """The usual oracle: clean exit and the stdout trace equal to the reference trace."""
    got = r.out
    if r.timeout:
        why = 'program does not terminate (twice killed by the watchdog)'
    elif r.rc != 0:
        why = 'ended by %s' % r.status()
    elif got != expected:
        g, e = got.split('\n'), expected.split('\n')
        i = 0
        while i < min(len(g), len(e)) and g[i] == e[i]:
            i += 1
        why = 'line %d of the output: expected %r, got %r' % (
            i + 1, e[i] if i < len(e) else '<end>', g[i] if i < len(g) else '<end>')
    else:
        return True
    files = {'program.cs': src, 'expected.txt': expected, 'got.txt': got + r.err}
    if extra_files:
        files.update(extra_files)
    chk.violation('%s: %s' % (name, why), files, key)
    return False


# ---------------------------------------------------------------- sanitizer builds

CXX = 'clang++-18'
COMPILE = ['-w', '-include', '/opt/vp/compat/compat.h', '-D__error_t_defined=1', '-std=c++2a',
           '-DBOOST_LOG_DYN_LINK', '-DBOOST_FILESYSTEM_DYN_LINK']
LIBS = ['-lpthread', '-lboost_log', '-lboost_system', '-lboost_filesystem']
SAN = {
    'asan': (['-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,bounds,return,unreachable,bool,builtin',
              '-fno-sanitize-recover=all'],
             {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:'
                              'allocator_may_return_null=1'}),
}


def includes():
    return ['-I' + REPO + s for s in ('/include', '/include/modules', '', '/os/linux',
                                      '/arch/x86_64', '/global/default')]


def repo_sources():
    out = subprocess.run(['git', '-C', REPO, 'ls-files', '-co', '--exclude-standard', '--', '*.cpp'],
                         stdout=subprocess.PIPE, check=True, env=ENV).stdout.decode().split('\n')
    return sorted({f for f in out if f and not f.startswith(('test/', 'tools/'))
                   and os.path.exists(os.path.join(REPO, f))})


def ninja(d, text, what, timeout=850):
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'build.ninja')
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, 'w') as f:
            f.write(text)
    t = time.time()
    p = subprocess.run(['ninja', '-C', d, '-j', str(JOBS)], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=ENV, timeout=timeout)
    if p.returncode != 0:
        raise HarnessError('%s build failed:\n%s' % (what, p.stdout.decode(errors='replace')[-3000:]))
    log('%s built in %.0f s' % (what, time.time() - t))


def build_san(kind):
    """An instrumented build of /repo's current sources, outside /repo. Needs build_plain first
    (System.apl and the generated text sections)."""
    flags, env = SAN[kind]
    d = os.path.join(VERIF, '.build', kind)
    lock_path = '/tmp/.verif%s_%s.lock' % (REPO.replace('/', '_'), kind)
    with open(lock_path, 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        srcs = repo_sources()
        srcs.sort(key=lambda f: -os.path.getsize(os.path.join(REPO, f)))
        # the biggest translation unit decides the wall time: start it first
        srcs.sort(key=lambda f: 0 if f.endswith('exec/commands.cpp') else 1)
        cmd = ' '.join([CXX] + COMPILE + flags + includes())
        t = ['rule cc', '  command = %s -MMD -MF $out.d -c $in -o $out' % cmd,
             '  depfile = $out.d', '  deps = gcc',
             'rule ld', '  command = %s %s -fuse-ld=lld -Wl,--no-as-needed $in %s -o $out' % (
                 CXX, ' '.join(flags), ' '.join(LIBS))]
        objs = []
        for f in srcs:
            o = f[:-4].replace('/', '__') + '.o'
            objs.append(o)
            t.append('build %s: cc %s/%s' % (o, REPO, f))
        t.append('build april: ld %s' % ' '.join(objs))
        ninja(d, '\n'.join(t) + '\n', kind)
    return Flavour(kind, os.path.join(d, 'april'), REPO + '/System.apl', env)


def build_harness(name, parts):
    """harness/NAME.cpp linked with /repo's own sources below the given folders, instrumented like build_san('asan')."""
    flags, env = SAN['asan']
    flags = ['-O1' if f == '-O0' else f for f in flags]
    d = os.path.join(VERIF, '.build', name)
    with open('/tmp/.verif%s_%s.lock' % (REPO.replace('/', '_'), name), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        srcs = [f for f in repo_sources() if f.startswith(parts)]
        cmd = ' '.join([CXX] + COMPILE + flags + includes())
        t = ['rule cc', '  command = %s -MMD -MF $out.d -c $in -o $out' % cmd,
             '  depfile = $out.d', '  deps = gcc',
             'rule ld', '  command = %s %s -fuse-ld=lld -Wl,--no-as-needed $in %s -o $out' % (
                 CXX, ' '.join(flags), ' '.join(LIBS))]
        objs = ['main.o']
        t.append('build main.o: cc %s/harness/%s.cpp' % (VERIF, name))
        for f in srcs:
            o = f[:-4].replace('/', '__') + '.o'
            objs.append(o)
            t.append('build %s: cc %s/%s' % (o, REPO, f))
        t.append('build %s: ld %s' % (name, ' '.join(objs)))
        ninja(d, '\n'.join(t) + '\n', name)
    return Flavour(name, os.path.join(d, name), REPO + '/System.apl', env)
