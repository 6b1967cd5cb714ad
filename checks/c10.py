"""C10: packaging: a program behaves the same however it is divided into source files, projects and assemblies,
whether it is run from source or compiled first, and wherever its files lie."""
import os
import random
import re
import shutil
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import agen
import c03
import c04
import c05
import c06
import c07
import c08
import c17
import c21

XML = '<?xml version="1.0" encoding="utf-8" ?>\n'


def project(name, paths):
    return XML + '<project>\n    <name>%s</name>\n    <files>\n%s    </files>\n</project>\n' % (
        name, ''.join('        <file>\n            <path>%s</path>\n        </file>\n' % p for p in paths))


def solution(name, paths):
    return XML + '<solution>\n    <name>%s</name>\n    <projects>\n%s    </projects>\n</solution>\n' % (
        name, ''.join('        <project>\n            <path>%s</path>\n        </project>\n' % p for p in paths))


def split_top(src):
    """(header, declarations) of a source: the top-level types, each a text."""
    head, rest = [], []
    lines = src.split('\n')
    i = 0
    while i < len(lines) and (not lines[i].strip() or re.match(r'\s*(import|using)\b', lines[i])):
        head.append(lines[i])
        i += 1
    text = '\n'.join(lines[i:])
    decls, depth, start, k = [], 0, 0, 0
    while k < len(text):
        c = text[k]
        if c in '"\'':
            q = c
            k += 1
            while text[k] != q:
                k += 2 if text[k] == '\\' else 1
        elif c == '{':
            depth += 1
        elif c == '}':
            depth -= 1
            if depth == 0:
                decls.append(text[start:k + 1].strip())
                start = k + 1
        k += 1
    if text[start:].strip():
        return None
    return '\n'.join(head), decls


class Plan:
    """Files and a list of steps (cwd, argv after 'april'); the last step is the run whose output is judged."""

    def __init__(self, name, files, steps, expected, tags):
        self.name, self.files, self.steps, self.expected, self.tags = name, files, steps, expected, tags

    def run(self, fl):
        d = vlib.fresh_dir('k')
        try:
            for n, t in self.files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'w', encoding='utf-8') as f:
                    f.write(t)
            r = None
            for i, (cwd, argv) in enumerate(self.steps):
                cd = os.path.join(d, cwd)
                os.makedirs(cd, exist_ok=True)
                if argv[0] == 'rm':
                    for x in argv[1:]:
                        os.unlink(os.path.join(cd, x))
                    continue
                a = [fl.april] + [fl.system if x == '@S' else x.replace('@D', d) for x in argv]
                lim = 6 << 30 if fl.name == "plain" else 0
                r = vlib.run_cmd(a, cd, fl.env, 30, limit_as=lim)
                if r.timeout and not vlib.STOP.is_set():
                    r = vlib.run_cmd(a, cd, fl.env, 120, limit_as=lim)
                if i + 1 < len(self.steps) and (r.rc != 0 or suite.norm(r.out).strip()):
                    return 'step %d (april %s) failed: %s %s' % (i + 1, ' '.join(argv), r.status(),
                                                                 suite.norm(r.out)[:300]), r
            why = suite.judge(r, self.expected)
            return why, r
        finally:
            shutil.rmtree(d, ignore_errors=True)


FORMS = ['apl', 'out', 'files', 'project', 'solution', 'wild', 'two']


def repackage(name, src, expected, args, r, form):
    args = list(args)
    n = r.choice(['App', 'a1', 'my_prog', 'Zed', 'p'])
    got = split_top(src)
    if got is None:
        return None
    head, decls = got
    tags = [form, 'types:%d' % min(len(decls), 9)]
    names = ['%s%d.cs' % (r.choice('abcxyz'), i) for i in range(len(decls))]
    parts = list(decls)
    if form in ('apl', 'out'):
        if form == 'apl':
            steps = [(n, ['compile'] + args + ['main.cs', '@S']), (n, ['rm', 'main.cs']),
                     ('elsewhere', ['run'] + r.choice([['-e', n], []]) +
                      r.choice([['@D/%s/%s.apl' % (n, n), '@S'], ['@S', '../%s/%s.apl' % (n, n)]]))]
        else:
            steps = [('q/r', ['compile', '-o', '../../o1'] + args + ['../../%s/main.cs' % n, '@S']),
                     ('q', ['compile', '-o', '@D/o2'] + args + ['@D/%s/main.cs' % n, '@S']),
                     ('.', ['run', 'o%d/%s.apl' % (r.randint(1, 2), n), '@S'])]
        files = {n + '/main.cs': src}
        if form == 'out':
            files['o1/x'] = files['o2/x'] = ''
        return Plan(name, files, steps, expected, tags)
    r.shuffle(parts)
    # group the declarations into files
    k = r.randint(1, min(len(parts), 5))
    groups = [[] for _ in range(k)]
    for i, p in enumerate(parts):
        groups[i % k].append(p)
    files = {'%s/%s' % (n, names[i]): head + '\n' + '\n'.join(g) + '\n' for i, g in enumerate(groups)}
    paths = [x.split('/')[1] for x in files]
    r.shuffle(paths)
    tags.append('files:%d' % k)
    if form == 'files':
        steps = [(n, ['run'] + args + paths + ['@S'])]
    elif form == 'project':
        files['%s/%s.project' % (n, n)] = project(n, paths)
        steps = [('w', ['run'] + args + ['../%s/%s.project' % (n, n), '@S'])]
    elif form == 'wild':
        files['%s/%s.project' % (n, n)] = project(n, ['*.cs'])
        steps = [(n, ['run'] + args + [n + '.project', '@S'])]
    elif form == 'solution':
        files['%s/%s.project' % (n, n)] = project(n, paths)
        files['all.solution'] = solution('all', ['%s/%s.project' % (n, n)])
        steps = [('w', ['compile'] + args + ['../all.solution', '@S']), ('.', ['run', 'w/%s.apl' % n, '@S'])]
    else:       # an assembly compiled from several files
        steps = [('w', ['compile'] + args + ['../%s/%s' % (n, p) for p in paths] + ['@S']),
                 ('.', ['run', '-e', n, 'w/%s.apl' % n, '@S'])]
    return Plan(name, files, steps, expected, tags)


def assemblies(name, units, expected, r, tags, form=None):
    """units: [(assembly, source declarations, assemblies it uses)], the last one holds Main."""
    form = form or r.choice(['compile', 'compile', 'solution', 'projects', 'all compiled'])
    opt = r.choice([[], [], ['-O', '1'], ['-O', '2'], ['-O', '3']])
    files, steps = {}, []
    for a, decls, uses in units:
        head = 'import System;\n%susing System;\n%s' % (''.join('import %s;\n' % u for u in uses),
                                                       ''.join('using %s;\n' % u for u in uses))
        decls = list(decls)
        k = min(len(decls), r.choice([1, 1, 2, 3]))
        for i in range(k):
            files['%s/f%d.cs' % (a, i)] = head + '\n'.join(decls[i::k]) + '\n'
        if form in ('solution', 'projects'):
            files['%s/%s.project' % (a, a)] = project(a, ['*.cs'] if r.random() < 0.5 else
                                                      ['f%d.cs' % i for i in range(k)])
    order = [u[0] for u in units]
    srcs = lambda a: sorted(f for f in files if f.startswith(a + '/') and f.endswith('.cs'))
    if form == 'solution':
        ps = ['%s/%s.project' % (a, a) for a in order]
        r.shuffle(ps)
        files['s.solution'] = solution('s', ps)
        steps = [('.', ['run'] + opt + ['s.solution', '@S'])]
    elif form == 'projects':
        ps = ['%s/%s.project' % (a, a) for a in order]
        r.shuffle(ps)
        steps = [('.', ['run'] + opt + ps + ['@S'])]
    else:
        for a, decls, uses in units[:-1]:
            steps.append(('bin', ['compile'] + opt + ['../' + f for f in srcs(a)] + [u + '.apl' for u in uses] + ['@S']))
        a, _, uses = units[-1]
        libs = ['bin/%s.apl' % x for x in order[:-1]]
        r.shuffle(libs)
        if form == 'compile':
            steps.append(('.', ['run'] + opt + srcs(a) + libs + ['@S']))
        else:
            steps.append(('bin', ['compile'] + opt + ['../' + f for f in srcs(a)] + [u + '.apl' for u in uses] + ['@S']))
            libs.append('bin/%s.apl' % a)
            r.shuffle(libs)
            steps.append(('.', ['run', '-e', a] + libs + ['@S']))
    return Plan(name + ' ' + form, files, steps, expected, sorted(tags) + [form, 'assemblies:%d' % len(units)])


MAIN = 'class Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n%s\n    }\n}\n'


def layered_hierarchy(r, i):
    """A class hierarchy spread over a chain of assemblies."""
    x = c06.hierarchy(r, r.randint(2, 8), acc=True)
    if x is None:
        return None
    h, body, expected = x
    n = r.randint(1, 3)
    layer = {}
    for t in h.ifaces:
        layer[t] = max([layer[p] for p in h.parents[t]] + [r.randint(0, n)])
    for c in h.classes:
        layer[c.name] = max([layer[t] for t in c.ifaces] + ([layer[c.base.name]] if c.base else []) + [r.randint(0, n)])
    tags = set(h.tags)
    for c in h.classes:
        if c.base:
            tags.add('base %d assemblies away' % (layer[c.name] - layer[c.base.name]))
        for t in c.ifaces:
            tags.add('interface %d assemblies away' % (layer[c.name] - layer[t]))
    d = h.decls()
    names = ['Lib%s' % 'ABCD'[k] for k in range(n)] + ['Main%d' % r.randint(0, 9)]
    units, used = [], []
    for k in range(n + 1):
        ds = [d[t] for t in d if layer[t] == k]
        if k == n:
            ds.append(MAIN % body)
        if ds:
            units.append((names[k], ds, list(used)))
            used.append(names[k])
    if len(units) < 2:
        return None
    return assemblies('C10 hierarchy#%d' % i, units, expected, r, tags)


def layered_functions(r, i, features):
    """A random program whose functions live in library assemblies: control flow and exceptions cross them."""
    p, m = agen.random_program(r, features, ('int', 'long', 'uint', 'short', 'byte', 'bool'), r.randint(1, 4), 10, 3)
    src = p.src()
    got = split_top(src)
    if got is None:
        return None
    decls = got[1]
    prog = [d for d in decls if d.startswith('class Program')][0]
    types = [('public ' + d if re.match(r'(abstract )?(class|struct|enum|interface)', d) else d)
             for d in decls if d is not prog]
    k = prog.find('\n\n    public static')
    if k < 0:
        return None
    main, members = prog[:k] + '\n}', prog[k:].rstrip()
    members = members[:-1]
    names = set(re.findall(r'public static \w+ (\w+)\(', members))
    if not names:
        return None
    fn = re.compile(r'(?<![\w.])(%s)\(' % '|'.join(sorted(names)))
    main = fn.sub(r'Fn.\1(', main)
    lib = 'public class Fn\n{%s}\n' % members
    if types and r.random() < 0.6:
        units = [('Base', types, []), ('Lib', [lib], ['Base']), ('Main', [main], ['Base', 'Lib'])]
    else:
        units = [('Lib', types + [lib], []), ('Main', [main], ['Lib'])]
    tags = ['event:' + e for e in m.events]
    return assemblies('C10 functions#%d' % i, units, m.text(), r, tags)


INTS = {'sbyte': (-128, 127), 'byte': (0, 255), 'short': (-2 ** 15, 2 ** 15 - 1), 'ushort': (0, 2 ** 16 - 1),
        'int': (-2 ** 31, 2 ** 31 - 1), 'uint': (0, 2 ** 32 - 1), 'long': (-2 ** 63, 2 ** 63 - 1), 'ulong': (0, 2 ** 64 - 1)}


def hard(r, t):
    lo, hi = INTS[t]
    k = r.random()
    if k < 0.3:
        v = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, 5, max(lo, -1)])
    elif k < 0.65:
        v = r.choice([1, -1]) * r.getrandbits(r.randint(1, 64))
    else:
        v = r.choice([1, -1]) * (1 << r.randint(0, 63)) + r.randint(-2, 2)
    return v if lo <= v <= hi else r.randint(lo, hi) if r.random() < 0.5 else min(max(v, lo), hi)


def literal(t, v):
    # the most negative numbers have no literal of their own
    if v == INTS[t][0] and t in ('int', 'long'):
        return '(-%d%s - 1%s)' % (-(v + 1), 'L' if t == 'long' else '', 'L' if t == 'long' else '')
    s = '%d%s' % (v, {'long': 'L', 'uint': 'u', 'ulong': 'ul'}.get(t, ''))
    return '(%s)(%s)' % (t, s) if t in ('sbyte', 'byte', 'short', 'ushort') else s if v >= 0 else '(%s)' % s


def shown(t, e):
    return 'Console.WriteLine(%s);' % ('(int)' + e if t in ('sbyte', 'byte', 'short', 'ushort') else e)


class Api:
    """Random members of a library class: what the library declares, how the program uses it, what that prints."""

    def __init__(self, r):
        self.r, self.n, self.members, self.types, self.main, self.out, self.tags = r, 0, [], [], [], [], set()

    def name(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def use(self, st, *out):
        self.main.append('        ' + st)
        self.out += [str(x) for x in out]

    def api_const(self):
        r = self.r
        k = self.name('K')
        p = r.random()
        if p < 0.75:
            t = r.choice(sorted(INTS))
            v = hard(r, t)
            self.members.append('public const %s %s = %s;' % (t, k, literal(t, v)))
            self.use(shown(t, 'Api.' + k), v)
            self.use('Console.WriteLine(Api.%s == %s ? 1 : 0);' % (k, literal(t, v)), 1)
            self.tags.add('const ' + t)
        elif p < 0.85:
            v = ''.join(r.choice('abcXYZ 09_-') for _ in range(r.choice([0, 1, 7, 40, 300])))
            self.members.append('public const string %s = "%s";' % (k, v))
            self.use('Console.Write("["); Console.Write(Api.%s); Console.WriteLine("]");' % k, '[' + v + ']')
            self.tags.add('const string')
        else:
            t = r.choice(['double', 'double', 'float'])
            v = r.choice([0.0, 1.0, 0.5, -0.25, 1.5, 1024.125, -65536.5, 3.0, 100000.0, 12345.75])
            self.members.append('public const %s %s = %s%s;' % (t, k, v, 'f' if t == 'float' else ''))
            self.use('Console.WriteLine((long)(Api.%s * 8));' % k, int(v * 8))
            self.tags.add('const ' + t)

    def api_params(self):
        r = self.r
        ts = [r.choice(sorted(INTS)) for _ in range(r.randint(1, 7))]
        vs = [hard(r, t) for t in ts]
        j = r.randrange(len(ts))
        m = self.name('P')
        self.members.append('public static %s %s(%s) { return a%d; }' % (ts[j], m, ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)), j))
        self.use(shown(ts[j], 'Api.%s(%s)' % (m, ', '.join(literal(t, v) for t, v in zip(ts, vs)))), vs[j])
        self.tags.add('parameters:%d' % len(ts))

    def api_overloads(self):
        r = self.r
        m = self.name('V')
        ts = r.sample(sorted(INTS) + ['string', 'int[]', 'bool', 'char', 'object'], r.randint(2, 5))
        arg = {'string': '"s"', 'int[]': 'new int[2]', 'bool': 'true', 'char': "'c'", 'object': '(object)3'}
        order = list(ts)
        r.shuffle(order)
        for i, t in enumerate(ts):
            self.members.append('public static int %s(%s x) { return %d; }' % (m, t, 10 + i))
        for t in order:
            self.use('Console.WriteLine(Api.%s(%s));' % (m, arg.get(t) or '(%s)%d' % (t, r.randint(0, 100))), 10 + ts.index(t))
        self.tags.add('overloads:%d' % len(ts))

    def api_ref(self):
        r = self.r
        t = r.choice(sorted(INTS))
        m = self.name('R')
        a, b, c = hard(r, t), hard(r, t), hard(r, t)
        how = r.choice(['ref', 'out', 'both'])
        k = self.name('r')
        if how == 'ref':
            self.members.append('public static %s %s(ref %s x, %s y) { %s o = x; x = y; return o; }' % (t, m, t, t, t))
            self.use('%s %s = %s;' % (t, k, literal(t, a)))
            self.use(shown(t, 'Api.%s(ref %s, %s)' % (m, k, literal(t, b))), a)
            self.use(shown(t, k), b)
        elif how == 'out':
            self.members.append('public static void %s(%s y, out %s x) { x = y; }' % (m, t, t))
            self.use('%s %s = %s; Api.%s(%s, out %s);' % (t, k, literal(t, a), m, literal(t, b), k))
            self.use(shown(t, k), b)
        else:
            self.members.append('public static void %s(ref %s x, out %s z, %s y) { z = x; x = y; }' % (m, t, t, t))
            self.use('%s %s = %s; %s %sz = %s; Api.%s(ref %s, out %sz, %s);' % (t, k, literal(t, a), t, k, literal(t, c), m, k, k, literal(t, b)))
            self.use(shown(t, k), b)
            self.use(shown(t, k + 'z'), a)
        self.tags.add('by ' + how)

    def api_array(self):
        r = self.r
        t = r.choice(sorted(INTS))
        m, k = self.name('A'), self.name('v')
        if r.random() < 0.6:
            n = r.randint(1, 6)
            vs = [hard(r, t) for _ in range(n)]
            self.members.append('public static %s[] %sm(int n) { return new %s[n]; }' % (t, m, t))
            self.members.append('public static %s %sg(%s[] a, int i) { return a[i]; }' % (t, m, t))
            self.members.append('public static void %ss(%s[] a, int i, %s v) { a[i] = v; }' % (m, t, t))
            self.use('%s[] %s = Api.%sm(%d);' % (t, k, m, n))
            for i, v in enumerate(vs):
                self.use('Api.%ss(%s, %d, %s);' % (m, k, i, literal(t, v)) if r.random() < 0.5 else '%s[%d] = %s;' % (k, i, literal(t, v)))
            for i, v in enumerate(vs):
                self.use(shown(t, 'Api.%sg(%s, %d)' % (m, k, i) if r.random() < 0.5 else '%s[%d]' % (k, i)), v)
            self.use('Console.WriteLine(%s.Length);' % k, n)
            self.tags.add('array of ' + t)
        else:
            a, b = r.randint(1, 3), r.randint(1, 3)
            x, y, v = r.randrange(a), r.randrange(b), hard(r, t)
            self.members.append('public static %s[,] %sm(int n, int k) { return new %s[n, k]; }' % (t, m, t))
            self.members.append('public static %s %sg(%s[,] a, int i, int j) { return a[i, j]; }' % (t, m, t))
            self.use('%s[,] %s = Api.%sm(%d, %d); %s[%d, %d] = %s;' % (t, k, m, a, b, k, x, y, literal(t, v)))
            self.use(shown(t, 'Api.%sg(%s, %d, %d)' % (m, k, x, y)), v)
            self.use('Console.WriteLine(%s.Length);' % k, a * b)
            self.tags.add('two-dimensional array')

    def api_enum(self):
        r = self.r
        e, m = self.name('E'), self.name('N')
        names = ['Aa', 'Bb', 'Cc', 'Dd', 'Ee'][:r.randint(2, 5)]
        vals, text, cur = [], [], -1
        for n in names:
            cur += 1
            if r.random() < 0.5:
                cur = max(cur, 0) + r.choice([0, 1, 5, 100, 30000, 70000, 2000000])
                text.append('%s = %d' % (n, cur))
            else:
                text.append(n)
            vals.append(cur)
        self.types.append('public enum %s { %s }' % (e, ', '.join(text)))
        i = r.randrange(len(names))
        self.members.append('public static %s %s(%s x) { return x; }' % (e, m, e))
        self.members.append('public static int %si(%s x) { return (int)x; }' % (m, e))
        self.use('Console.WriteLine((int)Api.%s(%s.%s));' % (m, e, names[i]), vals[i])
        self.use('Console.WriteLine(Api.%si(%s.%s));' % (m, e, names[i]), vals[i])
        for n, v in zip(names, vals):
            self.use('Console.WriteLine((int)%s.%s);' % (e, n), v)
        self.use('Console.WriteLine(Api.%s(%s.%s) == %s.%s ? 1 : 0);' % (m, e, names[0], e, names[i]), int(vals[0] == vals[i]))
        self.tags.add('enum')

    def api_struct(self):
        r = self.r
        s, m, k = self.name('S'), self.name('T'), self.name('s')
        ts = [r.choice(sorted(INTS)) for _ in range(r.randint(1, 4))]
        vs = [hard(r, t) for t in ts]
        self.types.append('public struct %s { %s public %s(%s) { %s } %s }' % (
            s, ' '.join('private %s f%d;' % (t, i) for i, t in enumerate(ts)), s, ', '.join('%s x%d' % (t, i) for i, t in enumerate(ts)),
            ' '.join('f%d = x%d;' % (i, i) for i in range(len(ts))),
            ' '.join('public %s G%d() { return f%d; } public %s Q%d { get { return f%d; } set { f%d = value; } }' % (t, i, i, t, i, i, i)
                     for i, t in enumerate(ts))))
        self.members.append('public static %s %s(%s x) { return x; }' % (s, m, s))
        self.use('%s %s = new %s(%s);' % (s, k, s, ', '.join(literal(t, v) for t, v in zip(ts, vs))))
        self.use('%s %sb = Api.%s(%s);' % (s, k, m, k))
        j = r.randrange(len(ts))
        w = hard(r, ts[j])
        self.use('%s.Q%d = %s;' % (k, j, literal(ts[j], w)))
        for i, t in enumerate(ts):
            self.use(shown(t, '%s.G%d()' % (k, i)), w if i == j else vs[i])
            self.use(shown(t, '%sb.Q%d' % (k, i)), vs[i])
        self.tags.add('struct of %d' % len(ts))

    def api_class(self):
        r = self.r
        c, k = self.name('C'), self.name('c')
        t = r.choice(sorted(INTS))
        v, w, x = hard(r, t), hard(r, t), r.randint(0, 9)
        ns = r.choice(['', '', 'Na', 'Na.Nb', 'Nc%d' % r.randint(0, 2)])
        body = 'public class %s { private %s f; private %s[] a; public %s(%s x) { f = x; a = new %s[10]; } public %s P { get { return f; } set { f = value; } } ' \
               'public %s this[int i] { get { return a[i]; } set { a[i] = value; } } public %s Self() { return this; } }' % (c, t, t, c, t, t, t, t, c)
        self.types.append('namespace %s { %s }' % (ns, body) if ns else body)
        q = (ns + '.' if ns else '') + c
        self.use('%s %s = new %s(%s);' % (q, k, q, literal(t, v)))
        self.use(shown(t, k + '.P'), v)
        self.use('%s.Self().P = %s;' % (k, literal(t, w)))
        self.use(shown(t, k + '.Self().P'), w)
        self.use('%s[%d] = %s;' % (k, x, literal(t, v)))
        self.use(shown(t, '%s.Self()[%d]' % (k, x)), v)
        self.use('%s[] %sa = new %s[2]; %sa[1] = %s;' % (q, k, q, k, k))
        self.use(shown(t, '%sa[1].P' % k), w)
        self.use('Console.WriteLine(%sa[0] == null ? 1 : 0);' % k, 1)
        self.tags.add('class in %s' % (ns.count('.') + 1 if ns else 'no namespace'))

    def api_exception(self):
        r = self.r
        x, m = self.name('X'), self.name('H')
        base = r.choice(['Exception', 'Exception'] + [n for n in self.excs])
        code = r.randint(1, 90)
        self.types.append('public class %s : %s { public %s(string m) : base(m) { } public int Code%s() { return %d; } }' % (x, base, x, x, code))
        self.excs[x] = base
        self.members.append('public static int %s(int k) { if (k > 3) { throw new %s("msg"); } return k; }' % (m, x))
        self.use('try { Console.WriteLine(Api.%s(2)); Console.WriteLine(Api.%s(5)); } catch (%s ex) { Console.WriteLine(ex.Code%s()); Console.WriteLine(ex.Message); } '
                 'finally { Console.WriteLine(77); }' % (m, m, x, x), 2, code, 'msg', 77)
        if base in self.excs:
            self.use('try { Api.%s(9); } catch (%s ex) { Console.WriteLine(ex.Message); }' % (m, base), 'msg')
        self.tags.add('exception')

    def api_property(self):
        r = self.r
        t = r.choice(sorted(INTS))
        v = hard(r, t)
        p = self.name('Y')
        self.members.append('public static %s %s { get { return %s; } }' % (t, p, literal(t, v)))
        self.use(shown(t, 'Api.' + p), v)
        self.tags.add('static property')

    def api_delegate(self):
        r = self.r
        m, k = self.name('D'), self.name('d')
        a, b = r.randint(-99, 99), r.randint(-99, 99)
        self.members.append('public static int %s(int x) { return x * 3 + %d; }' % (m, b))
        self.use('Delegate<int, int> %s = Api.%s; Console.WriteLine(%s(%d));' % (k, m, k, a), a * 3 + b)
        self.tags.add('delegate')

    excs = None


def layered_api(r, i):
    """A library of members of many signatures, and a program that uses each of them across the assembly boundary."""
    g = Api(r)
    g.excs = {}
    kinds = [x for x in sorted(dir(g)) if x.startswith('api_')]
    for _ in range(r.randint(3, 12)):
        getattr(g, r.choice(kinds))()
    lib = 'public class Api\n{\n    %s\n}\n' % '\n    '.join(g.members)
    main = MAIN % '\n'.join(g.main)
    if g.types and r.random() < 0.5:
        units = [('Base', g.types, []), ('Lib', [lib], ['Base']), ('Main', [main], ['Base', 'Lib'])]
    else:
        units = [('Lib', g.types + [lib], []), ('Main', [main], ['Lib'])]
    return assemblies('C10 api#%d' % i, units, '\n'.join(g.out) + '\n', r, g.tags)


def plans(chk, scale=1.0):
    out = []
    q = (0.02, 0.12)
    pool = []
    for mod in (c03, c04, c05, c06, c07, c08, c17, c21):
        pool += [c for c in mod.build_cases(chk, scale * q[1 if chk.thorough() else 0] * (1.5 if mod in (c03, c04) else 1))
                 if len(c.files) == 1 and c.key is None]
    for i, c in enumerate(pool):
        r = random.Random('C10p/%d/%d' % (vlib.SEED, i))
        p = repackage('C10 %s %s' % (FORMS[i % len(FORMS)], c.name), list(c.files.values())[0], c.expected, c.args, r,
                      FORMS[i % len(FORMS)])
        if p:
            out.append(p)
        else:
            chk.count('sources_not_split')
    for i in range(int(chk.scale(160, 3000) * scale)):
        r = random.Random('C10h/%d/%d' % (vlib.SEED, i))
        p = layered_hierarchy(r, i)
        if p:
            out.append(p)
    for i in range(int(chk.scale(120, 2500) * scale)):
        r = random.Random('C10f/%d/%d' % (vlib.SEED, i))
        p = layered_functions(r, i, c03.FEATURES if i % 2 else c04.FEATURES)
        if p:
            out.append(p)
    for i in range(int(chk.scale(200, 4000) * scale)):
        out.append(layered_api(random.Random('C10a/%d/%d' % (vlib.SEED, i)), i))
    return out


def run_plans(chk, fl, todo):
    def one(p):
        if vlib.out_of_time():
            chk.count('cases_not_run_for_time')
            return None
        return (p,) + p.run(fl)
    for p, why, r in vlib.pmap(one, todo):
        chk.saw(1, distinct=tuple(sorted(p.tags)), sample={'case': p.name, 'tags': sorted(map(str, p.tags))[:12]})
        chk.count('output_lines_judged', p.expected.count('\n'))
        chk.count('steps_run', len(p.steps))
        if why:
            files = {n.replace('/', '__'): t for n, t in p.files.items()}
            files['expected.txt'] = p.expected
            files['got.txt'] = '%s\n--- stdout\n%s\n--- stderr\n%s' % (r.status(), suite.norm(r.out), r.err)
            files['steps.txt'] = ''.join('(cd %s; april %s)\n' % (c, ' '.join(a)) for c, a in p.steps)
            chk.violation('%s: %s' % (p.name, why), files)


def main():
    chk = vlib.Check('C10', rule=(
        'Programs with known output (from the generators of C03-C08) are repackaged: compiled and then run without their '
        'sources, from other directories, divided into shuffled source files, projects (listed and wildcard) and '
        'solutions; random class hierarchies and random programs with functions and exceptions are spread over 2-4 '
        'assemblies built separately or together; library members of many signatures (constants of every type, parameters, '
        'overloads, references, arrays, enums, structs, classes in namespaces, exceptions, properties, delegates) are used '
        'from another assembly. Every form prints what the reference says. '
        'Distinct: forms, numbers of files, types and assemblies, and distances between a class and '
        'its base or interface.'),
        assumptions=['the reference outputs of C03-C08', 'a field of a class in another assembly is reached through '
                     'methods and properties (the compiler has no field references across assemblies)'])
    fl = vlib.build_plain()
    run_plans(chk, fl, plans(chk))
    chk.finish(150)


if __name__ == '__main__':
    suite.main(main)
