"""C08: arrays: element isolation, aliasing, lengths, initial values, multi-dimensional indexing and bounds checks,
against a model of every array in the program."""
import itertools
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import aexpr as A
from suite import Case

ET = ['sbyte', 'byte', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'bool', 'char', 'float', 'double',
      'string', 'Cell', 'Tiny', 'object']
IT = ['sbyte', 'byte', 'short', 'ushort', 'int', 'int', 'int', 'uint', 'long', 'ulong']

TYPES = '''
class Cell { public string tag; public long pad; public int v; public Cell(int k) { v = k; tag = "c"; pad = 1L; } }
class Tiny { public byte v; public Tiny(int k) { v = (byte)k; } }
class Box {
%s
    public Box() { }
}
'''


def val(t, r):
    """(source, what is printed)"""
    k = r.randint(1, 120)
    if t == 'bool':
        v = r.random() < 0.5
        return ('true' if v else 'false'), ('True' if v else 'False')
    if t == 'char':
        c = chr(ord('a') + k % 26)
        return "'%s'" % c, c
    if t == 'double':
        return '%d.5' % k, '%d.5' % k
    if t == 'float':
        return '%d.25F' % k, '%d.25' % k
    if t == 'string':
        return '"t%d"' % k, 't%d' % k
    if t in ('Cell', 'Tiny'):
        return 'new %s(%d)' % (t, k), str(k)
    if t == 'object':
        return '"o%d"' % k, 'o%d' % k
    lo, hi = A.rng_of(t)
    v = r.choice([lo, hi, -1 if lo < 0 else 1, r.randint(lo, hi), r.randint(lo, hi)])
    return '(%s)(%s)' % (t, A.lit_src(t, v)) if t in ('sbyte', 'byte', 'short', 'ushort') else A.lit_src(t, v), str(v)


ZERO = {'bool': 'False', 'char': '\0', 'string': None, 'Cell': None, 'Tiny': None, 'object': None}


class Arr:
    def __init__(self, t, dims, data=None):
        self.t, self.dims = t, dims
        n = 1
        for d in dims:
            n *= d
        self.data = data or [ZERO.get(t, '0')] * n

    def at(self, ix):
        k = 0
        for i, d in zip(ix, self.dims):
            if not 0 <= i < d:
                return None
            k = k * d + i
        return k


class Gen:
    def __init__(self, r):
        self.r = r
        self.lines, self.out, self.tags = [], [], set()
        self.k = 0
        self.types = r.sample(ET, r.randint(2, 5))
        self.shapes = {}
        for t in self.types:
            self.shapes[t] = r.sample([1, 1, 2, 3, 4], 2)
        self.vars = {}          # source of the reference -> (type, rank, Arr or None)
        self.boxf = []
        for i in range(2):
            t = r.choice(self.types)
            d = r.choice(self.shapes[t])
            self.boxf.append(('f%d' % i, t, d))
        self.members = {}

    def key(self):
        self.k += 1
        return self.k

    def w(self, s):
        self.lines.append('        ' + s)

    def ty(self, t, d):
        return '%s[%s]' % (t, ',' * (d - 1))

    def dims(self, d):
        r = self.r
        if d == 1:
            return [r.choice([0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33])]
        if d == 2:
            return [r.randint(1, 5), r.randint(1, 5)]
        if d <= 4:
            return [r.randint(1, 3) for _ in range(d)]
        return [r.choice([1, 1, 2]) for _ in range(d)]

    def index(self, v):
        """Source of an int expression of value v."""
        r = self.r
        p = r.random()
        if p < 0.4:
            return str(v) if v >= 0 else '(%d)' % v
        if p < 0.75:
            t = r.choice(IT)
            lo, hi = A.rng_of(t)
            if not lo <= v <= hi:
                t = 'int'
            n = 'x%d' % self.key()
            self.w('%s %s = (%s)(%d);' % (t, n, t, v))
            self.tags.add('index type ' + t)
            return n
        if p < 0.9:
            a = r.randint(-20, 20) if abs(v) < 10**9 else 0
            n = 'x%d' % self.key()
            self.w('int %s = %d;' % (n, v - a))
            return '%s + %d' % (n, a) if a >= 0 else '%s - %d' % (n, -a)
        n = 'x%d' % self.key()
        self.w('int %s = %d;' % (n, v))
        return 'Same(%s)' % n

    def init(self, t):
        """An initialiser: a value of the element type or one that converts to it."""
        r = self.r
        if t in ('long', 'double') and r.random() < 0.4:
            v = r.randint(-99, 99)
            if r.random() < 0.5:
                n = 'x%d' % self.key()
                self.w('int %s = %d;' % (n, v))
                return n, str(v)
            return str(v), str(v)
        return val(t, r)

    def create(self, t, d, want=None):
        """(source, Arr)"""
        r = self.r
        dims = self.dims(d)
        if d <= 3 and r.random() < 0.35 and 0 not in dims:
            arr = Arr(t, dims)
            vals = [self.init(t) for _ in arr.data]
            arr.data = [v for _, v in vals]
            src = [s for s, _ in vals]

            def nest(ds, part):
                if len(ds) == 1:
                    return '{ ' + ', '.join(part) + ' }'
                n = len(part) // ds[0]
                return '{ ' + ', '.join(nest(ds[1:], part[i * n:(i + 1) * n]) for i in range(ds[0])) + ' }'
            self.tags.add('initializer rank %d' % d)
            lens = ', '.join(map(str, dims)) if d == 1 and r.random() < 0.5 else ',' * (d - 1)
            return 'new %s[%s] %s' % (t, lens, nest(dims, src)), arr
        self.tags.add('rank %d' % d)
        return 'new %s[%s]' % (t, ', '.join(self.index(x) for x in dims)), Arr(t, dims)

    def start(self):
        for i in range(2):
            self.w('Box b%d = new Box();' % i)
            for f, t, d in self.boxf:
                self.vars['b%d.%s' % (i, f)] = (t, d, None)
        for t in self.types:
            for d in self.shapes[t][:2]:
                for _ in range(self.r.randint(1, 2)):
                    self.declare(t, d)

    def declare(self, t, d):
        v = 'a%d' % self.key()
        s, arr = self.create(t, d)
        self.w('%s %s = %s;' % (self.ty(t, d), v, s))
        self.vars[v] = (t, d, arr)

    def elem(self, v, ix):
        return '%s[%s]' % (v, ', '.join(self.index(i) for i in ix))

    def show(self, v, ix):
        t, d, arr = self.vars[v]
        x = arr.data[arr.at(ix)]
        e = self.elem(v, ix)
        if x is None:
            if t in ('Cell', 'Tiny', 'object'):
                self.w('Console.WriteLine(%s == null);' % e)
                self.out.append('True')
            return
        if x == '\0':
            self.w('Console.WriteLine((int)(%s));' % e)
            self.out.append('0')
        elif t in ('Cell', 'Tiny'):
            self.w('Console.WriteLine(%s.v);' % e)
            self.out.append(x)
        elif t == 'object':
            self.w('Console.WriteLine((string)(%s));' % e)
            self.out.append(x)
        else:
            self.w('Console.WriteLine(%s);' % e)
            self.out.append(x)

    def rand_ix(self, arr):
        r = self.r
        return [r.choice([0, x - 1, r.randint(0, x - 1)]) for x in arr.dims]

    def live(self, nonempty=True):
        c = [v for v, (t, d, a) in self.vars.items() if a is not None and (a.data or not nonempty)]
        return self.r.choice(c) if c else None

    def nulls(self):
        c = [v for v, (t, d, a) in self.vars.items() if a is None]
        return self.r.choice(c) if c else None

    def method(self, name, text):
        self.members[name] = text
        return name

    def step(self):
        r = self.r
        p = r.random()
        v = self.live()
        if v is None:
            return self.declare(self.types[0], 1)
        t, d, arr = self.vars[v]
        tags = self.tags
        if p < 0.25:
            ix = self.rand_ix(arr)
            s, x = val(t, r)
            self.w('%s = %s;' % (self.elem(v, ix), s))
            arr.data[arr.at(ix)] = x
            self.show(v, ix)
            tags.add('write %s rank %d' % (t, d))
        elif p < 0.32:
            self.show(v, self.rand_ix(arr))
        elif p < 0.42:
            # the same value to two elements, through another element, or swapped
            ix, iy = self.rand_ix(arr), self.rand_ix(arr)
            if r.random() < 0.5:
                self.w('%s = %s;' % (self.elem(v, ix), self.elem(v, iy)))
                arr.data[arr.at(ix)] = arr.data[arr.at(iy)]
            else:
                n = 't%d' % self.key()
                self.w('%s %s = %s;' % (t, n, self.elem(v, ix)))
                self.w('%s = %s;' % (self.elem(v, ix), self.elem(v, iy)))
                self.w('%s = %s;' % (self.elem(v, iy), n))
                a, b = arr.at(ix), arr.at(iy)
                arr.data[a], arr.data[b] = arr.data[b], arr.data[a]
            self.show(v, ix)
            self.show(v, iy)
            tags.add('move %s' % t)
        elif p < 0.56:
            # out of range
            ix = self.rand_ix(arr)
            k = r.randrange(d)
            ix[k] = r.choice([-1, arr.dims[k], arr.dims[k] + 1, -arr.dims[k], 2147483647, -2147483647, 65536])
            if arr.at(ix) is not None:
                return
            e = self.elem(v, ix)
            if r.random() < 0.5:
                s, x = val(t, r)
                self.w('try { %s = %s; Console.WriteLine("no"); } catch (OutOfRangeException e) { Console.WriteLine("range"); }' % (e, s))
            else:
                self.w('try { %s z%d = %s; Console.WriteLine("no"); } catch (OutOfRangeException e) { Console.WriteLine("range"); }' % (t, self.key(), e))
            self.out.append('range')
            tags.add('range rank %d axis %d' % (d, k))
        elif p < 0.6:
            n = self.nulls()
            if n is None:
                return
            t, d, _ = self.vars[n]
            e = self.elem(n, [0] * d)
            if r.random() < 0.5:
                self.w('try { %s = %s; Console.WriteLine("no"); } catch (NullReferenceException e) { Console.WriteLine("null"); }' % (e, val(t, r)[0]))
            else:
                self.w('try { %s z%d = %s; Console.WriteLine("no"); } catch (NullReferenceException e) { Console.WriteLine("null"); }' % (t, self.key(), e))
            self.out.append('null')
            tags.add('null')
        elif p < 0.7:
            # another reference to the same array, or a new array for a reference
            c = [u for u, (t2, d2, _) in self.vars.items() if (t2, d2) == (t, d) and u != v]
            if c and r.random() < 0.6:
                u = r.choice(c)
                self.w('%s = %s;' % (u, v))
                self.vars[u] = (t, d, arr)
                self.w('Console.WriteLine(%s == %s);' % (u, v))
                self.out.append('True')
                tags.add('alias')
            elif r.random() < 0.3:
                self.w('%s = null;' % v)
                self.vars[v] = (t, d, None)
            else:
                s, a = self.create(t, d)
                self.w('%s = %s;' % (v, s))
                self.vars[v] = (t, d, a)
                o = r.choice(list(self.vars))
                if self.vars[o][:2] == (t, d) and o != v:
                    self.w('Console.WriteLine(%s == %s);' % (o, v))
                    self.out.append('False')
        elif p < 0.78:
            u = self.live(nonempty=False)
            t, d, arr = self.vars[u]
            n = 1
            for x in arr.dims:
                n *= x
            self.w('Console.WriteLine(%s.Length);' % u)
            self.out.append(str(n))
            if 0 not in arr.dims:
                k = r.randrange(d)
                self.w('Console.WriteLine(%s.GetLength(%d));' % (u, k))
                self.out.append(str(arr.dims[k]))
            tags.add('length rank %d' % d)
        elif p < 0.86 and d == 1:
            # a method changes the caller's array through its own reference
            s, x = val(t, r)
            m = self.method('Put' + t, '    public static int Put%s(int before, %s[] a, int i, %s v) { a[i] = v; a = null; return before + 1; }' % (t, t, t))
            ix = self.rand_ix(arr)
            self.w('Console.WriteLine(%s(4, %s, %s, %s));' % (m, v, ix[0], s))
            arr.data[arr.at(ix)] = x
            self.out.append('5')
            self.show(v, ix)
            tags.add('argument %s' % t)
        elif p < 0.92 and d == 1:
            m = self.method('Rev' + t, '    public static %s[] Rev%s(%s[] a) { %s[] c = new %s[a.Length]; for (int i = 0; i < a.Length; i++) { c[a.Length - 1 - i] = a[i]; } return c; }' % (t, t, t, t, t))
            n = 'a%d' % self.key()
            self.w('%s[] %s = %s(%s);' % (t, n, m, v))
            self.vars[n] = (t, 1, Arr(t, arr.dims, arr.data[::-1]))
            self.show(n, self.rand_ix(arr))
            tags.add('result %s' % t)
        elif p < 0.95:
            n = self.r.choice([-1, -2, -3, -2147483647])
            ds = [str(x) for x in self.dims(d)]
            ds[r.randrange(d)] = self.index(n)
            self.w('try { %s z%d = new %s[%s]; Console.WriteLine("no"); } catch (OutOfRangeException e) { Console.WriteLine("range"); }' % (self.ty(t, d), self.key(), t, ', '.join(ds)))
            self.out.append('range')
            tags.add('negative length rank %d' % d)
        else:
            if t in A.INTS and t not in ('char',):
                ix = self.rand_ix(arr)
                x = arr.data[arr.at(ix)]
                self.w('%s++;' % self.elem(v, ix))
                arr.data[arr.at(ix)] = str(A.wrap(t, int(x) + 1))
                self.show(v, ix)
                tags.add('increment %s' % t)

    def finish(self):
        seen = set()
        for v, (t, d, arr) in self.vars.items():
            if arr is None or id(arr) in seen:
                continue
            seen.add(id(arr))
            every = list(itertools.product(*[range(x) for x in arr.dims]))
            if len(every) > 40:
                every = [every[0], every[-1]] + self.r.sample(every, 30)
            for ix in every:
                x = arr.data[arr.at(ix)]
                if x is None and t == 'string':
                    continue
                e = '%s[%s]' % (v, ', '.join(map(str, ix)))
                if x is None:
                    self.w('Console.WriteLine(%s == null);' % e)
                    self.out.append('True')
                elif x == '\0':
                    self.w('Console.WriteLine((int)(%s));' % e)
                    self.out.append('0')
                elif t in ('Cell', 'Tiny'):
                    self.w('Console.WriteLine(%s.v);' % e)
                    self.out.append(x)
                elif t == 'object':
                    self.w('Console.WriteLine((string)(%s));' % e)
                    self.out.append(x)
                else:
                    self.w('Console.WriteLine(%s);' % e)
                    self.out.append(x)


def array_program(r):
    g = Gen(r)
    g.start()
    for _ in range(r.randint(10, 35)):
        g.step()
    g.finish()
    fields = '\n'.join('    public %s %s;' % (g.ty(t, d), f) for f, t, d in g.boxf)
    members = '    public static int Same(int k) { return k; }\n' + '\n'.join(g.members.values())
    return vlib.program('\n'.join(g.lines), members, TYPES % fields), '\n'.join(g.out) + '\n', g.tags


def heap_program(r):
    """Many arrays and objects alive at once, written in an interleaved order, then all verified."""
    n = r.randint(20, 120)
    types = ['byte', 'short', 'int', 'long', 'double']
    lines, out = [], []
    decl = []
    for t in types:
        decl.append('        %s[] %s0 = new %s[%d]; %s[] %s1 = new %s[%d];' % (t, t, t, n, t, t, t, n + r.randint(0, 9)))
    lines += decl
    c = {t: (r.randint(1, 50), r.randint(0, 50)) for t in types}
    lines.append('        Cell[] cs = new Cell[%d];' % n)
    lines.append('        for (int i = 0; i < %d; i++) {' % n)
    order = [(t, j) for t in types for j in (0, 1)]
    r.shuffle(order)
    for t, j in order:
        a, b = c[t]
        lines.append('            %s%d[i] = (%s)(i * %d + %d);' % (t, j, t, a + j, b))
    lines.append('            cs[i] = new Cell(i * 3);')
    lines.append('            int[] junk = new int[i]; for (int j = 0; j < i; j++) { junk[j] = -1; }')
    lines.append('        }')
    for t, j in order:
        a, b = c[t]
        lines.append('        int bad%s%d = 0;' % (t, j))
        lines.append('        for (int i = 0; i < %d; i++) { if (%s%d[i] != (%s)(i * %d + %d)) { bad%s%d = bad%s%d + 1; } }'
                     % (n, t, j, t, a + j, b, t, j, t, j))
        lines.append('        Console.WriteLine(bad%s%d);' % (t, j))
        out.append('0')
    lines.append('        int badc = 0; for (int i = 0; i < %d; i++) { if (cs[i].v != i * 3) { badc = badc + 1; } }' % n)
    lines.append('        Console.WriteLine(badc);')
    out.append('0')
    return (vlib.program('\n'.join(lines), '', TYPES % ''), '\n'.join(out) + '\n', {'heap'})


def rank_program(r):
    """An array of high rank: every element written in one order, then all verified, subscripts out of range on every axis."""
    d = r.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12])
    t = r.choice(['sbyte', 'byte', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'char', 'float', 'double', 'Cell', 'Pt', 'string', 'bool'])
    while True:
        dims = [r.randint(1, 4 if d < 6 else 3) for _ in range(d)]
        n = 1
        for x in dims:
            n *= x
        if 4 <= n <= 700:
            break
    tags = {'full rank %d' % d, 'full ' + t}
    ty = '%s[%s]' % (t, ',' * (d - 1))
    ix = ', '.join('i%d' % k for k in range(d))
    L, out = [], []
    fld = {'Cell': '.v', 'Pt': '.b'}.get(t, '')
    L.append('%s a = new %s[%s];' % (ty, t, ', '.join(map(str, dims))))
    L.append('Console.WriteLine(a.Length); Console.WriteLine(a.Rank);')
    out += [str(n), str(d)]
    for k in range(d):
        L.append('Console.WriteLine(a.GetLength(%d));' % k)
        out.append(str(dims[k]))

    def loops(order, body):
        return ''.join('for (int i%d = 0; i%d < a.GetLength(%d); i%d++) { ' % (k, k, k, k) for k in order) + body + ' }' * d
    code = '0'
    for k in range(d):
        code = '(%s) * %d + i%d' % (code, dims[k], k)
    put = {'string': 'a[%s] = S(%s);', 'bool': 'a[%s] = Bit(%s);', 'Cell': 'a[%s] = new Cell(%s);',
           'Pt': None}.get(t, 'a[%%s] = (%s)(Mix(%%s));' % t)
    order = list(range(d))
    r.shuffle(order)
    if t == 'Pt':
        L.append(loops(order, 'int k = %s; a[%s].a = (byte)(k * 3); a[%s].b = k; a[%s].c = (long)k * 100000000000L;' % (code, ix, ix, ix)))
        test = 'a[%s].a != (byte)(k * 3) || a[%s].b != k || a[%s].c != (long)k * 100000000000L' % (ix, ix, ix)
    elif t == 'Cell':
        L.append(loops(order, put % (ix, code)))
        test = 'a[%s].v != k' % ix
    elif t == 'string':
        L.append(loops(order, put % (ix, code)))
        test = None
    elif t == 'bool':
        L.append(loops(order, put % (ix, code)))
        test = 'a[%s] != Bit(k)' % ix
    else:
        L.append(loops(order, put % (ix, code)))
        test = 'a[%s] != (%s)(Mix(k))' % (ix, t)
    one = [r.randint(0, x - 1) for x in dims]
    e = 'a[%s]' % ', '.join(map(str, one))
    at = 0
    for i, x in zip(one, dims):
        at = at * x + i
    if test is None:
        L.append('Console.WriteLine(%s);' % e)
        out.append('s%d' % (at % 3))
    else:
        r.shuffle(order)
        L.append('int bad = 0; int sum = 0;')
        L.append(loops(order, 'int k = %s; sum += k; if (%s) { bad++; }' % (code, test)))
        L.append('Console.WriteLine(bad); Console.WriteLine(sum);')
        out += ['0', str(n * (n - 1) // 2)]
    if t == 'Pt':
        L.append('Pt q = %s; q.b = 77; Console.WriteLine(%s.b); Console.WriteLine(q.c);' % (e, e))
        out += [str(at), str(at * 100000000000)]
        L.append('%s = q; Console.WriteLine(%s.b); Console.WriteLine(Take(%s));' % (e, e, e))
        out += ['77', str(77 + at * 3 % 256)]
    if t in ('int', 'long', 'uint', 'ulong', 'short', 'byte'):
        v = r.randint(1, 50)
        L.append('%s = (%s)%d; %s++; %s += (%s)3; Console.WriteLine(%s); object o = %s; Console.WriteLine((%s)o);' % (e, t, v, e, e, t, e, e, t))
        out += [str(v + 4)] * 2
        u = r.randint(1, 50)
        L.append('%s y = %s = (%s)%d; Console.WriteLine(y); Console.WriteLine(%s);' % (t, e, t, u, e))
        out += [str(u)] * 2
        L.append('y = %s++; Console.WriteLine(y); y = ++%s; Console.WriteLine(y); y = %s--; Console.WriteLine(y); Console.WriteLine(%s);' % (e, e, e, e))
        out += [str(u), str(u + 2), str(u + 2), str(u + 1)]
        L.append('y = %s += (%s)5; Console.WriteLine(y); %s = %s = (%s)9; Console.WriteLine(%s);' % (
            e, t, e, 'a[%s]' % ', '.join(['0'] * d), t, e))
        out += [str(u + 6), '9']
    for k in range(d):
        for w in r.sample([-1, dims[k], dims[k] + 1, -2147483647, 2147483647, dims[k] + 65536], 2):
            j = list(one)
            j[k] = w
            el = 'a[%s]' % ', '.join(map(str, j))
            use = {'Pt': '%s.b = 3;', 'Cell': 'Cell z = %s;', 'string': 'string z = %s;'}.get(t, t + ' z = %s;') % el
            L.append('try { %s Console.WriteLine("no"); } catch (OutOfRangeException ex) { Console.WriteLine("range"); }' % use)
            out.append('range')
    body = '\n'.join('        ' + x for x in L)
    mem = '''    public static int Mix(int k) { return k * 7 - 3; }
    public static bool Bit(int k) { return k % 3 == 1; }
    public static string S(int k) { if (k % 3 == 0) { return "s0"; } if (k % 3 == 1) { return "s1"; } return "s2"; }
    public static int Take(Pt p) { return p.b + p.a; }'''
    return vlib.program(body, mem, TYPES % '' + 'struct Pt { public byte a; public int b; public long c; }\n'), '\n'.join(out) + '\n', tags


def build_cases(chk, scale=1.0):
    cs = []
    for i in range(max(1, int(chk.scale(170, 3000) * scale))):
        r = random.Random('C08r/%d/%d' % (vlib.SEED, i))
        src, exp, tags = rank_program(r)
        o = (0, 1, 2, 3)[i % 4]
        cs.append(Case('C08 rank#%d -O%d' % (i, o), src, exp, sorted(tags), args=('-O', str(o)) if o else ()))
    for i in range(max(1, int(chk.scale(450, 9000) * scale))):
        r = random.Random('C08a/%d/%d' % (vlib.SEED, i))
        src, exp, tags = array_program(r)
        o = (0, 0, 2)[i % 3]
        cs.append(Case('C08 array#%d -O%d' % (i, o), src, exp, sorted(tags), args=('-O', str(o)) if o else ()))
    for i in range(max(1, int(chk.scale(20, 300) * scale))):
        r = random.Random('C08h/%d/%d' % (vlib.SEED, i))
        src, exp, tags = heap_program(r)
        cs.append(Case('C08 heap#%d' % i, src, exp, sorted(tags)))
    return cs


def main():
    chk = vlib.Check('C08', rule=(
        'Random programs over arrays of 12 built-in types, strings, objects and two class types, ranks 1-4, with lengths and indexes given as constants, variables of 8 integer types, expressions '
        'and calls: creation (zeroed or initialised), element reads, writes, moves and increments, aliasing, '
        'replacement, arguments, results, fields, null arrays, negative lengths, and subscripts out of range on every '
        'axis; every element of every array is printed at the end and compared with the model. Programs with many '
        'live arrays written in interleaved order; arrays of rank 2-12 written and verified element by element. Distinct: operation x element type/rank/axis.'),
        assumptions=['the array model in checks/c08.py'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(300)


if __name__ == '__main__':
    suite.main(main)
