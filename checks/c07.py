"""C07: structs are values: every copy (assignment, argument, result, array element, field, boxing) is
independent of its source, and every access through a variable, field or element path reaches exactly that
storage. Random programs over nested structs against a store of Python values."""
import copy
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import aexpr as A
from suite import Case

LEAF = ['int', 'long', 'short', 'byte', 'sbyte', 'ushort', 'uint', 'ulong', 'bool', 'char', 'double', 'string']


def const(t, r, k):
    if t == 'bool':
        v = r.random() < 0.5
        return ('true' if v else 'false'), ('True' if v else 'False')
    if t == 'char':
        c = chr(ord('a') + k % 26)
        return "'%s'" % c, c
    if t == 'double':
        return '%d.5' % k, '%d.5' % k
    if t == 'string':
        return '"t%d"' % k, 't%d' % k
    lo, hi = A.rng_of(t)
    v = r.choice([lo, hi, (k * 31) % (hi + 1)])
    return A.lit_src(t, v), str(v)


ZERO = {'bool': 'False', 'char': None, 'string': None}


class Gen:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.lines, self.out, self.tags = [], [], set()
        self.st = {}            # struct name -> [(field, type)]
        for i in range(r.randint(1, 4)):
            fs = []
            for j in range(r.randint(1, 6)):
                t = r.choice(LEAF)
                if i and r.random() < 0.3:
                    t = r.choice(sorted(self.st))
                fs.append(('f%d' % j, t))
            if not any(t == 'int' for f, t in fs):
                fs.insert(r.randint(0, len(fs)), ('n', 'int'))
            self.st['S%d' % i] = fs
        self.names = sorted(self.st)
        self.hf = [('h%d' % i, self.r.choice(self.names)) for i in range(r.randint(1, 4))]
        self.ha = [('a%d' % i, self.r.choice(self.names), self.r.randint(1, 4)) for i in range(r.randint(0, 2))]
        self.places = []        # (source, type, getter path)
        self.store = {}

    def key(self):
        self.k += 1
        return self.k

    def zero(self, t):
        if t in self.st:
            return {f: self.zero(u) for f, u in self.st[t]}
        return ZERO.get(t, '0')

    def intf(self, s):
        return [f for f, t in self.st[s] if t == 'int'][0]

    def make(self, s, k):
        """Value of new S(k)."""
        v = self.zero(s)
        for i, (f, t) in enumerate(self.st[s]):
            if t in self.st:
                v[f] = self.make(t, k + i + 1)
            elif t == 'int':
                v[f] = str(k + i)
            elif t == 'long':
                v[f] = str(k * 100000000000 + i)
            elif t == 'string':
                v[f] = 's%s%d' % (s, i)
            else:
                v[f] = const(t, random.Random(i), i + 1)[1]
        return v

    def decl(self):
        o = ['interface ITouch { void Touch(int d); int Look(); }']
        for s in self.names:
            o.append('struct %s : ITouch\n{' % s)
            for f, t in self.st[s]:
                o.append('    public %s %s;' % (t, f))
            o.append('    public %s(int k)\n    {' % s)
            for i, (f, t) in enumerate(self.st[s]):
                if t in self.st:
                    o.append('        %s = new %s(k + %d);' % (f, t, i + 1))
                elif t == 'int':
                    o.append('        %s = k + %d;' % (f, i))
                elif t == 'long':
                    o.append('        %s = (long)k * 100000000000L + %dL;' % (f, i))
                elif t == 'string':
                    o.append('        %s = "s%s%d";' % (f, s, i))
                else:
                    o.append('        %s = %s;' % (f, const(t, random.Random(i), i + 1)[0]))
            o.append('    }')
            f = self.intf(s)
            o.append('    public void Touch(int d) { %s = %s + d; }' % (f, f))
            o.append('    public int Look() { return %s; }' % f)
            o.append('}')
        o.append('class Holder\n{')
        for f, t in self.hf:
            o.append('    public %s %s;' % (t, f))
            o.append('    public %s P%s { get; set; }' % (t, f))
        for f, t, n in self.ha:
            o.append('    public %s[] %s;' % (t, f))
        o.append('    public Holder()\n    {')
        for f, t, n in self.ha:
            o.append('        %s = new %s[%d];' % (f, t, n))
        o.append('    }\n}')
        return '\n'.join(o)

    def members(self):
        o = []
        for s in self.names:
            f = self.intf(s)
            o.append('    public static %s Make%s(int k) { %s v = new %s(k); return v; }' % (s, s, s, s))
            o.append('    public static %s Same%s(%s v) { return v; }' % (s, s, s))
            o.append('    public static %s Bump%s(int d, %s v, long e) { v.%s = v.%s + d + (int)e; v.Touch(1); return v; }'
                     % (s, s, s, f, f))
            o.append('    public static void Over%s(ref %s v, %s w) { v = w; w.%s = 0; v.Touch(5); }' % (s, s, s, f))
            o.append('    public static void Poke%s(ref %s v, int d) { v.%s = d; }' % (s, s, f))
            o.append('    public static void Swap%s(ref %s v, ref %s w) { %s t = v; v = w; w = t; }' % (s, s, s, s))
        return '\n'.join(o)

    # ---- storage: a path is (root, [keys])

    def get(self, p):
        v = self.store[p[0]]
        for k in p[1]:
            v = v[k]
        return v

    def put(self, p, val):
        if not p[1]:
            self.store[p[0]] = val
            return
        v = self.store[p[0]]
        for k in p[1][:-1]:
            v = v[k]
        v[p[1][-1]] = val

    def new_local(self, s):
        r = self.r
        v = 'v%d' % self.key()
        p = r.random()
        if p < 0.4:
            k = r.randint(-500, 500)
            self.lines.append('        %s %s = new %s(%d);' % (s, v, s, k))
            self.store[v] = self.make(s, k)
        elif p < 0.6:
            self.lines.append('        %s %s = new %s();' % (s, v, s))
            self.store[v] = self.zero(s)
        elif p < 0.8:
            self.lines.append('        %s %s = default(%s);' % (s, v, s))
            self.store[v] = self.zero(s)
        else:
            src = self.pick(s)
            if src is None:
                return self.new_local(s)
            self.lines.append('        %s %s = %s;' % (s, v, src[0]))
            self.store[v] = copy.deepcopy(self.get(src[2]))
        self.places.append((v, s, (v, [])))

    def start(self):
        r = self.r
        for i in range(2):
            h = 'g%d' % i
            self.lines.append('        Holder %s = new Holder();' % h)
            self.store[h] = {}
            for f, t in self.hf:
                self.store[h][f] = self.zero(t)
                self.store[h]['P' + f] = self.zero(t)
                self.places.append(('%s.%s' % (h, f), t, (h, [f])))
            for f, t, n in self.ha:
                self.store[h][f] = [self.zero(t) for _ in range(n)]
                for j in range(n):
                    self.places.append(('%s.%s[%d]' % (h, f, j), t, (h, [f, j])))
        for i in range(r.randint(0, 2)):
            s, n = r.choice(self.names), r.randint(1, 4)
            v = 'r%d' % i
            self.lines.append('        %s[] %s = new %s[%d];' % (s, v, s, n))
            self.store[v] = [self.zero(s) for _ in range(n)]
            for j in range(n):
                self.places.append(('%s[%d]' % (v, j), s, (v, [j])))
            self.lines.append('        int i%s = 0;' % v)
        for _ in range(r.randint(2, 4)):
            self.new_local(r.choice(self.names))

    def pick(self, s=None, local=False):
        """A place of struct type s (any if None), possibly nested inside another."""
        r = self.r
        c = list(self.places)
        if not local:
            more = c
            while more:
                nxt = []
                for src, t, p in more:
                    for f, u in self.st[t]:
                        if u in self.st:
                            nxt.append(('%s.%s' % (src, f), u, (p[0], p[1] + [f])))
                c += nxt
                more = nxt
        else:
            c = [x for x in c if not x[2][1]]
        if s is not None:
            c = [x for x in c if x[1] == s]
        return r.choice(c) if c else None

    def rvalue(self, s):
        """(source, value) of an expression of struct type s."""
        r = self.r
        p = r.random()
        src = self.pick(s)
        if p < 0.15 or src is None:
            k = r.randint(-99, 99)
            return 'new %s(%d)' % (s, k), self.make(s, k), 'new'
        if p < 0.19:
            return 'new %s()' % s, self.zero(s), 'new zero'
        if p < 0.23:
            return 'default(%s)' % s, self.zero(s), 'default'
        if p < 0.28:
            k = r.randint(-99, 99)
            return 'Make%s(%d)' % (s, k), self.make(s, k), 'result'
        if p < 0.4:
            return 'Same%s(%s)' % (s, src[0]), copy.deepcopy(self.get(src[2])), 'argument and result'
        if p < 0.5:
            v = copy.deepcopy(self.get(src[2]))
            f = self.intf(s)
            d, e = r.randint(-9, 9), r.randint(-9, 9)
            v[f] = str(A.wrap('int', int(v[f]) + d + e + 1))
            return 'Bump%s(%d, %s, %dL)' % (s, d, src[0], e), v, 'argument and result'
        if p < 0.58:
            src2 = self.pick(s)
            c = r.random() < 0.5
            v = copy.deepcopy(self.get((src if c else src2)[2]))
            return '(%s ? %s : %s)' % ('1 < 2' if c else '2 < 1', src[0], src2[0]), v, 'conditional'
        return src[0], copy.deepcopy(self.get(src[2])), 'place'

    def show(self, src, t, v, limit=3):
        leaves = []

        def walk(src, t, v):
            for f, u in self.st[t]:
                if u in self.st:
                    walk(src + '.' + f, u, v[f])
                elif v[f] is not None:
                    leaves.append((src + '.' + f, v[f]))
        walk(src, t, v)
        for s, x in (leaves if limit is None else self.r.sample(leaves, min(limit, len(leaves)))):
            self.lines.append('        Console.WriteLine(%s);' % s)
            self.out.append(x)

    def step(self):
        r = self.r
        w = self.lines.append
        p = r.random()
        if p < 0.2:
            src, t, path = self.pick()
            e, v, kind = self.rvalue(t)
            w('        %s = %s;' % (src, e))
            self.put(path, v)
            self.tags.add('assign %s from %s' % (self.kind(path), kind))
            self.show(src, t, v)
        elif p < 0.4:
            src, t, path = self.pick()
            f, u = r.choice(self.st[t])
            if u in self.st:
                return
            s, v = const(u, r, self.key())
            w('        %s.%s = %s;' % (src, f, s))
            self.get(path)[f] = v
            self.tags.add('set %s of %s' % (u, self.kind(path)))
            self.show(src, t, self.get(path))
        elif p < 0.5:
            src, t, path = self.pick()
            d = r.randint(-9, 9)
            w('        %s.Touch(%d);' % (src, d))
            v = self.get(path)
            f = self.intf(t)
            v[f] = str(A.wrap('int', int(v[f]) + d))
            w('        Console.WriteLine(%s.Look());' % src)
            self.out.append(v[f])
            self.tags.add('method on %s' % self.kind(path))
        elif p < 0.6:
            x = self.pick(local=True)
            if x is None:
                return
            src, t, path = x
            k = r.random()
            if k < 0.35:
                d = r.randint(-9, 9)
                w('        Poke%s(ref %s, %d);' % (t, src, d))
                self.get(path)[self.intf(t)] = str(d)
                self.tags.add('ref write')
            elif k < 0.7:
                e, v, kind = self.rvalue(t)
                w('        Over%s(ref %s, %s);' % (t, src, e))
                f = self.intf(t)
                v[f] = str(A.wrap('int', int(v[f]) + 5))
                self.put(path, v)
                self.tags.add('ref assign from ' + kind)
            else:
                y = self.pick(t, local=True)
                w('        Swap%s(ref %s, ref %s);' % (t, src, y[0]))
                a, b = copy.deepcopy(self.get(path)), copy.deepcopy(self.get(y[2]))
                self.put(path, b)
                self.put(y[2], a)
                self.tags.add('ref swap')
            self.show(src, t, self.get(path))
        elif p < 0.72:
            src, t, path = self.pick()
            k = self.key()
            w('        object o%d = %s;' % (k, src))
            v = copy.deepcopy(self.get(path))
            other = r.choice(self.names)
            w('        Console.WriteLine(o%d is %s);' % (k, other))
            self.out.append('True' if other == t else 'False')
            if r.random() < 0.5:
                w('        %s.Touch(3);' % src)
                x = self.get(path)
                f = self.intf(t)
                x[f] = str(A.wrap('int', int(x[f]) + 3))
            w('        %s u%d = (%s)o%d;' % (t, k, t, k))
            self.store['u%d' % k] = copy.deepcopy(v)
            self.places.append(('u%d' % k, t, ('u%d' % k, [])))
            self.show('u%d' % k, t, v)
            if r.random() < 0.5:
                w('        u%d.Touch(9);' % k)
                f = self.intf(t)
                self.store['u%d' % k][f] = str(A.wrap('int', int(v[f]) + 9))
                w('        %s w%d = (%s)o%d;' % (t, k, t, k))
                self.show('w%d' % k, t, v)
            self.tags.add('box %s' % self.kind(path))
        elif p < 0.8:
            src, t, path = self.pick(local=True) or self.pick()
            if path[1]:
                return
            k = self.key()
            w('        ITouch t%d = %s;' % (k, src))
            f = self.intf(t)
            v = int(self.get(path)[f])
            w('        t%d.Touch(7);' % k)
            w('        Console.WriteLine(t%d.Look());' % k)
            self.out.append(str(A.wrap('int', v + 7)))
            w('        Console.WriteLine(%s.Look());' % src)
            self.out.append(str(v))
            self.tags.add('box to interface')
        elif p < 0.88:
            h = r.choice(['g0', 'g1'])
            f, t = r.choice(self.hf)
            e, v, kind = self.rvalue(t)
            w('        %s.P%s = %s;' % (h, f, e))
            self.store[h]['P' + f] = v
            x = self.pick(t)
            if x:
                w('        %s = %s.P%s;' % (x[0], h, f))
                self.put(x[2], copy.deepcopy(v))
                w('        %s.Touch(2);' % x[0])
                n = self.get(x[2])
                n[self.intf(t)] = str(A.wrap('int', int(v[self.intf(t)]) + 2))
            self.show('%s.P%s' % (h, f), t, v)
            self.tags.add('property from ' + kind)
        elif p < 0.94:
            src, t, path = self.pick()
            e, v, kind = self.rvalue(t)
            if e.startswith(('Make', 'Same', 'Bump')):
                w('        Console.WriteLine(%s.%s);' % (e, self.intf(t)))
                self.out.append(v[self.intf(t)])
                self.tags.add('field of a result')
        else:
            self.new_local(r.choice(self.names))

    def kind(self, p):
        d = len(p[1])
        return ('local' if d == 0 else 'element' if isinstance(p[1][-1], int) else
                'field' if p[0][0] == 'g' and d == 1 else 'nested')

    def open_scope(self):
        """Structs and other locals whose scope is a block inside the method."""
        r = self.r
        k = self.key()
        head, tail = r.choice([('{', '}'), ('if (g0 != g1) {', '}'),
                               ('for (int q%d = 0; q%d < 1; q%d++) {' % (k, k, k), '}'),
                               ('try {', '} catch (InvalidCastException e%d) { Console.WriteLine("no"); }' % k),
                               ('try {', '} finally { Console.WriteLine("f"); }')])
        self.lines.append('        ' + head)
        scal = []
        for j in range(r.randint(0, 3)):
            t = r.choice(LEAF)
            s, v = const(t, r, r.randint(1, 99))
            n = 'w%d_%d' % (k, j)
            self.lines.append('        %s %s = %s;' % (t, n, s))
            scal.append((n, v))
            if r.random() < 0.5:
                self.new_local(r.choice(self.names))
        for _ in range(r.randint(0, 2)):
            self.new_local(r.choice(self.names))
        self.tags.add('scope ' + head.split()[0])
        return scal, tail

    def close_scope(self, n, rest):
        scal, tail = rest
        for s, v in scal:
            self.lines.append('        Console.WriteLine(%s);' % s)
            self.out.append(v)
        for src, t, path in self.places[n:] + self.r.sample(self.places[:n], min(3, n)):
            self.show(src, t, self.get(path))
        del self.places[n:]
        self.lines.append('        ' + tail)
        if 'finally' in tail:
            self.out.append('f')

    def finish(self):
        for src, t, path in self.places:
            self.show(src, t, self.get(path), None)


def struct_program(r):
    g = Gen(r)
    g.start()
    scopes = []
    for _ in range(r.randint(8, 30)):
        p = r.random()
        if p < 0.16 and len(scopes) < 4:
            scopes.append((len(g.places), g.open_scope()))
        elif p < 0.3 and scopes:
            g.close_scope(*scopes.pop())
            if r.random() < 0.5:
                scopes.append((len(g.places), g.open_scope()))
        else:
            g.step()
    while scopes:
        g.close_scope(*scopes.pop())
    g.finish()
    return vlib.program('\n'.join(g.lines), g.members(), g.decl()), '\n'.join(g.out) + '\n', g.tags


BT = ['sbyte', 'byte', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'bool', 'char', 'double', 'float']


def boxing_program(r):
    """Boxed built-in values: type tests, unboxing, independence of the variable."""
    lines, out, tags = [], [], set()
    for k in range(r.randint(4, 12)):
        t = r.choice(BT)
        if t == 'float':
            s, v = '%d.25F' % (k + 1), '%d.25' % (k + 1)
        else:
            s, v = const(t, r, r.randint(1, 300))
        lines.append('        %s a%d = %s;\n        object o%d = a%d;' % (t, k, s, k, k))
        if t == 'float':
            s2, v2 = '9.5F', '9.5'
        else:
            s2, v2 = const(t, r, r.randint(1, 300))
        lines.append('        a%d = %s;' % (k, s2))
        for u in r.sample(BT, 3) + [t]:
            lines.append('        Console.WriteLine(o%d is %s);' % (k, u))
            out.append('True' if u == t else 'False')
            tags.add('%s is %s' % (t, u))
        u = r.choice(BT)
        if u == t:
            lines.append('        Console.WriteLine((%s)o%d);' % (t, k))
            out.append(v)
        else:
            lines.append('        try { %s z%d = (%s)o%d; Console.WriteLine("no"); } catch (InvalidCastException e) { Console.WriteLine("bad unbox"); }' % (u, k, u, k))
            out.append('bad unbox')
            tags.add('unbox %s as %s' % (t, u))
        lines.append('        %s b%d = (%s)o%d;\n        Console.WriteLine(b%d);\n        Console.WriteLine(a%d);' % (t, k, t, k, k, k))
        out += [v, v2]
        lines.append('        object p%d = o%d;\n        Console.WriteLine(p%d == o%d);' % (k, k, k, k))
        out.append('True')
        lines.append('        Console.WriteLine(Id(o%d) == o%d);' % (k, k))
        out.append('True')
        lines.append('        %s c%d = (%s)Id(%s);\n        Console.WriteLine(c%d);' % (t, k, t, s, k))
        out.append(v)
    return vlib.program('\n'.join(lines), '    public static object Id(object o) { return o; }'), '\n'.join(out) + '\n', tags


def build_cases(chk, scale=1.0):
    cs = []
    for i in range(max(1, int(chk.scale(500, 10000) * scale))):
        r = random.Random('C07s/%d/%d' % (vlib.SEED, i))
        src, exp, tags = struct_program(r)
        o = (0, 0, 2)[i % 3]
        cs.append(Case('C07 struct#%d -O%d' % (i, o), src, exp, sorted(tags), args=('-O', str(o)) if o else ()))
    for i in range(max(1, int(chk.scale(120, 2000) * scale))):
        r = random.Random('C07b/%d/%d' % (vlib.SEED, i))
        src, exp, tags = boxing_program(r)
        cs.append(Case('C07 boxing#%d' % i, src, exp, sorted(tags)))
    return cs


def main():
    chk = vlib.Check('C07', rule=(
        'Random programs over 1-4 struct types (fields of 12 built-in types and nested structs) held in locals, class '
        'fields, properties, arrays and arrays in fields: assignment between any two places, leaf writes through any '
        'path, mutating methods, by-value and ref arguments, results, conditional expressions, boxing to object and '
        'interface, unboxing right and wrong; every place is printed at the end and compared with a store of '
        'independent copies. Boxing of every built-in type. Distinct: operation x kind of place, type pairs of is/unbox.'),
        assumptions=['the store model in checks/c07.py'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(300)


if __name__ == '__main__':
    suite.main(main)
