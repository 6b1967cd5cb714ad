"""C06: objects: construction order, dynamic dispatch, base calls, hiding, interfaces, properties, type tests
and casts over random class hierarchies, against a model of the hierarchy."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import aexpr as A
from suite import Case

FT = ['int', 'long', 'short', 'byte', 'uint', 'bool', 'char', 'double', 'string']


def const(t, r, k):
    if t == 'bool':
        v = r.random() < 0.5
        return ('true' if v else 'false'), ('True' if v else 'False')
    if t == 'char':
        c = chr(ord('a') + k % 26)
        return "'%s'" % c, c
    if t == 'double':
        return '%d.5' % k, '%d.5' % k
    if t == 'string':
        return '"t%d"' % k, 't%d' % k
    lo, hi = A.rng_of(t)
    v = r.choice([lo, hi, (k * 31) % (hi + 1)])
    return A.lit_src(t, v), str(v)


class Cls:
    def __init__(self, name, base):
        self.name, self.base = name, base
        self.fields = []        # (name, type, src, shown, initialized in ctor?)
        self.methods = {}       # mname -> Meth
        self.props = {}
        self.ifaces = []
        self.closure = set()
        self.abstract = False
        self.kids = []

    def chain(self):
        c = self
        while c:
            yield c
            c = c.base

    def isa(self, o):
        if isinstance(o, str):
            return any(o in c.closure for c in self.chain())
        return o in self.chain()


def nm(m):
    return m.split(':')[0]


def ps(m):
    return 'int a, string b' if ':' in m else 'int a'


def more(m, b):
    return ', ' + b if ':' in m else ''


def r_this(me):
    return 'this.' if me.k % 2 else ''


class Meth:
    """kind: virtual, override, abstract, plain, new"""

    def __init__(self, cls, name, kind, k):
        self.cls, self.name, self.kind, self.k = cls, name, kind, k
        self.base_call = False
        self.this_call = None
        self.field = None


class Hier:
    def __init__(self, r, n, acc=False):
        self.r = r
        self.acc = acc          # fields are reached through methods only
        self.out = []
        self.k = 0
        self.tags = set()
        self.mn = ['Go', 'Run', 'Calc', 'Step', 'Make'][:r.randint(2, 5)]
        self.pn = ['Size', 'Rank'][:r.randint(0, 2)]
        if r.random() < 0.4:            # an overload of another method
            self.mn.append(r.choice(self.mn) + ':2')
        self.ifaces = {}        # name -> list of method names, those of its parents included
        self.own = {}
        self.parents = {}
        for i in range(r.randint(0, 4)):
            ms = sorted(r.sample(self.mn, r.randint(1, min(2, len(self.mn)))))
            ps = r.sample(sorted(self.ifaces), r.randint(0, min(2, len(self.ifaces)))) if r.random() < 0.4 else []
            if len(ps) == 2 and set(self.ifaces[ps[0]]) & set(self.ifaces[ps[1]]):
                ps = ps[:1]
            got = {m for p in ps for m in self.ifaces[p]}
            ms = [m for m in ms if m not in got]
            if not ms and not ps:
                continue
            x = 'I%d' % i
            self.own[x] = ms
            self.parents[x] = ps
            self.ifaces[x] = sorted(got | set(ms))
        self.classes = []
        for i in range(n):
            base = None if i == 0 or r.random() < 0.12 else r.choice(self.classes)
            self.make(i, base)

    def key(self):
        self.k += 1
        return self.k

    def make(self, i, base):
        r = self.r
        c = Cls('K%d' % i, base)
        if base:
            base.kids.append(c)
        c.abstract = r.random() < 0.2
        for j in range(r.randint(0, 4)):
            t = r.choice(FT)
            s, v = const(t, r, self.key())
            c.fields.append(('f%d_%d' % (i, j), t, s, v, r.choice(['init', 'ctor', 'none'])))
        for m in self.mn:
            inh = self.find(base, m) if base else None
            p = r.random()
            if inh is None:
                if p < 0.75:
                    kind = r.choice(['virtual', 'virtual', 'plain'] + (['abstract'] if c.abstract else []))
                    c.methods[m] = Meth(c, m, kind, self.key())
            else:
                virt = inh.kind in ('virtual', 'override', 'abstract', 'new virtual')
                if virt and inh.kind == 'abstract' and not c.abstract:
                    c.methods[m] = Meth(c, m, 'override', self.key())
                elif p < 0.5 and virt:
                    c.methods[m] = Meth(c, m, 'override', self.key())
                elif p < 0.66 and inh.kind != 'abstract':
                    c.methods[m] = Meth(c, m, r.choice(['new', 'new virtual']), self.key())
            me = c.methods.get(m)
            if me and me.kind != 'abstract':
                if inh and inh.kind != 'abstract' and r.random() < 0.4:
                    me.base_call = True
                lower = [x for x in self.mn if x < m and self.find(c, x)]
                if lower and r.random() < 0.4:
                    me.this_call = r.choice(lower)
                ints = [f for a in c.chain() for f in a.fields if f[1] == 'int']
                if ints and r.random() < 0.6:
                    me.field = r.choice(ints)[0]
        for q in self.pn:
            inh = self.findp(base, q) if base else None
            if inh is None:
                if r.random() < 0.7:
                    c.props[q] = ('virtual', self.key())
            elif r.random() < 0.4:
                c.props[q] = ('override', self.key())
        for x, ms in self.ifaces.items():
            if any(x in a.closure for a in c.chain()) and r.random() < 0.7:
                continue
            found = [self.find(c, m) for m in ms]
            if all(f is not None and f.kind != 'abstract' for f in found) and r.random() < 0.6:
                if any(x in self.up(y) for y in c.ifaces):
                    continue
                c.ifaces.append(x)
                c.closure |= self.up(x)
        self.classes.append(c)

    def up(self, x):
        res = {x}
        for p in self.parents[x]:
            res |= self.up(p)
        return res

    def find(self, c, m):
        for a in (c.chain() if c else ()):
            if m in a.methods:
                return a.methods[m]
        return None

    def findp(self, c, q):
        for a in (c.chain() if c else ()):
            if q in a.props:
                return a
        return None

    def dispatch(self, dyn, static, m):
        """The method that runs for a call of m through static type `static` on an object of class dyn."""
        seen = self.find(static, m)
        if seen.kind in ('plain', 'new'):
            return seen
        # the slot seen belongs to: most derived override of the same slot
        slot = seen
        while slot.kind == 'override':
            slot = self.find(slot.cls.base, m)
        path = []
        for a in dyn.chain():
            path.append(a)
            if a is slot.cls:
                break
        best = slot
        for a in reversed(path):
            me = a.methods.get(m)
            if me is None or me is slot:
                continue
            if me.kind == 'override':
                best = me
            elif me.kind in ('new', 'plain', 'new virtual'):
                break           # the slot is hidden from here on
        return best

    # ---- source

    def source(self):
        return '\n'.join(self.decls().values())

    def decls(self):
        """{type: its declaration}"""
        res = {}
        for x, ms in self.ifaces.items():
            up = self.parents[x]
            res[x] = ('public interface %s%s { %s }' % (x, ' : ' + ', '.join(up) if up else '', ' '.join(
                'int %s(%s);' % (nm(m), ps(m)) for m in self.own[x])))
        for c in self.classes:
            o = []
            sup = ([c.base.name] if c.base else []) + c.ifaces
            o.append('public %sclass %s%s\n{' % ('abstract ' if c.abstract else '', c.name, ' : ' + ', '.join(sup) if sup else ''))
            body = []
            for f, t, s, v, how in c.fields:
                o.append('    public %s %s%s;' % (t, f, ' = ' + s if how == 'init' else ''))
                if self.acc:
                    o.append('    public %s Get_%s() { return %s; } public void Set_%s(%s x) { %s = x; }' % (t, f, f, f, t, f))
                if how == 'ctor':
                    body.append('        %s = %s;' % (f, s))
            call = ' : base(a + 1)' if c.base else ''
            o.append('    public %s(int a)%s\n    {\n        Console.Write("ctor %s "); Console.WriteLine(a);\n%s\n    }'
                     % (c.name, call, c.name, '\n'.join(body)))
            for m, me in c.methods.items():
                if me.kind == 'abstract':
                    o.append('    public abstract int %s(%s);' % (nm(m), ps(m)))
                    continue
                kw = '' if me.kind == 'plain' else me.kind + ' '
                o.append('    public %sint %s(%s)\n    {\n        Console.Write("%s.%s "); Console.WriteLine(a);\n'
                         '        int x = a * 3 + %d;' % (kw, nm(m), ps(m), c.name, m, me.k))
                if me.base_call:
                    o.append('        x = x + base.%s(a + 1%s);' % (nm(m), more(m, 'b')))
                if me.this_call:
                    o.append('        x = x ^ %s%s(a - 1%s);' % (r_this(me), nm(me.this_call), more(me.this_call, '"z"')))
                if me.field:
                    o.append('        x = x + %s;' % self.get('this', me.field))
                o.append('        return x;\n    }')
            for q, (kind, k) in c.props.items():
                o.append('    private int _%s%s = %d;' % (c.name, q, k))
                o.append('    public %s int %s { get { Console.WriteLine("get %s.%s"); return this._%s%s; } '
                         'set { Console.WriteLine("set %s.%s"); this._%s%s = value + %d; } }' %
                         (kind, q, c.name, q, c.name, q, c.name, q, c.name, q, k))
            o.append('}')
            res[c.name] = '\n'.join(o)
        return res

    def get(self, v, f):
        return '%s.Get_%s()' % (v, f) if self.acc else '%s.%s' % (v, f)

    def set(self, v, f, x):
        return '%s.Set_%s(%s);' % (v, f, x) if self.acc else '%s.%s = %s;' % (v, f, x)

    # ---- execution model

    def new(self, c, a):
        obj = {'': c, 'id': self.key()}
        chain = list(c.chain())
        args, x = {}, a
        for k in chain:
            args[k] = x
            x += 1
        for k in reversed(chain):
            self.out.append('ctor %s %d' % (k.name, A.wrap('int', args[k])))
        for k in chain:
            for f, t, s, v, how in k.fields:
                obj[f] = v if how != 'none' else {'bool': 'False', 'char': '\0', 'string': '\0'}.get(t, '0')
            for q, (kind, kk) in k.props.items():
                obj['_' + k.name + q] = kk
        return obj

    def invoke(self, obj, me, a):
        a = A.wrap('int', a)
        self.out.append('%s.%s %d' % (me.cls.name, me.name, a))
        x = A.wrap('int', a * 3 + me.k)
        if me.base_call:
            b = self.find(me.cls.base, me.name)
            self.tags.add('base call to ' + b.kind)
            x = A.wrap('int', x + self.invoke(obj, b, a + 1))
        if me.this_call:
            t = self.dispatch(obj[''], me.cls, me.this_call)
            self.tags.add('this call to %s' % t.kind)
            x = A.wrap('int', x ^ self.invoke(obj, t, a - 1))
        if me.field:
            x = A.wrap('int', x + int(obj[me.field]))
        return x

    def getprop(self, obj, q):
        c = self.findp(obj[''], q)
        self.out.append('get %s.%s' % (c.name, q))
        return obj['_' + c.name + q]

    def setprop(self, obj, q, v):
        c = self.findp(obj[''], q)
        self.out.append('set %s.%s' % (c.name, q))
        obj['_' + c.name + q] = A.wrap('int', v + c.props[q][1])


def hierarchy_program(r, n):
    x = hierarchy(r, n)
    return x and (vlib.program(x[1], '', x[0].source()), x[2], x[0].tags)


def hierarchy(r, n, acc=False):
    h = Hier(r, n, acc)
    concrete = [c for c in h.classes if not c.abstract and
                not any(h.find(c, m) is not None and h.dispatch(c, c, m).kind == 'abstract' for m in h.mn)]
    # abstract methods hidden deeper in the chain also forbid instantiation
    ok = []
    for c in concrete:
        bad = False
        for a in c.chain():
            for m, me in a.methods.items():
                if me.kind == 'abstract' and h.dispatch(c, a, m).kind == 'abstract':
                    bad = True
        if not bad:
            ok.append(c)
    concrete = ok
    if not concrete:
        return None
    lines, vars_ = [], []
    w = lines.append
    for i in range(r.randint(2, 6)):
        c = r.choice(concrete)
        st = r.choice([a for a in c.chain()] + ['object'] + [x for a in c.chain() for x in sorted(a.closure)])
        sn = st if isinstance(st, str) else st.name
        a = r.randint(-50, 50)
        w('        %s v%d = new %s(%d);' % (sn, i, c.name, a))
        vars_.append(['v%d' % i, st, h.new(c, a)])
        h.tags.add('static %s' % ('object' if st == 'object' else 'interface' if isinstance(st, str) else 'class'))
    names = [c for c in h.classes] + list(h.ifaces)
    for step in range(r.randint(8, 22)):
        v, st, obj = r.choice(vars_)
        dyn = obj['']
        p = r.random()
        if p < 0.45:
            if st == 'object':
                continue
            ms = h.ifaces[st] if isinstance(st, str) else [m for m in h.mn if h.find(st, m)]
            if not ms:
                continue
            m = r.choice(ms)
            a = r.randint(-100, 100)
            if isinstance(st, str):
                # the class in the chain that declares the interface fixes the slot
                owner = [y for y in sorted(h.up(st)) if m in h.own[y]][0]
                decl = [x for x in dyn.chain() if owner in x.closure][0]
                me = h.dispatch(dyn, decl, m)
                h.tags.add('interface call to ' + me.kind)
            else:
                me = h.dispatch(dyn, st, m)
                h.tags.add('call seen %s runs %s' % (h.find(st, m).kind, me.kind))
            x = h.invoke(obj, me, a)
            if r.random() < 0.3:
                k = h.key()
                w('        Delegate<int, int%s> d%d = %s.%s; Console.WriteLine(d%d(%d%s));' % (
                    ', string' if ':' in m else '', k, v, nm(m), k, a, more(m, '"q"')))
                h.tags.add('delegate of ' + me.kind)
            else:
                w('        Console.WriteLine(%s.%s(%d%s));' % (v, nm(m), a, more(m, '"q"')))
            h.out.append(str(x))
        elif p < 0.6:
            t = r.choice(names)
            tn = t if isinstance(t, str) else t.name
            w('        Console.WriteLine(%s is %s);' % (v, tn))
            yes = dyn.isa(t)
            h.out.append('True' if yes else 'False')
            h.tags.add('is %s' % yes)
        elif p < 0.75:
            t = r.choice(names)
            tn = t if isinstance(t, str) else t.name
            yes = dyn.isa(t)
            k = h.key()
            if r.random() < 0.5:
                w('        %s w%d = %s as %s;' % (tn, k, v, tn))
                w('        Console.WriteLine(w%d == null);' % k)
                h.out.append('False' if yes else 'True')
                h.tags.add('as %s' % yes)
                if yes:
                    vars_.append(['w%d' % k, t, obj])
            elif yes:
                w('        %s w%d = (%s)%s;' % (tn, k, tn, v))
                vars_.append(['w%d' % k, t, obj])
                h.tags.add('cast ok')
            else:
                w('        try { %s w%d = (%s)%s; Console.WriteLine("not reached"); } '
                  'catch (InvalidCastException e) { Console.WriteLine("bad cast"); }' % (tn, k, tn, v))
                h.out.append('bad cast')
                h.tags.add('cast fails')
        elif p < 0.85:
            if isinstance(st, str):
                continue
            fs = [f for a in st.chain() for f in a.fields]
            if not fs:
                continue
            f, t, s, val, how = r.choice(fs)
            if r.random() < 0.5:
                s2, v2 = const(t, r, h.key())
                w('        ' + h.set(v, f, s2))
                obj[f] = v2
                h.tags.add('field set ' + t)
            if obj[f] == '\0':
                continue
            w('        Console.WriteLine(%s);' % h.get(v, f))
            h.out.append(obj[f])
            h.tags.add('field get ' + t)
        elif p < 0.95:
            if isinstance(st, str):
                continue
            qs = [q for q in h.pn if h.findp(st, q)]
            if not qs:
                continue
            q = r.choice(qs)
            if r.random() < 0.5:
                x = r.randint(-1000, 1000)
                w('        %s.%s = %d;' % (v, q, x))
                h.setprop(obj, q, x)
            w('        Console.WriteLine(%s.%s);' % (v, q))
            h.out.append(str(h.getprop(obj, q)))
            h.tags.add('property')
        elif p < 0.975:
            t = r.choice(h.classes)
            w('        Console.WriteLine(%s.GetType() == typeof(%s) ? 1 : 0);' % ('((object)%s)' % v if isinstance(st, str) else v, t.name))
            h.out.append('1' if dyn is t else '0')
            h.tags.add('exact type %s' % (dyn is t))
        else:
            v2, st2, obj2 = r.choice(vars_)
            w('        Console.WriteLine((object)%s == (object)%s);' % (v, v2))
            h.out.append('True' if obj is obj2 else 'False')
            h.tags.add('identity')
    # every object's state at the end
    for v, st, obj in vars_:
        if isinstance(st, str):
            continue
        for a in st.chain():
            for f, t, s, val, how in a.fields:
                if obj[f] != '\0':
                    w('        Console.WriteLine(%s);' % h.get(v, f))
                    h.out.append(obj[f])
    return h, '\n'.join(lines), '\n'.join(h.out) + '\n'


def build_cases(chk, scale=1.0):
    cs = []
    for i in range(max(1, int(chk.scale(600, 12000) * scale))):
        r = random.Random('C06h/%d/%d' % (vlib.SEED, i))
        x = hierarchy_program(r, r.randint(1, 8))
        if x is None:
            continue
        src, exp, tags = x
        o = (0, 0, 2)[i % 3]
        cs.append(Case('C06 hierarchy#%d -O%d' % (i, o), src, exp, sorted(tags), args=('-O', str(o)) if o else ()))
    return cs


def main():
    chk = vlib.Check('C06', rule=(
        'Random class hierarchies (1-8 classes, up to 8 deep, abstract classes, up to 3 interfaces) with fields, '
        'constructors chaining to base, plain, virtual, abstract, overriding and hiding methods that call base and '
        'this, virtual properties; objects reached through variables of every static type, calls, type tests, as, '
        'casts that succeed and fail, field and property access, identity. Every method and constructor prints. '
        'Distinct: kinds of member access observed (seen as x runs y, interface call to x, field types, ...).'),
        assumptions=['the hierarchy model in checks/c06.py'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(300)


if __name__ == '__main__':
    suite.main(main)
