"""C22: a name denotes the declaration its scope prescribes: namespaces, nested types, using directives and aliases, and
members, parameters and locals of the same name, against a resolver written from the language rules."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
from suite import Case

NS = ['Na', 'Nb', 'Nc', 'Nd']
TY = ['Ta', 'Tb', 'Tc', 'Td', 'Te', 'Na', 'Nb']


class Node:
    """A namespace (kind 'ns') or a type."""

    def __init__(self, name, kind, parent):
        self.name, self.kind, self.parent = name, kind, parent
        self.kids = {}
        self.id = 0
        self.sites = []

    def path(self):
        p, n = [], self
        while n.parent is not None:
            p.append(n.name)
            n = n.parent
        return p[::-1]

    def is_type(self):
        return self.kind != 'ns'


class World:
    def __init__(self, r):
        self.r = r
        self.root = Node('', 'ns', None)
        self.types, self.spaces = [], [self.root]
        self.ids = 0
        self.usings = []            # namespaces named by the using directives of the file
        self.tags = set()
        self.build()

    def add_type(self, where, name=None, kind=None):
        r = self.r
        name = name or r.choice(TY)
        n = where
        while n is not None:        # no type named like something around it: the language forbids some of these
            if n.name == name or (name in n.kids and n is where):
                return None
            n = n.parent
        k = kind or r.choice(['class'] * 5 + ['struct', 'enum'])
        t = Node(name, k, where)
        self.ids += r.randint(1, 7)
        t.id = self.ids
        where.kids[name] = t
        self.types.append(t)
        return t

    def build(self):
        r = self.r
        for _ in range(r.randint(1, 5)):
            p = r.choice(self.spaces)
            if len(p.path()) >= 3:
                continue
            n = r.choice(NS)
            if n in p.kids or n in p.path():
                continue
            s = Node(n, 'ns', p)
            p.kids[n] = s
            self.spaces.append(s)
        for s in self.spaces:
            for _ in range(r.randint(1, 4)):
                t = self.add_type(s)
                if t is not None and t.kind == 'class' and r.random() < 0.3:
                    for _ in range(r.randint(1, 2)):
                        self.add_type(t)
        if r.random() < 0.5:
            self.usings = [s for s in self.spaces[1:] if r.random() < 0.5]
            seen = {}
            for s in self.usings:
                for k, t in s.kids.items():
                    seen.setdefault(k, []).append(t)
            # a name two directives offer would be ambiguous
            self.usings = [s for s in self.usings if all(len(seen[k]) == 1 for k in s.kids)]

    def find(self, scope, name):
        """What the simple name denotes in the scope: the innermost declaration, then the using directives."""
        n, depth = scope, 0
        while n is not None:
            if name in n.kids:
                return n.kids[name], depth
            if n.parent is None:
                for s in self.usings:
                    if name in s.kids and s.kids[name].is_type():
                        return s.kids[name], 'using'
            n, depth = n.parent, depth + 1
        return None, None

    def resolve(self, scope, parts):
        n, how = self.find(scope, parts[0])
        if n is None:
            return None, None
        for p in parts[1:]:
            if p not in n.kids:
                return None, None
            n = n.kids[p]
        return n, how

    def names_of(self, scope, target):
        """All spellings of the target that denote it in the scope."""
        p = target.path()
        out = []
        for k in range(len(p)):
            parts = p[k:]
            n, how = self.resolve(scope, parts)
            if n is target:
                out.append((parts, how))
        return out


class Writer:
    def __init__(self, w):
        self.w, self.r = w, w.r
        self.out = []
        self.k = 0

    def key(self):
        self.k += 1
        return self.k

    def site(self, scope):
        """(statements that print, expected lines) for a reference written in the scope."""
        r, w = self.r, self.w
        cand = [t for t in w.types]
        r.shuffle(cand)
        for t in cand:
            sp = w.names_of(scope, t)
            if not sp:
                continue
            parts, how = r.choice(sp)
            n = '.'.join(parts)
            q = len(parts) > 1
            if t.kind == 'enum' and q:
                continue
            rivals = sum(1 for x in w.types if x.name == t.name)
            w.tags.add('%s %s at %s%s%s' % ('qualified' if q else 'simple', t.kind, how, ' rivals' if rivals > 1 else '',
                                          ' nested' if t.parent.is_type() else ''))
            v = 'v%d' % self.key()
            if t.kind == 'enum':
                return r.choice(['Console.WriteLine((int)%s.V);' % n,
                                 '%s %s = %s.V; Console.WriteLine((int)%s);' % (n, v, n, v)]), [t.id]
            if t.kind == 'struct':
                return '%s %s = new %s(); Console.WriteLine(%s.Id());' % (n, v, n, v), [t.id]
            forms = ['Console.WriteLine(new %s().Id());' % n,
                     '%s %s = new %s(); Console.WriteLine(%s.Id());' % (n, v, n, v),
                     'object %s = new %s(); Console.WriteLine(%s is %s);Console.WriteLine(((%s)%s).Id());' % (v, n, v, n, n, v),
                     '%s[] %s = new %s[2]; %s[1] = new %s(); Console.WriteLine(%s[1].Id());' % (n, v, n, v, n, v)]
            res = [[t.id], [t.id], ['True', t.id], [t.id]]
            if not q:
                forms += ['Console.WriteLine(%s.Sid());' % n, 'Console.WriteLine(%s.Kc);' % n]
                res += [[t.id + 1000], [t.id + 2000]]
            i = r.randrange(len(forms))
            other = [x for x in w.types if x is not t and x.kind == 'class']
            if r.random() < 0.3 and other:
                x = r.choice(other)
                sx = w.names_of(scope, x)
                if sx:
                    nx = '.'.join(r.choice(sx)[0])
                    return ('object %s = new %s(); Console.WriteLine(%s is %s); Console.WriteLine(%s is %s);' % (v, n, v, nx, v, n),
                            ['False', 'True'])
            return forms[i], res[i]
        return '', []

    def body(self, scope, n):
        st, out = [], []
        for _ in range(n):
            s, o = self.site(scope)
            if s:
                st.append(s)
                out += o
        return ' '.join(st), out

    def type_text(self, t, ind):
        r = self.r
        pad = '    ' * ind
        if t.kind == 'enum':
            return '%spublic enum %s { U, V = %d, W }\n' % (pad, t.name, t.id)
        if t.kind == 'struct':
            return '%spublic struct %s { public int f; public int Id() { return %d; } }\n' % (pad, t.name, t.id)
        b, out = self.body(t, r.choice([0, 1, 2, 3]))
        t.sites = out
        s = '%spublic class %s\n%s{\n' % (pad, t.name, pad)
        parts = ['%s    public %s() { }\n' % (pad, t.name),
                 '%s    public int Id() { return %d; }\n' % (pad, t.id),
                 '%s    public static int Sid() { return %d; }\n' % (pad, t.id + 1000),
                 '%s    public const int Kc = %d;\n' % (pad, t.id + 2000),
                 '%s    public void Run() { %s }\n' % (pad, b)]
        for k in t.kids.values():
            parts.append(self.type_text(k, ind + 1))
        r.shuffle(parts)
        return s + ''.join(parts) + pad + '}\n'

    def space_text(self, s, ind):
        """The namespace in one or several pieces."""
        r = self.r
        types = [self.type_text(k, ind + (1 if s.parent else 0)) for k in s.kids.values() if k.is_type()]
        subs = [x for k in s.kids.values() if not k.is_type() for x in self.space_text(k, ind + (1 if s.parent else 0))]
        parts = types + subs
        r.shuffle(parts)
        if s.parent is None:
            return parts
        pad = '    ' * ind
        pieces = [parts]
        if len(parts) > 1 and r.random() < 0.4:
            k = r.randint(1, len(parts) - 1)
            pieces = [parts[:k], parts[k:]]
            self.w.tags.add('reopened')
        return ['%snamespace %s\n%s{\n%s%s}\n' % (pad, s.name, pad, ''.join(p), pad) for p in pieces]


def space_program(r):
    w = World(r)
    g = Writer(w)
    decls = g.space_text(w.root, 0)
    main, out = g.body(w.root, r.randint(3, 7))
    run = []
    for t in w.types:
        if t.kind == 'class' and t.sites:
            sp = w.names_of(w.root, t)
            if not sp:
                continue
            run.append('new %s().Run();' % '.'.join(r.choice(sp)[0]))
            out += t.sites
    us = ''.join('using %s;\n' % '.'.join(s.path()) for s in w.usings)
    src = 'import System;\nusing System;\n%s\n%s\nclass Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n        %s\n    }\n}\n' % (
        us, ''.join(decls), main + '\n        ' + '\n        '.join(run))
    return src, '\n'.join(map(str, out)) + '\n', w.tags


FN = ['xa', 'xb', 'xc', 'xd']
VT = ['int', 'long', 'short', 'byte', 'uint']


class Cls:
    def __init__(self, name, base):
        self.name, self.base = name, base
        self.fields = {}            # name -> type
        self.consts = {}
        self.props = {}             # name -> type; instance property over a field of its own
        self.statics = {}           # name -> value; static property whose setter reports what it was given
        self.gets = {}              # method -> value; used as a delegate by its simple name
        self.methods = []           # (name, params, text, effect)


def member_program(r):
    """Fields, constants, parameters and locals that share names, in a chain of classes: a simple name is the innermost of them."""
    tags = set()
    chain = []
    for i in range(r.randint(1, 3)):
        c = Cls('C%d' % i, chain[-1] if chain else None)
        for n in r.sample(FN, r.randint(1, 4)):
            c.fields[n] = r.choice(VT)
        for n in FN:
            if n not in c.fields and r.random() < 0.25 and not any(n in b.fields for b in chain):
                c.consts[n] = r.randint(1, 90)
        for n in list(c.fields):
            p = r.random()
            if p < 0.25:
                c.props[n] = c.fields.pop(n)
            elif p < 0.4:
                c.fields.pop(n)
                c.statics[n] = r.randint(100, 190)
        for j in range(r.randint(0, 2)):
            c.gets['G%d%d' % (i, j)] = r.randint(200, 290)
        chain.append(c)
    obj = {(c.name, n): 0 for c in chain for n in list(c.fields) + list(c.props)}
    out, text = [], {c.name: [] for c in chain}
    calls = []
    k = [0]
    dc = [0]                        # what the delegate field df0 returns

    def lookup(c, n):
        while c is not None:
            if n in c.fields:
                return ('f', c.name, n, c.fields[n])
            if n in c.props:
                return ('f', c.name, n, c.props[n])
            if n in c.consts:
                return ('k', c.name, n, c.consts[n])
            if n in c.statics:
                return ('s', c.name, n, c.statics[n])
            c = c.base
        return None
    for _ in range(r.randint(2, 7)):
        c = r.choice(chain)
        k[0] += 1
        m = 'M%d' % k[0]
        params = [(n, r.choice(VT)) for n in r.sample(FN, r.randint(0, 3))]
        args = [r.randint(1, 90) for _ in params]
        env = [{n: [v, 'param', t] for (n, t), v in zip(params, args)}]
        st = []

        used = [set()]              # per open block: the names it may not declare any more

        def denotes(n):
            for e in reversed(env):
                if n in e:
                    return e[n]
            return None

        def taken(n):
            for u in used:
                u.add(n)

        def emit(depth):
            for _ in range(r.randint(2, 6)):
                n = r.choice(FN)
                p = r.random()
                here = denotes(n)
                if p < 0.18 and depth < 3:
                    st.append('{')
                    env.append({})
                    used.append(set())
                    emit(depth + 1)
                    env.pop()
                    used.pop()
                    st.append('}')
                elif p < 0.36 and here is None and n not in used[-1]:
                    t = r.choice(VT)
                    v = r.randint(1, 90)
                    st.append('%s %s = (%s)%d;' % (t, n, t, v))
                    env[-1][n] = [v, 'local', t]
                    taken(n)
                    tags.add('local hides %s' % ((lookup(c, n) or ['nothing'])[0]))
                elif p < 0.6:
                    v = r.randint(1, 90)
                    if here is not None:
                        st.append('%s = (%s)%d;' % (n, here[2], v))
                        here[0] = v
                        tags.add('assign ' + here[1])
                    else:
                        f = lookup(c, n)
                        if f and f[0] == 's':
                            st.append('%s = %d;' % (n, v))
                            out.append(v)
                            taken(n)
                            tags.add('assign static property up %d' % (int(c.name[1:]) - int(f[1][1:])))
                        if f and f[0] == 'f':
                            st.append('%s = (%s)%d;' % (n, f[3], v))
                            obj[(f[1], n)] = v
                            taken(n)
                            tags.add('assign field up %d' % (int(c.name[1:]) - int(f[1][1:])))
                elif p < 0.68:
                    f = lookup(c, n)
                    if f and f[0] == 'f':
                        v = r.randint(1, 90)
                        st.append('this.%s = (%s)%d;' % (n, f[3], v))
                        obj[(f[1], n)] = v
                        tags.add('assign this%s' % (' hidden' if here else ''))
                elif p < 0.755:
                    b = c
                    all_gets = {}
                    while b is not None:
                        all_gets.update(b.gets)
                        b = b.base
                    if not all_gets:
                        continue
                    g = r.choice(sorted(all_gets))
                    q = r.random()
                    if q < 0.3 and denotes(g) is None and g not in used[-1]:
                        v = r.randint(300, 390)
                        st.append('int %s = %d;' % (g, v))
                        env[-1][g] = [v, 'local', 'int']
                        taken(g)
                        tags.add('local named like a method')
                    elif q < 0.5 and denotes(g) is not None:
                        st.append('Console.WriteLine(%s);' % g)
                        out.append(denotes(g)[0])
                    elif q < 0.7 and denotes(g) is None:
                        st.append('Console.WriteLine(%s());' % g)
                        out.append(all_gets[g])
                        taken(g)
                        tags.add('call by name')
                    else:
                        st.append('Console.WriteLine(this.%s());' % g)
                        out.append(all_gets[g])
                        tags.add('call through this%s' % (' hidden' if denotes(g) else ''))
                elif p < 0.765 and c.gets:
                    g = r.choice(sorted(c.gets))
                    if denotes(g) is not None:
                        continue
                    taken(g)
                    w = r.choice(['', 'this.'])
                    dc[0] = c.gets[g]
                    st.append('%sdf0 = %s; Console.WriteLine(%sdf0());' % (w, g, r.choice(['', 'this.'])))
                    out.append(dc[0])
                    tags.add('delegate field%s' % (' inherited' if c.base else ''))
                elif p < 0.77 and dc[0]:
                    st.append('Console.WriteLine(%sdf0());' % r.choice(['', 'this.']))
                    out.append(dc[0])
                elif p < 0.78 and c.gets:
                    g = r.choice(sorted(c.gets))
                    k[0] += 1
                    w = r.choice(['', '', 'this.']) if denotes(g) is None else 'this.'
                    if not w:
                        taken(g)
                    st.append('Delegate<int> dg%d = %s%s; Console.WriteLine(dg%d());' % (k[0], w, g, k[0]))
                    out.append(c.gets[g])
                    tags.add('method by name')
                elif p < 0.86:
                    f = lookup(c, n)
                    if f and f[0] == 'f':
                        st.append('Console.WriteLine(this.%s);' % n)
                        out.append(obj[(f[1], n)])
                        tags.add('read this%s' % (' hidden' if here else ''))
                else:
                    if here is not None:
                        st.append('Console.WriteLine(%s);' % n)
                        out.append(here[0])
                        tags.add('read ' + here[1])
                    else:
                        f = lookup(c, n)
                        if f:
                            st.append('Console.WriteLine(%s);' % n)
                            taken(n)
                            out.append(obj[(f[1], n)] if f[0] == 'f' else f[3])
                            tags.add('read %s up %d' % (f[0], int(c.name[1:]) - int(f[1][1:])))
        emit(0)
        text[c.name].append('    public void %s(%s) { %s }' % (m, ', '.join('%s %s' % (t, n) for n, t in params), ' '.join(st)))
        calls.append('o.%s(%s);' % (m, ', '.join('(%s)%d' % (t, v) for (n, t), v in zip(params, args))))
        if r.random() < 0.5:
            c2 = r.choice(chain)
            n = r.choice(FN)
            f = lookup(c2, n)
            if f and f[0] == 'f':
                calls.append('Console.WriteLine(((%s)o).%s);' % (c2.name, n))
                out.append(obj[(f[1], n)])
                tags.add('read through a %s reference' % ('base' if c2 is not chain[-1] else 'derived'))
    decl = ''
    order = list(chain)
    r.shuffle(order)
    for c in order:
        new = lambda n: 'new ' if c.base and lookup(c.base, n) else ''
        mem = ['    public %s%s %s;' % (new(n), t, n) for n, t in c.fields.items()]
        mem += ['    public %sconst int %s = %d;' % (new(n), n, v) for n, v in c.consts.items()]
        for n, t in c.props.items():
            q = 'q%s%s' % (c.name, n)
            mem.append('    %s %s; public %s%s %s { get { return %s; } set { %s = value; } }' % (t, q, new(n), t, n, q, q))
        mem += ['    public %sstatic int %s { get { return %d; } set { Console.WriteLine(value); } }' % (new(n), n, v) for n, v in c.statics.items()]
        mem += ['    public int %s() { return %d; }' % x for x in c.gets.items()]
        if c.base is None:
            mem.append('    public Delegate<int> df0;')
        mem += ['    public %s() { }' % c.name] + text[c.name]
        r.shuffle(mem)
        decl += 'class %s%s\n{\n%s\n}\n' % (c.name, ' : ' + c.base.name if c.base else '', '\n'.join(mem))
    top = chain[-1].name
    return vlib.program('        %s o = new %s();\n        ' % (top, top) + '\n        '.join(calls), '', decl), \
        ''.join('%s\n' % x for x in out), tags


def build_cases(chk, scale=1.0):
    cs = []
    for i in range(max(1, int(chk.scale(250, 4000) * scale))):
        r = random.Random('C22s/%d/%d' % (vlib.SEED, i))
        src, exp, tags = space_program(r)
        o = (0, 1, 2, 3)[i % 4]
        cs.append(Case('C22 spaces#%d -O%d' % (i, o), src, exp, sorted(tags), args=('-O', str(o)) if o else ()))
    for i in range(max(1, int(chk.scale(250, 4000) * scale))):
        r = random.Random('C22m/%d/%d' % (vlib.SEED, i))
        src, exp, tags = member_program(r)
        o = (0, 1, 2, 3)[i % 4]
        if exp:
            cs.append(Case('C22 members#%d -O%d' % (i, o), src, exp, sorted(tags), args=('-O', str(o)) if o else ()))
    return cs


def main():
    chk = vlib.Check('C22', rule='one program: every reference to a type, member, parameter or local prints the identity (or value) of what it '
                     'denotes; the output is compared with a resolver written from the scope rules')
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(chk.scale(400, 6000))


if __name__ == '__main__':
    suite.main(main)
