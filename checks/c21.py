"""C21: operators declared by a type, properties, indexers and enumerations do what their declarations say: the declared
body runs once per use with the values of the operands, and an enumeration's members keep their values."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
from suite import Case

BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '<', '>', '<=', '>=', '==', '!=']
UN = ['-', '~', '!']
CMP = ('<', '>', '<=', '>=', '==', '!=')


def tmod(a, m):
    return a - m * int(a / m) if abs(a) < (1 << 50) else (abs(a) % m) * (1 if a >= 0 else -1)


def tag(op):
    return {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div', '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '<<': 'shl', '<': 'lt',
            '>': 'gt', '<=': 'le', '>=': 'ge', '==': 'eq', '!=': 'ne', '~': 'inv', '!': 'not'}[op]


class Obj:
    """a class instance (shared) or a struct value (copied)"""
    __slots__ = ('t', 'x')

    def __init__(self, t, x):
        self.t, self.x = t, x


class Ops:
    """programs over declared operators"""

    def __init__(self, r):
        self.r = r
        self.out = []
        self.used = set()
        self.types = []
        for i in range(r.randint(1, 3)):
            kind = r.choice(['class', 'struct'])
            self.types.append({'n': ('K%d' if kind == 'class' else 'S%d') % i, 'kind': kind, 'pad': r.randrange(4), 'base': None})
        bases = [t for t in self.types if t['kind'] == 'class']
        if bases and r.random() < .4:
            b = r.choice(bases)
            self.types.append({'n': 'D' + b['n'], 'kind': 'class', 'pad': 0, 'base': b})
        self.roots = [t for t in self.types if t['base'] is None]
        self.ops = {}
        self.unops = {}
        for _ in range(r.randint(3, 9)):
            self.declare()
        for t in self.roots:
            for u in UN:
                if r.random() < .25:
                    ret = r.choice([t['n'], t['n'], 'int', 'bool' if u == '!' else 'long'])
                    self.unops[u, t['n']] = self.body(ret)

    def kind(self, n):
        for t in self.types:
            if t['n'] == n:
                return t
        return None

    def body(self, ret):
        r = self.r
        return {'ret': ret, 'k': r.randint(1, 9), 'm': r.randint(1, 9), 'c': r.randint(-20, 20), 'mutl': r.random() < .3,
                'mutr': r.random() < .2}

    def declare(self):
        r = self.r
        op = r.choice(BIN)
        own = r.choice(self.roots)
        q = r.random()
        if q < .5:
            l, o = own['n'], own['n']
        elif q < .65 and len(self.roots) > 1:
            l, o = own['n'], r.choice(self.roots)['n']
            if r.random() < .5:
                l, o = o, l
        elif q < .85:
            l, o = own['n'], r.choice(['int', 'long', 'bool'])
        else:
            l, o = r.choice(['int', 'long']), own['n']
        if (op, l, o) in self.ops:
            return
        # several numeric overloads of one operator would make the choice among conversions matter
        for (p, a, b) in self.ops:
            if p == op and (a in ('int', 'long') and b == o and l in ('int', 'long') or a == l and b in ('int', 'long', 'bool') and
                            o in ('int', 'long', 'bool')):
                return
        ret = 'bool' if op in CMP else r.choice([own['n'], own['n'], own['n'], 'int', 'long', r.choice(self.roots)['n']])
        self.ops[op, l, o] = dict(self.body(ret), own=own['n'])

    # ---- the text of the types
    def val(self, t, n):
        return n + '.x' if self.kind(t) else '(%s ? 1 : 0)' % n if t == 'bool' else '(int)(%s %% 1000L)' % n if t == 'long' else n

    def op_text(self, op, params, d):
        names = 'ab'
        out = ['Console.WriteLine("%s:%s");' % (tag(op), ','.join(params))]
        for n, t, f in zip(names, params, ('mutl', 'mutr')):
            if d[f] and self.kind(t):
                out.append('%s.x = %s.x + 1;' % (n, n))
        e = ' + '.join('%s * %d' % (self.val(t, n), k) for n, t, k in zip(names, params, (d['k'], d['m'])))
        out.append('int v = (%s + (%d)) %% 997;' % (e, d['c']))
        ret = d['ret']
        k = self.kind(ret)
        if k and k['kind'] == 'class':
            out.append('return new %s(v);' % ret)
        elif k:
            out.append('%s r = new %s(); r.x = v; return r;' % (ret, ret))
        elif ret == 'bool':
            out.append('return v > 0;')
        elif ret == 'long':
            out.append('return v * 10000000000L;')
        else:
            out.append('return v;')
        return '    public static %s operator %s (%s) { %s }\n' % (
            ret, op, ', '.join('%s %s' % (t, n) for t, n in zip(params, names)), ' '.join(out))

    def types_text(self):
        out = ''
        for t in self.types:
            n = t['n']
            if t['base']:
                out += 'class %s : %s { public %s(int v) : base(v) { } }\n' % (n, t['base']['n'], n)
                continue
            pad = ' '.join(['public long p0;', 'public byte p1;', 'public int p2; public short p3;'][i] for i in range(t['pad']))
            out += '%s %s {\n    %s public int x;\n' % (t['kind'], n, pad)
            if t['kind'] == 'class':
                out += '    public %s(int v) { x = v; }\n' % n
            for (op, l, o), d in self.ops.items():
                if d['own'] == n:
                    out += self.op_text(op, (l, o), d)
            for (op, l), d in self.unops.items():
                if l == n:
                    out += self.op_text(op, (l,), d)
            out += '}\n'
        out += 'class Box {\n'
        for t in self.roots:
            out += '    public %s f%s; public %s[] a%s;\n' % (t['n'], t['n'], t['n'], t['n'])
        out += '    public Box() { %s }\n}\n' % ' '.join('a%s = new %s[3];' % (t['n'], t['n']) for t in self.roots)
        return out

    def members_text(self):
        out = '    public static int Note(int k) { Console.WriteLine(k); return k; }\n'
        for t in self.roots:
            n = t['n']
            if t['kind'] == 'struct':
                out += '    public static %s Mk%s(int v) { %s t = new %s(); t.x = v; return t; }\n' % (n, n, n, n)
            out += '    public static void Show%s(%s t) { Console.WriteLine(t.x); t.x = t.x + 5; }\n' % (n, n)
        return out

    # ---- evaluation
    def apply(self, op, params, d, args):
        self.used.add((op,) + params)
        self.out.append('%s:%s' % (tag(op), ','.join(params)))
        vals = []
        args = [self.copy(a) for a in args]
        for a, t, f in zip(args, params, ('mutl', 'mutr')):
            if d[f] and self.kind(t):
                a.x += 1
        for a, t in zip(args, params):
            vals.append(a.x if isinstance(a, Obj) else tmod(a, 1000) if t == 'long' else int(a))
        v = tmod(sum(x * k for x, k in zip(vals, (d['k'], d['m']))) + d['c'], 997)
        ret = d['ret']
        if self.kind(ret):
            return Obj(ret, v)
        return v > 0 if ret == 'bool' else v * 10000000000 if ret == 'long' else v

    def copy(self, v):
        if isinstance(v, Obj) and self.kind(v.t)['kind'] == 'struct':
            return Obj(v.t, v.x)
        return v

    # expressions are (text, type, closure)
    def leaf(self, t):
        r = self.r
        if t == 'bool':
            b = r.random() < .5
            return ('true' if b else 'false'), lambda: b
        if t in ('int', 'long'):
            k = r.randint(-50, 50)
            if t == 'int' and r.random() < .3:
                return 'Note(%d)' % k, lambda: (self.out.append(str(k)), k)[1]
            return ('%d%s' % (k, 'L' if t == 'long' else '') if k >= 0 else '(%d%s)' % (k, 'L' if t == 'long' else '')), lambda: k
        k = self.kind(t)
        q = r.random()
        cands = [n for n, (vt, cell) in self.vars.items() if vt == t]
        if k['base'] is None and q < .25:
            v = r.randint(-90, 90)
            if r.random() < .4:
                f = lambda: (self.out.append(str(v)), Obj(t, v))[1]
                return ('new %s(Note(%d))' if k['kind'] == 'class' else 'Mk' + '%s(Note(%d))') % (t, v), f
            return ('new %s(%d)' if k['kind'] == 'class' else 'Mk' + '%s(%d)') % (t, v), lambda: Obj(t, v)
        n = r.choice(cands)
        cell = self.vars[n][1]
        return n, lambda: cell[0]

    def expr(self, t, d):
        """(text, closure) of type t; the text can stand as an operand"""
        r = self.r
        if d <= 0 or r.random() < .2:
            return self.leaf(t)
        cands = [(k, v) for k, v in self.ops.items() if v['ret'] == t]
        un = [(k, v) for k, v in self.unops.items() if v['ret'] == t]
        if t in ('int',) and r.random() < .25:
            if r.random() < .5:
                tt = r.choice(self.roots)['n']
                a, f = self.expr(tt, d - 1)
                if a[0] == '-' or a.startswith('new') or a.startswith('Mk'):
                    a = '(%s)' % a
                return '%s.x' % a, lambda: f().x
            a, f = self.expr('int', d - 1)
            b, g = self.expr('int', d - 1)
            return '(%s + %s)' % (a, b), lambda: (lambda x: x + g())(f())
        if t == 'bool' and r.random() < .3:
            a, f = self.expr('bool', d - 1)
            b, g = self.expr('bool', d - 1)
            if r.random() < .5:
                return '(%s && %s)' % (a, b), lambda: f() and g()
            return '(%s || %s)' % (a, b), lambda: f() or g()
        if un and (not cands or r.random() < .35):
            (op, l), dd = r.choice(un)
            a, f = self.operand(l, d - 1)
            return '(%s%s)' % (op, '(%s)' % a if a[0] in '-~!(' else a), lambda: self.apply(op, (l,), dd, [f()])
        if not cands:
            return self.leaf(t)
        (op, l, o), dd = r.choice(cands)
        a, f = self.operand(l, d - 1)
        b, g = self.operand(o, d - 1)
        # the left operand is evaluated first, and a struct is passed as it is at that moment
        return '(%s %s %s)' % (a, op, b), lambda: (lambda x: self.apply(op, (l, o), dd, [x, g()]))(self.copy(f()))

    def operand(self, t, d):
        """an operand for a parameter of type t: a derived object or an int may be given as well"""
        r = self.r
        if t == 'long' and r.random() < .3:
            return self.leaf('int')
        ds = [x for x in self.types if x['base'] and x['base']['n'] == t]
        if ds and r.random() < .3:
            return self.leaf(ds[0]['n'])
        return self.expr(t, d)

    def program(self):
        r = self.r
        self.vars = {}
        body = ['Box h = new Box();']
        h = {}
        init = []
        for t in self.types:
            n, k = t['n'], t
            for i in range(2):
                v = r.randint(-40, 40)
                name = 'v%s%d' % (n.lower(), i)
                self.vars[name] = (n, [Obj(n, v)])
                if k['kind'] == 'class':
                    body.append('%s %s = new %s(%d);' % (n, name, n, v))
                else:
                    body.append('%s %s = new %s(); %s.x = %d;' % (n, name, n, name, v))
            if t['base']:
                continue
            v = r.randint(-40, 40)
            self.vars['h.f' + n] = (n, [Obj(n, v)])
            body.append('h.f%s = %s;' % (n, 'new %s(%d)' % (n, v) if k['kind'] == 'class' else 'Mk%s(%d)' % (n, v)))
            for i in range(3):
                v = r.randint(-40, 40)
                self.vars['h.a%s[%d]' % (n, i)] = (n, [Obj(n, v)])
                body.append('h.a%s[%d] = %s;' % (n, i, 'new %s(%d)' % (n, v) if k['kind'] == 'class' else 'Mk%s(%d)' % (n, v)))
        depth = r.choice([1, 2, 2, 3])
        rets = sorted({d['ret'] for d in list(self.ops.values()) + list(self.unops.values())})
        if not rets:
            return None
        for i in range(r.randint(6, 16)):
            t = r.choice(rets)
            e, f = self.expr(t, depth)
            ob = self.kind(t)
            if t == 'bool':
                if r.random() < .6:
                    body.append('if (%s) Console.WriteLine("T%d"); else Console.WriteLine("F%d");' % (e, i, i))
                    self.out.append('%s%d' % ('T' if f() else 'F', i))
                else:
                    body.append('bool b%d = %s; Console.WriteLine(b%d);' % (i, e, i))
                    self.out.append(str(f()))
            elif ob is None:
                body.append('Console.WriteLine(%s);' % e)
                self.out.append(str(f()))
            elif r.random() < .4:
                n = r.choice([n for n, (vt, c) in self.vars.items() if vt == t])
                if r.random() < .3:
                    c, g = self.expr('bool', 1)
                    e2, f2 = self.expr(t, 1)
                    body.append('%s q%d = %s ? %s : %s; %s = q%d;' % (t, i, c, e, e2, n, i))
                    x = f() if g() else f2()
                else:
                    body.append('%s = %s;' % (n, e))
                    x = f()
                self.vars[n][1][0] = self.copy(x)
            else:
                body.append('Show%s(%s);' % (t, e))
                v = self.copy(f())
                self.out.append(str(v.x))
                v.x += 5
        for n, (t, c) in self.vars.items():
            body.append('Console.WriteLine(%s.x);' % n)
            self.out.append(str(c[0].x))
        return vlib.program(' '.join(body).replace(';', ';\n        '), self.members_text(), self.types_text())


# ---------------------------------------------------------------------------------------------------- properties

class Props:
    """programs over properties and indexers; the reference keeps the same objects in Python"""

    def __init__(self, r):
        self.r = r
        self.out = []
        self.used = set()

    def program(self):
        r = self.r
        ix = r.choice(['int', 'int,int', 'string', 'long'])
        self.ix = ix
        k = [r.randint(1, 9) for _ in range(16)]
        self.k = k
        pt = r.choice(['int', 'long', 'short', 'byte', 'bool'])
        self.pty = pt
        par = {'int': 'int i', 'int,int': 'int i, int j', 'string': 'string i', 'long': 'long i'}[ix]
        slot = {'int': 'i % 4', 'int,int': '(i + j) % 4', 'string': '1', 'long': '(int)i % 4'}[ix]
        self.slot = slot
        show = {'int': 'Console.WriteLine(i);', 'int,int': 'Console.WriteLine(i); Console.WriteLine(j);', 'string': 'Console.WriteLine(i);',
                'long': 'Console.WriteLine(i);'}[ix]
        vis = lambda: ''
        types = '''struct Pt {
    public int x; %(pad)s public int y;
    public int Sum { get { Console.WriteLine("sum"); return x + y * %(k0)d; } set { Console.WriteLine(value); x = value; y = value + %(k1)d; } }
    public %(pt)s Own { get; set; }
    public int this[int i] { get { Console.WriteLine("pg"); return i == 0 ? x : y; } set { Console.WriteLine("ps"); if (i == 0) x = value; else y = value; } }
}
interface INode { int V { get; set; } int this[%(par)s] { get; set; } INode Peer { get; } }
class Node : INode {
    public long pad; public int v; public int[] items; public Node next; public Pt pt; public Pt[] pts;
    public Node(int a) { v = a; items = new int[4]; items[0] = a; items[1] = a + 1; items[2] = a + 2; items[3] = a + 3; pts = new Pt[2]; }
    public int V { get { Console.WriteLine("Vg"); return this.v * %(k2)d; } set { Console.WriteLine("Vs"); this.v = value + %(k3)d; } }
    public virtual int W { get { Console.WriteLine("Wg"); return this.v + %(k4)d; } set { Console.WriteLine("Ws"); this.v = value - %(k5)d; } }
    public %(pt)s Auto { get; set; }
    public Node Next { get { return this.next; } set { Console.WriteLine("Ns"); this.next = value; } }
    public INode Peer { get { Console.WriteLine("Pg"); return this.next; } }
    public Pt Where { get { Console.WriteLine("wg"); return this.pt; } set { Console.WriteLine("ws"); this.pt = value; this.pt.y = this.pt.y + 1; } }
    public int Count { get { return this.items.Length + %(k6)d; } }
    public static int Shared { get { Console.WriteLine("sg"); return %(k7)d; } set { Console.WriteLine(value * %(k8)d); } }
    public int this[%(par)s] { get { %(show)s return this.items[%(slot)s] + %(k9)d; } set { %(show)s this.items[%(slot)s] = value; } }
}
class Deep : Node {
    public int d;
    public Deep(int a) : base(a) { d = a * 2; }
    public override int W { get { Console.WriteLine("DWg"); return this.d + %(k10)d; } set { Console.WriteLine("DWs"); this.d = value + %(k11)d; } }
    public int E { get { return base.W + 1; } set { base.W = value; } }
}
''' % {'k0': k[0], 'k1': k[1], 'k2': k[2], 'k3': k[3], 'k4': k[4], 'k5': k[5], 'k6': k[6], 'k7': k[7], 'k8': k[8], 'k9': k[9], 'k10': k[10],
       'k11': k[11], 'pt': pt, 'par': par, 'slot': slot, 'show': show, 'pad': r.choice(['', 'public long p;', 'public byte p;', 'public short p; public byte q;'])}
        members = '''    public static int Note(int k) { Console.WriteLine(k); return k; }
    public static int Put(ref Pt p, int i, int v) { p[i] = v; p.Sum = p.Sum + 1; return p[1 - i]; }
'''
        # objects
        self.nodes = {}
        body = ['Pt s = new Pt();']
        self.s = self.newpt()
        for n in ('a', 'b', 'c'):
            v = r.randint(-20, 20)
            deep = n == 'c' or r.random() < .3
            self.nodes[n] = self.newnode(v, deep)
            body.append('%s %s = new %s(%d);' % ('Deep' if n == 'c' else 'Node', n, 'Deep' if deep else 'Node', v))
        body.append('a.next = b; b.next = c; c.next = a; INode i0 = a; INode i1 = c; Pt t;')
        a, b, c = (self.nodes[n] for n in 'abc')
        a['next'], b['next'], c['next'] = b, c, a
        self.roots = {'a': a, 'b': b, 'c': c}
        for i in range(r.randint(8, 22)):
            body.append(self.stmt(i))
        for n in 'abc':
            body.append('Console.WriteLine(%s.v); Console.WriteLine(%s.pt.x); Console.WriteLine(%s.pt.y); Console.WriteLine(%s.items[1]); Console.WriteLine((long)%s);'
                        % (n, n, n, n, '(%s.Auto ? 1 : 0)' % n if pt == 'bool' else n + '.Auto'))
            o = self.nodes[n]
            self.out += [str(o['v']), str(o['pt']['x']), str(o['pt']['y']), str(o['items'][1]), str(int(o['auto']))]
        body.append('Console.WriteLine(s.x); Console.WriteLine(s.y);')
        self.out += [str(self.s['x']), str(self.s['y'])]
        return vlib.program('\n        '.join(body), members, types)

    def newpt(self):
        return {'x': 0, 'y': 0, 'own': 0}

    def newnode(self, v, deep):
        return {'v': v, 'items': [v, v + 1, v + 2, v + 3], 'next': None, 'pt': self.newpt(), 'pts': [self.newpt(), self.newpt()], 'auto': 0,
                'deep': deep, 'd': v * 2}

    def say(self, *a):
        self.out += [str(x) for x in a]

    # the accessors
    def getV(self, o):
        self.say('Vg')
        return o['v'] * self.k[2]

    def setV(self, o, v):
        self.say('Vs')
        o['v'] = v + self.k[3]

    def getW(self, o, base=False):
        if o['deep'] and not base:
            self.say('DWg')
            return o['d'] + self.k[10]
        self.say('Wg')
        return o['v'] + self.k[4]

    def setW(self, o, v, base=False):
        if o['deep'] and not base:
            self.say('DWs')
            o['d'] = v + self.k[11]
        else:
            self.say('Ws')
            o['v'] = v - self.k[5]

    def getSum(self, p):
        self.say('sum')
        return p['x'] + p['y'] * self.k[0]

    def setSum(self, p, v):
        self.say(v)
        p['x'], p['y'] = v, v + self.k[1]

    def at(self):
        """an index: text, slot and what the accessor prints"""
        r = self.r
        if self.ix == 'string':
            s = r.choice(['q', 'one two', '', 'x1'])
            return '"%s"' % s, 1, [s]
        i = r.randrange(4)
        if self.ix == 'int,int':
            j = r.randrange(6)
            return '%d, %d' % (i, j), (i + j) % 4, [i, j]
        if self.ix == 'long':
            i += 4 * r.choice([0, 0, 5, 1000000])
            return '%dL' % i, i % 4, [i]
        if r.random() < .3:
            return 'Note(%d)' % i, i, [('note', i), i]
        return str(i), i, [i]

    def node(self, depth=2):
        """(text, thunk giving the object)"""
        r = self.r
        n = r.choice('abc')
        o = self.nodes[n]
        if depth <= 0 or r.random() < .5:
            return n, lambda: o
        t, f = self.node(depth - 1)
        if r.random() < .6:
            return t + '.Next', lambda: f()['next']
        return t + '.next', lambda: f()['next']

    def inode(self):
        r = self.r
        n, o = r.choice([('i0', self.nodes['a']), ('i1', self.nodes['c'])])
        if r.random() < .3:
            return n + '.Peer', lambda: (self.say('Pg'), o['next'])[1]
        return n, lambda: o

    def pt(self):
        r = self.r
        q = r.random()
        if q < .3:
            return 's', lambda: self.s
        t, f = self.node()
        if q < .65:
            return t + '.pt', lambda: f()['pt']
        i = r.randrange(2)
        return '%s.pts[%d]' % (t, i), lambda: f()['pts'][i]

    def idx_say(self, seen):
        for x in seen:
            if not isinstance(x, tuple):
                self.say(x)

    def idx_eval(self, seen):
        for x in seen:
            if isinstance(x, tuple):
                self.say(x[1])

    def iexpr(self, d=1):
        """an int expression: text, thunk"""
        r = self.r
        q = r.randrange(12)
        self.used.add('get%d' % q)
        if d < 0 or q == 0:
            k = r.randint(-30, 30)
            return ('%d' if k >= 0 else '(%d)') % k, lambda: k
        if q == 1:
            t, f = self.node()
            return t + '.V', lambda: self.getV(f())
        if q == 2:
            t, f = self.node()
            return t + '.W', lambda: self.getW(f())
        if q == 3:
            t, f = self.node()
            i, s, seen = self.at()

            def g():
                o = f()
                self.idx_eval(seen)
                self.idx_say(seen)
                return o['items'][s] + self.k[9]
            return '%s[%s]' % (t, i), g
        if q == 4:
            t, f = self.inode()
            return t + '.V', lambda: self.getV(f())
        if q == 5:
            t, f = self.inode()
            i, s, seen = self.at()

            def g():
                o = f()
                self.idx_eval(seen)
                self.idx_say(seen)
                return o['items'][s] + self.k[9]
            return '%s[%s]' % (t, i), g
        if q == 6:
            t, f = self.pt()
            return t + '.Sum', lambda: self.getSum(f())
        if q == 7:
            t, f = self.pt()
            i = r.randrange(2)
            return '%s[%d]' % (t, i), lambda: (self.say('pg'), f()['x' if i == 0 else 'y'])[1]
        if q == 8:
            t, f = self.node()
            if r.random() < .5:
                return t + '.Where.x', lambda: (f(), self.say('wg'), f()['pt']['x'])[2]
            return t + '.Count', lambda: 4 + self.k[6]
        if q == 9:
            return 'Node.Shared', lambda: (self.say('sg'), self.k[7])[1]
        if q == 10:
            t, f = self.node(1)
            c = self.nodes['c']
            return 'c.E', lambda: self.getW(c, True) + 1
        a, f = self.iexpr(d - 1)
        b, g = self.iexpr(d - 1)
        op = r.choice('+-')
        return '(%s %s %s)' % (a, op, b), lambda: (lambda x: x + g() if op == '+' else x - g())(f())

    def stmt(self, i):
        r = self.r
        q = r.randrange(15)
        self.used.add('st%d' % q)
        if q <= 2:
            e, f = self.iexpr(2)
            self.say(f())
            return 'Console.WriteLine(%s);' % e
        e, f = self.iexpr()
        if q in (11, 12, 13):
            v = r.choice({'int': [5, -7], 'long': [6000000000, -1], 'short': [300, -5], 'byte': [200, 3], 'bool': [True, False]}[self.pty])
            lit = {'int': '%s', 'long': '%sL', 'short': '(short)(%s)', 'byte': '(byte)%s', 'bool': '%s'}[self.pty] % (str(v).lower() if self.pty == 'bool' else v)
            if q == 11:
                t, g = self.node()
                g()['auto'] = v
                self.say(str(v))
                return '%s.Auto = %s; Console.WriteLine(%s.Auto);' % (t, lit, t)
            t, g = self.pt()
            g()['own'] = v
            self.say(str(v))
            return '%s.Own = %s; Console.WriteLine(%s.Own);' % (t, lit, t)
        # the value is fixed before the assignment, so that the order of the two sides does not matter
        v = f()
        pre = 'int n%d = %s; ' % (i, e)
        if q == 3:
            t, g = self.node()
            self.setV(g(), v)
            return pre + '%s.V = n%d;' % (t, i)
        if q == 4:
            t, g = self.node()
            self.setW(g(), v)
            return pre + '%s.W = n%d;' % (t, i)
        if q in (5, 6):
            t, g = self.node() if q == 5 else self.inode()
            x, s, seen = self.at()
            o = g()
            self.idx_eval(seen)
            self.idx_say(seen)
            o['items'][s] = v
            return pre + '%s[%s] = n%d;' % (t, x, i)
        if q == 7:
            t, g = self.inode()
            self.setV(g(), v)
            return pre + '%s.V = n%d;' % (t, i)
        if q == 8:
            t, g = self.pt()
            self.setSum(g(), v)
            return pre + '%s.Sum = n%d;' % (t, i)
        if q == 9:
            t, g = self.pt()
            k = r.randrange(2)
            self.say('ps')
            g()['x' if k == 0 else 'y'] = v
            return pre + '%s[%d] = n%d;' % (t, k, i)
        if q == 10:
            if r.random() < .5:
                self.say(v * self.k[8])
                return pre + 'Node.Shared = n%d;' % i
            self.setW(self.nodes['c'], v, True)
            return pre + 'c.E = n%d;' % i
        # whole struct through a property
        t, g = self.node()
        if r.random() < .5:
            self.say('ws')
            o = g()
            own = o['pt']
            o['pt'] = dict(self.s)
            o['pt']['y'] += 1
            return pre + '%s.Where = s;' % t
        o = g()
        self.say('wg')
        p = dict(o['pt'])
        self.setSum(p, 3)
        self.say(o['pt']['x'])
        return pre + 't = %s.Where; t.Sum = 3; Console.WriteLine(%s.pt.x);' % (t, t)


# ---------------------------------------------------------------------------------------------------- enumerations

class Enums:
    def __init__(self, r):
        self.r = r
        self.out = []
        self.used = set()

    RANGE = {'int': (-2 ** 31, 2 ** 31 - 1), 'byte': (0, 255), 'short': (-2 ** 15, 2 ** 15 - 1), 'long': (-2 ** 63, 2 ** 63 - 1), None: (-2 ** 31, 2 ** 31 - 1)}

    def declare(self, i):
        r = self.r
        under = r.choice([None, None, None, 'int', 'byte', 'short', 'long'])
        lo, hi = self.RANGE[under]
        name = 'E%d' % i
        vals, text = {}, []
        nxt = 0
        used = set()
        for j in range(r.randint(2, 7)):
            m = 'M%d' % j
            q = r.random()
            src = None
            if q < .55:
                v = nxt
                text.append(m)
            elif q < .8:
                v = r.choice([r.randint(-5, 40), r.randint(-1000, 1000), r.randint(lo // 2, hi // 2)])
                if under == 'byte':
                    v = abs(v) % 200
                v = max(lo + 20, min(hi - 20, v))
                if under == 'long':
                    v = max(-2 ** 62, min(2 ** 62, v))
                text.append('%s = %d%s' % (m, v, 'L' if under == 'long' and abs(v) > 2 ** 31 - 1 else ''))
            elif q < .9 and self.enums:
                o = r.choice(self.enums)
                om = r.choice(list(o['vals']))
                v = o['vals'][om]
                if not lo + 20 <= v <= hi - 20 or o['under'] in ('long', 'byte', 'short') or under in ('long', 'byte', 'short'):
                    v = nxt
                    text.append(m)
                else:
                    text.append('%s = %s.%s' % (m, o['n'], om))
            elif vals:
                om = r.choice(list(vals))
                v = vals[om]
                text.append('%s = %s.%s' % (m, name, om))
            else:
                v = nxt
                text.append(m)
            vals[m] = v
            nxt = v + 1
        return {'n': name, 'under': under, 'vals': vals,
                'text': 'enum %s%s { %s%s }' % (name, ' : ' + under if under else '', ', '.join(text), r.choice(['', '', ',']) if False else '')}

    def program(self):
        r = self.r
        self.enums = []
        for i in range(r.randint(1, 3)):
            self.enums.append(self.declare(i))
        types = '\n'.join(e['text'] for e in self.enums) + '\n'
        types += 'struct SE { public byte p; %s public int q; }\n' % ' '.join('public %s f%s;' % (e['n'], e['n']) for e in self.enums)
        types += 'class CE { public short p; %s public long q; public %s[] arr; public CE() { arr = new %s[4]; } }\n' % (
            ' '.join('public %s f%s;' % (e['n'], e['n']) for e in self.enums), self.enums[0]['n'], self.enums[0]['n'])
        members = ''
        for e in self.enums:
            n = e['n']
            members += '    public static long Id%s(%s e) { return (long)e; }\n' % (n, n)
            members += '    public static %s Same%s(%s e) { return e; }\n' % (n, n, n)
            members += '    public static void Set%s(ref %s e, %s v) { e = v; }\n' % (n, n, n)
            members += '    public static void Get%s(out %s e, %s v) { e = v; }\n' % (n, n, n)
            cases, seen = [], set()
            for m, v in e['vals'].items():
                if v not in seen and r.random() < .7:
                    seen.add(v)
                    cases.append('case %s.%s: return %d;' % (n, m, self.rank(e, m)))
            e['switch'] = {v: self.rank(e, m) for m, v in e['vals'].items() if v in seen and self.first(e, v, cases) == m}
            e['sw'] = e['under'] != 'long' and bool(cases)
            if e['sw']:
                members += '    public static int Sw%s(%s e) { switch (e) { %s default: return -1; } }\n' % (n, n, ' '.join(cases))
        body = ['SE s = new SE(); CE c = new CE(); s.q = 77; c.q = 99L;']
        self.vars = {}
        for e in self.enums:
            n = e['n']
            m = r.choice(list(e['vals']))
            body.append('%s v%s = %s.%s;' % (n, n, n, m))
            self.vars['v' + n] = [e, e['vals'][m]]
            self.vars['s.f' + n] = [e, 0]
            self.vars['c.f' + n] = [e, 0]
        for i in range(4):
            self.vars['c.arr[%d]' % i] = [self.enums[0], 0]
        for i in range(r.randint(8, 20)):
            body.append(self.stmt(i))
        for n, (e, v) in self.vars.items():
            body.append('Console.WriteLine((long)%s);' % n)
            self.out.append(str(v))
        body.append('Console.WriteLine(s.q); Console.WriteLine(c.q);')
        self.out += ['77', '99']
        return vlib.program('\n        '.join(body), members, types)

    def rank(self, e, m):
        return list(e['vals']).index(m) + 10

    def first(self, e, v, cases):
        for c in cases:
            m = c.split()[1].split('.')[1][:-1]
            if e['vals'][m] == v:
                return m

    def value(self, e):
        r = self.r
        q = r.random()
        n = e['n']
        if q < .5:
            m = r.choice(list(e['vals']))
            t, v = '%s.%s' % (n, m), e['vals'][m]
        else:
            c = [x for x, (ee, _) in self.vars.items() if ee is e]
            t = r.choice(c)
            v = self.vars[t][1]
        if r.random() < .2:
            t = 'Same%s(%s)' % (n, t)
        return t, v

    def stmt(self, i):
        r = self.r
        e = r.choice(self.enums)
        n = e['n']
        q = r.randrange(11)
        self.used.add('%s:%d' % (e['under'], q))
        t, v = self.value(e)
        u, w = self.value(e)
        if q == 0:
            self.out.append(str(v))
            return 'Console.WriteLine((long)%s);' % t
        if q == 1:
            if -2 ** 31 <= v < 2 ** 31:
                self.out.append(str(v))
                return 'Console.WriteLine((long)%s);' % t
            self.out.append(str(v))
            return 'Console.WriteLine(Id%s(%s));' % (n, t)
        if q in (2, 3):
            x = r.choice([x for x, (ee, _) in self.vars.items() if ee is e])
            self.vars[x][1] = v
            return '%s = %s;' % (x, t)
        if q == 4:
            op = r.choice(['==', '!=', '<', '>', '<=', '>='])
            ok = {'==': v == w, '!=': v != w, '<': v < w, '>': v > w, '<=': v <= w, '>=': v >= w}[op]
            self.out.append('yes%d' % i if ok else 'no%d' % i)
            return 'if (%s %s %s) Console.WriteLine("yes%d"); else Console.WriteLine("no%d");' % (t, op, u, i, i)
        if q == 5 and e['sw']:
            self.out.append(str(e['switch'].get(v, -1)))
            return 'Console.WriteLine(Sw%s(%s));' % (n, t)
        if q == 6:
            self.vars['v' + n][1] = v
            return 'Set%s(ref v%s, %s);' % (n, n, t)
        if q == 7:
            self.vars['v' + n][1] = v
            return 'Get%s(out v%s, %s);' % (n, n, t)
        if q == 8 and e['under'] in (None, 'int'):
            x = r.choice([x for x, (ee, _) in self.vars.items() if ee is e])
            k = r.randint(-100, 100)
            self.vars[x][1] = k
            return '%s = (%s)(%d);' % (x, n, k)
        if q == 9:
            self.out.append(str(v * 2 + 1))
            if abs(v) > 2 ** 60:
                self.out[-1] = str(v)
                return 'Console.WriteLine(Id%s(%s));' % (n, t)
            return 'Console.WriteLine((long)%s * 2L + 1L);' % t
        if q == 10 and self.enums:
            o = r.choice(self.enums)
            m = r.choice(list(o['vals']))
            self.out.append(str(o['vals'][m]))
            return 'const %s k%d = %s.%s; Console.WriteLine((long)k%d);' % (o['n'], i, o['n'], m, i) if False else 'Console.WriteLine((long)%s.%s);' % (o['n'], m)
        self.out.append(str(v))
        return 'Console.WriteLine(Id%s(%s));' % (n, t)


def build_cases(chk, scale=1.0):
    n = lambda a, b: max(1, int(chk.scale(a, b) * scale))
    out = []
    for label, cls, cnt in (('operators', Ops, n(220, 1600)), ('properties', Props, n(220, 1600)), ('enums', Enums, n(160, 1000))):
        for i in range(cnt):
            rng = random.Random('C21/%d/%s/%d' % (vlib.SEED, label, i))
            g = cls(rng)
            src = g.program()
            if src is None:
                continue
            a = rng.choice([(), ('-O', '0'), ('-O', '1'), ('-O', '3')])
            chk.count('%s_used' % label, len(g.used))
            out.append(Case('C21 %s#%d seed %d %s' % (label, i, vlib.SEED, ' '.join(a)), src, '\n'.join(g.out) + '\n',
                            [label] + sorted(map(str, g.used))[:20], args=a))
    return out


def main():
    chk = vlib.Check('C21', rule='one program: every line it prints (each run of an operator, accessor or indexer with what it was given, and '
                     'the state afterwards) is compared with a reference that executes the declarations')
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(chk.scale(500, 3500))


if __name__ == '__main__':
    suite.main(main)
