"""C17: operations that cannot be carried out (null, bounds, casts, lengths) raise their exception at the point they
are evaluated, change nothing else, and can be handled like any other exception."""
import os
import random
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
from suite import Case

NRE, ICE, OOR = 'NullReferenceException', 'InvalidCastException', 'OutOfRangeException'
OTHERS = {NRE: [ICE, OOR, 'UserException'], ICE: [NRE, OOR, 'UserException'], OOR: [NRE, ICE, 'UserException'],
          'UserException': [NRE, ICE, OOR, 'SystemException']}
SUPERS = {NRE: ['SystemException', 'Exception'], ICE: ['SystemException', 'Exception'],
          OOR: ['SystemException', 'Exception'], 'UserException': ['Exception']}

TYPES = '''
class UserException : Exception { public UserException() { } }
interface IRead { int Read(); }
struct Pair { public int x; public long y; public int Sum() { return x + (int)y; } }
class Node : IRead {
    public long pad; public int v; public Node next; public int[] items; public Pair pair;
    public Node(int k) { v = k; }
    public int Inst() { return v; }
    public virtual int Virt() { return v; }
    public int Prop { get { return v; } set { v = value; } }
    public int this[int i] { get { return v + i; } set { v = value + i; } }
    public int Read() { return v; }
    public virtual Node Me() { return this; }
}
class Sub : Node { public int w; public Sub(int k) : base(k) { w = k; } public override int Virt() { return w; } }
class Other : IRead { public int Read() { return 5; } public Other() { } }
class Env {
    public Node nul; public IRead inul; public object onul; public int[] anul; public int[,] mnul; public Pair[] pnul;
    public Node[] nodes; public int[] arr; public int[,] mat; public Pair[] pairs; public long[] longs; public byte[] bytes;
    public Node good; public object str; public object boxed; public IRead other; public object gobj; public Exception enul;
    public Delegate<int> dnul; public Delegate<int, int> dnul1; public Delegate<int> dboom; public Delegate<int> dbad;
    public int Boom() { throw new UserException(); }
    public int Bad() { return nul.v; }
    public Env() {
        nodes = new Node[3]; nodes[0] = new Node(40); arr = new int[4]; arr[0] = 10; arr[1] = 20; arr[2] = 30; arr[3] = 40;
        mat = new int[2, 3]; mat[1, 2] = 9; pairs = new Pair[2]; longs = new long[3]; bytes = new byte[5];
        good = new Node(7); str = "s"; boxed = (long)8L; other = new Other(); gobj = good;
        dboom = this.Boom; dbad = this.Bad;
    }
}
'''

MEMBERS = '''
    public static int Note(int k) { Console.WriteLine(k); return k; }
    public static int Three(int a, int b, int c) { Console.WriteLine("three"); return a + b + c; }
    public static int BadThrow(Env e) { throw e.enul; }
    public static int UserThrow(Env e) { throw new UserException(); }
'''

# expression of type int, what it raises
def value_faults(r):
    neg = r.choice([-1, -2, -4, -2147483648])
    big = r.choice([4, 5, 6, 100, 65536, 2147483647])
    return [
        ('e.nul.v', NRE), ('e.nul.Prop', NRE), ('e.nul.Virt()', NRE), ('e.nul.Inst()', NRE), ('e.inul.Read()', NRE),
        ('e.nul[1]', NRE), ('e.nul.pair.x', NRE), ('e.nul.pair.Sum()', NRE), ('e.nul.next.v', NRE), ('e.good.next.v', NRE),
        ('e.good.next.Virt()', NRE), ('e.good.Me().next.Inst()', NRE), ('e.nodes[1].v', NRE), ('e.nodes[2].Virt()', NRE),
        ('e.nodes[0].next.Prop', NRE), ('e.good.items[0]', NRE), ('e.anul[0]', NRE), ('e.anul[-1]', NRE),
        ('e.mnul[0, 0]', NRE), ('e.pnul[0].x', NRE), ('e.anul.Length', NRE), ('e.mnul.GetLength(0)', NRE),
        ('e.good.items.Length', NRE), ('e.anul.Rank', NRE), ('e.mnul.Rank', NRE), ('(e.nul.GetType() == typeof(Node) ? 1 : 2)', NRE),
        ('(typeof(Sub) == e.onul.GetType() ? 1 : 2)', NRE), ('e.dnul()', NRE), ('e.dnul1(4)', NRE), ('e.dboom()', 'UserException'),
        ('e.dbad()', NRE),
        ('e.arr[%d]' % neg, OOR), ('e.arr[%d]' % big, OOR), ('e.mat[2, 0]', OOR), ('e.mat[0, 3]', OOR), ('e.mat[-1, 2]', OOR),
        ('e.mat[1, -1]', OOR), ('e.mat[0, %d]' % big, OOR), ('e.pairs[2].x', OOR), ('e.pairs[-1].Sum()', OOR),
        ('(int)e.longs[3]', OOR), ('(int)e.bytes[5]', OOR), ('e.nodes[3].v', OOR), ('e.arr[e.arr[0]]', OOR),
        ('e.mat.GetLength(2)', OOR), ('e.arr.GetLength(-1)', OOR), ('(new int[e.arr[0] - 11]).Length', OOR),
        ('((Sub)e.good).w', ICE), ('((Sub)e.gobj).w', ICE), ('((Node)e.str).v', ICE), ('((Node)e.other).v', ICE),
        ('(int)e.str', ICE), ('(int)e.boxed', ICE), ('((IRead)e.str).Read()', ICE), ('((Other)e.gobj).Read()', ICE),
        ('(int)e.onul', None), ('((Node)e.onul).v', NRE), ('((Sub)e.nul).w', NRE), ('((IRead)e.onul).Read()', NRE),
        ('BadThrow(e)', NRE), ('UserThrow(e)', 'UserException'),
    ]


# statement with a place for a right-hand side, what it raises; the right-hand side is evaluated before the fault
def store_faults(r):
    neg = r.choice([-1, -3])
    big = r.choice([4, 9, 1000000])
    return [
        ('e.nul.v = %s;', NRE), ('e.nul.Prop = %s;', NRE), ('e.nul[0] = %s;', NRE), ('e.nul.pair.x = %s;', NRE),
        ('e.good.next.v = %s;', NRE), ('e.nodes[1].v = %s;', NRE), ('e.anul[0] = %s;', NRE), ('e.mnul[0, 1] = %s;', NRE),
        ('e.pnul[0].x = %s;', NRE), ('e.good.items[0] = %s;', NRE), ('e.arr[' + str(neg) + '] = %s;', OOR),
        ('e.arr[' + str(big) + '] = %s;', OOR), ('e.mat[2, 1] = %s;', OOR), ('e.mat[0, 3] = %s;', OOR), ('e.mat[-1, 0] = %s;', OOR),
        ('e.pairs[2].x = %s;', OOR), ('e.longs[3] = (long)%s;', OOR), ('e.bytes[-1] = (byte)%s;', OOR),
        ('((Sub)e.good).w = %s;', ICE), ('((Node)e.str).v = %s;', ICE),
    ]


STMT_FAULTS = [
    ('e.nul.v++;', NRE), ('e.nul.v += 5;', NRE), ('++e.good.next.v;', NRE), ('e.anul[0]++;', NRE), ('e.arr[4]++;', OOR),
    ('e.arr[-1] -= 3;', OOR), ('e.mat[1, 3]++;', OOR), ('e.pairs[2].x++;', OOR), ('throw e.enul;', NRE), ('throw null;', NRE),
    ('throw new UserException();', 'UserException'), ('int[] q_ = new int[e.arr[0] - 20];', OOR), ('Sub s_ = (Sub)e.good;', ICE),
    ('IRead i_ = (IRead)e.str;', ICE), ('Node n_ = (Node)e.boxed;', ICE), ('e.nul.Virt();', NRE), ('e.inul.Read();', NRE),
    ('e.nodes[4] = e.good;', OOR), ('e.nodes[-1] = null;', OOR), ('string t_ = (string)e.gobj;', ICE),
    ('e.nul.next = e.good;', NRE), ('Pair p_ = e.pairs[5];', OOR), ('Pair p_ = e.nul.pair;', NRE), ('Pair p_ = e.pnul[0];', NRE),
    ('e.pairs[3] = new Pair();', OOR), ('e.dnul();', NRE), ('Delegate<int> d_ = e.nul.Inst; d_();', NRE),
    ('Delegate<int> d_ = e.nul.Virt; d_();', NRE), ('Delegate<int> d_ = e.inul.Read; d_();', NRE), ('e.dboom();', 'UserException'),
    ('Delegate<int> d_ = e.dnul; d_();', NRE), ('Delegate<int> d_ = e.dbad; d_();', NRE),
]


class Gen:
    def __init__(self, r):
        self.r = r
        self.k = 0
        self.members = []
        self.types = []
        self.tags = set()
        self.faults = 0

    def num(self):
        self.k += 1
        return self.k

    def fault(self):
        """(lines, trace, exception): statements whose last one raises."""
        r = self.r
        self.faults += 1
        kind = r.randint(0, 9)
        if kind == 0:
            s, x = r.choice(STMT_FAULTS)
            self.tags.add(('stmt', s))
            return [s], [], x
        if kind <= 2:
            s, x = r.choice(store_faults(r))
            self.tags.add(('store', s))
            k = self.num()
            return [s % r.choice(['Note(%d)' % k, '(Note(%d) + 1)' % k])], [k], x
        f, x = r.choice([q for q in value_faults(r) if q[1]])
        self.tags.add(('value', f))
        return self.context(f, x)

    def context(self, f, x):
        r = self.r
        a, b, c = self.num(), self.num(), self.num()
        q = 'q%d' % a
        ctx = [
            ('init', ['int %s = %s;' % (q, f)], []),
            ('left', ['loc = %s + Note(%d);' % (f, a)], []),
            ('right', ['loc = Note(%d) + %s;' % (a, f)], [a]),
            ('nested', ['loc = Note(%d) * (Note(%d) - (Note(%d) + %s));' % (a, b, c, f)], [a, b, c]),
            ('arg2', ['loc = Three(Note(%d), %s, Note(%d));' % (a, f, b)], None),
            ('arg3', ['loc = 1 + Three(Note(%d), Note(%d), %s);' % (a, b, f)], None),
            ('while', ['while (%s > Note(%d)) { Note(%d); break; }' % (f, a, b)], []),
            ('for', ['for (int %s = 0; %s < %s; %s++) { Note(%d); }' % (q, q, f, q, b)], []),
            ('forstep', ['for (int %s = 0; %s < 5; %s += %s) { Note(%d); }' % (q, q, q, f, b)], [b]),
            ('do', ['do { Note(%d); } while (%s == 0);' % (a, f)], [a]),
            ('if', ['if (%s == Note(%d)) { Note(%d); } else { Note(%d); }' % (f, a, b, c)], []),
            ('switch', ['switch (%s) { case 1: Note(%d); break; default: Note(%d); break; }' % (f, a, b)], []),
            ('ternary', ['loc = Note(%d) > 0 ? %s : Note(%d);' % (a, f, b)], [a]),
            ('and', ['if (Note(%d) > 0 && %s > 0) Note(%d);' % (a, f, b)], [a]),
            ('or', ['if (Note(%d) < 0 || %s > 0) Note(%d);' % (a, f, b)], [a]),
            ('compound', ['loc += %s;' % f], []),
            ('element', ['own[1] = %s;' % f], []),
            ('elemcompound', ['own[1] += %s;' % f], []),
            ('index', ['own[%s] = Note(%d);' % (f, a)], None),
            ('field', ['obj.v = %s;' % f], []),
            ('struct', ['pr.x = %s;' % f], []),
            ('arrayinit', ['int[] %s = new int[] { Note(%d), %s, Note(%d) };' % (q, a, f, b)], [a]),
            ('newarg', ['obj = new Node(%s);' % f], []),
            ('arrlen', ['own = new int[%s];' % f], []),
            ('write', ['Console.WriteLine(%s);' % f], []),
            ('box', ['object %s = %s;' % (q, f)], []),
            ('compare', ['bool %s = Note(%d) < %s;' % (q, a, f)], [a]),
            ('longmix', ['long %s = (long)Note(%d) + %s;' % (q, a, f)], [a]),
            ('callon', ['loc = obj[%s];' % f], []),
        ]
        n, lines, trace = r.choice(ctx)
        if n == 'arg2':
            # arguments are evaluated in some order; both orders leave the call itself undone
            lines, trace = ['loc = Three(Note(%d), %s, 0);' % (a, f)], [a]
        elif n == 'arg3':
            trace = [a, b]
        elif n == 'index':
            lines, trace = ['own[%s] = loc;' % f], []
        self.tags.add(('context', n))
        return lines, trace, x

    def place(self, frag, depth):
        """wraps a raising fragment"""
        r = self.r
        lines, trace, x = frag
        k, k2 = self.num(), self.num()
        kinds = ['plain', 'loop', 'finally', 'finally', 'mismatch', 'call', 'call', 'ctor', 'getter', 'virtual', 'iface',
                 'indexer', 'setter', 'incatch', 'infinally', 'block', 'switch', 'replace', 'static', 'recursion', 'ref', 'delegate']
        kind = r.choice(kinds)
        self.tags.add(('place', kind))
        pre = ['int keep%d = %d;' % (k, k)]
        if kind == 'plain':
            return ['Note(%d);' % k] + lines, [k] + trace, x
        if kind == 'loop':
            n = r.randint(1, 4)
            it = 'i%d' % k
            body = ['Note(%d);' % k, 'if (%s == %d) {' % (it, n)] + lines + ['}', 'Note(%d);' % k2]
            return (['for (int %s = 0; %s < 9; %s++) {' % (it, it, it)] + body + ['}'],
                    [k, k2] * n + [k] + trace, x)
        if kind == 'finally':
            return (['try {'] + lines + ['Note(%d); } finally { Note(%d); }' % (k, k2)], trace + [k2], x)
        if kind == 'mismatch':
            o = r.choice(OTHERS[x])
            fin = r.random() < 0.5
            return (['try {'] + lines + ['} catch (%s ex%d) { Note(%d); }' % (o, k, k)] +
                    (['finally { Note(%d); }' % k2] if fin else []), trace + ([k2] if fin else []), x)
        if kind == 'incatch':
            return (['try { throw new UserException(); } catch (UserException ex%d) { Note(%d);' % (k, k)] + lines +
                    ['Note(%d); }' % k2], [k] + trace, x)
        if kind == 'infinally':
            return (['try { Note(%d); } finally {' % k] + lines + ['Note(%d); }' % k2], [k] + trace, x)
        if kind == 'replace':
            y = r.choice([NRE, ICE, OOR, 'UserException'])
            return (['try {'] + lines + ['} catch (%s ex%d) { Note(%d); throw new %s(); }'
                                         % (r.choice([x] + SUPERS[x]), k, k, y)], trace + [k], y)
        if kind == 'block':
            return (['{ int t%d = %d; { long u%d = 5L; Note(t%d);' % (k, k, k, k)] + lines + ['Note((int)u%d); } }' % k],
                    [k] + trace, x)
        if kind == 'switch':
            return (['switch (%d) { case 1: Note(%d); break; case 2: ' % (2, k)] + lines + ['Note(%d); break; }' % k2],
                    trace, x)
        # the fault happens in a function of its own
        body = ('        int loc = 3; int[] own = new int[] { 1, 2, 3 }; Node obj = new Node(6); Pair pr = new Pair();\n'
                '        ' + '\n        '.join(lines) + '\n')
        fn = 'F%d' % k
        if kind in ('call', 'static'):
            self.members.append('    public static int %s(Env e, int p) {\n%s        Note(%d); return p + loc; }' % (fn, body, k2))
            use = r.choice(['loc = Note(%d) + %s(e, 4);' % (k, fn), 'obj.v = Three(Note(%d), %s(e, 1), 0);' % (k, fn),
                            'Note(%d); %s(e, 5);' % (k, fn), 'if (Note(%d) > 0) loc -= %s(e, loc);' % (k, fn)])
            return [use], [k] + trace, x
        if kind == 'delegate':
            self.types.append('class D%s {\n    public Env e; public int done;\n    public D%s(Env e0) { e = e0; }\n'
                              '    public int M(int i) { Program.Note(i);\n%s        return loc; }\n}' % (fn, fn, body))
            return (['D%s c%d = new D%s(e); Delegate<int, int> d%d = c%d.M; loc = Note(%d) + d%d(%d);' % (fn, k, fn, k, k, k2, k, k)],
                    [k2, k] + trace, x)
        if kind == 'recursion':
            d = r.randint(1, 6)
            self.members.append('    public static int %s(Env e, int p) {\n        if (p > 0) { Note(p); return %s(e, p - 1) + Note(%d); }\n%s'
                                '        return loc; }' % (fn, fn, k2, body))
            return ['loc = %s(e, %d);' % (fn, d)], list(range(d, 0, -1)) + trace, x
        if kind == 'ref':
            self.members.append('    public static int %s(Env e, ref int p, out int o) { o = p; p = p + 1;\n%s        return loc; }' % (fn, body))
            return (['int w%d = %d; int z%d = 0; try { %s(e, ref w%d, out z%d); } finally { Note(w%d); Note(z%d); }'
                     % (k, k, k, fn, k, k, k, k)], trace + [k + 1, k], x)
        cn = 'T%d' % k
        b2 = body
        pre = '    public Env e; public int done;\n'
        if kind == 'ctor':
            self.types.append('class %s {\n%s    public %s(Env e0) { e = e0; Program.Note(%d);\n%s        done = 1; }\n}' % (cn, pre, cn, k, b2))
            return ['%s c%d = new %s(e);' % (cn, k, cn)], [k] + trace, x
        ctor = '    public %s(Env e0) { e = e0; }\n' % cn
        if kind == 'getter':
            m = '    public int G { get { Program.Note(%d);\n%s        return loc; } }\n' % (k, b2)
            use = 'loc = 2 + c%d.G;' % k
        elif kind == 'setter':
            m = '    public int G { get { return done; } set { Program.Note(value);\n%s        done = loc; } }\n' % b2
            use = 'c%d.G = %d;' % (k, k)
        elif kind == 'indexer':
            m = '    public int this[int i] { get { Program.Note(i);\n%s        return loc; } }\n' % b2
            use = 'loc = 2 * c%d[%d];' % (k, k)
        elif kind == 'virtual':
            m = '    public virtual int M(int i) { Program.Note(i);\n%s        return loc; }\n' % b2
            use = 'loc = 2 + c%d.M(%d);' % (k, k)
        else:
            self.types.append('interface I%s { int M(int i); }' % cn)
            self.types.append('class %s : I%s {\n%s%s    public int M(int i) { Program.Note(i);\n%s        return loc; }\n}' % (cn, cn, pre, ctor, b2))
            return ['I%s c%d = new %s(e); loc = 3 + c%d.M(%d);' % (cn, k, cn, k, k)], [k] + trace, x
        self.types.append('class %s {\n%s%s%s}' % (cn, pre, ctor, m))
        return ['%s c%d = new %s(e); Program.Note(c%d.done); %s' % (cn, k, cn, k, use)], [0, k] + trace, x

    def scenario(self, last):
        """One handled (or, at the end, unhandled) fault with the state checked afterwards."""
        r = self.r
        k = self.num()
        frag = self.fault()
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            frag = self.place(frag, 0)
        lines, trace, x = frag
        a, b, c = r.randint(-99, 99), r.randint(100, 999), r.randint(1, 50)
        fn = 'S%d' % k
        head = ('        int before = %d; int loc = %d; int[] own = new int[] { 1, %d, 3 }; Node obj = new Node(%d); '
                'Pair pr = new Pair(); pr.x = %d; long after = %dL; int state = 0;\n' % (a, b, c, c, c, b))
        state = [str(q) for q in (a, c, c, b)]
        show = ('Console.WriteLine(before); Console.WriteLine(own[0] + own[2]); Console.WriteLine(e.arr[0] + e.arr[1] + e.arr[2] + e.arr[3]);'
                ' Console.WriteLine(e.good.v); Console.WriteLine(after);')
        shown = [str(a), '4', '100', '7', str(b)]
        if last:
            body = head + '        ' + '\n        '.join(lines) + '\n        Note(9999);\n'
            self.members.append('    public static int %s(Env e) {\n%s        return state; }' % (fn, body))
            return ['%s(e);' % fn, 'Note(9998);'], [str(q) for q in trace] + ['Uncaught Exception: ' + x]
        handlers, hit = [], None
        chain = r.choice(['exact', 'sys', 'base', 'miss', 'miss2', 'outer'])
        self.tags.add(('handler', chain, x))
        h = {'exact': [x], 'sys': [SUPERS[x][0]], 'base': ['Exception'], 'miss': [OTHERS[x][0], x],
             'miss2': OTHERS[x][:2] + ['Exception'], 'outer': [OTHERS[x][1]]}[chain]
        if x == 'UserException' and chain == 'miss2':
            h = [NRE, 'SystemException', 'Exception']
        text = ['try {', 'state = 1;'] + lines + ['state = 2;', '}']
        for i, q in enumerate(h):
            text.append('catch (%s e%d) { Console.WriteLine("%d:%s:%d"); state += %d; }' % (q, i, k, q, i, 10 * (i + 1)))
        out = [str(q) for q in trace]
        if chain == 'outer':
            text = ['try {'] + text + ['state = 3;', '} catch (Exception eo) { Console.WriteLine("outer%d"); state += 100; }' % k]
            out += ['outer%d' % k]
            st = 101
        else:
            hi = len(h) - 1
            out += ['%d:%s:%d' % (k, h[hi], hi)]
            st = 1 + 10 * (hi + 1)
        body = head + '        ' + '\n        '.join(text) + '\n        Console.WriteLine(state); %s\n' % show
        self.members.append('    public static int %s(Env e, int p) {\n%s        return p + loc - loc; }' % (fn, body))
        rep = r.choice([1, 1, 1, 2, 30])
        self.tags.add(('repeat', rep))
        out += [str(st)] + shown
        if rep == 1:
            return ['Console.WriteLine(%d + %s(e, %d));' % (1000, fn, k)], out + [str(1000 + k)]
        return (['for (int r%d = 0; r%d < %d; r%d++) Console.WriteLine(%s(e, r%d) + 5);' % (k, k, rep, k, fn, k)],
                [q for i in range(rep) for q in out + [str(i + 5)]])


def qualify(text):
    """calls of Program's functions by their full name, so that they may stand in any class"""
    return re.sub(r'(?<!static int )(?<!\.)\b(Note|Three|BadThrow|UserThrow|[FS]\d+)\(', r'Program.\1(', text)


def build_cases(chk, scale=1.0):
    out = []
    n = max(6, int(chk.scale(900, 12000) * scale))
    for i in range(n):
        r = random.Random('C17/%d/%d' % (vlib.SEED, i))
        g = Gen(r)
        body, exp = ['Env e = new Env();'], []
        ns = r.randint(3, 7)
        for j in range(ns):
            b, x = g.scenario(j == ns - 1 and r.random() < 0.4)
            body += b
            exp += x
        src = qualify(vlib.program('\n        '.join(body), MEMBERS + '\n'.join(g.members), TYPES + '\n'.join(g.types)))
        chk.count('faults_raised', g.faults)
        for t in g.tags:
            chk.count('%s:%s' % (t[0], '/'.join(t[1:]) if t[0] != 'repeat' else t[1]))
        o = (0, 0, 2, 3)[i % 4]
        out.append(Case('C17 faults #%d seed %d -O%d' % (i, vlib.SEED, o), src, ''.join(q + '\n' for q in exp), g.tags,
                        args=('-O', str(o)) if o else ()))
    return out


def main():
    chk = vlib.Check('C17', rule=(
        'Random programs in which null references, subscripts, casts, lengths and null exceptions (over 90 forms) fail inside 29 '
        'expression and statement contexts and 20 places (loops, functions, recursion, constructors, accessors, virtual and '
        'interface methods, handlers, finally blocks), caught by exact, base, later or outer handlers or not at all; side '
        'effects before the fault, locals, arrays and objects after it are judged. Distinct: fault form, context, place, handler x exception.'),
        assumptions=['operand order left to right, right-hand side before the failing store'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(150)


if __name__ == '__main__':
    suite.main(main)
