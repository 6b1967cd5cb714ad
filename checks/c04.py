"""C04: exceptions: first matching handler on the way out, finally exactly once on every way out."""
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
from suite import Case


def payload_program(r):
    """The very object thrown reaches the handler, whatever other exceptions come and go in finally blocks on
    its way; the class seen by the handler is the dynamic class."""
    n = r.randint(1, 4)
    classes = ['E0'] + ['E%d' % i for i in range(1, r.randint(2, 6))]
    base = {'E0': 'Exception'}
    types = ['class E0 : Exception { public int V; public long W; public E0(int v) { this.V = v; this.W = (long)v * 3L; } '
             'public virtual int Tag() { return 0; } }']
    for i, c in enumerate(classes[1:], 1):
        b = r.choice(classes[:i])
        base[c] = b
        types.append('class %s : %s { public %s(int v) { this.V = v; this.W = (long)v * 3L; } public override int Tag() { return %d; } }'
                     % (c, b, c, i))
    types.append('class Noise : Exception { public int N; public Noise(int n) { this.N = n; } }')

    def isa(c, o):
        while c != 'Exception':
            if c == o:
                return True
            c = base[c]
        return o == 'Exception'
    members, body, exp = [], [], []
    plan = []       # per frame: noise in finally, handler class or None
    thrown, v = r.choice(classes), r.randint(-1000, 1000)
    frames = [dict(noise=r.choice([0, 0, 1, 2]), handler=r.choice([None, None] + classes), num=i, again=r.random() < 0.3,
                   loc=r.randint(1, 99)) for i in range(n)]
    # innermost first
    for i, f in enumerate(frames):
        call = 'throw new %s(%d);' % (thrown, v) if i == 0 else 'Console.WriteLine(F%d());' % (i - 1)
        fin = 'Console.WriteLine("f%d"); ' % i
        for k in range(f['noise']):
            fin += 'try { throw new Noise(%d); } catch (Noise q) { Console.WriteLine(q.N); } ' % (k + 10 * i)
        c = ''
        if f['handler']:
            c = ('catch (%s e) { Console.WriteLine(e.V); Console.WriteLine(e.W); Console.WriteLine(e.Tag()); '
                 '%s } ' % (f['handler'], r.choice(['throw;', 'e = new %s(5); throw;' % f['handler'], 'if (x > 0) { throw; } return 7;',
                                                    'try { throw new Noise(1); } catch (Noise z) { x++; } throw;'])
                            if f['again'] else 'return x + 1000;'))
        members.append('    static int F%d() { int x = %d; try { %s } %sfinally { %s } Console.WriteLine("after%d"); return x; }'
                       % (i, f['loc'], call, c, fin, i))
    live = True
    for i, f in enumerate(frames):
        caught = live and f['handler'] and isa(thrown, f['handler'])
        ret = None
        if not live:
            exp.append(str(val))
        if caught:
            exp += [str(v), str(v * 3), str(classes.index(thrown))]
        exp.append('f%d' % i)
        for k in range(f['noise']):
            exp.append(str(k + 10 * i))
        if caught and f['again']:
            pass
        elif caught:
            live, val = False, f['loc'] + 1000
        elif not live:
            exp.append('after%d' % i)
            val = f['loc']
    body.append('        try { Console.WriteLine(F%d()); } catch (E0 e) { Console.WriteLine("main"); Console.WriteLine(e.V); '
                'Console.WriteLine(e.Tag()); }' % (n - 1))
    exp += [str(val)] if not live else ['main', str(v), str(classes.index(thrown))]
    return vlib.program('\n'.join(body), '\n'.join(members), '\n'.join(types)), '\n'.join(exp) + '\n'


SYS = ['SystemException', 'NullReferenceException', 'InvalidCastException', 'OutOfRangeException']
ISSYS = {'SystemException': SYS, 'NullReferenceException': SYS[1:2], 'InvalidCastException': SYS[2:3], 'OutOfRangeException': SYS[3:]}


def wrap_program(r):
    """Every handler wraps what it caught into another exception: the whole chain, with every message and class, is there at the end."""
    own = ['X%d' % i for i in range(r.randint(1, 4))]
    types = []
    for i, c in enumerate(own):
        kind = r.choice(['both', 'both', 'message', 'field'])
        b = r.choice(['Exception'] + [o for o, k in types if k == 'both'])
        text = {'both': 'public %s(string m) : base(m) { } public %s(string m, Exception e) : base(m, e) { }' % (c, c),
                'message': 'public %s(string m) : base(m) { }' % c,
                'field': 'public int K; public %s(string m, Exception e) : base(m, e) { K = %d; }' % (c, i)}[kind]
        types.append((c, kind))
        own[i] = (c, kind, 'class %s : %s { %s }' % (c, b, text), b)
    supers = {c: b for c, k, t, b in own}

    def isa(c, o):
        if o == 'Exception':
            return True
        if c in ISSYS:
            return c in ISSYS.get(o, [])
        while c != 'Exception':
            if c == o:
                return True
            c = supers[c]
        return False
    names = [c for c, k, t, b in own]
    n = r.randint(1, 6)
    members, exp = [], []
    chain = []                      # outermost first: (class, message)
    for i in range(n):
        m = 'm%d%s' % (i, ''.join(r.choice('abc XYZ.') for _ in range(r.randint(0, 9))))
        inner = i > 0
        forms = []
        for c, k, t, b in own:
            if inner and k != 'message' or not inner and k != 'field':
                forms.append((c, 'new %s("%s"%s)' % (c, m, ', e' if inner else '')))
            elif not inner and k == 'field':
                forms.append((c, 'new %s("%s", null)' % (c, m)))
        forms.append(('Exception', 'new Exception("%s"%s)' % (m, ', e' if inner else '')))
        if not inner:
            forms += [(c, 'new %s("%s")' % (c, m)) for c in SYS]
        c, f = r.choice(forms)
        if not inner:
            thr = r.choice(['throw %s;' % f, '%s q = %s; throw q;' % (r.choice(['Exception', c]), f)])
            members.append('    static int F0() { %s }' % thr)
        else:
            h = r.choice([x for x in names + SYS + ['Exception'] if isa(chain[0][0], x)])
            see = r.choice(['', 'Console.WriteLine(e.Message); '])
            if see:
                exp.append(chain[0][1])
            fin = r.choice(['', ' finally { Console.WriteLine("f%d"); }' % i])
            if fin:
                exp.append('f%d' % i)
            members.append('    static int F%d() { try { return F%d() + 1; } catch (%s e) { %sthrow %s; }%s }' % (i, i - 1, h, see, f, fin))
        chain.insert(0, (c, m))
    cls = names + SYS
    show = ' '.join('if (w is %s) Console.WriteLine("%s");' % (c, c) for c in cls)
    body = ('        try { Console.WriteLine(F%d()); } catch (Exception e) {\n        Exception w = e; int d = 0;\n'
            '        while (w != null) { d++; Console.WriteLine(w.Message); %s w = w.InnerException; }\n        Console.WriteLine(d); }' % (n - 1, show))
    for c, m in chain:
        exp.append(m)
        exp += [x for x in cls if isa(c, x)]
    exp.append(str(n))
    r.shuffle(members)
    return vlib.program(body, '\n'.join(members), '\n'.join(t for c, k, t, b in own)), '\n'.join(exp) + '\n', ['wrap:%s' % c for c, m in chain] + ['depth:%d' % n]


RETHROW = vlib.program("""        try { F(); Console.WriteLine("lost"); } catch (A e) { Console.WriteLine("caller"); }""",
                       """    static void F() { try { throw new A(); } catch (A e) { Console.WriteLine("handler"); throw; } }""",
                       'class A : Exception { public A() { } }')


FEATURES = ['switch', 'exc', 'calls', 'escape', 'finexc']


def build_cases(chk, scale=1.0):
    n = lambda a, b: max(1, int(chk.scale(a, b) * scale))
    cs = suite.generated(chk, n(600, 16000), ['switch', 'exc', 'calls', 'escape'], nfuncs=4, label='exc')
    cs += suite.generated(chk, n(300, 8000), ['exc', 'calls', 'escape', 'refs'], nfuncs=6, size=8, depth=4,
                          types=('int', 'bool', 'long'), label='excdeep', opts=(0, 0, 1, 2))
    cs += suite.generated(chk, n(500, 12000), ['switch', 'exc', 'calls', 'escape', 'finexc'], nfuncs=5, size=8,
                          depth=4, types=('int', 'bool', 'long'), label='finexc', opts=(0, 0, 1, 2))
    for i in range(n(120, 3000)):
        r = random.Random('%d/payload/%d' % (vlib.SEED, i))
        src, exp = payload_program(r)
        o = i % 3
        cs.append(Case('C04 payload#%d -O%d' % (i, o), src, exp, ['payload:%d' % i], args=('-O', str(o)) if o else ()))
    for i in range(n(100, 2500)):
        r = random.Random('%d/wrap/%d' % (vlib.SEED, i))
        src, exp, tags = wrap_program(r)
        o = i % 4
        cs.append(Case('C04 wrap#%d -O%d' % (i, o), src, exp, tags, args=('-O', str(o)) if o else ()))
    cs.append(Case('C04 rethrow', RETHROW, 'handler\ncaller\n', ['rethrow'], key='rethrow'))
    return cs


def main():
    chk = vlib.Check('C04', rule=(
        'Random programs with nested try/catch/finally over a random exception class hierarchy, throwing from '
        'loops, switch sections, functions (caught, uncaught there, rethrown as another class from handlers), with '
        'return/break/continue leaving protected blocks; trace compared with the reference interpreter. '
        'Distinct: each program; events counted from the reference run.'),
        assumptions=['reference interpreter lib/agen.py'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(500)


if __name__ == '__main__':
    suite.main(main)
