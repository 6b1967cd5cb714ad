"""Random April programs together with their meaning.

Every construct is generated as a node that can print itself as April source and execute itself
in a small reference interpreter, so that the expected output trace of a generated program is
known without running april. The generator stays inside the part of the language whose meaning
is unambiguous (no division by zero, no mixed-sign arithmetic, no shift counts out of range)."""
import random

import aexpr as A
from aexpr import E, EvalError


class TooLong(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Goto(Exception):
    def __init__(self, label):
        self.label = label


class Thrown(Exception):
    """An April exception: cls is its ExcClass, val its payload."""

    def __init__(self, cls, val=None):
        self.cls, self.val = cls, val


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class Env:
    """Variables of one activation. Indexing reads the value (for aexpr.ev)."""
    __slots__ = ('c', 'm')

    def __init__(self, m):
        self.c, self.m = {}, m

    def __getitem__(self, n):
        return self.c[n].v

    def set(self, n, v):
        c = self.c.get(n)
        if c is None:
            self.c[n] = Cell(v)
        else:
            c.v = v

    def new(self, n, v):
        self.c[n] = Cell(v)


class Machine:
    def __init__(self, limit=6000):
        self.out = []
        self.steps = 0
        self.limit = limit
        self.depth = 0
        self.events = {}
        self.caught = []            # what the open catch blocks caught

    def tick(self):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()

    def emit(self, s):
        self.out.append(s)
        if len(self.out) > 800:
            raise TooLong()

    def event(self, name):
        self.events[name] = self.events.get(name, 0) + 1

    def text(self):
        return ''.join(x + '\n' for x in self.out)


def ind(n):
    return '    ' * n


class Node:
    def src(self, d):
        raise NotImplementedError

    def run(self, env):
        raise NotImplementedError


class Block(Node):
    def __init__(self, body, braces=True):
        self.body, self.braces = body, braces

    def src(self, d):
        inner = ''.join(s.src(d + 1 if self.braces else d) for s in self.body)
        return '%s{\n%s%s}\n' % (ind(d), inner, ind(d)) if self.braces else inner

    def run(self, env):
        i = 0
        n = len(self.body)
        while i < n:
            try:
                self.body[i].run(env)
            except Goto as g:
                for j, s in enumerate(self.body):
                    if isinstance(s, Label) and s.name == g.label:
                        i = j
                        break
                else:
                    raise
            i += 1


class Label(Node):
    def __init__(self, name):
        self.name = name

    def src(self, d):
        return '%s%s:\n' % (ind(d), self.name)

    def run(self, env):
        env.m.tick()


class GotoS(Node):
    def __init__(self, name):
        self.name = name

    def src(self, d):
        return '%sgoto %s;\n' % (ind(d), self.name)

    def run(self, env):
        env.m.tick()
        env.m.event('goto')
        raise Goto(self.name)


class Decl(Node):
    def __init__(self, t, name, e, split=False):
        self.t, self.name, self.e, self.split = t, name, e, split

    def src(self, d):
        if self.split:
            return '%s%s %s;\n%s%s = %s;\n' % (ind(d), self.t, self.name, ind(d), self.name, A.src(self.e))
        return '%s%s %s = %s;\n' % (ind(d), self.t, self.name, A.src(self.e))

    def run(self, env):
        env.m.tick()
        env.new(self.name, A.convert(A.ev(self.e, env), self.e.t, self.t)
                if self.t != self.e.t else A.ev(self.e, env))


class Assign(Node):
    """x op= e"""

    def __init__(self, t, name, op, e):
        self.t, self.name, self.op, self.e = t, name, op, e

    def src(self, d):
        return '%s%s %s= %s;\n' % (ind(d), self.name, self.op, A.src(self.e))

    def run(self, env):
        env.m.tick()
        if self.op:
            env.set(self.name, A.convert(
                A.bin_eval(self.op, self.t, env[self.name], self.e.t, A.ev(self.e, env)),
                A.bin_type(self.op, self.t, self.e.t), self.t))
        else:
            env.set(self.name, A.convert(A.ev(self.e, env), self.e.t, self.t))


class IncDec(Node):
    def __init__(self, t, name, op, pre):
        self.t, self.name, self.op, self.pre = t, name, op, pre

    def src(self, d):
        return ind(d) + (self.op + self.name if self.pre else self.name + self.op) + ';\n'

    def run(self, env):
        env.m.tick()
        env.set(self.name, A.wrap(self.t, env[self.name] + (1 if self.op == '++' else -1)))


class Print(Node):
    def __init__(self, e):
        self.e = e

    def src(self, d):
        return '%sConsole.WriteLine(%s);\n' % (ind(d), A.src(self.e))

    def run(self, env):
        env.m.tick()
        env.m.emit(A.show(self.e.t, A.ev(self.e, env)))


class PrintS(Node):
    def __init__(self, s):
        self.s = s

    def src(self, d):
        return '%sConsole.WriteLine("%s");\n' % (ind(d), self.s)

    def run(self, env):
        env.m.tick()
        env.m.emit(self.s)


class ExprS(Node):
    """An expression statement (a call)."""

    def __init__(self, e):
        self.e = e

    def src(self, d):
        return '%s%s;\n' % (ind(d), A.src(self.e))

    def run(self, env):
        env.m.tick()
        A.ev(self.e, env)


class If(Node):
    def __init__(self, arms, els):
        self.arms, self.els = arms, els

    def src(self, d):
        s = ''
        for i, (c, b) in enumerate(self.arms):
            s += '%s%sif (%s)\n%s' % (ind(d), 'else ' if i else '', A.src(c), body_src(b, d))
        if self.els is not None:
            s += '%selse\n%s' % (ind(d), body_src(self.els, d))
        return s

    def run(self, env):
        env.m.tick()
        for i, (c, b) in enumerate(self.arms):
            if A.ev(c, env):
                env.m.event('if%d' % i)
                b.run(env)
                return
        if self.els is not None:
            env.m.event('else')
            self.els.run(env)


def body_src(b, d):
    if isinstance(b, Block):
        return b.src(d)
    return b.src(d + 1)


class While(Node):
    def __init__(self, c, b):
        self.c, self.b = c, b

    def src(self, d):
        return '%swhile (%s)\n%s' % (ind(d), A.src(self.c), body_src(self.b, d))

    def run(self, env):
        while True:
            env.m.tick()
            if not A.ev(self.c, env):
                break
            env.m.event('while')
            try:
                self.b.run(env)
            except Break:
                break
            except Continue:
                pass


class DoWhile(Node):
    def __init__(self, c, b, until=False):
        self.c, self.b, self.until = c, b, until

    def src(self, d):
        return '%sdo\n%s%swhile (%s);\n' % (ind(d), body_src(self.b, d), ind(d), A.src(self.c))

    def run(self, env):
        while True:
            env.m.tick()
            env.m.event('do')
            try:
                self.b.run(env)
            except Break:
                break
            except Continue:
                pass
            if not A.ev(self.c, env):
                break


class For(Node):
    """for (t v = a; v < b; v += s) body ; init/cond/step in several spellings"""

    def __init__(self, t, v, a, cond, step, b, outside=False):
        self.t, self.v, self.a, self.cond, self.step, self.b = t, v, a, cond, step, b
        self.outside = outside

    def src(self, d):
        st = {'++': self.v + '++', '--': self.v + '--', '++p': '++' + self.v}.get(
            self.step[0], '%s %s= %s' % (self.v, self.step[0], self.step[1]))
        init = '%s %s = %s' % (self.t, self.v, A.src(self.a))
        pre = ''
        if self.outside:
            pre, init = ind(d) + init + ';\n', ''
        return '%s%sfor (%s; %s; %s)\n%s' % (pre, ind(d), init, A.src(self.cond), st, body_src(self.b, d))

    def run(self, env):
        env.m.tick()
        env.new(self.v, A.ev(self.a, env))
        while True:
            env.m.tick()
            if not A.ev(self.cond, env):
                break
            env.m.event('for')
            try:
                self.b.run(env)
            except Break:
                break
            except Continue:
                env.m.event('for-continue')
            op = self.step[0]
            if op in ('++', '++p'):
                env.set(self.v, A.wrap(self.t, env[self.v] + 1))
            elif op == '--':
                env.set(self.v, A.wrap(self.t, env[self.v] - 1))
            else:
                env.set(self.v, A.bin_eval(op, self.t, env[self.v], self.t, self.step[1]))


class Switch(Node):
    """sections: [(labels, body)], a label is a value or None for default; body always ends in a
    jump unless the section is the last one."""

    def __init__(self, e, sections):
        self.e, self.sections = e, sections

    def src(self, d):
        s = '%sswitch (%s)\n%s{\n' % (ind(d), A.src(self.e), ind(d))
        for labels, body in self.sections:
            for l in labels:
                s += ind(d + 1) + ('default:' if l is None else 'case %s:' % lab_src(self.e.t, l)) + '\n'
            for st in body:
                s += st.src(d + 2)
        return s + ind(d) + '}\n'

    def run(self, env):
        env.m.tick()
        v = A.ev(self.e, env)
        target = None
        for labels, body in self.sections:
            if any(l is not None and l == v for l in labels):
                target = body
                env.m.event('case')
                break
        else:
            for labels, body in self.sections:
                if None in labels:
                    target = body
                    env.m.event('default')
        if target is None:
            env.m.event('nocase')
            return
        try:
            for st in target:
                st.run(env)
        except Break:
            pass


def lab_src(t, l):
    if t in ('int', 'long') and l < 0:
        return '-%d' % -l
    return A.lit_src(t, l)


class BreakS(Node):
    def src(self, d):
        return ind(d) + 'break;\n'

    def run(self, env):
        env.m.tick()
        env.m.event('break')
        raise Break()


class ContinueS(Node):
    def src(self, d):
        return ind(d) + 'continue;\n'

    def run(self, env):
        env.m.tick()
        env.m.event('continue')
        raise Continue()


class ReturnS(Node):
    def __init__(self, e, t=None):
        self.e, self.t = e, t

    def src(self, d):
        return ind(d) + ('return %s;\n' % A.src(self.e) if self.e is not None else 'return;\n')

    def run(self, env):
        env.m.tick()
        env.m.event('return')
        if self.e is None:
            raise Return(None)
        v = A.ev(self.e, env)
        raise Return(A.convert(v, self.e.t, self.t) if self.t not in (None, self.e.t) else v)


class ExcClass:
    def __init__(self, name, base):
        self.name, self.base = name, base

    def isa(self, other):
        c = self
        while c is not None:
            if c is other:
                return True
            c = c.base
        return False


EXCEPTION = ExcClass('Exception', None)


class ThrowS(Node):
    def __init__(self, cls):
        self.cls = cls

    def src(self, d):
        return '%sthrow new %s();\n' % (ind(d), self.cls.name)

    def run(self, env):
        env.m.tick()
        env.m.event('throw')
        raise Thrown(self.cls)


class RethrowS(Node):
    """throw; directly in a catch block: the exception that was caught, whatever happened since."""

    def src(self, d):
        return '%sthrow;\n' % ind(d)

    def run(self, env):
        env.m.tick()
        env.m.event('rethrow')
        raise Thrown(env.m.caught[-1])


class Try(Node):
    def __init__(self, body, catches, fin, vars_=None):
        self.body, self.catches, self.fin = body, catches, fin
        self.vars = vars_ or [None] * len(catches)

    def src(self, d):
        s = '%stry\n%s' % (ind(d), self.body.src(d))
        for (c, b), v in zip(self.catches, self.vars):
            s += '%scatch%s\n%s' % (ind(d), ' (%s%s)' % (c.name, ' ' + v if v else '') if c else '', b.src(d))
        if self.fin is not None:
            s += '%sfinally\n%s' % (ind(d), self.fin.src(d))
        return s

    def run(self, env):
        env.m.tick()
        depth = env.m.depth
        try:
            try:
                self.body.run(env)
            except Thrown as t:
                env.m.depth = depth
                for c, b in self.catches:
                    if c is None or t.cls.isa(c):
                        env.m.event('catch')
                        env.m.caught.append(t.cls)
                        try:
                            b.run(env)
                        finally:
                            env.m.caught.pop()
                        break
                else:
                    env.m.event('unmatched')
                    raise
        except (Thrown, Return, Break, Continue, Goto):
            if self.fin is not None:
                env.m.depth = depth
                env.m.event('finally-abrupt')
                self.fin.run(env)
            raise
        else:
            if self.fin is not None:
                env.m.event('finally-normal')
                self.fin.run(env)


# ------------------------------------------------------------------- functions

class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret   # params: [(mode, type, name)]
        self.body = None
        self.static = True

    def src(self, d):
        ps = ', '.join('%s%s %s' % (m + ' ' if m else '', t, n) for m, t, n in self.params)
        return '%spublic static %s %s(%s)\n%s' % (ind(d), self.ret or 'void', self.name, ps, self.body.src(d))

    def call(self, m, args):
        """args: values, or cells for ref/out."""
        m.tick()
        m.depth += 1
        if m.depth > 60:
            raise TooLong()
        m.event('call')
        env = Env(m)
        for (mode, t, n), a in zip(self.params, args):
            env.c[n] = a if mode else Cell(a)
        d = m.depth
        try:
            self.body.run(env)
        except Return as r:
            m.depth = d - 1
            return r.v
        m.depth = d - 1
        if self.ret:
            raise RuntimeError('function without return')
        return None


def call_expr(f, args):
    """args: E for values, ('ref'|'out', varname) for references."""
    parts = []
    for (mode, t, n), a in zip(f.params, args):
        parts.append('%s %s' % (mode, a[1]) if mode else A.src(a))
    s = '%s(%s)' % (f.name, ', '.join(parts))

    def ev(env):
        vals = []
        for (mode, t, n), a in zip(f.params, args):
            if mode:
                vals.append(env.c[a[1]])
            else:
                v = A.ev(a, env)
                vals.append(A.convert(v, a.t, t) if a.t != t else v)
        return f.call(env.m, vals)
    return E('raw', f.ret, op=ev, v=s)


# ------------------------------------------------------------------- generator

WIDE = {'int': ('sbyte', 'short'), 'long': ('sbyte', 'short', 'int'), 'uint': ('byte', 'ushort'),
        'ulong': ('byte', 'ushort', 'uint'), 'short': ('sbyte',), 'ushort': ('byte',),
        'sbyte': (), 'byte': ()}


class Gen:
    """Generates statements of one function."""

    def __init__(self, rng, types=('int', 'long', 'uint', 'short', 'byte', 'bool'), funcs=(),
                 exc=None, features=()):
        self.rng = rng
        self.types = types
        self.funcs = list(funcs)
        self.exc = exc or []
        self.features = set(features)
        self.n = 0
        self.label = 0

    def name(self, p='v'):
        self.n += 1
        return '%s%d' % (p, self.n)

    # ---- expressions

    def lit(self, t):
        r = self.rng
        if t == 'bool':
            return E('lit', 'bool', v=r.random() < 0.5)
        if t == 'double':
            k = r.random()
            if k < 0.2:
                return E('lit', 'double', v=r.choice([0.0, -0.0, 1.0, -1.0]))
            return E('lit', 'double', v=r.randint(-400, 400) / 4.0)
        if t == 'char':
            return E('lit', 'char', v=r.choice(b'ABCxyz019'))
        lo, hi = A.rng_of(t)
        k = r.random()
        if k < 0.55:
            v = r.randint(max(lo, -9), min(hi, 20))
        elif k < 0.8:
            v = r.randint(max(lo, -3000), min(hi, 3000))
        elif k < 0.9:
            v = r.choice([lo, hi, hi - 1, lo + 1])
        else:
            v = r.randint(lo, hi)
        return E('lit', t, v=v)

    def vars_of(self, scope, t, exact=True):
        return [n for n, (vt, _) in scope.items() if vt == t]

    def expr(self, t, scope, d):
        r = self.rng
        vs = self.vars_of(scope, t)
        k = r.random()
        if d <= 0 or k < 0.12:
            if vs and r.random() < 0.75:
                return E('var', t, v=r.choice(vs))
            return self.lit(t)
        if 'calls' in self.features and k < 0.27:
            fs = [f for f in self.funcs if f.ret == t]
            if fs:
                c = self.call(r.choice(fs), scope, d - 1)
                if c is not None:
                    return c
        if t == 'bool':
            k = r.random()
            if k < 0.5:
                u = r.choice([x for x in self.types if x not in ('bool', 'char')] or ['int'])
                op = r.choice(['==', '!=', '<', '>', '<=', '>='])
                return E('bin', 'bool', op, (self.expr(u, scope, d - 1), self.expr(u, scope, d - 1)))
            if k < 0.8:
                return E('bin', 'bool', r.choice(['&&', '||']),
                         (self.expr('bool', scope, d - 1), self.expr('bool', scope, d - 1)))
            if k < 0.9:
                return E('un', 'bool', '!', (self.expr('bool', scope, d - 1),))
            return self.cond('bool', scope, d)
        if t == 'char':
            return self.cond('char', scope, d) if r.random() < 0.3 else self.lit('char')
        if t == 'double':
            k = r.random()
            if k < 0.6:
                op = r.choice(['+', '-', '*', '+', '-', '*', '/'])
                return E('bin', t, op, (self.expr(t, scope, d - 1), self.expr(t, scope, d - 2)))
            if k < 0.65:
                return E('un', t, '-', (self.expr(t, scope, d - 1),))
            if k < 0.8:
                return E('cast', t, a=(self.expr(r.choice(['int', 'short', 'byte']), scope, d - 1),))
            return self.cond(t, scope, d)
        # integers
        k = r.random()
        if t in ('short', 'ushort', 'sbyte', 'byte'):
            if k < 0.7:
                return E('cast', t, a=(self.expr(r.choice(['int', 'int', 'long', 'uint']), scope, d - 1),))
            if k < 0.85:
                return self.lit(t)
            return self.cond(t, scope, d)
        if k < 0.45:
            op = r.choice(['+', '-', '*', '&', '|', '^', '+', '-'])
            a = self.operand(t, scope, d - 1)
            b = self.operand(t, scope, d - 1) if a.t == t else self.expr(t, scope, d - 1)
            if r.random() < 0.5:
                a, b = b, a
            return E('bin', t, op, (a, b))
        if k < 0.58:
            dv = E('lit', t, v=r.choice([1, 2, 3, 5, 7, 10, 16, 100, 255]))
            return E('bin', t, r.choice(['/', '%']), (self.expr(t, scope, d - 1), dv))
        if k < 0.68:
            sh = E('lit', 'int', v=r.randint(0, 31 if t in ('int', 'uint') else 63))
            if t in ('uint', 'ulong'):
                return E('cast', t, a=(E('bin', A.bin_type('<<', t, 'int'), r.choice(['<<', '>>']),
                                         (self.expr(t, scope, d - 1), sh)),)) \
                    if False else self.expr(t, scope, d - 1)
            return E('bin', t, r.choice(['<<', '>>']), (self.expr(t, scope, d - 1), sh))
        if k < 0.76:
            op = r.choice(['-', '~', '+'])
            if A.un_type(op, t) != t:
                op = '~'
            return E('un', t, op, (self.expr(t, scope, d - 1),))
        if k < 0.9:
            src = r.choice(['int', 'long', 'uint', 'short', 'byte', 'ulong', 'ushort', 'sbyte'])
            return E('cast', t, a=(self.expr(src, scope, d - 1),))
        return self.cond(t, scope, d)

    def operand(self, t, scope, d):
        """An expression that combines with t to t: type t or a narrower one of the same sign."""
        r = self.rng
        if r.random() < 0.2 and WIDE.get(t):
            return self.expr(r.choice(WIDE[t]), scope, d)
        return self.expr(t, scope, d)

    def cond(self, t, scope, d):
        return E('cond', t, a=(self.expr('bool', scope, d - 1), self.expr(t, scope, d - 1),
                               self.expr(t, scope, d - 1)))

    def call(self, f, scope, d):
        args = []
        used = set()
        for mode, t, n in f.params:
            if mode:
                cand = [v for v, (vt, w) in scope.items() if vt == t and w and v not in used]
                if not cand:
                    return None
                v = self.rng.choice(cand)
                used.add(v)
                args.append((mode, v))
            else:
                args.append(self.expr(t, scope, min(d, 1)))
        # a variable passed by reference is not also read by another argument
        if used:
            for a in args:
                if isinstance(a, E) and (mentions(a, used)):
                    return None
        return call_expr(f, args)

    # ---- statements. scope: {name: (type, assignable)}

    def block(self, scope, d, n, loop=None, braces=True, ret=None, infin=False):
        sc = dict(scope)
        body = []
        for _ in range(n):
            body.extend(self.stmt(sc, d, loop, ret, infin))
            if isinstance(body[-1], (BreakS, ContinueS, ReturnS, ThrowS, GotoS)):
                break
        return Block(body, braces)

    def decl(self, scope, t=None):
        t = t or self.rng.choice(self.types)
        n = self.name()
        e = self.expr(t, scope, 2)
        scope[n] = (t, True)
        return Decl(t, n, e, self.rng.random() < 0.1)

    def assign(self, scope, d):
        r = self.rng
        vs = [n for n, (t, w) in scope.items() if w]
        if not vs:
            return self.decl(scope)
        n = r.choice(vs)
        t = scope[n][0]
        k = r.random()
        if t in ('int', 'long', 'uint', 'ulong') and k < 0.45:
            if k < 0.12:
                return IncDec(t, n, r.choice(['++', '--']), r.random() < 0.5)
            op = r.choice(['+', '-', '*', '&', '|', '^', '/', '%', '<<', '>>'])
            if op in ('/', '%'):
                return Assign(t, n, op, E('lit', t, v=r.choice([1, 2, 3, 7, 10])))
            if op in ('<<', '>>'):
                if t in ('uint', 'ulong'):
                    op = '^'
                else:
                    return Assign(t, n, op, E('lit', 'int', v=r.randint(0, 15)))
            return Assign(t, n, op, self.expr(t, scope, d))
        return Assign(t, n, '', self.expr(t, scope, d))

    def stmt(self, scope, d, loop, ret, infin):
        """loop: None | 'loop' | 'switch' | 'loop+switch'; returns a list of nodes."""
        r = self.rng
        k = r.random()
        if k < 0.14:
            return [self.decl(scope)]
        if k < 0.34:
            return [self.assign(scope, 2)]
        if k < 0.5 or d <= 0:
            if k < 0.46:
                return [Print(self.expr(r.choice(self.types), scope, 2))]
            return [PrintS('p%d' % r.randint(0, 99))]
        if k < 0.62:
            arms = [(self.expr('bool', scope, 2), self.body(scope, d - 1, loop, ret, infin))
                    for _ in range(r.choice([1, 1, 1, 2, 3]))]
            els = self.body(scope, d - 1, loop, ret, infin) if r.random() < 0.5 else None
            return [If(arms, els)]
        if k < 0.76:
            return self.loop(scope, d, ret, infin)
        if k < 0.82 and 'switch' in self.features:
            return [self.switch(scope, d, loop, ret, infin)]
        if k < 0.86 and loop and infin in (False, 'finloop'):
            jump = BreakS() if r.random() < 0.5 or loop == 'switch' else ContinueS()
            return [If([(self.expr('bool', scope, 2), Block([PrintS('jmp'), jump]))], None)]
        if k < 0.94 and 'exc' in self.features:
            return [self.trycatch(scope, d, loop, ret, infin)]
        if k < 0.96 and 'calls' in self.features and self.funcs:
            c = self.call(r.choice(self.funcs), scope, 2)
            if c is not None:
                return [ExprS(c)]
        if k < 0.985 and not infin and ret is not None:
            return [If([(self.expr('bool', scope, 2), Block([PrintS('ret'), self.ret(ret, scope)]))], None)]
        if 'exc' in self.features and 'escape' in self.features and (not infin or 'finexc' in self.features):
            return [If([(self.expr('bool', scope, 2),
                         Block([PrintS('thr'), ThrowS(r.choice(self.exc))]))], None)]
        return [Print(self.expr(r.choice(self.types), scope, 3))]

    def ret(self, ret, scope):
        if ret == 'void':
            return ReturnS(None)
        return ReturnS(self.expr(ret, scope, 2), ret)

    def body(self, scope, d, loop, ret, infin):
        return self.block(scope, d, self.rng.choice([1, 1, 2, 3]), loop, True, ret, infin)

    def inloop(self, infin):
        return 'finloop' if infin == 'fin' and 'finexc' in self.features else infin

    def loop(self, scope, d, ret, infin):
        r = self.rng
        k = r.random()
        sc = dict(scope)
        if k < 0.5:
            v = self.name('i')
            t = r.choice(['int', 'int', 'int', 'long', 'uint'])
            n = r.randint(0, 5)
            sc[v] = (t, False)
            body = self.body(sc, d - 1, 'loop', ret, self.inloop(infin))
            one = E('var', t, v=v)
            if r.random() < 0.25 and t != 'uint':
                a = E('lit', t, v=n)
                cond = E('bin', 'bool', '>', (one, E('lit', t, v=0)))
                step = ('--', 1)
            else:
                s = r.choice([1, 1, 1, 2, 3])
                a = E('lit', t, v=r.randint(0, 2))
                cond = E('bin', 'bool', r.choice(['<', '<=', '<']), (one, E('lit', t, v=n)))
                step = (r.choice(['++', '++p', '+']), 1) if s == 1 else ('+', s)
            if r.random() < 0.15:
                cond = E('bin', 'bool', '&&', (cond, self.expr('bool', sc, 2)))
            return [For(t, v, a, cond, step, body, r.random() < 0.15)]
        v = self.name('w')
        sc[v] = ('int', False)
        n = r.randint(0, 4)
        cond = E('bin', 'bool', '<', (E('var', 'int', v=v), E('lit', 'int', v=n)))
        if r.random() < 0.3:
            cond = E('bin', 'bool', '&&', (cond, self.expr('bool', sc, 2)))
        body = self.body(sc, d - 1, 'loop', ret, self.inloop(infin))
        body.body.insert(0, IncDec('int', v, '++', r.random() < 0.5))
        decl = Decl('int', v, E('lit', 'int', v=0))
        scope[v] = ('int', False)
        return [decl, While(cond, body) if k < 0.78 else DoWhile(cond, body)]

    def switch(self, scope, d, loop, ret, infin):
        r = self.rng
        t = r.choice(['int', 'int', 'int', 'uint'] + [x for x in ('char', 'short', 'byte') if x in self.types])
        if t in ('short', 'byte'):
            lo = r.choice([0, 0, 120, 200] if t == 'byte' else [0, -4, 300, 32000])
            pool = [lo + i for i in range(8)]
            e = E('cast', t, a=(E('bin', 'int', '+', (E('bin', 'int', '%', (self.expr('int', scope, 2), E('lit', 'int', v=8))),
                                                      E('lit', 'int', v=lo))),)) if r.random() < .7 else self.expr(t, scope, 2)
        elif t == 'char':
            pool = [ord(c) for c in 'ABCxyz019']
            e = self.expr(t, scope, 2)
        else:
            lo = r.choice([0, 0, 0, -3 if t == 'int' else 3, 1000])
            width = r.choice([1, 1, 1, 50])
            pool = [lo + i * width for i in range(8)]
            e = self.expr(t, scope, 2)
            if r.random() < 0.8:
                m = E('bin', t, '%', (e, E('lit', t, v=8)))
                if width != 1:
                    m = E('bin', t, '*', (m, E('lit', t, v=width)))
                e = E('bin', t, '+', (m, E('lit', t, v=lo)))
        r.shuffle(pool)
        nsec = r.randint(1, 5)
        secs = []
        inner = 'loop' if loop in ('loop', 'loop+switch') else 'switch'
        for i in range(nsec):
            labels = [pool.pop() for _ in range(r.choice([1, 1, 2]) if len(pool) > 2 else 1)] if pool else []
            if not labels:
                break
            secs.append((labels, self.case_body(scope, d - 1, ret, infin)))
        if r.random() < 0.6:
            secs.insert(r.randint(0, len(secs)), ([None], self.case_body(scope, d - 1, ret, infin)))
        return Switch(e, secs)

    def case_body(self, scope, d, ret, infin):
        r = self.rng
        sc = dict(scope)
        body = []
        for _ in range(r.choice([0, 1, 1, 2])):
            # declarations are kept out of the section's own scope
            st = self.stmt(dict(sc), d, None, ret, infin)
            if any(isinstance(s, (Decl, For)) for s in st):
                st = [Block(st)]
            body.extend(st)
        body.append(BreakS())
        return body

    def trycatch(self, scope, d, loop, ret, infin):
        r = self.rng
        sc = dict(scope)
        body = self.block(sc, d - 1, r.choice([1, 2, 2]), loop, True, ret, infin)
        if r.random() < 0.7 and self.exc:
            x = ThrowS(r.choice(self.exc))
            st = x if r.random() < 0.3 else If([(self.expr('bool', sc, 2), Block([x]))], None)
            pos = r.randint(0, len(body.body))
            if st is x:
                body.body = body.body[:pos] + [x]
            else:
                body.body.insert(pos, st)
        catches = []
        vars_ = []
        order = list(self.exc)
        r.shuffle(order)
        for c in order[:r.choice([0, 1, 1, 2])]:
            if any(c.isa(o) for o, _ in catches):
                continue
            catches.append((c, self.catch_body(sc, d - 1, loop, ret, infin)))
        if r.random() < 0.35 or not catches and r.random() < 0.5:
            if not any(o is EXCEPTION for o, _ in catches):
                catches.append((EXCEPTION, self.catch_body(sc, d - 1, loop, ret, infin)))
        if 'escape' not in self.features and not any(o is EXCEPTION for o, _ in catches):
            catches.append((EXCEPTION, self.catch_body(sc, d - 1, loop, ret, infin)))
        vars_ = [self.name('e') if r.random() < 0.8 else None for _ in catches]
        fin = None
        if r.random() < 0.5 or not catches:
            fin = self.fin_body(sc, d - 1)
        if not body.body:
            body.body.append(PrintS('try'))
        return Try(body, catches, fin, vars_)

    def catch_body(self, sc, d, loop, ret, infin):
        b = self.block(sc, d, self.rng.choice([1, 1, 2]), loop, True, ret, infin)
        b.body.insert(0, PrintS('catch%d' % self.rng.randint(0, 99)))
        if 'escape' in self.features and self.rng.random() < 0.15:
            x = RethrowS()
            pos = self.rng.randint(1, len(b.body))
            if self.rng.random() < 0.4:
                b.body = b.body[:pos] + [x]
            else:
                b.body.insert(pos, If([(self.expr('bool', sc, 2), Block([x]))], None))
        return b

    def fin_body(self, sc, d):
        """A finally block: no jumps out of it; with 'finexc' it may throw, protect and call."""
        g = self.features
        if 'finexc' not in g:
            self.features = g - {'exc', 'escape', 'calls'}
        try:
            b = self.block(sc, min(d, 2 if 'finexc' in g else 1), self.rng.choice([1, 1, 2]), None, True, None, 'fin')
        finally:
            self.features = g
        b.body.insert(0, PrintS('fin%d' % self.rng.randint(0, 99)))
        return b


def mentions(e, names):
    if e.k == 'var':
        return e.v in names
    if e.k == 'raw':
        return any(n in e.v for n in names)
    return any(mentions(x, names) for x in e.a)


# ------------------------------------------------------------------- whole programs

class Program:
    def __init__(self):
        self.funcs, self.exc, self.main = [], [], None
        self.extra_types = ''

    def src(self):
        members = ''.join('\n' + f.src(1) for f in self.funcs)
        types = ''.join('\nclass %s : %s\n{\n}\n' % (x.name, x.base.name) for x in self.exc) + self.extra_types
        body = self.main.src(2)
        return ('import System;\n\nusing System;\n\nclass Program\n{\n    [EntryPoint]\n'
                '    public static void Main()\n    {\n%s    }\n%s}\n%s' % (body, members, types))

    def run(self, limit=6000):
        m = Machine(limit)
        env = Env(m)
        uncaught = None
        try:
            self.main.run(env)
        except Return:
            pass
        except Thrown as t:
            uncaught = t
        return m, uncaught


def random_program(rng, features=('switch',), types=('int', 'long', 'uint', 'short', 'byte', 'bool'),
                   nfuncs=0, size=12, depth=3, nexc=3):
    """Returns (Program, Machine): a program whose reference run succeeds."""
    import sys
    sys.setrecursionlimit(10000)
    while True:
        p = Program()
        exc = []
        if 'exc' in features:
            for i in range(nexc):
                base = EXCEPTION if i == 0 else rng.choice([EXCEPTION] + exc)
                exc.append(ExcClass('Exc%d' % i, base))
        p.exc = exc
        for i in range(nfuncs):
            n = rng.randint(0, 4)
            ps = []
            for j in range(n):
                mode = rng.choice(['', '', '', 'ref']) if 'refs' in features else ''
                ps.append((mode, rng.choice(types), 'a%d' % j))
            f = Func('F%d' % i, ps, rng.choice(list(types) + [None]))
            g = Gen(rng, types, list(p.funcs), exc, features)
            scope = {nm: (t, True) for _, t, nm in ps}
            f.body = g.block(scope, depth - 1, rng.randint(2, 5), None, True, f.ret or 'void')
            if f.ret:
                if not (f.body.body and isinstance(f.body.body[-1], (ReturnS, ThrowS))):
                    f.body.body.append(g.ret(f.ret, scope))
            p.funcs.append(f)
        g = Gen(rng, types, p.funcs, exc, features)
        f2 = set(features) - {'escape'}
        g.features = f2
        scope = {}
        body = []
        for t in types:
            n = g.name()
            body.append(Decl(t, n, g.lit(t)))
            scope[n] = (t, True)
        for _ in range(size):
            st = g.stmt(scope, depth, None, None, False)
            body.extend(st)
        if 'escape' in features:
            last = EXCEPTION
            body = [Try(Block(body), [(last, Block([PrintS('top')]))], None, [None])]
        # whatever happened, show the final state
        tail = []
        blk = Block(body, False)
        if not ('escape' in features):
            for n, (t, w) in scope.items():
                tail.append(Print(E('var', t, v=n)))
        tail.append(PrintS('end'))
        p.main = Block([blk] + tail, False)
        try:
            m, unc = p.run()
        except (EvalError, TooLong, RecursionError, OverflowError):
            continue
        if unc is not None or len(m.out) < 4:
            continue
        return p, m
