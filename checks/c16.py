"""C16: the text a program is written with: layout, comments, names, order of declarations and spelling of literals do
not change what it does; every literal denotes its value with its type."""
import math
import os
import random
import re
import struct
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
import c03
import c04
import c05
import c06
import c07
import c08
import c17
import c21
from suite import Case

TOKEN = re.compile(r'''
    (?P<comment>//[^\n]*|/\*.*?\*/) |
    (?P<verb>@"(?:[^"]|"")*") |
    (?P<str>"(?:[^"\\]|\\.)*") |
    (?P<chr>'(?:[^'\\]|\\.)') |
    (?P<num>\d(?:[\w'.]|(?<=[eE])[+-](?=\d))*) |
    (?P<name>[A-Za-z_]\w*) |
    (?P<op><<=|>>=|\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|\^=|==|!=|<=|>=|&&|\|\||<<|>>|::|[-+*/%&|^~!<>=?:;,.(){}\[\]]) |
    (?P<ws>\s+)
''', re.X | re.S)

KEYWORDS = set('''abstract as add base break byte bool case catch char checked class const continue decimal default delegate do
double else enum event explicit extern false finally fixed float for foreach from goto get global if implicit in int interface
internal is import lock long namespace new null object operator out override params private protected public readonly ref return
remove sbyte sealed short sizeof stackalloc static string struct switch set this throw true try typeof typedef uint ulong
unchecked unsafe ushort using virtual void volatile var while where value'''.split())
SYSTEM = set('''GetType Type ToString Tuple Abs Sign Min Max Sqrt Pow Message InnerException System Console WriteLine Write EntryPoint Math Length GetLength Rank Exception SystemException
NullReferenceException InvalidCastException OutOfRangeException Delegate Invoke MulticastDelegate Array Object String Int32
Program Main loop until UserException'''.split())


def tokens(src):
    """[(kind, text, glued to the previous token)]"""
    out, i, glued = [], 0, False
    while i < len(src):
        m = TOKEN.match(src, i)
        if not m:
            raise ValueError('cannot tokenise %r' % src[i:i + 30])
        i = m.end()
        k = m.lastgroup
        if k in ('ws', 'comment'):
            glued = False
            continue
        out.append((k, m.group(0), glued))
        glued = True
    return out


WORDY = ('name', 'num')
COMMENTS = ['/**/', '/* x */', '/* " */', "/* it's */", '/* // */', '/***/', '/* a\n b\n*/', '/* } ) ; */', '/* /* */', '// c\n',
            '// "quoted\n', "// '\n", '// */\n', '// { (\n', '//\n', '/* * / */', '//// x\n', '/** doc **/', '/* \\ */']


def spaced(r, toks, style):
    """re-emits the tokens with other white space and comments between them"""
    out = []
    prev = None
    for k, t, glued in toks:
        if prev is not None:
            pk, pt = prev
            need = pk in WORDY and k in WORDY or (pk == 'op' and k == 'op' and (pt in '<>' and t in '<>' or not t in '(){}[];,' and not pt in '(){}[];,'))
            if pt in ('-', '+') and k == 'num' or pt in ('>', '<') and t in ('>', '<', '='):
                # a sign and its number, and angle brackets, stay as they are
                out.append('' if glued else ' ')
            elif pt == '/' or t == '/':
                out.append(' ')
            else:
                q = r.random()
                if style == 'dense':
                    sep = ' ' if need else ''
                elif style == 'crlf':
                    sep = r.choice(['\r\n', ' \r\n\t', ' '])
                elif style == 'lines':
                    sep = r.choice(['\n', '\n\n', '\n    '])
                elif q < 0.35:
                    sep = r.choice([' ', '\t', '  \t ', '\n', '\r\n'])
                elif q < 0.6:
                    sep = r.choice(COMMENTS)
                    if sep.startswith('/') and pt.endswith('/'):
                        sep = ' ' + sep
                else:
                    sep = ' ' if need else ''
                out.append(sep)
        out.append(t)
        prev = (k, t)
    text = ''.join(out)
    return text + r.choice(['', '\n', '\n\n\n', ' // the end', '\n/* end */', '\r\n'])


PREFIX = ['int', 'if', 'for', 'new', 'return', 'do', 'is', 'as', 'in', 'string', 'class', 'this', 'true', 'null', 'get', 'set', 'out', 'ref',
          'base', 'long', 'case', 'else', 'try', 'void', 'using', 'import', 'char', 'default', 'const']


def renamed(r, toks):
    names = sorted({t for k, t, g in toks if k == 'name' and t not in KEYWORDS and t not in SYSTEM})
    style = r.choice(['prefix', 'under', 'case', 'long', 'mixed'])
    used, m = set(), {}
    for i, n in enumerate(names):
        st = r.choice(['prefix', 'under', 'case', 'long']) if style == 'mixed' else style
        if st == 'prefix':
            q = r.choice(PREFIX) + r.choice(['er', 'X', '_', '1', 'S', '_a']) + str(i)
        elif st == 'under':
            q = '_' * (i % 7 + 1) + r.choice(['', 'a', 'Z9_']) + str(i) + '_' * r.randint(0, 3)
        elif st == 'long':
            q = 'n' + str(i) + 'x' * r.choice([5, 60, 250, 700])
        else:
            q = ''.join(c.upper() if (i >> b) & 1 else c for b, c in enumerate('abcdefghij'[:max(3, len(names).bit_length() + 1)]))
        while q in used or q in KEYWORDS or q in SYSTEM:
            q += 'q'
        used.add(q)
        m[n] = q
    return [(k, m.get(t, t) if k == 'name' else t, g) for k, t, g in toks], len(m), style


def literals(r, toks):
    """the same values spelled differently"""
    out, n = [], 0
    for i, (k, t, g) in enumerate(toks):
        if k == 'num' and re.fullmatch(r'[1-9]\d*', t) and int(t) < 2 ** 31 and r.random() < 0.6:
            v = int(t)
            t = r.choice(['0b' + bin(v)[2:], '0B' + bin(v)[2:], '0' + oct(v)[2:], sep3(t), '0' + oct(v)[2:], '00' + oct(v)[2:]])
            n += 1
        elif k == 'num' and re.fullmatch(r'[1-9]\d*[lL]', t) and int(t[:-1]) < 2 ** 63 and r.random() < 0.6:
            v = int(t[:-1])
            t = r.choice(['0b' + bin(v)[2:], '0' + oct(v)[2:], sep3(t[:-1])]) + r.choice('lL')
            n += 1
        elif k == 'num' and re.fullmatch(r'[1-9]\d*[uU]', t) and int(t[:-1]) < 2 ** 32 and r.random() < 0.6:
            v = int(t[:-1])
            t = r.choice(['0b%s' % bin(v)[2:], '0x%X' % v, '0X%x' % v]) + r.choice(['u', 'U'])
            n += 1
        elif k == 'num' and re.fullmatch(r'\d+\.\d+', t) and r.random() < 0.7:
            a, b = t.split('.')
            t = r.choice(['%s%s.0e-%d' % (a, b, len(b)) if a != '0' else t, t + 'e0', t + '00', t + 'E+0',
                          sci(t)])
            n += 1
        elif k == 'str' and '\\' not in t and r.random() < 0.5:
            t = '@' + t
            n += 1
        out.append((k, t, g))
    return out, n


def sci(t):
    v = t.rstrip('0')
    a, b = t.split('.')
    d = (a + b).lstrip('0')
    if not d:
        return t
    return '%s.%se%d' % (d[0], d[1:] or '0', len(a) - 1 if a.strip('0') else len(d) - 1 - len(b))


def sep3(t):
    return "'".join(re.findall(r'\d{1,3}', t))


def empties(r, toks):
    """empty statements after statements that write"""
    out, start, n = [], True, 0
    writing, depth = False, 0
    for i, (k, t, g) in enumerate(toks):
        out.append((k, t, g))
        if t in ('(', '['):
            depth += 1
        elif t in (')', ']'):
            depth -= 1
        if start and t == 'Console':
            writing = True
        if depth == 0 and t in (';', '{', '}'):
            nxt = toks[i + 1][1] if i + 1 < len(toks) else ''
            if t == ';' and writing and nxt not in ('else', 'while', 'until', 'case', 'default') and r.random() < 0.3:
                out += r.choice([[('op', ';', False)], [('op', '{', False), ('op', '}', False)],
                                 [('op', '{', False), ('op', ';', False), ('op', '}', False)]])
                n += 1
            start, writing = True, False
        elif t != 'Console':
            start = False
    return out, n


def split_types(toks):
    """(head, [declarations]) of a source file; None when it has something else at the top level"""
    i = 0
    head = []
    while i < len(toks) and toks[i][1] in ('import', 'using'):
        while toks[i][1] != ';':
            head.append(toks[i])
            i += 1
        head.append(toks[i])
        i += 1
    decls, cur, depth = [], [], 0
    for k, t, g in toks[i:]:
        if not cur and t == ';' and decls:
            decls[-1].append((k, t, g))
            continue
        cur.append((k, t, g))
        if t == '{':
            depth += 1
        elif t == '}':
            depth -= 1
            if depth == 0:
                decls.append(cur)
                cur = []
        elif t == ';' and depth == 0:
            decls.append(cur)
            cur = []
    return head, decls, not cur


def shuffle_members(r, decl):
    """members of a class or struct in another order"""
    texts = [t for k, t, g in decl]
    if not any(t in ('class', 'struct') for t in texts[:texts.index('{')] if True) or 'enum' in texts[:texts.index('{')]:
        return decl, 0
    o = texts.index('{')
    members, cur, depth = [], [], 0
    body = decl[o + 1:len(decl) - 1]
    if decl[-1][1] != '}':
        return decl, 0
    for i, tk in enumerate(body):
        t = tk[1]
        cur.append(tk)
        if t in '{([' and t:
            depth += 1
        elif t in '})]' and t:
            depth -= 1
        if depth == 0 and (t == ';' or t == '}' and not any(q[1] == '=' for q in cur[:next(j for j, q in enumerate(cur) if q[1] == '{')])):
            members.append(cur)
            cur = []
    if cur or len(members) < 2:
        return decl, 0
    r.shuffle(members)
    return decl[:o + 1] + [q for m in members for q in m] + [decl[-1]], len(members)


def reordered(r, toks):
    head, decls, ok = split_types(toks)
    if not ok:
        return toks, 0
    n = 0
    out = []
    for d in decls:
        if r.random() < 0.8 and any(q[1] == '{' for q in d):
            d, k = shuffle_members(r, d)
            n += k
        out.append(d)
    r.shuffle(out)
    return head + [q for d in out for q in d], n + len(out)


def transform(chk, r, src):
    tags = []
    toks = tokens(src)
    if r.random() < 0.5:
        toks, n, st = renamed(r, toks)
        chk.count('names_changed', n)
        tags.append('names:' + st)
    if r.random() < 0.5:
        toks, n = literals(r, toks)
        chk.count('literals_respelled', n)
        tags.append('literals' if n else 'no literals')
    if r.random() < 0.4:
        toks, n = empties(r, toks)
        chk.count('empty_statements', n)
        tags.append('empty')
    if r.random() < 0.5:
        toks, n = reordered(r, toks)
        chk.count('declarations_moved', n)
        tags.append('order')
    st = r.choice(['dense', 'crlf', 'lines', 'comments', 'comments', 'comments'])
    tags.append('layout:' + st)
    chk.count('tokens', len(toks))
    return spaced(r, toks, st), tags


def rewritten(chk, scale):
    cs = []
    share = {c03: 0.12, c04: 0.12, c05: 0.16, c06: 0.14, c07: 0.16, c08: 0.2, c17: 0.08, c21: 0.12}
    for mod, q in share.items():
        for c in mod.build_cases(chk, q * scale):
            if c.key is None and len(c.files) == 1 and len(c.expected) < 60000:
                cs.append((mod.__name__, c))
    out = []
    for i, (name, c) in enumerate(cs):
        r = random.Random('C16/%d/%s/%d' % (vlib.SEED, c.name, i))
        src = c.files['main.cs']
        if len(src) > 60000:
            continue
        try:
            text, tags = transform(chk, r, src)
        except ValueError as e:
            raise vlib.HarnessError('C16 tokeniser: %s in %s' % (e, c.name))
        out.append(Case('C16 ' + c.name + ' ' + ','.join(tags), text, c.expected, ['%s/%s' % (name, t) for t in tags],
                        args=c.args))
    return out


# ---- literals

M = ('    static void T(int x) { Console.Write("int "); Console.WriteLine(x); }\n'
     '    static void T(uint x) { Console.Write("uint "); Console.WriteLine(x); }\n'
     '    static void T(long x) { Console.Write("long "); Console.WriteLine(x); }\n'
     '    static void T(ulong x) { Console.Write("ulong "); Console.WriteLine(x); }\n'
     '    static void T(double x) { Console.Write("double "); B(x); }\n'
     '    static void T(float x) { Console.Write("float "); B(x); }\n'
     '    static void T(char x) { Console.Write("char "); Console.WriteLine((int)x); }\n'
     '    static void T(string x) { Console.Write("string ["); Console.Write(x); Console.WriteLine("]"); }\n'
     '    static void T(bool x) { Console.Write("bool "); Console.WriteLine(x); }\n'
     '    static void B(double x) {\n'
     '        if (x < 0.0) { Console.Write("-"); x = 0.0 - x; }\n'
     '        int e = 0;\n'
     '        if (x > 0.0) { while (x >= 2.0) { x = x / 2.0; e = e + 1; } while (x < 1.0) { x = x * 2.0; e = e - 1; } }\n'
     '        Console.Write(e); Console.Write(":"); Console.WriteLine((long)(x * 4503599627370496.0));\n'
     '    }\n')


def bits(x):
    s = '-' if x < 0 else ''
    if x == 0:
        return s + '0:0'
    m, e = math.frexp(abs(x))
    return '%s%d:%d' % (s, e - 1, int(m * 2 * 2 ** 52))


def int_literal(r):
    bitsn = r.randint(0, 64)
    v = r.choice([r.getrandbits(bitsn) if bitsn else 0, (1 << bitsn) - 1, 1 << min(bitsn, 63)])
    v = min(v, 2 ** 64 - 1)
    radix = r.choice([10, 10, 10, 16, 2, 8])
    suffix = r.choice(['', '', '', 'u', 'U', 'l', 'L', 'UL', 'ul', 'LU', 'uL'])
    neg = r.random() < 0.3
    uns = 'u' in suffix.lower() or radix == 16
    lng = 'l' in suffix.lower()
    if neg and (uns or v > 2 ** 63):
        neg = False
    lim = 1 if neg else 0
    if lng:
        t = 'ulong' if uns or v >= 2 ** 63 + lim else 'long'
    elif uns:
        t = 'uint' if v < 2 ** 32 else 'ulong'
    elif radix == 10:
        t = 'int' if v < 2 ** 31 + lim else 'long' if v < 2 ** 63 + lim else 'ulong'
    else:
        t = 'int' if v < 2 ** 31 + lim else 'uint' if v < 2 ** 32 else 'long' if v < 2 ** 63 + lim else 'ulong'
        if neg and t == 'uint':
            neg, lim = False, 0
            t = 'int' if v < 2 ** 31 else 'uint'
    d = {10: str(v), 16: ('%x' % v), 2: bin(v)[2:], 8: oct(v)[2:]}[radix]
    if radix == 16 and r.random() < 0.5:
        d = d.upper()
    if r.random() < 0.3 and len(d) > 2 and radix in (10, 2, 8):
        k = r.randint(1, 4)
        d = "'".join(d[j:j + k] for j in range(0, len(d), k))
    p = {10: '', 16: r.choice(['0x', '0X']), 2: r.choice(['0b', '0B']), 8: r.choice(['0', '00'])}[radix]
    return ('-' if neg else '') + p + d + suffix, '%s %d' % (t, -v if neg else v), 'int%d%s' % (radix, t)


def dbl_literal(r):
    k = r.randint(0, 5)
    if k == 0:
        x = '%d.%d' % (r.randint(0, 99999), r.randint(0, 999999))
    elif k == 1:
        x = repr(struct.unpack('<d', struct.pack('<Q', r.getrandbits(63) % 0x7fe0000000000000))[0])
        if '.' not in x and 'e' not in x:
            x += '.0'
    elif k == 2:
        x = '%de%d' % (r.randint(1, 999), r.randint(-200, 200))
    elif k == 3:
        x = '0.%s%d' % ('0' * r.randint(0, 12), r.randint(1, 9999))
    elif k == 4:
        x = '0.%s%dE%s%d' % ('0' * r.randint(0, 6), r.randint(1, 9999), r.choice(['', '+', '-']), r.randint(0, 30))
    else:
        x = '%d.%de%s%d' % (r.randint(0, 99), r.randint(0, 99999), r.choice(['', '+', '-']), r.randint(0, 40))
    v = float(x)
    if r.random() < 0.3 and v < 1e38 and (v == 0 or v > 1e-37):
        f = struct.unpack('<f', struct.pack('<f', v))[0]
        return x + r.choice('fF'), 'float ' + bits(f), 'float'
    if r.random() < 0.3 and v:
        return '-' + x, 'double ' + bits(-v), 'double'
    return x, 'double ' + bits(v), 'double'


ESC = {'n': 10, 'r': 13, 't': 9, 'b': 8, 'a': 7, '0': 0, '\\': 92, '"': 34, "'": 39, 'v': 11, 'f': 12, '?': 63}


def chr_literal(r):
    if r.random() < 0.4:
        e = r.choice(sorted(ESC))
        return "'\\%s'" % e, 'char %d' % ESC[e], 'charesc' + e
    c = chr(r.choice([q for q in range(32, 127) if q not in (39, 92, 96)]))
    return "'%s'" % c, 'char %d' % ord(c), 'char'


def str_literal(r):
    out, val = [], []
    verb = r.random() < 0.3
    for _ in range(r.choice([0, 1, 2, 5, 20, 300])):
        if verb:
            c = r.choice(['\\', '""', '\n', "'", '//', '/*', 'n', ' ', '\t', '{', 'e', '@'])
            out.append(c)
            val.append('"' if c == '""' else c)
        elif r.random() < 0.3:
            e = r.choice([q for q in sorted(ESC) if q not in '0r'])
            out.append('\\' + e)
            val.append(chr(ESC[e]))
        else:
            # '<`' and '`>' switch languages anywhere in a file, so no '`'
            c = r.choice([chr(q) for q in range(32, 127) if q not in (34, 92, 96)] + ['//', '/*', '*/', "''"])
            out.append(c)
            val.append(c)
    return ('@' if verb else '') + '"%s"' % ''.join(out), 'string [%s]' % ''.join(val), 'verbatim' if verb else 'string'


def literal_cases(chk, n):
    out = []
    for i in range(n):
        r = random.Random('C16l/%d/%d' % (vlib.SEED, i))
        body, exp, tags = [], [], set()
        for _ in range(r.randint(15, 40)):
            f = r.choice([int_literal, int_literal, dbl_literal, dbl_literal, chr_literal, str_literal])
            s, e, t = f(r)
            if r.random() < 0.5:
                body.append('T(%s);' % s)
            else:
                ty = e.split()[0]
                body.append('%s v%d = %s; T(v%d);' % (ty, len(body), s, len(body)))
            exp.append(e)
            tags.add(t)
            chk.count('literals_judged')
        o = (0, 0, 2)[i % 3]
        out.append(Case('C16 literals#%d seed %d -O%d' % (i, vlib.SEED, o), vlib.program('\n'.join(body), M),
                        '\n'.join(exp) + '\n', tags, args=('-O', str(o)) if o else ()))
    return out


def build_cases(chk, scale=1.0):
    n = lambda a, b: max(1, int(chk.scale(a, b) * scale))
    return rewritten(chk, scale) + literal_cases(chk, n(200, 6000))


def main():
    chk = vlib.Check('C16', rule=(
        'Programs of C03-C08 and C17 retokenised and written again with other white space (dense, one token per line, CRLF, '
        'comments holding quotes, braces and comment marks between any two tokens), other names (keyword prefixes, underscores, '
        'case-only differences, 700 characters), other spellings of literals (binary, octal, separators, scientific, verbatim), '
        'empty statements, types and members in another order; the output stays the reference output. Literal tables: value and '
        'type of random integer, floating (compared bit by bit), character and string literals. Distinct: generator x transformation, literal forms.'),
        assumptions=['ASCII source text', 'a sign stays attached to (or apart from) its number: -5 is one literal'])
    fl = vlib.build_plain()
    suite.run_cases(chk, fl, build_cases(chk))
    chk.finish(60)


if __name__ == '__main__':
    suite.main(main)
