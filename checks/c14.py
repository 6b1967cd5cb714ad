"""C14: a program with an error the compiler diagnoses is rejected: a diagnostic at the offending line, nothing executed.

Every case is a pair: a valid host program and the same program with exactly one error planted in it. The valid one
must run to its end (so that the rejection cannot come from the host); the broken one must print a diagnostic for the line
the error is on, execute nothing, and end without being killed by a signal."""
import os
import re
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vlib
import suite
from suite import Case

TYPES = '''
interface Ia { int Ma(int x); }
interface Ib { int Mb(); }
abstract class Ab { public int w; public Ab() { } public abstract int Aa(); }
class Ba { private int pr; public int qu; public const int Kc = 5; public Ba(int x) { pr = x; qu = x; }
  public virtual int Vi(int k) { return pr + k; } private int Pv() { return pr; } protected int Pt() { return pr; }
  public int Nv() { return pr; } public static int St(int z) { return z; } }
class De : Ba { public long dl; public De() : base(1) { dl = 7L; } public override int Vi(int k) { return 9 + k; } }
class Im : Ia { public Im() { } public int Ma(int x) { return x + 1; } }
class Ot { public string tx; public Ot() { tx = "t"; } }
struct Sv { public int sx; public int sy; }
enum En { Aa, Bb, Cc }
class Ac { private int p1; protected int p2; public int p3; private static int s1; protected static int s2; public static int s3; public readonly int ro;
 public Ac() { p1 = 1; p2 = 2; p3 = 3; ro = 4; } private Ac(int q) { p1 = q; } protected Ac(string q) { p1 = 1; }
 private int Pp { get { return p1; } set { p1 = value; } } protected int Pq { get { return p2; } set { p2 = value; } } public int Pr { get { return p3; } set { p3 = value; } }
 public int Rd { get { return p1; } } public int Wr { set { p1 = value; } }
 private static int Sp { get { return K2; } } public static int Sq { get { return K2; } }
 private static int Sm() { return K2; } protected static int Sn() { return K2; } public static int So() { return K2; }
 private const int K1 = 3; public const int K2 = 4; protected const int K3 = 5; 
 private class Ni { public int z; public Ni() { } } public class Np { public int z; public Np() { } } }
class Ix { private int[] a; public Ix() { a = new int[4]; } private int this[int i] { get { return a[i]; } set { a[i] = value; } } }
class Iy { private int[] a; public Iy() { a = new int[4]; } public int this[int i] { get { return a[i]; } set { a[i] = value; } } }
class Iz { private int[] a; public Iz() { a = new int[4]; } public int this[int i] { get { return a[i]; } } }
static class Sc { public static int F() { return 1; } }
'''
MEMBERS = '''
static void Am(string s) { } static void Am(Ba b) { }
static int Fi(int a, int b) { return a + b; }
static long Fl(long a) { return a; }
static string Fs(string s) { return s; }
static bool Fb(bool b) { return b; }
static void Fr(ref int a) { a = a + 1; }
static void Fn(int a) { }
static Ba Fo(Ba b) { return b; }
static void Fv() { }
'''

INSTANCE = '''
int pif; int[] pia; Delegate<int> pid; int Pip { get { return pif; } set { pif = value; } } int Pim(int q) { return q; } int Pin() { return 1; }
static int Psp { get { return 3; } set { } } static int Psn() { return 1; }
'''

# expressions that stand for an int: (category, broken, valid)
BAD_INT = [
    ('undefined variable', 'zz9', '4'),
    ('undefined variable', '(zz9 + 1)', '(4 + 1)'),
    ('undefined variable', 'Fi(1, nowhere)', 'Fi(1, 2)'),
    ('undefined function', 'Foo(1)', 'Fi(1, 1)'),
    ('undefined function', 'Fi(Bar(), 2)', 'Fi(3, 2)'),
    ('undefined member', 'vb.nope', 'vb.qu'),
    ('undefined member', 'vs.sz', 'vs.sx'),
    ('undefined method', 'vb.Nope(1)', 'vb.Vi(1)'),
    ('undefined method', 'Ba.Nope(1)', 'Ba.St(1)'),
    ('undefined method', 'via.Nope(1)', 'via.Ma(1)'),
    ('too few arguments', 'Fi(1)', 'Fi(1, 2)'),
    ('too few arguments', 'Fi()', 'Fi(1, 2)'),
    ('too many arguments', 'Fi(1, 2, 3)', 'Fi(1, 2)'),
    ('too many arguments', 'vb.Nv(1)', 'vb.Nv()'),
    ('too few arguments', 'vb.Vi()', 'vb.Vi(2)'),
    ('argument type', 'Fi("x", 1)', 'Fi(1, 1)'),
    ('argument type', 'Fi(1, true)', 'Fi(1, 1)'),
    ('argument type', 'Fi(1, vl)', 'Fi(1, vi)'),
    ('argument type', 'Fi(vd, 1)', 'Fi(vi, 1)'),
    ('argument type', 'Fi(vb, 1)', 'Fi(vb.qu, 1)'),
    ('argument type', 'vb.Vi("x")', 'vb.Vi(3)'),
    ('argument type', 'vb.Vi(vl)', 'vb.Vi(vi)'),
    ('argument type', 'via.Ma("x")', 'via.Ma(3)'),
    ('argument type', 'Ba.St(vb)', 'Ba.St(vi)'),
    ('constructor argument', 'new Ba("x").qu', 'new Ba(2).qu'),
    ('constructor argument', 'new Ba(vl).qu', 'new Ba(vi).qu'),
    ('private member', 'vb.pr', 'vb.qu'),
    ('private member', 'vb.Pv()', 'vb.Nv()'),
    ('protected member', 'vb.Pt()', 'vb.Nv()'),
    ('member of a number', 'vi.foo', 'vb.qu'),
    ('subscript of a number', 'vi[0]', 'va[0]'),
    ('wrong operand', '(vb + 1)', '(vi + 1)'),
    ('wrong operand', '(vt - vt)', '(vi - vi)'),
    ('wrong operand', '(vo * 2)', '(vi * 2)'),
    ('wrong operand', '(vi & vb)', '(vi & vi)'),
    ('reference argument', 'Fi(ref vi, 1)', 'Fi(vi, 1)'),
    ('undefined static member', 'Ba.Zed', 'Ba.Kc'),
    ('undefined enum member', '(int)En.Zz', '(int)En.Bb'),
]

# places an int expression can occur in a statement list
INT_CTX = [
    ('initialiser', 'int r1 = %s; Fn(r1);'),
    ('assignment', 'vi = %s;'),
    ('operand', 'vi = vi + (2 * %s);'),
    ('argument', 'Fn(%s);'),
    ('nested argument', 'Fn(Fi(%s, 3));'),
    ('subscript', 'va[%s & 1] = 3;'),
    ('element', 'va[0] = %s;'),
    ('if condition', 'if (%s > 100) { vi = 1; }'),
    ('while condition', 'while (%s < -100000) { vi = 1; }'),
    ('for start', 'for (int r2 = %s; r2 < 0; r2++) { vi = 2; }'),
    ('for condition', 'for (int r3 = 0; r3 < %s - 1000; r3++) { vi = 2; }'),
    ('for step', 'for (int r4 = 0; r4 < 1; r4 = r4 + 1 + %s) { vi = 2; }'),
    ('switch', 'switch (%s) { case 1: vi = 1; break; default: vi = 2; break; }'),
    ('case body', 'switch (vi) { case 1: vi = %s; break; default: vi = 2; break; }'),
    ('conditional', 'vi = vi > 0 ? %s : 1;'),
    ('else branch', 'if (vi > 0) { vi = 1; } else { vi = %s; }'),
    ('try', 'try { vi = %s; } catch (Exception ex1) { vi = 1; }'),
    ('catch', 'try { vi = 1; } catch (Exception ex1) { vi = %s; }'),
    ('finally', 'try { vi = 1; } finally { vi = %s; }'),
    ('field', 'vb.qu = %s;'),
    ('struct field', 'vs.sx = %s;'),
    ('constructor', 'vb = new Ba(%s);'),
    ('length', 'va = new int[%s & 7 | 2];'),
    ('method', 'vi = vb.Vi(%s);'),
    ('lambda', None),
    ('logical', 'vo = vo && %s > 3;'),
    ('compound', 'vi += %s;'),
    ('write', 'if (vi > 1000000000) { Console.WriteLine(%s); }'),
    ('nested block', '{ { if (vo) { while (vo) { vi = %s; vo = false; } } } }'),
    ('do body', 'do { vi = %s; } while (vi < -100000);'),
    ('dead code', 'if (false) { vi = %s; }'),
]

# statements: (category, broken, valid)
BAD_STMT = [
    ('conversion', 'vi = vt;', 'vi = 3;'),
    ('conversion', 'vt = 5;', 'vt = "5";'),
    ('conversion', 'vo = 1;', 'vo = true;'),
    ('conversion', 'vi = true;', 'vi = 1;'),
    ('conversion', 'vi = vb;', 'vi = vb.qu;'),
    ('conversion', 'vt = vb;', 'vt = null;'),
    ('conversion', 'vb = vi;', 'vb = new Ba(vi);'),
    ('conversion', 'De r5 = vb;', 'De r5 = new De();'),
    ('conversion', 'Ot r6 = vb;', 'Ot r6 = new Ot();'),
    ('conversion', 'vb = new Ot();', 'vb = new De();'),
    ('conversion', 'Ia r7 = vb;', 'Ia r7 = new Im();'),
    ('conversion', 'Sv r8 = vb;', 'Sv r8 = vs;'),
    ('conversion', 'vs = 3;', 'vs.sx = 3;'),
    ('conversion', 'int r9 = vl;', 'int r9 = (int)vl;'),
    ('conversion', 'int[] r10 = new long[3];', 'int[] r10 = new int[3];'),
    ('conversion', 'va = vi;', 'va = new int[5];'),
    ('conversion', 'vi = va;', 'vi = va[0];'),
    ('conversion', 'uint r11 = vl;', 'uint r11 = (uint)vl;'),
    ('conversion', 'float r12 = vd;', 'float r12 = (float)vd;'),
    ('conversion', 'long r13 = vd;', 'long r13 = (long)vd;'),
    ('conversion', 'vs.sx = vt;', 'vs.sx = vi;'),
    ('conversion', 'En r14 = vt;', 'En r14 = En.Aa;'),
    ('conversion', 'Fo(new Ot());', 'Fo(new De());'),
    ('conversion', 'Fs(vi);', 'Fs(vt);'),
    ('conversion', 'Fb(vi);', 'Fb(vo);'),
    ('conversion', 'Fl(vd);', 'Fl(vi);'),
    ('out of scope', '{ int r15 = 1; } Fn(r15);', '{ int r15 = 1; Fn(r15); }'),
    ('out of scope', 'for (int r16 = 0; r16 < 1; r16++) { } Fn(r16);', 'for (int r16 = 0; r16 < 1; r16++) { Fn(r16); }'),
    ('out of scope', 'try { int r17 = 1; } finally { Fn(r17); }', 'try { int r17 = 1; Fn(r17); } finally { }'),
    ('out of scope', 'if (vo) { int r18 = 1; } else { Fn(r18); }', 'if (vo) { int r18 = 1; Fn(r18); } else { }'),
    ('out of scope', 'try { } catch (Exception r19) { } Ba r20 = r19;', 'try { } catch (Exception r19) { Exception r20 = r19; }'),
    ('undefined type', 'Zork r21 = null;', 'Ba r21 = null;'),
    ('undefined type', 'vb = new Zork(1);', 'vb = new Ba(1);'),
    ('undefined type', 'Zork[] r22 = null;', 'Ba[] r22 = null;'),
    ('undefined type', 'object r23 = (Zork)null;', 'object r23 = (Ba)null;'),
    ('undefined type', 'object r24 = vb; vo = r24 is Zork;', 'object r24 = vb; vo = r24 is Ba;'),
    ('undefined type', 'object r25 = vb; r25 = r25 as Zork;', 'object r25 = vb; r25 = r25 as Ba;'),
    ('undefined type', 'try { } catch (Zork r26) { }', 'try { } catch (Exception r26) { }'),
    ('undefined method', 'Console.Nope(1);', 'Console.Write("");'),
    ('undefined method', 'vb.Nope();', 'vb.Nv();'),
    ('undefined method', 'Nope();', 'Fv();'),
    ('undefined variable', 'zz9 = 3;', 'vi = 3;'),
    ('undefined variable', 'zz9++;', 'vi++;'),
    ('undefined variable', 'Fr(ref zz9);', 'Fr(ref vi);'),
    ('undefined member', 'vb.nope = 3;', 'vb.qu = 3;'),
    ('undefined member', 'vs.nope = 3;', 'vs.sx = 3;'),
    ('private member', 'vb.pr = 3;', 'vb.qu = 3;'),
    ('member of a number', 'vi.foo = 1;', 'vs.sx = 1;'),
    ('subscript of a number', 'vi[0] = 1;', 'va[0] = 1;'),
    ('reference argument', 'Fr(vi);', 'Fr(ref vi);'),
    ('reference argument', 'Fr(ref vl);', 'Fr(ref vi);'),
    ('reference argument', 'Fn(ref vi);', 'Fn(vi);'),
    ('rethrow outside catch', 'if (vi == 99) throw;', 'if (vi == 99) throw new Exception();'),
    ('rethrow outside catch', 'try { throw; } catch (Exception r50) { }', 'try { } catch (Exception r50) { }'),
    ('rethrow outside catch', 'try { vi = 1; } catch (Exception r50) { throw; } finally { if (vi == 99) throw; }',
     'try { vi = 1; } catch (Exception r50) { throw; } finally { if (vi == 99) throw new Exception(); }'),
    ('this in static', 'Console.WriteLine(this);', 'Console.Write("");'),
    ('this in static', 'vi = this.pif;', 'vi = Psp;'),
    ('this in static', 'this.pif = 4;', 'Psp = 4;'),
    ('this in static', 'vi = this.Pim(3);', 'vi = Psn();'),
    ('this in static', 'Program r41 = this;', 'Program r41 = new Program();'),
    ('instance member in static', 'vi = pif;', 'vi = Psp;'),
    ('instance member in static', 'pif = 3;', 'Psp = 3;'),
    ('instance member in static', 'pif++;', 'vi++;'),
    ('instance member in static', 'pif += 2;', 'vi += 2;'),
    ('instance member in static', 'Fr(ref pif);', 'Fr(ref vi);'),
    ('instance member in static', 'vi = Pip;', 'vi = Psp;'),
    ('instance member in static', 'Pip = vi;', 'Psp = vi;'),
    ('instance member in static', 'Pim(3);', 'Psn();'),
    ('instance member in static', 'vi = Pim(vi) + 1;', 'vi = Psn() + 1;'),
    ('instance member in static', 'vi = pia[1];', 'vi = va[1];'),
    ('instance member in static', 'pia[1] = 2;', 'va[1] = 2;'),
    ('instance member in static', 'vi = pia.Length;', 'vi = va.Length;'),
    ('instance member in static', 'Delegate<int> r42 = Pin;', 'Delegate<int> r42 = Psn;'),
    ('instance member in static', 'vi = pid();', 'vi = Psn();'),
    ('new interface', 'Ia r28 = new Ia();', 'Ia r28 = new Im();'),
    ('constant', 'const int r29 = vi;', 'const int r29 = 3;'),
    ('wrong operand', 'vo = !vi;', 'vo = !vo;'),
    ('wrong operand', 'vo = 1 == vt;', 'vo = 1 == vi;'),
    ('wrong operand', 'vt = vt - vt;', 'vt = vt;'),
    ('wrong operand', 'vi = vo + 1;', 'vi = vi + 1;'),
    ('constructor argument', 'vb = new Ba("x");', 'vb = new Ba(1);'),
    ('constructor argument', 'vb = new Ba(1, 2);', 'vb = new Ba(1);'),
    ('syntax', 'int r30 = 5 vi = r30;', 'int r30 = 5; vi = r30;'),
    ('syntax', 'Console.Write("";', 'Console.Write("");'),
    ('syntax', 'int r31 = 5 +;', 'int r31 = 5 + 1;'),
    ('syntax', 'int r32 = 5 5;', 'int r32 = 5;'),
    ('syntax', 'for (int r33 = 0; r33 < 5) { }', 'for (int r33 = 0; r33 < 5;) { r33 = 9; }'),
    ('syntax', 'vi = (3;', 'vi = (3);'),
    ('syntax', 'vi = va[0;', 'vi = va[0];'),
    ('syntax', 'vi = * 3;', 'vi = 3;'),
    ('duplicate', 'int r39 = 1; int r39 = 2;', 'int r39 = 1; int r40 = 2;'),
    ('duplicate', 'int r39 = 1; string r39 = null;', 'int r39 = 1; string r40 = null;'),
    ('duplicate', 'int r39 = 1, r39 = 2;', 'int r39 = 1, r40 = 2;'),
    ('null', 'vi = null;', 'vi = 0;'),
    ('null', 'int r41 = null;', 'int r41 = 0;'),
    ('null', 'vo = null;', 'vo = false;'),
    ('null', 'double r42 = null;', 'double r42 = 0.0;'),
    ('null', 'vs = null;', 'vs = new Sv();'),
    ('null', 'Sv r43 = null;', 'Sv r43 = new Sv();'),
    ('null', 'Fi(1, null);', 'Fi(1, 2);'),
    ('null', 'En r44 = null;', 'En r44 = En.Aa;'),
    ('syntax', 'int = 5;', 'int r45 = 5;'),
    ('literal', "char r34 = 'ab';", "char r34 = 'a';"),
    ('literal', "char r35 = '';", "char r35 = ' ';"),
    ('literal', 'int r37 = 0x1p3;', 'int r37 = 9;'),
    ('literal', 'int r38 = 12abc;', 'int r38 = 12;'),
    ('private property', 'vi = ac.Pp;', 'vi = ac.Pr;'),
    ('private property', 'ac.Pp = 3;', 'ac.Pr = 3;'),
    ('protected property', 'vi = ac.Pq;', 'vi = ac.Pr;'),
    ('protected property', 'ac.Pq = 3;', 'ac.Pr = 3;'),
    ('protected field', 'vi = ac.p2;', 'vi = ac.p3;'),
    ('protected field', 'ac.p2 = 1;', 'ac.p3 = 1;'),
    ('private static field', 'vi = Ac.s1;', 'vi = Ac.K2;'),
    ('private static field', 'Ac.s1 = 2;', 'vi = 2;'),
    ('protected static field', 'vi = Ac.s2;', 'vi = Ac.K2;'),
    ('private static property', 'vi = Ac.Sp;', 'vi = Ac.Sq;'),
    ('private static method', 'vi = Ac.Sm();', 'vi = Ac.So();'),
    ('protected static method', 'vi = Ac.Sn();', 'vi = Ac.So();'),
    ('private const', 'vi = Ac.K1;', 'vi = Ac.K2;'),
    ('protected const', 'vi = Ac.K3;', 'vi = Ac.K2;'),
    ('nested private', 'Ac.Ni q2 = null;', 'Ac.Np q2 = null;'),
    ('property args', 'vi = ac.Pr();', 'vi = ac.Pr;'),
    ('method as value', 'vi = vb.Nv;', 'vi = vb.Nv();'),
    ('indexer type', 'vi = new Iy()["x"];', 'vi = new Iy()[1];'),
    ('indexer count', 'vi = new Iy()[1, 2];', 'vi = new Iy()[1];'),
    ('rank', 'int[,] q4 = new int[3];', 'int[,] q4 = new int[3, 3];'),
    ('rank', 'int[] q4 = new int[3, 3];', 'int[] q4 = new int[3];'),
    ('elem', 'Ba[] q5 = new Ot[3];', 'Ba[] q5 = new Ba[3];'),
    ('as', 'Ot q8 = vb as De;', 'Ba q8 = vb as De;'),
    ('goto case', 'switch (vi) { case 1: goto case 9; }', 'switch (vi) { case 1: break; }'),
    ('bool op', 'vo = vo && vi;', 'vo = vo && vo;'),
    ('bool op', 'vo = vi || vo;', 'vo = vo || vo;'),
    ('neg', 'vt = -vt;', 'vi = -vi;'),
    ('neg', 'vo = -vo;', 'vi = -vi;'),
    ('neg', 'vb = -vb;', 'vi = -vi;'),
    ('not', 'vt = ~vt;', 'vi = ~vi;'),
    ('not', 'vo = !vt;', 'vo = !vo;'),
    ('incr', 'vo++;', 'vi++;'),
    ('incr', 'vt++;', 'vi++;'),
    ('incr', 'vb++;', 'vi++;'),
    ('lvalue', '(vi) += "x";', 'vi += 1;'),
    ('compound', 'vi += vt;', 'vi += vi;'),
    ('compound', 'vo += vo;', 'vo = vo;'),
    ('compound', 'vi <<= vt;', 'vi <<= 2;'),
    ('compound', 'vb += vb;', 'vb = vb;'),
    ('compound', 'vi &= vd;', 'vi &= vi;'),
    ('shift', 'vi = vi << vd;', 'vi = vi << 2;'),
    ('shift', 'vi = vd << 2;', 'vi = vi << 2;'),
    ('mod', 'vt = vt % vt;', 'vi = vi % 2;'),
    ('rel', 'vo = vt < vt;', 'vo = vi < vi;'),
    ('rel', 'vo = vb < vb;', 'vo = vi < vi;'),
    ('rel', 'vo = vo < vo;', 'vo = vi < vi;'),
    ('rel', 'vo = vi < vt;', 'vo = vi < vi;'),
    ('eq', 'vo = vb == vi;', 'vo = vb == vb;'),
    ('eq', 'vo = vb == vt;', 'vo = vb == null;'),
    ('eq', 'vo = vo == vi;', 'vo = vo == vo;'),
    ('eq', 'vo = vs == vs;', 'vo = vi == vi;'),
    ('void', 'vi = Fv();', 'Fv();'),
    ('void', 'Fn(Fv());', 'Fn(1);'),
    ('void', 'int q14 = Fv();', 'int q14 = 1;'),
    ('var', 'var q16;', 'var q16 = 3;'),
    ('ref', 'Fr(ref 5);', 'Fr(ref vi);'),
    ('ref', 'Fr(ref (vi + 1));', 'Fr(ref vi);'),
    ('ref', 'Fr(out vi);', 'Fr(ref vi);'),
    ('typeof', 'Type q21 = typeof(Zork);', 'Type q21 = typeof(Ba);'),
    ('escape', 'vt = "\\q";', 'vt = "\\n";'),
    ('narrow', 'byte q23 = vi;', 'byte q23 = (byte)vi;'),
    ('narrow', 'short q23 = vi;', 'short q23 = (short)vi;'),
    ('narrow', 'uint q23 = vi;', 'uint q23 = (uint)vi;'),
    ('narrow', 'ulong q23 = vi;', 'ulong q23 = (ulong)vi;'),
    ('narrow', 'ulong q23 = vl;', 'ulong q23 = (ulong)vl;'),
    ('narrow', 'char q23 = vi;', 'char q23 = (char)vi;'),
    ('narrow', 'int q23 = vd;', 'int q23 = (int)vd;'),
    ('narrow', 'int q23 = 1.5;', 'int q23 = 1;'),
    ('narrow', 'float q23 = 1.5;', 'double q23 = 1.5;'),
    ('base', 'vi = base.Vi(1);', 'vi = vb.Vi(1);'),
    ('array init', 'int[,] q24 = new int[,] { { 1, 2 }, { 3 } };', 'int[,] q24 = new int[,] { { 1, 2 }, { 3, 4 } };'),
    ('ambiguous', 'Am(null);', 'Am("x");'),
]

# members: (category, broken, valid), placed in Program
BAD_MEMBER = [
    ('return', 'static int Ga() { return; }', 'static int Ga() { return 1; }'),
    ('return', 'static int Ga() { return "x"; }', 'static int Ga() { return 1; }'),
    ('return', 'static int Ga(long l) { return l; }', 'static int Ga(long l) { return (int)l; }'),
    ('return', 'static void Ga() { return 5; }', 'static void Ga() { return; }'),
    ('return', 'static Ba Ga() { return new Ot(); }', 'static Ba Ga() { return new De(); }'),
    ('return', 'static bool Ga(int x) { return x; }', 'static bool Ga(int x) { return x > 0; }'),
    ('missing return', 'static int Ga(bool b) { if (b) return 1; }', 'static int Ga(bool b) { if (b) return 1; return 2; }'),
    ('missing return', 'static int Ga(bool b) { while (b) { return 1; } }', 'static int Ga(bool b) { while (b) { return 1; } return 2; }'),
    ('missing return', 'static int Ga() { }', 'static int Ga() { return 1; }'),
    ('missing return', 'static int Ga(int k) { switch (k) { case 1: return 1; } }', 'static int Ga(int k) { switch (k) { case 1: return 1; } return 0; }'),
    ('missing return', 'static int Ga(bool b) { if (b) { return 1; } else { Fv(); } }', 'static int Ga(bool b) { if (b) { return 1; } else { Fv(); } return 3; }'),
    ('duplicate', 'static int Ga(int a, int a) { return 1; }', 'static int Ga(int a, int b) { return 1; }'),
    ('duplicate', 'static int Ga(int a) { return 1; } static int Ga(int b) { return 2; }', 'static int Ga(int a) { return 1; } static int Ga(long b) { return 2; }'),
    ('undefined type', 'static void Ga(Zork z) { }', 'static void Ga(Ba z) { }'),
    ('undefined type', 'static Zork Ga() { return null; }', 'static Ba Ga() { return null; }'),
]

# types
BAD_TYPE = [
    ('duplicate', 'class Xa { public int a; public int a; public Xa() { } }', 'class Xa { public int a; public int b; public Xa() { } }'),
    ('duplicate', 'class Xa { public Xa() { } } class Xa { public Xa() { } }', 'class Xa { public Xa() { } } class Xb { public Xb() { } }'),
    ('duplicate', 'enum Xe { A, A }', 'enum Xe { A, B }'),
    ('duplicate', 'class Xa { public Xa() { } public int M(int a) { return 1; } public int M(int b) { return 2; } }',
     'class Xa { public Xa() { } public int M(int a) { return 1; } public int M(long b) { return 2; } }'),
    ('override', 'class Xa { public Xa() { } public override int Zz() { return 1; } }', 'class Xa { public Xa() { } public virtual int Zz() { return 1; } }'),
    ('override', 'class Xa : Ba { public Xa() : base(1) { } public override int Nv() { return 1; } }',
     'class Xa : Ba { public Xa() : base(1) { } public override int Vi(int k) { return 1; } }'),
    ('override', 'class Xa : Ba { public Xa() : base(1) { } public override long Vi(int k) { return 1L; } }',
     'class Xa : Ba { public Xa() : base(1) { } public override int Vi(int k) { return 1; } }'),
    ('override', 'class Xa : Ba { public Xa() : base(1) { } public override int Vi(long k) { return 1; } }',
     'class Xa : Ba { public Xa() : base(1) { } public override int Vi(int k) { return 1; } }'),
    ('cyclic base', 'class Xa : Xb { public Xa() { } } class Xb : Xa { public Xb() { } }', 'class Xa : Xb { public Xa() { } } class Xb { public Xb() { } }'),
    ('cyclic base', 'class Xa : Xa { public Xa() { } }', 'class Xa { public Xa() { } }'),
    ('cyclic base', 'class Xa : Xb { public Xa() { } } class Xb : Xc { public Xb() { } } class Xc : Xa { public Xc() { } }',
     'class Xa : Xb { public Xa() { } } class Xb : Xc { public Xb() { } } class Xc { public Xc() { } }'),
    ('constructor argument', 'class Xa : Ba { public Xa() : base("x") { } }', 'class Xa : Ba { public Xa() : base(1) { } }'),
    ('undefined type', 'class Xa : Zork { public Xa() { } }', 'class Xa : Ba { public Xa() : base(1) { } }'),
    ('undefined type', 'class Xa { public Zork z; public Xa() { } }', 'class Xa { public Ba z; public Xa() { } }'),
    ('undefined member', 'class Xa : Ba { public Xa() : base(1) { } public int Q() { return this.zork; } }',
     'class Xa : Ba { public Xa() : base(1) { } public int Q() { return this.qu; } }'),
    ('private member', 'class Xa : Ba { public Xa() : base(1) { } public int Q() { return this.pr; } }',
     'class Xa : Ba { public Xa() : base(1) { } public int Q() { return this.qu; } }'),
    ('instance member in static', 'class Xa : Ba { public Xa() : base(1) { } public static int Q() { return qu; } }',
     'class Xa : Ba { public Xa() : base(1) { } public int Q() { return qu; } }'),
    ('instance member in static', 'class Xa : Ba { public Xa() : base(1) { } public static int Q() { return Nv(); } }',
     'class Xa : Ba { public Xa() : base(1) { } public int Q() { return Nv(); } }'),
    ('instance member in static', 'class Xa : Ba { public Xa() : base(1) { } public static int Q() { return base.Nv(); } }',
     'class Xa : Ba { public Xa() : base(1) { } public int Q() { return base.Nv(); } }'),
    ('private member', 'class Xa : Ba { public Xa() : base(1) { } public int Q() { return pr; } }',
     'class Xa : Ba { public Xa() : base(1) { } public int Q() { return qu; } }'),
    ('instance member in static', 'class Xa { int a; public Xa() { } public static int Q { get { return a; } } }',
     'class Xa { int a; public Xa() { } public int Q { get { return a; } } }'),
    ('instance member in static', 'class Xa { int a; public Xa() { } public static int Q { set { a = value; } } }',
     'class Xa { int a; public Xa() { } public int Q { set { a = value; } } }'),
    ('syntax', 'classs Xa { public Xa() { } }', 'class Xa { public Xa() { } }'),
]

NOISE = [
    'vi = vi * 3 + 1;', 'vl = vl + vi;', 'va[1] = vi;', 'if (vo) { vi = vi + 1; } else { vi = 2; }',
    'for (int n1 = 0; n1 < 3; n1++) { vi += n1; }', 'vb.qu = vi;', 'vs.sy = vs.sx + 1;', 'vt = "a;b{c";', 'vd = vd / 2.0;',
    'while (vi > 1000000) { vi = vi / 2; }', 'try { vb.qu = 5; } catch (Exception n2) { vi = 0; } finally { vl = 1L; }',
    '/* note } */ vi++;', '// line { comment\n', 'vi = vb.Vi(2);', 'vi = via.Ma(vi);', 'switch (vi) { case 3: vi = 1; break; default: break; }',
    'vo = vi > 3 && vl < 7L || vo;', 'Fr(ref vi);', 'vb = new De();', 'Fv();', ';',
]
LOCALS = '''int vi = 3; long vl = 4L; double vd = 1.5; bool vo = true; string vt = "s"; int[] va = new int[4];
Ba vb = new Ba(6); Sv vs = new Sv(); Ia via = new Im(); Ac ac = new Ac();'''

# where a statement list with these locals stands: (name, text with @L@ @S@, whether it needs locals); the code is never run
PLACES = [
    ('Main', None, None, None),
    ('static method', '@L@ @S@', 'static void Pa() { @B@ }', None),
    ('instance method', '@L@ @S@', None, 'class Pc { public int f; public Pc() { } public void Pm(int arg) { @B@ } }'),
    ('constructor', '@L@ @S@', None, 'class Pc { public int f; public Pc(int arg) { @B@ } }'),
    ('getter', '@L@ @S@', None, 'class Pc { public Pc() { } public int Pp { get { @B@ return 1; } } }'),
    ('setter', '@L@ @S@', None, 'class Pc { public Pc() { } public int Pp { get { return 1; } set { @B@ } } }'),
    ('override', '@L@ @S@', None, 'class Pc : Ba { public Pc() : base(1) { } public override int Vi(int k) { @B@ return 1; } }'),
    ('struct method', '@L@ @S@', None, 'struct Ps { public int f; public void Pm(int arg) { @B@ } }'),
]
MULTI = ('instance method', 'constructor', 'getter', 'setter', 'override', 'struct method')


def host(body, members, types):
    return 'import System;\nusing System;\n' + types + '\nclass Program {\n[EntryPoint]\npublic static void Main() {\nConsole.WriteLine("START");\n' \
        + body + '\nConsole.WriteLine("END");\n}\n' + members + '\n}\n'


def statement_pair(r, cat, bad, good, tags):
    name, _, mem, typ = r.choice(PLACES)
    if cat == 'protected member' and name == 'override':
        name, _, mem, typ = PLACES[1]
    if cat in ('this in static', 'instance member in static', 'base'):
        name, _, mem, typ = PLACES[r.randint(0, 1)]
    pre = [r.choice(NOISE) for _ in range(r.randint(0, 4))]
    post = [r.choice(NOISE) for _ in range(r.randint(0, 4))]
    wrap = r.choice(['%s', '%s', '{ %s }', 'if (vi > 0) { %s }', 'while (vo) { %s break; }', 'try { %s } finally { vi = 1; }'])

    def build(s):
        # the planted line stands alone so that the diagnostic's line number can be judged
        mid = (wrap % ('\n' + s + '\n'))
        b = '%s\n%s\n%s\n%s' % (LOCALS, '\n'.join(pre), mid, '\n'.join(post))
        if mem is None and typ is None:
            return host(b, mem_text(''), TYPES)
        if mem is not None:
            return host('', mem_text(mem.replace('@B@', '\n' + b + '\n')), TYPES)
        # Fi and the other helpers are Program's: the class gets its own
        return host('', mem_text(''), TYPES + typ.replace('@B@', '\n' + b + '\n').replace('{ public', '{ ' + MEMBERS.replace('\n', ' ') + ' public', 1))
    return build(bad), build(good), bad, name, tags


def mem_text(extra):
    return MEMBERS + INSTANCE + extra


def main():
    chk = vlib.Check('C14', rule='the valid twin runs to its end; the broken one prints a diagnostic (at the offending line when it names lines), '
                     'executes nothing and is not killed',
                     assumptions=['errors of the listed kinds; kinds the compiler does not diagnose are listed in DESIGN.md'])
    fl = vlib.build_plain()
    pairs = build_pairs(chk)
    opts = [(), ('-O', '0'), ('-O', '1'), ('-O', '2'), ('-O', '3')]

    def one(q):
        i, (cat, ctx, bad_src, good_src, bad, place, _) = q
        if vlib.out_of_time():
            return None
        args = opts[(i * 7 + vlib.SEED) % len(opts)]
        w, src = judge_good(suite.run(fl, {'main.cs': good_src}, args)), good_src
        if w is None:
            b = suite.run(fl, {'main.cs': bad_src}, args)
            w, src = judge_bad(b, bad_src, bad), bad_src
        return cat, ctx, place, w, src, good_src, bad, args

    for cat, ctx, place, w, src, good_src, bad, args in vlib.pmap(one, list(enumerate(pairs))):
        chk.saw(1, distinct='%s/%s/%s' % (cat, ctx, place), sample={'kind': cat, 'where': place, 'planted': bad} if bad else None)
        chk.count('rejected: ' + cat)
        if w is not None:
            chk.violation('%s in %s (%s) %s: %s' % (cat, place, ctx, ' '.join(args), w), {'main.cs': src, 'valid.cs': good_src})
    chk.finish(200)


def build_pairs(chk, scale=1.0):
    r = chk.rng
    n = lambda a, b: max(1, int(chk.scale(a, b) * scale))
    out = []
    ctxs = [c for c in INT_CTX if c[1]]
    for i in range(n(600, 6000)):
        cat, bad, good = r.choice(BAD_INT)
        cn, ct = r.choice(ctxs)
        out.append((cat, cn) + statement_pair(r, cat, ct % bad, ct % good, ()))
    for i in range(n(700, 4500)):
        cat, bad, good = BAD_STMT[i % len(BAD_STMT)]
        out.append((cat, 'statement') + statement_pair(r, cat, bad, good, ()))
    for i in range(n(60, 600)):
        cat, bad, good = BAD_MEMBER[i % len(BAD_MEMBER)]
        if r.random() < 0.5:
            out.append((cat, 'member', host('', MEMBERS + '\n' + bad + '\n', TYPES), host('', MEMBERS + '\n' + good + '\n', TYPES), bad, 'Program', ()))
        else:
            f = lambda m: host('', MEMBERS, TYPES + '\nclass Hc {\npublic Hc() { } static void Fv() { }\n' + m.replace('static ', 'public static ') + '\n}\n')
            out.append((cat, 'member', f(bad), f(good), None, 'class', ()))
    for i in range(n(60, 600)):
        cat, bad, good = BAD_TYPE[i % len(BAD_TYPE)]
        if r.random() < 0.5:
            f = lambda t: host('', MEMBERS, TYPES + '\n' + t + '\n')
        else:
            f = lambda t: host('', MEMBERS, '\n' + t + '\n' + TYPES)
        out.append((cat, 'type', f(bad), f(good), bad, 'top', ()))
    return out


DIAG = re.compile(r'\berror (?:CS)?\d+')


def judge_bad(r, src, bad):
    if r.timeout:
        return 'the compiler does not end'
    if r.rc not in (0, 1):
        return 'ended by %s instead of a diagnostic' % r.status()
    o = suite.norm(r.out)
    if 'START' in o.split('\n'):
        return 'a program with an error was executed'
    if not DIAG.search(o):
        return 'no diagnostic printed: %r' % o[:120]
    if bad is not None:
        line = src[:src.index('\n' + bad + '\n')].count('\n') + 2
        lines = set(int(x) for x in re.findall(r'main\.cs:(\d+):\d+', o))
        if lines and not any(line <= x <= line + bad.count('\n') for x in lines):
            return 'the error is on line %d, diagnostics name %s' % (line, sorted(lines))
    return None


def judge_good(r):
    if r.timeout or r.rc != 0 or suite.norm(r.out) != 'START\nEND\n':
        return 'valid twin: %s, %r' % (r.status(), suite.norm(r.out)[:160])
    return None


if __name__ == '__main__':
    suite.main(main)
