// C32: a library compiled to a file of its own works like the same code compiled with the program
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
S rep(S s, const S &T) { size_t p; while ((p = s.find("@T")) != S::npos) s.replace(p, 2, T); return s; }
S n_(i64 v) { return std::to_string(v); }
S V(int k) { return "Verif.Verif_I32(" + n_(k) + ")"; }
S VB(int k) { return "Verif.Verif_Bool(" + n_(k) + ")"; }
i32 I(int k) { return in<i32>(k); }
bool B(int k) { return in<bool>(k); }
i32 add(i32 a, i32 b) { return (i32)((u32)a + (u32)b); }
S W(const S &e) { return "Console.WriteLine(" + e + ");\n"; }
typedef List<i8, u8, i16, u16, i32, u32, i64, u64, float, double, bool, char16_t> All;
S Main(const S &body, const S &members = "", const S &types = "") {
  return "import System;\nimport lib;\nusing System;\nusing lib.N;\nclass Program\n{\n[EntryPoint]\npublic static void Main()\n{\n" + body + "\n}\n" + members + "\n}\n" + types + "\n";
}
void Case(const S &name, const S &lib, const S &main, std::function<void()> expect) {
  Reg("C32", name, [=] { library("lib", "import System;\nusing System;\nnamespace N\n{\n" + lib + "\n}\n"); run_program(main); expect(); expect_end(); });
}
struct Init { Init() {
  each(All(), [](auto t) {
    typedef decltype(t) T; S N = Ty<T>::name(), G = Ty<T>::tag(); auto in_ = [](int k) { return S(Ty<T>::ver()) + "(" + n_(k) + ")"; };
    Case("values_" + G, rep("public class C { private @T v; private byte pad; private @T w; public C(@T x) { v = x; pad = (byte)7; } public @T Get() { return v; } public void Set(@T a, int k, @T b) { w = a; v = b; Console.WriteLine(k); } public @T W() { return w; } public static @T Id(@T x) { return x; } public static @T Pick(bool c, @T x, @T y) { if (c) return x; return y; } public static void Swap(ref @T x, ref @T y) { @T t = x; x = y; y = t; } public static void Out(@T x, out @T y) { y = x; } }", N),
      Main(rep("C c = new C(" + in_(0) + ");" + W("c.Get()") + "c.Set(" + in_(1) + ", " + V(10) + ", " + in_(2) + ");" + W("c.Get()") + W("c.W()") + W("C.Id(" + in_(0) + ")") + W("C.Pick(" + VB(11) + ", " + in_(0) + ", " + in_(1) + ")") + "@T a = " + in_(0) + "; @T b = " + in_(1) + "; C.Swap(ref a, ref b);" + W("a") + W("b") + "C.Out(" + in_(2) + ", out a);" + W("a"), N)), [] {
      line_v(in<T>(0)); line_i(I(10)); line_v(in<T>(2)); line_v(in<T>(1)); line_v(in<T>(0)); line_v(B(11) ? in<T>(0) : in<T>(1)); line_v(in<T>(1)); line_v(in<T>(0)); line_v(in<T>(2)); });
  });
  Case("virtuals", "public class A { private int a; public A(int x) { a = x; } public virtual int F(int x) { return x + a; } public virtual int G(int x) { return x - 1; } public int H(int x) { return F(x) * 2 + G(x); } } public class B : A { private int b; public B() : base(5) { } public override int G(int x) { return x + 100; } } public class M { public static int Call(A a, int x) { return a.F(x); } public static A Mk(bool b) { if (b) return new A(3); return new X(); } } public class X : A { public X() : base(0) { } public override int F(int x) { return x * 3; } }",
    Main("A a = M.Mk(" + VB(0) + ");" + W("a.F(" + V(1) + ")") + W("a.G(" + V(1) + ")") + W("a.H(" + V(1) + ")") + W("M.Call(a, 4)")), [] {
    i32 x = I(1); u32 u = (u32)x; bool b = B(0); i32 f = b ? add(x, 3) : (i32)(u * 3); line_i(f); line_i(add(x, -1)); line_i((i32)((u32)f * 2 + u - 1)); line_i(b ? 7 : 12); });
  Case("derive", "public class A { private int a; public void Set(int x) { a = x; } public virtual int F(int x) { return x + a; } public virtual int G(int x) { return x - 1; } public int H(int x) { return F(x) * 2 + G(x); } } public class M { public static int Call(A a, int x) { return a.F(x); } }",
    Main("A a = null; if (" + VB(0) + ") a = new A(); else a = new D(); a.Set(7);" + W("a.F(" + V(1) + ")") + W("a.G(" + V(1) + ")") + W("a.H(" + V(1) + ")") + W("M.Call(a, 4)"), "", "class D : A { private int d; public override int G(int x) { return x + 50; } public override int F(int x) { d = d + 1; return x - d; } }"), [] {
    i32 x = I(1); u32 u = (u32)x; if (B(0)) { line_i(add(x, 7)); line_i(add(x, -1)); line_i((i32)((u + 7) * 2 + u - 1)); line_i(11); } else { line_i(add(x, -1)); line_i(add(x, 50)); line_i((i32)((u - 2) * 2 + u + 50)); line_i(1); } });
  Case("interface_lib", "public interface I { int F(int x); } public class A : I { public int F(int x) { return x + 1; } } public class B : I { public int F(int x) { return x - 1; } } public class M { public static I Mk(bool b) { if (b) return new A(); return new B(); } public static int Call(I i, int x) { return i.F(x); } }",
    Main("I i = M.Mk(" + VB(0) + ");" + W("i.F(" + V(1) + ")") + W("M.Call(i, " + V(1) + ")") + "I j = new B();" + W("j.F(3)")), [] { i32 r = add(I(1), B(0) ? 1 : -1); line_i(r); line_i(r); line_i(2); });
  Case("interface_impl", "public interface I { int F(int x); int G(); } public class M { public static int Call(I i, int x) { return i.F(x) + i.G(); } }",
    Main("I i = null; if (" + VB(0) + ") i = new P(); else i = new Q();" + W("i.F(" + V(1) + ")") + W("M.Call(i, " + V(1) + ")"), "", "class P : I { public int F(int x) { return x + 1; } public int G() { return 10; } } class Q : I { public int G() { return 20; } public int F(int x) { return x - 1; } }"), [] { i32 r = add(I(1), B(0) ? 1 : -1); line_i(r); line_i(add(r, B(0) ? 10 : 20)); });
  Case("enum_const", "public enum E { A = 3, B, C = -5 } public class K { public const int X = 77; public const long Y = 5000000000L; public const string S = \"lib\"; public static int F(E e) { switch (e) { case E.A: return 1; case E.C: return 2; default: return (int)e; } } public static E Mk(int x) { return (E)x; } }",
    Main(W("(int)E.B") + W("K.X") + W("K.Y") + W("K.S") + W("K.F((E)" + V(0) + ")") + W("(int)K.Mk(" + V(0) + ")") + W("K.F(E.C)")), [] { line_i(4); line_i(77); line_i(5000000000ll); line("lib"); i32 x = I(0); line_i(x == 3 ? 1 : x == -5 ? 2 : x); line_i(x); line_i(2); });
  Case("consts", "public class K { public const long A = 5000000000L; public const long B = -5000000000L; public const long C = 9223372036854775807L; public const ulong D = 18446744073709551615UL; public const ulong E = 12297829382473034410UL; public const double F = -0.1; public const double G = 1.5; public const float H = 2.25f; public const int I = -2147483647; public const uint J = 4294967295U; public const short K1 = (short)-32768; public const sbyte L = (sbyte)-128; public const byte M = (byte)255; public const char N = 'z'; public const bool O = true; public const ushort P = (ushort)65535; public const long Q = -1L; public const int R = -1; public const long S = 281474976710656L; public const long T = 5; public const int U = 5; public const double V = 5; public const float W = 5; public const ulong X = 5UL; public const long Y = 281474976710655L; }",
    Main(W("K.A") + W("K.B") + W("K.C") + W("K.D") + W("K.E") + W("K.F") + W("K.G") + W("K.H") + W("K.I") + W("K.J") + W("K.K1") + W("K.L") + W("K.M") + W("K.N") + W("K.O") + W("K.P") + W("K.Q") + W("K.R") + W("K.S") + W("K.T / 2L") + W("K.U / 2") + W("K.V / 2") + W("K.W / 2") + W("K.X / 2UL") + W("K.Y") + W("K.A + " + V(0)) + W("K.Q + " + V(0)) + W("K.T * Verif.Verif_I64(1)")), [] {
    line_i(5000000000ll); line_i(-5000000000ll); line_i(INT64_MAX); line_u(UINT64_MAX); line_u(12297829382473034410ull); line_v(-0.1); line_v(1.5); line_v(2.25f); line_i(-2147483647); line_u(4294967295u); line_i(-32768); line_i(-128); line_i(255); line("z"); line_v(true); line_i(65535); line_i(-1); line_i(-1); line_i(281474976710656ll); line_i(2); line_i(2); line_v(2.5); line_v(2.5f); line_u(2); line_i(281474976710655ll); line_i(5000000000ll + I(0)); line_i((i64)I(0) - 1); line_i((i64)(5ull * (u64)in<i64>(1))); });
  Case("properties", "public class C { private int v; private int n; public int P { get { n = n + 1; return v; } set { v = value; } } public long A { get; set; } public int N() { return n; } public int this[int i] { get { return v + i; } set { v = value * i; } } }",
    Main("C c = new C(); c.P = " + V(0) + ";" + W("c.P") + W("c.N()") + "c.A = 9L;" + W("c.A") + W("c[4]") + "c[3] = " + V(1) + ";" + W("c.P")), [] { line_i(I(0)); line_i(1); line_i(9); line_i(add(I(0), 4)); line_i((i32)((u32)I(1) * 3)); });
  Case("exceptions", "public class E1 : Exception { } public class M { public static int F(int x) { if (x == 1) throw new E1(); if (x == 2) throw new Exception(); try { if (x == 3) throw new E1(); return x; } catch (E1) { return 33; } finally { Console.WriteLine(5); } } }",
    Main("try { Console.WriteLine(M.F(" + V(0) + ")); } catch (E1) { Console.WriteLine(100); } catch (Exception) { Console.WriteLine(200); } finally { Console.WriteLine(6); } Console.WriteLine(7);"), [] { i32 x = I(0); if (x == 1) line_i(100); else if (x == 2) line_i(200); else { line_i(5); line_i(x == 3 ? 33 : x); } line_i(6); line_i(7); });
  Case("generics", "public class Box<T> { private T v; public void Set(T x) { v = x; } public void Get(out T x) { x = v; } }",
    Main("Box<int> a = new Box<int>(); a.Set(" + V(0) + "); int x; a.Get(out x); Console.WriteLine(x); Box<long> b = new Box<long>(); b.Set(Verif.Verif_I64(1)); long y; b.Get(out y); Console.WriteLine(y);"), [] { line_i(I(0)); line_i(in<i64>(1)); });
  Case("structs", "public struct P { public int x; public long y; public int Sum() { return x + (int)y; } } public class M { public static int F(P p) { p.x = 100; return p.Sum(); } public static P Mk(int a) { P p = new P(); p.x = a; p.y = 5L; return p; } public static void R(ref P p) { p.x = 8; } }",
    Main("P p = M.Mk(" + V(0) + ");" + W("p.Sum()") + W("M.F(p)") + W("p.Sum()") + "P q = p; M.R(ref q);" + W("p.Sum()") + W("q.Sum()")), [] { i32 s = add(I(0), 5); line_i(s); line_i(105); line_i(s); line_i(s); line_i(13); });
  Case("arrays", "public class M { public static int Sum(int[] a) { int s = 0; for (int i = 0; i < a.Length; i++) s = s + a[i]; return s; } public static int[] Mk(int n, int x) { int[] a = new int[n]; for (int i = 0; i < n; i++) a[i] = x + i; return a; } public static int At(int[,] a, int i, int j) { return a[i, j]; } }",
    Main("int[] a = M.Mk(3, " + V(0) + ");" + W("a[0]") + W("a[2]") + W("a.Length") + "a[1] = " + V(1) + ";" + W("M.Sum(a)") + "int[,] b = new int[2, 3]; b[1, 2] = " + V(1) + ";" + W("M.At(b, 1, 2)") + W("M.At(b, 0, 2)")), [] { u32 x = (u32)I(0); line_i(I(0)); line_i((i32)(x + 2)); line_i(3); line_i((i32)(2 * x + 2 + (u32)I(1))); line_i(I(1)); line_i(0); });
  Case("delegates", "public class M { public static int Apply(Delegate<int, int> f, int x) { return f(x); } public static int Twice(int x) { return x * 2; } }",
    Main("Delegate<int, int> f = M.Twice; Delegate<int, int> g = Inc; if (" + VB(0) + ") f = g;" + W("M.Apply(f, " + V(1) + ")") + W("f(5)"), "static int Inc(int x) { return x + 1; }"), [] { i32 x = I(1); line_i(B(0) ? add(x, 1) : (i32)((u32)x * 2)); line_i(B(0) ? 6 : 10); });
  Case("literals", "public class M { public static void P() { Console.WriteLine(2147483647); Console.WriteLine(-2147483647); Console.WriteLine(9223372036854775807L); Console.WriteLine(18446744073709551615UL); Console.WriteLine(4294967295U); Console.WriteLine(1.5); Console.WriteLine(2.25f); Console.WriteLine('z'); Console.WriteLine(\"a\\tb\"); Console.WriteLine(true); Console.WriteLine(200); Console.WriteLine(40000); Console.WriteLine(-129); Console.WriteLine(\"\"); } public static int S(int x) { switch (x) { case 1: return 10; case 100: return 20; case 100000: return 30; case -7: return 40; case 5: case 6: return 50; case 2147483647: return 60; default: return 70; } } }",
    Main("M.P();" + W("M.S(" + V(0) + ")")), [] { line_i(2147483647); line_i(-2147483647); line_i(INT64_MAX); line_u(UINT64_MAX); line_u(4294967295u); line_v(1.5); line_v(2.25f); line("z"); line("a\tb"); line_v(true); line_i(200); line_i(40000); line_i(-129); line("");
    i32 x = I(0); line_i(x == 1 ? 10 : x == 100 ? 20 : x == 100000 ? 30 : x == -7 ? 40 : x == 5 || x == 6 ? 50 : x == 2147483647 ? 60 : 70); });
  Case("is_as", "public class A { } public class B : A { public int F() { return 5; } } public class M { public static A Mk(int k) { if (k == 0) return new A(); return new B(); } public static bool IsB(object o) { return o is B; } }",
    Main("A a = M.Mk(" + V(0) + ");" + W("a is B") + W("M.IsB(a)") + "B b = a as B;" + W("b == null") + "if (b != null) Console.WriteLine(b.F()); object o = new D();" + W("M.IsB(o)") + W("o is A"), "", "class D : B { }"), [] { bool b = I(0) != 0; line_v(b); line_v(b); line_v(!b); if (b) line_i(5); line_v(true); line_v(true); });
  Case("same_names", "public class Z { public static int F(int x) { return x + 1; } public int G() { return 3; } } public class Y { public int v() { return 11; } }",
    Main("Y y = new Y();" + W("y.v()") + W("Z.F(" + V(0) + ")") + "Q q = new Q();" + W("q.G()"), "", "class Q { public int G() { return 4; } }"), [] { line_i(11); line_i(add(I(0), 1)); line_i(4); });
} } init;
}
