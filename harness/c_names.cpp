// C23/C24: indexers, automatic and virtual properties; C33: names, scopes, namespaces, nested types, aliases, constants
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
S rep(S s, const S &T) { size_t p; while ((p = s.find("@T")) != S::npos) s.replace(p, 2, T); return s; }
S n_(i64 v) { return std::to_string(v); }
S V(int k) { return "Verif.Verif_I32(" + n_(k) + ")"; }
S VL(int k) { return "Verif.Verif_I64(" + n_(k) + ")"; }
S VB(int k) { return "Verif.Verif_Bool(" + n_(k) + ")"; }
i32 I(int k) { return in<i32>(k); }
i64 L(int k) { return in<i64>(k); }
bool B(int k) { return in<bool>(k); }
i32 add(i32 a, i32 b) { return (i32)((u32)a + (u32)b); }
i32 sub(i32 a, i32 b) { return (i32)((u32)a - (u32)b); }
i32 mul(i32 a, i32 b) { return (i32)((u32)a * (u32)b); }
S W(const S &e) { return "Console.WriteLine(" + e + ");\n"; }
S wl(std::initializer_list<const char *> l) { S r; for (auto e : l) r += W(e); return r; }
typedef List<i8, u8, i16, u16, i32, u32, i64, u64, float, double, bool, char16_t> All;
void Case(const char *p, const S &name, const S &body, const S &members, const S &types, std::function<void()> expect, std::function<void()> assume = nullptr) {
  Reg(p, name, [=] { if (assume) assume(); run_program(program(body, members, types)); expect(); expect_end(); });
}
// a whole file
void File(const char *p, const S &name, const S &text, std::function<void()> expect) { Reg(p, name, [=] { run_program(text); expect(); expect_end(); }); }
void rng(int k, int lo, int hi) { i32 v = I(k); symapi_assume(v >= lo); symapi_assume(v <= hi); }
struct Init { Init() {
  each(All(), [](auto t) {
    typedef decltype(t) T; S N = Ty<T>::name(), G = Ty<T>::tag(); auto in_ = [](int k) { return S(Ty<T>::ver()) + "(" + n_(k) + ")"; };
    Case("C23", "indexer_" + G, rep("C c = new C(); int i = " + V(10) + "; int j = " + V(11) + "; c[0] = " + in_(0) + "; c[1] = " + in_(1) + "; c[2] = " + in_(2) + "; c[i] = " + in_(3) + "; c[j] = c[i]; c[i] = " + in_(4) + ";\n" + wl({"c[0]", "c[1]", "c[2]", "c[i]", "c[j]", "c.n", "c.after"}), N), "",
      rep("class C { private @T[] v; public int n; public @T last; public int after; public C() { v = new @T[3]; after = 77; } public @T this[int i] { get { return v[i]; } set { n = n + 1; v[i] = value; last = value; } } }", N), [] {
      T v[3] = {in<T>(0), in<T>(1), in<T>(2)}; i32 i = I(10), j = I(11); v[i] = in<T>(3); v[j] = v[i]; v[i] = in<T>(4); for (auto x : v) line_v(x); line_v(v[i]); line_v(v[j]); line_i(6); line_i(77); },
      [] { rng(10, 0, 2); rng(11, 0, 2); });
    Case("C23", "auto_" + G, rep("C c = new C(); C d = new C(); c.A = " + in_(0) + "; c.X = " + in_(1) + "; c.B = " + V(10) + "; d.A = " + in_(2) + "; d.X = c.A; d.y = 5; c.y = 6;\n" + wl({"c.A", "c.X", "c.B", "c.y", "d.A", "d.X", "d.B", "d.y"}) + "c.X = c.A; c.A = d.A;" + wl({"c.A", "c.X"}), N), "",
      rep("class C { public @T A { get; set; } public byte y; public @T X { get; set; } public int B { get; set; } }", N), [] {
      line_v(in<T>(0)); line_v(in<T>(1)); line_i(I(10)); line_i(6); line_v(in<T>(2)); line_v(in<T>(0)); line_i(0); line_i(5); line_v(in<T>(2)); line_v(in<T>(0)); });
    // the index itself of every type
    Case("C23", "index_type_" + G, rep("C c = new C(); c[" + in_(0) + "] = " + V(10) + "; Console.WriteLine(c.k); Console.WriteLine(c.v); @T x = " + in_(1) + "; Console.WriteLine(c[x]); Console.WriteLine(c.k); c.S(" + in_(2) + ", 9); Console.WriteLine(c.k); Console.WriteLine(c.v); Console.WriteLine(c.G(x));", N), "",
      rep("class C { public @T k; public int v; public int this[@T i] { get { k = i; return v; } set { k = i; v = value; } } public void S(@T i, int x) { this[i] = x; } public int G(@T i) { return this[i]; } }", N), [] {
      line_v(in<T>(0)); line_i(I(10)); line_i(I(10)); line_v(in<T>(1)); line_v(in<T>(2)); line_i(9); line_i(9); });
    Case("C24", "virtual_property_" + G, rep("A a = null; if (" + VB(10) + ") a = new A(); else a = new X(); a.P = " + in_(0) + "; a.n = 3; Console.WriteLine(a.P); a.P = " + in_(1) + ";" + wl({"a.P", "a.n"}) + "X b = new X(); b.Q = " + in_(2) + "; b.P = " + in_(0) + "; I i = b;" + wl({"i.Q", "b.P"}) + "i.Q = " + in_(1) + ";" + wl({"i.Q", "b.Q"}), N), "",
      rep("interface I { @T Q { get; set; } } class A { private @T v; public int n; public virtual @T P { get { return v; } set { v = value; } } } class X : A, I { private @T w; private @T u; private int m; public override @T P { get { Console.WriteLine(m); return w; } set { w = value; m = m + 1; } } public @T Q { get { return u; } set { u = value; } } }", N), [] {
      bool b = B(10); if (!b) line_i(1); line_v(in<T>(0)); if (!b) line_i(2); line_v(in<T>(1)); line_i(3); line_v(in<T>(2)); line_i(1); line_v(in<T>(0)); line_v(in<T>(1)); line_v(in<T>(1)); });
    Case("C24", "generic_interface_" + G, rep("I<@T> a = null; if (" + VB(10) + ") a = new A(); else a = new X(); a.Set(" + in_(0) + "); Console.WriteLine(a.Get()); J<int> j = new Y(); J<@T> k = new Z(); Console.WriteLine(j.F(" + V(11) + ")); Console.WriteLine(k.F(" + in_(1) + ")); a.Set(" + in_(2) + "); Console.WriteLine(a.Get());", N), "",
      rep("interface I<E> { void Set(E x); @T Get(); } interface J<E> { int F(E x); } class A : I<@T> { private @T v; public void Set(@T x) { v = x; } public @T Get() { return v; } } class X : I<@T> { private int n; private @T w; public void Set(@T x) { w = x; Console.WriteLine(5); } public @T Get() { return w; } } class Y : J<int> { public int F(int x) { return x; } } class Z : J<@T> { public int F(@T x) { Console.WriteLine(x); return 6; } }", N), [] {
      bool b = B(10); if (!b) line_i(5); line_v(in<T>(0)); line_i(I(11)); line_v(in<T>(1)); line_i(6); if (!b) line_i(5); line_v(in<T>(2)); });
  });
  Case("C23", "indexer_two", "M m = new M(); int i = " + V(0) + "; int j = " + V(1) + "; m[0, 0] = 10L; m[0, 1] = 11L; m[0, 2] = 12L; m[1, 0] = 13L; m[1, 1] = 14L; m[1, 2] = 15L; m[i, j] = " + VL(2) + ";\n" + wl({"m[0, 0]", "m[0, 1]", "m[0, 2]", "m[1, 0]", "m[1, 1]", "m[1, 2]", "m[i, j]", "m[1 - i, 2 - j]"}), "",
    "class M { private long[] v; public M() { v = new long[6]; } public long this[int i, int j] { get { return v[i * 3 + j]; } set { v[i * 3 + j] = value; } } }", [] {
    i64 v[6] = {10, 11, 12, 13, 14, 15}; i32 i = I(0), j = I(1); v[i * 3 + j] = L(2); for (auto x : v) line_i(x); line_i(v[i * 3 + j]); line_i(v[(1 - i) * 3 + 2 - j]); }, [] { rng(0, 0, 1); rng(1, 0, 2); });
  Case("C23", "indexer_struct", "M m = new M(); P p = new P(); p.x = " + V(0) + "; p.y = " + VL(1) + "; m[1] = p; p.x = 5; P q = m[1]; Console.WriteLine(q.x); Console.WriteLine(q.y); q.x = 6; P r = m[1]; Console.WriteLine(r.x); m[0] = q; P s = m[0]; Console.WriteLine(s.x); P z = m[2]; Console.WriteLine(z.x);", "",
    "struct P { public int x; public long y; } class M { private P[] v; public M() { v = new P[3]; } public P this[int i] { get { return v[i]; } set { v[i] = value; } } }", [] { line_i(I(0)); line_i(L(1)); line_i(I(0)); line_i(6); line_i(0); });
  // order: object, index, value, setter; each once
  Case("C23", "indexer_order", "O(1)[T(2)] = T(3); Console.WriteLine(O(4)[T(5)]); C c = new C(); c[T(6)] = c[T(7)]; C[] a = new C[2]; a[1] = c; a[T(1)][T(8)] = T(9); H h = new H(); h.c = c; h.c[T(10)] = 4; Console.WriteLine(h.c[11]);",
    "static int T(int k) { Console.WriteLine(k); return k; }\nstatic C O(int k) { Console.WriteLine(k); return new C(); }", "class C { public int v; public int this[int i] { get { Console.WriteLine(100 + i); return v + " + V(0) + "; } set { Console.WriteLine(200 + i); v = value; } } } class H { public C c; }", [] {
    for (int k : {1, 2, 3, 202, 4, 5, 105}) line_i(k); line_i(I(0)); for (int k : {6, 7, 107, 206, 1, 8, 9, 208, 10, 210, 111}) line_i(k); line_i(add(4, I(0))); });
  Case("C24", "interface_indexer", "I i = null; if (" + VB(0) + ") i = new X(); else i = new Y(); i[3] = " + V(1) + "; Console.WriteLine(i[2]); I j = new Y(); j[" + V(2) + "] = 9; Console.WriteLine(j[1]); Console.WriteLine(i[0]);", "",
    "interface I { int this[int k] { get; set; } } class X : I { private int w; public int this[int k] { get { return w - k; } set { w = value + k; } } } class Y : I { private long z; private int w; public int this[int k] { get { return w + k; } set { w = value - k; } } }", [] {
    i32 x = I(1); line_i(B(0) ? add(x, 1) : sub(x, 1)); line_i(sub(10, I(2))); line_i(B(0) ? add(x, 3) : sub(x, 3)); });

  // ---- C33: names ------------------------------------------------------------------------------------------------
  Case("C33", "shadowing", "C c = new C(); c.x = " + V(0) + "; Console.WriteLine(c.F(" + V(1) + ")); Console.WriteLine(c.x); Console.WriteLine(c.G()); Console.WriteLine(c.x); c.H(" + V(2) + "); Console.WriteLine(c.x); int x = 5; { int y = x; x = y + 1; } { int y = 7; x = x + y; } Console.WriteLine(x); for (int i = 0; i < 2; i++) { int z = i; x = x + z; } for (int i = 5; i < 7; i++) { int z = i; x = x + z; } Console.WriteLine(x);", "",
    "class C { public int x; public int y; public int F(int x) { x = x + 1; return x; } public int G() { int x = 3; x = x * 2; return x; } public void H(int y) { x = y; y = 9; this.y = 4; } }", [] {
    line_i(add(I(1), 1)); line_i(I(0)); line_i(6); line_i(I(0)); line_i(I(2)); line_i(13); line_i(25); });
  Case("C33", "same_names", "A a = new A(); B b = new B(); a.v = " + V(0) + "; b.v = " + V(1) + "; Console.WriteLine(a.F(2)); Console.WriteLine(b.F(2)); Console.WriteLine(A.G(" + V(2) + ")); Console.WriteLine(B.G(" + V(2) + ")); Console.WriteLine(F(3)); Console.WriteLine(A.K); Console.WriteLine(B.K); Console.WriteLine(K); Console.WriteLine((int)E.X); Console.WriteLine((int)D.X);",
    "static int F(int k) { return k * 100; }\nconst int K = 33;\n", "class A { public int v; public const int K = 11; public int F(int k) { return v + k + K; } public static int G(int x) { return x + 1; } } class B { public int v; public const int K = 22; public int F(int k) { return v - k - K; } public static int G(int x) { return x - 1; } } enum E { X = 4, Y } enum D { Y, X }", [] {
    line_i(add(I(0), 13)); line_i(sub(I(1), 24)); line_i(add(I(2), 1)); line_i(sub(I(2), 1)); line_i(300); line_i(11); line_i(22); line_i(33); line_i(4); line_i(1); });
  Case("C33", "alias", "Num n = " + V(0) + "; F f = Add; Console.WriteLine(f(n, 1)); f = Sub; Console.WriteLine(f(n, 1)); Cs c = new Cs(); c.v = n; Console.WriteLine(c.v); Arr a = new int[3]; a[1] = n; Console.WriteLine(a[1]); Console.WriteLine(a.Length);",
    "using Num = System.Int32;\nusing F = System.Delegate<int, int, int>;\nusing Cs = C;\nusing Arr = int[];\nstatic int Add(int a, int b) { return a + b; }\nstatic int Sub(int a, int b) { return a - b; }\n", "class C { public int v; }", [] { line_i(add(I(0), 1)); line_i(sub(I(0), 1)); line_i(I(0)); line_i(I(0)); line_i(3); });
  Case("C33", "const_types", "Console.WriteLine(A / 2); Console.WriteLine(B / 2); Console.WriteLine(C.L / 2); Console.WriteLine(C.F / 2); Console.WriteLine(A + " + V(0) + "); Console.WriteLine(A * Verif.Verif_I64(1)); Console.WriteLine(U + 1); const long x = 5; const double y = 5; const float z = 3; const long w = 2147483647; const double v = x; Console.WriteLine(x / 2); Console.WriteLine(y / 2); Console.WriteLine(z / 2); Console.WriteLine(w + 1); Console.WriteLine(v / 2); object o = A; Console.WriteLine(o is long); o = x; Console.WriteLine(o is long); Console.WriteLine(o is int); Console.WriteLine(P(A)); Console.WriteLine(P(x)); Console.WriteLine(P(5)); long q = x; Console.WriteLine(q); Console.WriteLine(G / 2); Console.WriteLine(w + " + V(0) + "); Console.WriteLine(M);",
    "const long A = 5; const double B = 7; const long U = 2147483647; const double G = A; const long M = -1; static int P(long x) { return 1; } static int P(int x) { return 2; }", "class C { public const long L = -9; public const float F = 5; }", [] {
    i32 a = I(0); line_i(2); line_v(3.5); line_i(-4); line_v(2.5f); line_i((i64)a + 5); line_i((i64)((u64)in<i64>(1) * 5)); line_i(2147483648ll); line_i(2); line_v(2.5); line_v(1.5f); line_i(2147483648ll); line_v(2.5); line_v(true); line_v(true); line_v(false); line_i(1); line_i(1); line_i(2); line_i(5); line_v(2.5); line_i((i64)a + 2147483647ll); line_i(-1); });
  Case("C33", "consts", "Console.WriteLine(A); Console.WriteLine(C.B); Console.WriteLine(C.L); Console.WriteLine(C.D); Console.WriteLine(C.T); Console.WriteLine(C.S); Console.WriteLine(C.X); Console.WriteLine(A + " + V(0) + "); Console.WriteLine(C.Get()); const int k = 5; const long m = 7L; Console.WriteLine(k * " + V(0) + "); Console.WriteLine(m); switch (" + V(0) + ") { case A: Console.WriteLine(1); break; case C.B: Console.WriteLine(2); break; case k: Console.WriteLine(3); break; case k + 1: Console.WriteLine(4); break; default: Console.WriteLine(5); break; }",
    "const int A = 12;\n", "class C { public const int B = -3; public const long L = 5000000000L; public const double D = 2.5; public const bool T = true; public const string S = \"str\"; public const char X = 'q'; public const int Y = B; public static int Get() { return B - 1; } }", [] {
    line_i(12); line_i(-3); line_i(5000000000ll); line_v(2.5); line_v(true); line("str"); line("q"); i32 x = I(0); line_i(add(12, x)); line_i(-4); line_i(mul(5, x)); line_i(7); line_i(x == 12 ? 1 : x == -3 ? 2 : x == 5 ? 3 : x == 6 ? 4 : 5); });
  File("C33", "namespaces", "import System;\nusing System;\nusing N.M;\nclass Program\n{\n[EntryPoint]\npublic static void Main()\n{\nA a = new A(); a.v = " + V(0) + "; Console.WriteLine(a.F()); Q q = new Q(); q.v = " + V(1) + "; Console.WriteLine(q.F()); Console.WriteLine(A.S(" + V(0) + ")); Console.WriteLine((int)E.Y);\n}\n}\n"
    "namespace N.M { class A { public int v; public int F() { Q q = new Q(); q.v = v; return q.F() + 1; } public static int S(int x) { return Q.T(x) + 1; } } enum E { X = 3, Y } }\nnamespace N.M { class Q { public int v; public int F() { return v - 2; } public static int T(int x) { return x + 10; } } }\nnamespace O { class A { public int v; public int F() { return 99; } public static int S(int x) { return 98; } } enum E { Y } class Q { public int F() { return 97; } } }\n", [] {
    line_i(sub(I(0), 1)); line_i(sub(I(1), 2)); line_i(add(I(0), 11)); line_i(4); });
  Case("C33", "nested_types", "A a = new A(); a.v = " + V(0) + "; Console.WriteLine(a.F(" + V(1) + ")); A.N n = new A.N(); n.w = 6; Console.WriteLine(n.G()); B.N m = new B.N(); m.w = 6; Console.WriteLine(m.G());", "",
    "class A { public int v; public class N { public int w; public int G() { return w + 1; } } public int F(int k) { N n = new N(); n.w = k; return n.G() + v; } } class B { public class N { public int w; public int G() { return w - 1; } } }", [] { line_i(add(add(I(1), 1), I(0))); line_i(7); line_i(5); });
  Case("C33", "typeof", "object o = Mk(" + V(0) + "); Type t = o.GetType(); Console.WriteLine(t == typeof(A)); Console.WriteLine(t == typeof(B)); Console.WriteLine(typeof(A) == typeof(A)); Console.WriteLine(typeof(A) == typeof(B)); A a = new B(); Console.WriteLine(a.GetType() == typeof(B)); Console.WriteLine(o is A); Console.WriteLine(o is B);",
    "static object Mk(int k) { if (k > 0) return new A(); return new B(); }", "class A { } class B : A { }", [] { bool b = I(0) > 0; line_v(b); line_v(!b); line_v(true); line_v(false); line_v(true); line_v(true); line_v(!b); });
  Case("C33", "default_value", "int i = default(int); long l = default(long); double d = default(double); bool b = default(bool); object o = default(object); Console.WriteLine(i + " + V(0) + "); Console.WriteLine(l); Console.WriteLine(d); Console.WriteLine(b); Console.WriteLine(o == null);", "", "", [] { line_i(I(0)); line_i(0); line_v(0.0); line_v(false); line_v(true); });
  Case("C33", "overloads", "F(" + V(0) + "); F(" + VL(1) + "); F(2.5); F(true); F(\"s\"); F('c'); F(" + V(0) + ", " + V(2) + "); F(" + V(0) + ", 3L); F(); C c = new C(); c.F(" + V(0) + "); c.F(" + VL(1) + "); G(new A()); G(new B()); A a = new B(); G(a); object o = a; G(o);",
    "static void F() { Console.WriteLine(0); }\nstatic void F(int x) { Console.WriteLine(1); Console.WriteLine(x); }\nstatic void F(long x) { Console.WriteLine(2); Console.WriteLine(x); }\nstatic void F(double x) { Console.WriteLine(3); }\nstatic void F(bool x) { Console.WriteLine(4); }\nstatic void F(string x) { Console.WriteLine(5); }\nstatic void F(char x) { Console.WriteLine(6); }\nstatic void F(int x, int y) { Console.WriteLine(7); Console.WriteLine(y); }\nstatic void F(int x, long y) { Console.WriteLine(8); Console.WriteLine(y); }\n"
    "static void G(A x) { Console.WriteLine(20); }\nstatic void G(B x) { Console.WriteLine(21); }\nstatic void G(object x) { Console.WriteLine(22); }\n", "class A { } class B : A { } class C { public void F(long x) { Console.WriteLine(10); Console.WriteLine(x); } public void F(int x) { Console.WriteLine(11); Console.WriteLine(x); } }", [] {
    line_i(1); line_i(I(0)); line_i(2); line_i(L(1)); line_i(3); line_i(4); line_i(5); line_i(6); line_i(7); line_i(I(2)); line_i(8); line_i(3); line_i(0); line_i(11); line_i(I(0)); line_i(10); line_i(L(1)); line_i(20); line_i(21); line_i(20); line_i(22); });
} } init;
}
