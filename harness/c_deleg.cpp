// C22 delegates as values, C29 signs next to operands, C18 objects made in array initializers
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
i32 I(int k) { return in<i32>(k); }
i32 w(i64 v) { return (i32)(u32)(u64)v; }
S V(int k) { return "Verif.Verif_I32(" + std::to_string(k) + ")"; }
S W(const S &e) { return "Console.WriteLine(" + e + "); "; }
void prog(const S &b, const S &m = "", const S &t = "") { run_program(program(b, m, t)); }
void range(int k, i32 lo, i32 hi) { symapi_assume((I(k) >= lo) & (I(k) <= hi)); }
struct Add { Add() {
  Reg("C22", "mixed_args", [] { prog("C c = new C(); c.f = " + V(0) + "; Delegate<long,byte,long,bool,short,double,int> d = c.M; Delegate<long,byte,long,bool,short,double,int> s = N; int k = " + V(1) + ";\n" +
      W("1000 + d((byte)k, 5000000000L, true, (short)k, 2.5, k)") + W("1000 + s((byte)k, 5000000000L, false, (short)k, 1.0, k)") + W("c.a") + W("c.b") + W("c.c") + W("c.d") + W("c.e") + W("c.g"),
      "static long N(byte a, long b, bool c, short d, double e, int g) { if (c) return 1L; return b + a * 2 + d + g; }",
      "class C { public int f; public byte a; public long b; public bool c; public short d; public double e; public int g; public long M(byte p, long q, bool r, short s, double t, int u) { a = p; b = q; c = r; d = s; e = t; g = u; return q + f; } }");
    i64 k = I(1); u8 a = (u8)k; i16 d = (i16)(u16)k; line_v((i64)(5000001000LL + I(0))); line_v((i64)(5000001000LL + a * 2 + d + k)); line_v(a); line_v((i64)5000000000LL); line_v(true); line_v(d); line_v(2.5); line_v((i32)k); expect_end(); });
  Reg("C22", "no_args_and_void", [] { prog("C c = new C(); c.f = " + V(0) + "; Delegate<int> d = c.Get; Delegate<int> s = Four; Delegate<void,int> v = c.Set; Delegate<void> i = c.Inc; Delegate<void,int> p = Put;\n" + W("1 + d()") + "v(" + V(1) + "); " + W("d() + s()") + "i(); i(); " + W("d()") + "p(d()); int z = 3 + s(); " + W("z"),
      "static int Four() { int a = 1; int b = 3; return a + b; } static void Put(int x) { int y = x; Console.WriteLine(y); }", "class C { public int f; public int Get() { int t = f; return t; } public void Set(int x) { f = x; } public void Inc() { f = f + 1; } }");
    line_i(w((i64)I(0) + 1)); line_i(w((i64)I(1) + 4)); line_i(w((i64)I(1) + 2)); line_i(w((i64)I(1) + 2)); line_i(7); expect_end(); });
  Reg("C22", "as_argument", [] { prog("C c = new C(); c.f = " + V(0) + "; int k = " + V(1) + "; " + W("5 + Ap(Neg, k)") + W("Ap(c.Add, k) + Ap(Neg, 1)") + W("Tw(c.Add, k)") + W("Tw(Neg, k)") + "Delegate<int,int> d = c.Add; " + W("Tw(d, 0)") + "d = Neg; " + W("Ap(d, k)") + W("7 - Ap(Mk(c, k > 5), k)"),
      "static int Ap(Delegate<int,int> d, int x) { int t = 1; return d(x) + t; } static int Tw(Delegate<int,int> d, int x) { return d(d(x)); } static int Neg(int x) { return 0 - x; } static Delegate<int,int> Mk(C c, bool b) { Delegate<int,int> r = Neg; if (b) r = c.Add; return r; }",
      "class C { public int f; public int Add(int x) { return x + f; } }");
    i64 f = I(0), k = I(1); line_i(w(6 - k)); line_i(w(k + f + 1)); line_i(w(k + 2 * f)); line_i(w(k)); line_i(w(2 * f)); line_i(w(1 - k)); line_i(w(6 - (k > 5 ? k + f : -k))); expect_end(); });
  Reg("C22", "array_of_delegates", [] { range(0, 0, 3); prog("C c = new C(); c.f = " + V(1) + "; C e = new C(); e.f = " + V(2) + "; Delegate<int,int>[] a = new Delegate<int,int>[4]; a[0] = Neg; a[1] = c.Add; a[2] = e.Add; a[3] = e.Sub; Delegate<int,int> d = a[" + V(0) + "]; " + W("d(" + V(3) + ")") + "Delegate<int,int> g = a[1]; " + W("g(1) + d(2)") + W("d == null"),
      "static int Neg(int x) { return 0 - x; }", "class C { public int f; public int Add(int x) { return x + f; } public int Sub(int x) { return x - f; } }");
    auto d = [](i64 x) { i64 c = I(1), e = I(2); switch (I(0)) { case 0: return -x; case 1: return x + c; case 2: return x + e; default: return x - e; } };
    line_i(w(d(I(3)))); line_i(w(1 + (i64)I(1) + d(2))); line_v(false); expect_end(); });
  Reg("C22", "recursion", [] { range(0, 0, 4); prog("Delegate<int,int> d = F; " + W("10 + d(" + V(0) + ")"), "static int F(int x) { if (x == 0) return 0; Delegate<int,int> d = F; int t = x * 10; return t + d(x - 1); }"); i32 n = I(0); line_i(10 + 10 * (n * (n + 1) / 2)); expect_end(); });
  Reg("C22", "exception", [] { prog("Delegate<int,int> d = F; C c = new C(); Delegate<int,int> m = c.M; int k = " + V(0) + "; int z = 1; try { z = 5 + d(k); } catch (Exception e) { z = z + 100; } " + W("z") + W("k") + "try { z = 2; z = 6 - m(k); } catch (Exception e) { z = z + 200; } " + W("z") + W("c.n") + W("k + d(4)"),
      "static int F(int x) { int y = x; if (y == 3) throw new Exception(); return y; }", "class C { public int n; public int M(int x) { n = n + 1; if (x > 3) throw new Exception(); n = n + 10; return x; } }");
    i64 k = I(0); line_i(k == 3 ? 101 : w(k + 5)); line_i(k); line_i(k > 3 ? 202 : w(6 - k)); line_i(k > 3 ? 1 : 11); line_i(w(k + 4)); expect_end(); });
  Reg("C22", "structs", [] { prog("Delegate<P,int> d = F; C c = new C(); c.k = " + V(1) + "; Delegate<int,P,int> e = c.G; int k = " + V(0) + "; P p = d(k); " + W("p.x") + W("p.y") + W("100 + e(p, 2)") + W("e(d(3), k)"),
      "static P F(int x) { P p; p.x = x; p.y = x + 1; return p; }", "struct P { public int x; public long y; }\nclass C { public int k; public int G(P p, int q) { return p.x - (int)p.y + q + k; } }");
    i64 k = I(0), c = I(1); line_i(k); line_v((i64)w(k + 1)); line_i(w(101 + c)); line_i(w(k - 1 + c)); expect_end(); });
  Reg("C22", "overloads", [] { prog("Delegate<int,int> a = F; Delegate<int,long> b = F; Delegate<int,int,int> c = F; int k = " + V(0) + "; " + W("a(k)") + W("b(k)") + W("c(k, 1)"), "static int F(int x) { return x + 1; } static int F(long x) { return (int)x + 2; } static int F(int x, int y) { return x + y + 3; }");
    i64 k = I(0); line_i(w(k + 1)); line_i(w(k + 2)); line_i(w(k + 4)); expect_end(); });
  Reg("C22", "object_is_kept", [] { prog("C c = new C(); c.f = " + V(0) + "; Delegate<int,int> d = c.Add; c = new C(); c.f = " + V(1) + "; Delegate<int,int> e = c.Add; c = null; " + W("d(1)") + W("e(1)") + W("d(2)"), "", "class C { public int f; public int Add(int x) { f = f + x; return f; } }");
    i64 a = I(0), b = I(1); line_i(w(a + 1)); line_i(w(b + 1)); line_i(w(a + 3)); expect_end(); });
  Reg("C22", "virtual_method", [] { range(0, 0, 1); prog("C c = null; if (" + V(0) + " == 0) c = new C(); else c = new D(); Delegate<int,int> d = c.V; " + W("d(" + V(1) + ")"), "", "class C { public virtual int V(int x) { return x; } } class D : C { public override int V(int x) { return x + 1; } }");
    line_i(w((i64)I(1) + I(0))); expect_end(); });

  Reg("C29", "sign_after_operand", [] { S b = "int k = " + V(0) + "; int[] a = new int[] {7, k, 9}; int q;\n"; for (const char *e : {"F(k)-1", "(k)-1", "(k + 1)-1", "a[1]-1", "a[1]+1", "F(k)+1", "k /* x */-1", "k-1", "k+1", "3-1", "(int)-1", "(int)+1", "(short)-3", "F(-1)", "F(+1)", "a[+1]", "k- -1", "k- +1", "k+ -1", "(-1)", "-1-1", "a.Length-1"}) b += W(e);
    b += "q = k++-1; " + W("q") + "q = k--+1; " + W("q") + "q =-1; " + W("q") + "q=k==-1?-2:+3; " + W("q") + W("R()") + W("k<-1") + W("k>+1") + "k+=-1; " + W("k") + "switch (k) { case -1: " + W("50") + "break; case +1: " + W("51") + "break; default: " + W("52") + "break; }";
    prog(b, "static int F(int x) { return x; } static int R() { return-1; }");
    i64 k = I(0); auto o = [](i64 v) { line_i(w(v)); };
    o(k - 1); o(k - 1); o(k); o(k - 1); o(k + 1); o(k + 1); o(k - 1); o(k - 1); o(k + 1); o(2); o(-1); o(1); o(-3); o(-1); o(1); o(k); o(k + 1); o(k - 1); o(k - 1); o(-1); o(-2); o(2);
    o(k - 1); o(k + 2); o(-1); o(k == -1 ? -2 : 3); o(-1); line_v(k < -1); line_v(k > 1); k = w(k - 1); o(k); o(k == -1 ? 50 : k == 1 ? 51 : 52); expect_end(); });

  Reg("C18", "initializer_objects", [] { prog("int k = " + V(0) + "; C[] a = new C[] { new C(k), null, H(k + 1), new C(F(k)) }; C[][] j = new C[][] { new C[] { new C(k) }, new C[] { new C(k + 5), H(6) } }; C[,] m = new C[,] { { new C(k), new C(k + 1) }, { new C(F(k)), H(3) } }; object[] o = new object[] { new C(k), k, \"s\" }; int[] n = new int[] { 1, (new C(k)).f, G(new C(k + 2)) };\n" +
      W("a[0].f") + W("a[1] == null") + W("a[2].f") + W("a[3].f") + W("a.Length") + W("j[0][0].f") + W("j[1][0].f") + W("j[1][1].f") + W("m[0,1].f") + W("m[1,0].f") + W("m[1,1].f") + W("(int)o[1]") + W("((C)o[0]).f") + W("n[1]") + W("n[2]"),
      "static int G(C c) { return c.f; } static C H(int v) { C c = new C(v); return c; } static int F(int x) { return x + 7; }", "class C { public int f; public C(int v) { f = v; } }");
    i64 k = I(0); line_i(k); line_v(true); line_i(w(k + 1)); line_i(w(k + 7)); line_i(4); line_i(k); line_i(w(k + 5)); line_i(6); line_i(w(k + 1)); line_i(w(k + 7)); line_i(3); line_i(k); line_i(k); line_i(k); line_i(w(k + 2)); expect_end(); });
  Reg("C20", "gettype", [] { range(0, 0, 5); prog("object o = null; int k = " + V(0) + "; S s; s.x = k; if (k == 0) o = k; else if (k == 1) o = 5L; else if (k == 2) o = new A(); else if (k == 3) o = new B(); else if (k == 4) o = s; else o = new int[2];\n" +
      W("o.GetType() == typeof(int)") + W("o.GetType() == typeof(long)") + W("o.GetType() == typeof(A)") + W("o.GetType() == typeof(B)") + W("o.GetType() == typeof(S)") + W("o.GetType() == typeof(int[])") + W("o.GetType() == typeof(uint)") + W("o.GetType() == typeof(long[])") + W("o.GetType() != typeof(B)"), "", "class A { } class B : A { } struct S { public int x; }");
    for (int i = 0; i < 6; i++) line_v(I(0) == i); line_v(false); line_v(false); line_v(I(0) != 3); expect_end(); });
  Reg("C20", "gettype_static", [] { range(0, 0, 1); prog("A a = null; if (" + V(0) + " == 0) a = new A(); else a = new B(); Type t = a.GetType(); Type b = typeof(B); " + W("t == b") + W("t == typeof(A)") + "A c = new B(); " + W("t == c.GetType()") + W("typeof(int) == typeof(int)") + W("typeof(int) == typeof(uint)"), "", "class A { } class B : A { }");
    bool b = I(0) == 1; line_v(b); line_v(!b); line_v(b); line_v(true); line_v(false); expect_end(); });
  Reg("C21", "typeof_parameter", [] { range(0, 0, 2); prog("Type t = null; int k = " + V(0) + "; if (k == 0) t = typeof(int); else if (k == 1) t = typeof(long); else t = typeof(C); " + W("F<int>(t)") + W("F<long>(t)") + W("F<C>(t)") + "G<int> g = new G<int>(); G<long> h = new G<long>(); " + W("g.Is(t)") + W("h.Is(t)") + "object o = g; " + W("o.GetType() == typeof(G<int>)") + W("o.GetType() == typeof(G<long>)"),
      "static bool F<T>(Type t) { return typeof(T) == t; }", "class C { } class G<T> { public T v; public bool Is(Type t) { return typeof(T) == t; } }");
    int k = I(0); line_v(k == 0); line_v(k == 1); line_v(k == 2); line_v(k == 0); line_v(k == 1); line_v(true); line_v(false); expect_end(); });
  Reg("C25", "message", [] { range(0, 0, 4); prog("int k = " + V(0) + "; try { T(k); Console.WriteLine(\"none\"); } catch (MyEx m) { " + W("m.Message") + W("m.code") + "} catch (Exception e) { " + W("e.Message") + W("e.InnerException == null") + "if (e.InnerException != null) { " + W("e.InnerException.Message") + "} } " + W("k"),
      "static void T(int k) { int c = " + V(1) + "; if (k == 1) throw new Exception(\"one\"); if (k == 2) throw new Exception(\"two\", new Exception(\"in\")); if (k == 3) { MyEx m = new MyEx(); m.code = c; throw m; } if (k == 4) { try { throw new Exception(\"first\"); } catch (Exception e) { throw new Exception(\"wrap\", e); } } }",
      "class MyEx : Exception { public int code; }");
    switch (I(0)) { case 0: line("none"); break; case 1: line("one"); line_v(true); break; case 2: line("two"); line_v(false); line("in"); break; case 3: line(""); line_i(I(1)); break; default: line("wrap"); line_v(false); line("first"); }
    line_i(I(0)); expect_end(); });
  // generic methods and static methods of a generic class, called from outside and from one another
  Reg("C21", "methods_of_generic_class", [] { range(3, 0, 1); prog("G<long> a = new G<long>(); G<byte> b = new G<byte>(); b.w = (byte)7; a.w = 9L; byte x = (byte)" + V(1) + "; long y = (long)" + V(2) + " * 65537L;\n" +
      W("a.A(y, 3)") + W("b.A(x, 4)") + W("a.v") + W("b.v") + W("a.w") + W("b.w") + W("a.B<int>(4L, " + V(0) + ")") + W("b.B<int>((byte)5, " + V(0) + ")") + W("a.v") + W("b.v") + W("a.w") + W("b.w") +
      W("a.C<short>(y, (short)3)") + W("b.C<long>(x, 8L)") + W("a.v") + W("b.v") + W("b.w") + W("G<int>.S(" + V(0) + ")") + W("G<long>.S(" + V(0) + ")") + W("G<long>.P<byte>(y, (byte)" + V(3) + ")") + W("G<byte>.P<byte>(x, (byte)" + V(3) + ")"), "",
      "class G<T> { public T v; public T w; public int A(T u, int k) { return B<int>(u, k) + 1; } public int B<U>(T t, U u) { v = t; H<U> h = new H<U>(); h.v = u; h.w = h.v; return h.F<T>(t); } public int C<U>(T t, U u) { return B<U>(t, u) * 2 + D(t); } public int D(T t) { v = t; return 1; }\n"
      "public static int S(int k) { return Q(k) + 3; } public static int Q(int k) { return R<T>(k) - 1; } public static int R<U>(int k) { return k; } public static int P<U>(T t, U u) { G<T> g = new G<T>(); g.v = t; H<U> h = new H<U>(); h.v = u; h.w = h.v; return Q(h.F<int>(3)); } }\n"
      "class H<T> { public T v; public T w; public int F<U>(U u) { return 10; } }");
    i32 k = I(0); i64 y = (i64)I(2) * 65537; u8 x = (u8)(u32)I(1);
    line_i(11); line_i(11); line_i(y); line_i(x); line_i(9); line_i(7); line_i(10); line_i(10); line_i(4); line_i(5); line_i(9); line_i(7);
    line_i(21); line_i(21); line_i(y); line_i(x); line_i(7); i32 s = (i32)((u32)k + 2u); line_i(s); line_i(s); line_i(9); line_i(9); expect_end(); });
  // unboxing: exactly the type of the boxed value (a struct is unboxed unchecked: april's own test relies on it)
  { static const char *TS[] = {"sbyte", "byte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "char", "bool"};
    for (int part = 0; part < 3; part++) Reg("C20", "unbox_pairs_" + std::to_string(part), [part] { int lo = part * 5, hi = part == 2 ? 14 : lo + 4; range(0, lo, hi);
      S main = "S s; s.x = 5; C c = new C(); int k = " + V(0) + "; object o = null; int v = " + V(1) + ";\n", lit[] = {"(sbyte)v", "(byte)v", "(short)v", "(ushort)v", "v", "(uint)v", "(long)v", "(ulong)v", "1.5f", "2.5", "'a'", "(v > 3)", "s", "c", "null"};
      for (int i = lo; i <= hi; i++) main += S("if (k == ") + std::to_string(i) + ") o = " + lit[i] + ";\n";
      for (int i = 0; i < 12; i++) main += S("try { ") + TS[i] + " t" + std::to_string(i) + " = (" + TS[i] + ")o; Console.WriteLine(1); } catch (InvalidCastException e) { Console.WriteLine(0); } catch (NullReferenceException e) { Console.WriteLine(2); }\n";
      prog(main, "", "struct S { public int x; } class C { public int x; }");
      for (int i = 0; i < 12; i++) line_i(I(0) == i ? 1 : I(0) == 14 ? 2 : 0); expect_end(); }); }
  // a boxed struct from and in every place
  { static const char *ST = "struct S { public int x; public long y; public S(int a) { x = a; y = 77L; } public int Sum(int k) { x = x + k; return x; } public S Add(S o) { S r; r.x = x + o.x; r.y = y + o.y; return r; } }\n"
      "struct B { public byte b; public int x; public long y; public short t; public long z; } class C { public S s; public object o; public object H(int z, object a, object b) { S q = (S)a; Console.WriteLine(z); Console.WriteLine(q.x); return b; } public C() { } public C(S t) { s = t; } public C(object p, int k) { o = p; } public int Q(S t) { return t.x; } }";
    static const char *SM = "static void F(object o) { S s = (S)o; Console.WriteLine(s.x); Console.WriteLine(s.y); } static S G(int k) { S s; s.x = k; s.y = 41L; return s; } static object R1(S s) { return s; } static object R2(int k) { S s; s.x = k; s.y = 22L; return s; } static object R3(C c) { return c.s; } static object R4(S[] a) { return a[1]; } static object R5(int k) { return G(k); } static object R6(int k) { return new S(k); } static object R7(S s) { return (object)s; }\n"
      "static S U(object o) { return (S)o; } static void A(S s) { Console.WriteLine(s.x); Console.WriteLine(s.y); } static S Mk(S s) { s.x = s.x - 1; return s; } static S Mk2(int z, S s, S t) { s.x = s.x - t.x + z; return s; } static C Wr(S s) { return new C(s); } static object Fb(object o) { return o; }";
    static const S PRE = "int k = " + V(0) + "; long m = (long)" + V(1) + " * 65537L; S s; s.x = k; s.y = m; C c = new C(); c.s = s; S[] a = new S[2]; a[1] = s; ";
    auto reg = [](const char *name, const char *body, std::function<void(i32, i64)> want) { Reg("C20", name, [=] { prog(PRE + body, SM, ST); want(I(0), (i64)I(1) * 65537); expect_end(); }); };
    reg("struct_boxed_as_argument", "F(s); s.x = 8; F(s); F(c.s); F(a[1]); F(new S(3)); F(G(k)); F((object)s); F((object)c.s); F((object)a[1]); F((object)G(k)); F((object)new S(14)); object o = c.H(2, a[1], 3); Console.WriteLine((int)o); o = c.H(4, 5, s); F(o); o = c.H(6, c.s, s); s.x = 1; F(o); Console.WriteLine(s.x); C d = new C(s, 3); F(d.o);", [](i32 k, i64 m) {
      auto p = [](i64 x, i64 y) { line_i(x); line_i(y); }; p(k, m); p(8, m); p(k, m); p(k, m); p(3, 77); p(k, 41); p(8, m); p(k, m); p(k, m); p(k, 41); p(14, 77); p(2, k); line_i(3); p(4, 5); p(8, m); p(6, k); p(8, m); line_i(1); p(1, m); });
    reg("struct_boxed_as_result", "F(R1(s)); F(R2(k)); F(R3(c)); F(R4(a)); F(R5(k)); F(R6(k)); F(R7(s)); object o = R1(s); s.x = 4; c.s.x = 5; F(o); o = R3(c); c.s.x = 6; F(o);", [](i32 k, i64 m) {
      auto p = [](i64 x, i64 y) { line_i(x); line_i(y); }; p(k, m); p(k, 22); p(k, m); p(k, m); p(k, 41); p(k, 77); p(k, m); p(k, m); p(5, m); });
    reg("struct_boxed_in_variables", "c.o = s; s.x = 9; F(c.o); c.o = c.s; F(c.o); c.o = G(k); F(c.o); c.o = new S(4); F(c.o); object[] b = new object[3]; b[0] = s; b[1] = c.s; b[2] = a[1]; s.x = 2; c.s.x = 3; a[1].x = 4; F(b[0]); F(b[1]); F(b[2]); object o = c.s; F(o); o = a[1]; F(o); o = (object)s; F(o); o = k > 3 ? (object)s : (object)c.s; F(o); o = (S)b[1]; F(o);", [](i32 k, i64 m) {
      auto p = [](i64 x, i64 y) { line_i(x); line_i(y); }; p(k, m); p(k, m); p(k, 41); p(4, 77); p(9, m); p(k, m); p(k, m); p(3, m); p(4, m); p(2, m); p(k > 3 ? 2 : 3, m); p(k, m); });
    reg("struct_unboxed_everywhere", "object o = s; c.o = s; A((S)o); A(U(o)); S[] e = new S[2]; e[1] = (S)o; A(e[1]); c.s = (S)c.o; A(c.s); S t; t = (S)o; t.x = 3; A((S)o); Console.WriteLine(((S)o).x); Console.WriteLine(((S)c.o).y); Console.WriteLine(((S)o).Sum(5)); Console.WriteLine(((S)o).Sum(6)); Console.WriteLine(U(o).x); A(((S)o).Add((S)c.o)); Console.WriteLine(Mk((S)o).x); Console.WriteLine(((S)o).x - 1); object p = ((S)o).x; Console.WriteLine((int)p); for (int i = 0; i < 2; i++) { int z = ((S)c.o).Sum(i); Console.WriteLine(z); }\n"
      "Console.WriteLine(o is S); Console.WriteLine(o is B); Console.WriteLine(o is int); Console.WriteLine(Fb(s) is S); Console.WriteLine(Fb(c.s) is C);", [](i32 k, i64 m) {
      auto p = [](i64 x, i64 y) { line_i(x); line_i(y); }; auto u = [](i32 a, i32 b) { return (i64)(i32)((u32)a + (u32)b); }; p(k, m); p(k, m); p(k, m); p(k, m); p(k, m); line_i(k); line_i(m); line_i(u(k, 5)); line_i(u(k, 6)); line_i(k); line_i(u(k, k)); line_i((i64)((u64)m + (u64)m)); line_i(u(k, -1)); line_i(u(k, -1)); line_i(k); line_i(k); line_i(u(k, 1)); line_v(true); line_v(false); line_v(false); line_v(true); line_v(false); });
    reg("struct_unbox_null", "object o = null; try { if (k > 0) o = s; S t = (S)o; Console.WriteLine(t.x); } catch (NullReferenceException e) { Console.WriteLine(99); } B b; b.b = (byte)1; b.x = k; b.y = m; b.t = (short)3; b.z = m; o = null; if (k < 5) o = b; try { Console.WriteLine(((B)o).x); b = (B)o; Console.WriteLine(b.z); } catch (NullReferenceException e) { Console.WriteLine(98); } Console.WriteLine(b.y);", [](i32 k, i64 m) {
      if (k > 0) line_i(k); else line_i(99); if (k < 5) { line_i(k); line_i(m); } else line_i(98); line_i(m); });
    Reg("C15", "member_of_result_of_call_with_struct", [] { prog(PRE + "S q; q.x = 3; q.y = 4L; Console.WriteLine(Mk(s).x); Console.WriteLine(Mk(s).y); Console.WriteLine(Mk(a[1]).x); Console.WriteLine(Mk(c.s).y); Console.WriteLine(Mk(Mk(s)).x); Console.WriteLine(Mk2(1, s, q).x); Console.WriteLine(Mk2(1, c.s, a[1]).x); Console.WriteLine(new C(s).s.x); Console.WriteLine(new C(c.s).s.y); Console.WriteLine(new C(q).Q(s)); Console.WriteLine(Wr(s).s.x); Console.WriteLine(Wr(c.s).Q(a[1])); Console.WriteLine(s.Add(q).x); Console.WriteLine(s.Add(q).Add(q).x); Console.WriteLine(c.s.Add(q).y); Console.WriteLine(a[1].Add(q).Sum(2)); Console.WriteLine((k > 3 ? s : q).x); Console.WriteLine(Wr(Mk(s)).s.x); A(s); A(c.s); A(a[1]);", SM, ST);
      i32 k = I(0); i64 m = (i64)I(1) * 65537; auto u = [](i32 a, i32 b) { return (i64)(i32)((u32)a + (u32)b); }; line_i(u(k, -1)); line_i(m); line_i(u(k, -1)); line_i(m); line_i(u(k, -2)); line_i(u(k, -2)); line_i(1); line_i(k); line_i(m); line_i(k); line_i(k); line_i(k); line_i(u(k, 3)); line_i(u(k, 6)); line_i((i64)((u64)m + 4)); line_i(u(k, 5)); line_i(k > 3 ? k : 3); line_i(u(k, -1)); for (int i = 0; i < 3; i++) { line_i(k); line_i(m); } expect_end(); });
  }
} } init; }
