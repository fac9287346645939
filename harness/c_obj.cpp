// C13 overloads, C15-C20 more shapes, C24 dispatch, C25 exceptions, C26 enums
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
void prog(const S &b, const S &m = "", const S &t = "") { run_program(program(b, m, t)); }
void L(std::initializer_list<i64> l) { for (i64 v : l) line_i(v); }
i32 I(int k) { return in<i32>(k); }
bool B(int k) { return in<bool>(k); }
#define W "Console.WriteLine"
#define V "Verif.Verif_I32"
#define VB "Verif.Verif_Bool"

struct Init { Init() {
  // ---- C24: virtual and interface dispatch
  const char *ABC = "class A { public int x; public virtual int F(int k) { return k + 1; } public int G(int k) { return F(k) * 2; } public virtual int H() { return 10; } }\n"
                    "class B : A { public override int F(int k) { return k - 1; } }\n"
                    "class C : B { public int y; public override int F(int k) { return k + y; } public override int H() { return 30; } }\n";
  Reg("C24", "virtual", [ABC] { prog("int s = " V "(0); A a = s == 0 ? new A() : Mk(s); int k = " V "(1); Console.WriteLine(a.F(k)); Console.WriteLine(a.G(k)); Console.WriteLine(a.H());",
      "static A Mk(int s) { if (s == 1) return new B(); C c = new C(); c.y = " V "(2); return c; }", ABC);
    i32 s = I(0); u32 k = I(1), y = I(2); u32 f = s == 0 ? k + 1 : s == 1 ? k - 1 : k + y; line_v((i32)f); line_v((i32)(f * 2)); line_i(s == 0 || s == 1 ? 10 : 30); expect_end(); });
  Reg("C24", "virtual_array", [ABC] { i32 i = I(0); symapi_assume(i >= 0); symapi_assume(i < 3); prog("A[] a = new A[3]; a[0] = new A(); a[1] = new B(); C c = new C(); c.y = 7; a[2] = c; int i = " V "(0); int k = " V "(1); Console.WriteLine(a[i].F(k)); Console.WriteLine(a[i].H());", "", ABC);
    u32 k = I(1); line_v((i32)(i == 0 ? k + 1 : i == 1 ? k - 1 : k + 7)); line_i(i == 2 ? 30 : 10); expect_end(); });
  Reg("C24", "base_ref_fields", [ABC] { prog("C c = new C(); c.x = " V "(0); c.y = " V "(1); B b = c; A a = b; a.x = " V "(2); Console.WriteLine(c.x); Console.WriteLine(c.y); Console.WriteLine(b.F(0)); Console.WriteLine(a == c);", "", ABC);
    line_v(I(2)); line_v(I(1)); line_v(I(1)); line_v(true); expect_end(); });
  const char *IF = "interface I { int F(int k); } interface J { int G(); }\n class A : I { public int v; public int F(int k) { return v + k; } }\n class B : I, J { public int w; public int F(int k) { return k - w; } public int G() { return w; } }\n";
  Reg("C24", "interface", [IF] { prog("A a = new A(); a.v = " V "(0); B b = new B(); b.w = " V "(1); I i = a; I k = b; if (" VB "(3)) i = b; J j = b; Console.WriteLine(i.F(" V "(2))); Console.WriteLine(k.F(5)); Console.WriteLine(j.G());", "", IF);
    u32 v = I(0), w = I(1), k = I(2); line_v((i32)(B(3) ? k - w : v + k)); line_v((i32)(5 - w)); line_v((i32)w); expect_end(); });
  Reg("C24", "interface_param", [IF] { prog("A a = new A(); a.v = " V "(0); B b = new B(); b.w = " V "(1); Console.WriteLine(Call(a, " V "(2))); Console.WriteLine(Call(b, " V "(2)));", "static int Call(I i, int k) { return i.F(k); }", IF);
    u32 v = I(0), w = I(1), k = I(2); line_v((i32)(v + k)); line_v((i32)(k - w)); expect_end(); });
  Reg("C24", "interface_virtual", [] { prog("I i = " VB "(0) ? Mk(0) : Mk(1); Console.WriteLine(i.F(" V "(1)));", "static I Mk(int k) { if (k == 0) return new A(); return new B(); }",
      "interface I { int F(int k); } class A : I { public virtual int F(int k) { return k + 1; } } class B : A { public override int F(int k) { return k + 2; } }");
    line_v((i32)((u32)I(1) + (B(0) ? 1 : 2))); expect_end(); });
  Reg("C24", "many_virtuals", [] { prog("A a; if (" VB "(0)) a = new A(); else a = new B(); int k = " V "(1); Console.WriteLine(a.F1(k)); Console.WriteLine(a.F2(k)); Console.WriteLine(a.F3(k)); Console.WriteLine(a.F4(k));", "",
      "class A { public virtual int F1(int k) { return k + 1; } public virtual int F2(int k) { return k + 2; } public virtual int F3(int k) { return k + 3; } public virtual int F4(int k) { return k + 4; } }\n class B : A { public override int F3(int k) { return k + 33; } public override int F1(int k) { return k + 11; } }");
    u32 k = I(1); bool a = B(0); line_v((i32)(k + (a ? 1 : 11))); line_v((i32)(k + 2)); line_v((i32)(k + (a ? 3 : 33))); line_v((i32)(k + 4)); expect_end(); });
  Reg("C24", "abstract", [] { prog("A a; if (" VB "(0)) a = new B(); else a = new C(); Console.WriteLine(a.G(" V "(1)));", "", "abstract class A { public abstract int F(int k); public int G(int k) { return F(k) + 100; } } class B : A { public override int F(int k) { return k; } } class C : A { public override int F(int k) { return -k; } }");
    u32 k = I(1); line_v((i32)((B(0) ? k : 0 - k) + 100)); expect_end(); });
  Reg("C24", "nonvirtual_hides", [] { prog("B b = new B(); A a = b; Console.WriteLine(a.F(" V "(1))); Console.WriteLine(b.F(" V "(1)));", "", "class A { public int F(int k) { return k + 1; } } class B : A { public new int F(int k) { return k + 2; } }");
    u32 k = I(1); line_v((i32)(k + 1)); line_v((i32)(k + 2)); expect_end(); });

  // ---- C25: exceptions
  const char *EX = "class E1 : Exception { public int v; public E1() { } public E1(int k) { v = k; } } class E2 : E1 { } class E3 : Exception { }\n";
  const char *TH = "static void T(int k, int v) { Console.WriteLine(k); if (k == 1) throw new E1(v); if (k == 2) { E2 e = new E2(); e.v = v; throw e; } if (k == 3) throw new E3(); Console.WriteLine(100 + k); }\n";
#define X25(name, body, mem, ref) Reg("C25", name, [=] { prog(body, S(TH) + mem, EX); ref expect_end(); });
  auto pass = [](i32 k) { return k < 1 || k > 3; }; (void)pass;
  Reg("C25", "catch_by_type", [=] { prog("int k = " V "(0); try { T(k, " V "(1)); Console.WriteLine(1); } catch (E2 e) { Console.WriteLine(2); Console.WriteLine(e.v); } catch (E1 e) { Console.WriteLine(3); Console.WriteLine(e.v); } catch (Exception e) { Console.WriteLine(4); } Console.WriteLine(9);", TH, EX);
    i32 k = I(0); line_v(k); if (k == 1) { line_i(3); line_v(I(1)); } else if (k == 2) { line_i(2); line_v(I(1)); } else if (k == 3) line_i(4); else { line_v((i32)(100 + (u32)k)); line_i(1); } line_i(9); expect_end(); });
  Reg("C25", "catch_first_match", [=] { prog("int k = " V "(0); try { T(k, " V "(1)); Console.WriteLine(1); } catch (E1 e) { Console.WriteLine(3); Console.WriteLine(e.v); } catch (Exception e) { Console.WriteLine(4); } finally { Console.WriteLine(5); } Console.WriteLine(9);", TH, EX);
    i32 k = I(0); line_v(k); if (k == 1 || k == 2) { line_i(3); line_v(I(1)); } else if (k == 3) line_i(4); else { line_v((i32)(100 + (u32)k)); line_i(1); } line_i(5); line_i(9); expect_end(); });
  Reg("C25", "propagate", [=] { prog("int k = " V "(0); try { A(k); Console.WriteLine(1); } catch (Exception e) { Console.WriteLine(2); } Console.WriteLine(9);", S(TH) + "static void A(int k) { int loc = 5; B(k); Console.WriteLine(loc); } static void B(int k) { try { T(k, 0); Console.WriteLine(11); } catch (E2 e) { Console.WriteLine(12); } finally { Console.WriteLine(13); } Console.WriteLine(14); }", EX);
    i32 k = I(0); line_v(k); bool th = false; if (k == 1 || k == 3) th = true; else if (k == 2) line_i(12); else { line_v((i32)(100 + (u32)k)); line_i(11); } line_i(13); if (!th) { L({14, 5, 1}); } else line_i(2); line_i(9); expect_end(); });
  Reg("C25", "nested_try", [=] { prog("int k = " V "(0); int m = " V "(1); try { try { T(k, 0); } catch (E1 e) { Console.WriteLine(21); T(m, 0); Console.WriteLine(22); } finally { Console.WriteLine(23); } Console.WriteLine(24); } catch (E2 e) { Console.WriteLine(25); } catch (Exception e) { Console.WriteLine(26); } finally { Console.WriteLine(27); } Console.WriteLine(9);", TH, EX);
    i32 k = I(0), m = I(1); int out = 0; line_v(k); if (k == 1 || k == 2) { line_i(21); line_v(m); if (m >= 1 && m <= 3) out = m; else { line_v((i32)(100 + (u32)m)); line_i(22); } } else if (k == 3) out = 3; else line_v((i32)(100 + (u32)k));
    line_i(23); if (!out) line_i(24); else if (out == 2) line_i(25); else line_i(26); L({27, 9}); expect_end(); });
  Reg("C25", "finally_order", [=] { prog("int k = " V "(0); try { try { try { T(k, 0); Console.WriteLine(1); } finally { Console.WriteLine(2); } Console.WriteLine(3); } finally { Console.WriteLine(4); } Console.WriteLine(5); } catch (Exception e) { Console.WriteLine(6); } Console.WriteLine(9);", TH, EX);
    i32 k = I(0); line_v(k); bool t = k >= 1 && k <= 3; if (!t) { line_v((i32)(100 + (u32)k)); line_i(1); } line_i(2); if (!t) line_i(3); line_i(4); line_i(t ? 6 : 5); line_i(9); expect_end(); });
  Reg("C25", "outside_try", [=] { prog("int k = " V "(0); try { A(k); Console.WriteLine(8); } catch (E1 e) { Console.WriteLine(e.v); } finally { Console.WriteLine(10); } Console.WriteLine(9);", "static void A(int x) { if (x == 0) throw new E1(1000); try { B(x); if (x == 1) throw new E1(1001); } catch (E1 e) { Console.WriteLine(e.v); } finally { Console.WriteLine(60); } if (x == 2) throw new E1(1002); try { B(x); } catch (E3 e) { Console.WriteLine(61); } if (x == 3) throw new E1(1003); C(x); if (x == 4) throw new E1(1004); } static void B(int x) { try { try { try { Console.WriteLine(50); } catch (Exception) { Console.WriteLine(51); } } catch (Exception) { Console.WriteLine(52); } } catch (Exception) { Console.WriteLine(53); } finally { Console.WriteLine(54); } } static void C(int x) { if (x == 5) throw new E1(1005); try { if (x == 6) throw new E3(); try { Console.WriteLine(70); } finally { Console.WriteLine(71); } } catch (Exception) { Console.WriteLine(72); } if (x == 7) throw new E1(1007); }", EX);
    i32 k = I(0); do { if (k == 0) { line_i(1000); break; } L({50, 54}); if (k == 1) line_i(1001); line_i(60); if (k == 2) { line_i(1002); break; } L({50, 54}); if (k == 3) { line_i(1003); break; } if (k == 5) { line_i(1005); break; } if (k == 6) line_i(72); else L({70, 71}); if (k == 7) { line_i(1007); break; } if (k == 4) { line_i(1004); break; } line_i(8); } while (0); L({10, 9}); expect_end(); });
  Reg("C25", "siblings", [=] { prog("int k = " V "(0); try { try { if (k == 0) throw new E1(1); Console.WriteLine(20); } catch (E1 e) { Console.WriteLine(21); if (k == 5) throw new E3(); } if (k == 1) throw new E1(2); try { if (k == 2) throw new E1(3); Console.WriteLine(22); } catch (E1 e) { Console.WriteLine(23); try { throw new E1(4); } catch (E1 f) { Console.WriteLine(f.v); } Console.WriteLine(e.v); } finally { Console.WriteLine(24); try { Console.WriteLine(25); } catch (E1 e) { Console.WriteLine(26); } } if (k == 3) throw new E3(); Console.WriteLine(27); } catch (E1 e) { Console.WriteLine(e.v); } catch (E3 e) { Console.WriteLine(29); } Console.WriteLine(9);", "", EX);
    i32 k = I(0); do { line_i(k == 0 ? 21 : 20); if (k == 1) { line_i(2); break; } if (k == 2) L({23, 4, 3}); else line_i(22); L({24, 25}); if (k == 3) { line_i(29); break; } line_i(27); } while (0); line_i(9); expect_end(); });
  Reg("C25", "rethrow", [=] { prog("int k = " V "(0); try { try { T(k, " V "(1)); } catch (E1 e) { Console.WriteLine(1); throw; } Console.WriteLine(2); } catch (E2 e) { Console.WriteLine(3); Console.WriteLine(e.v); } catch (E1 e) { Console.WriteLine(4); Console.WriteLine(e.v); } catch (E3 e) { Console.WriteLine(5); } Console.WriteLine(9);", TH, EX);
    i32 k = I(0); line_v(k); if (k == 1) { line_i(1); line_i(4); line_v(I(1)); } else if (k == 2) { line_i(1); line_i(3); line_v(I(1)); } else if (k == 3) line_i(5); else { line_v((i32)(100 + (u32)k)); line_i(2); } line_i(9); expect_end(); });
  Reg("C25", "throw_other", [=] { prog("int k = " V "(0); try { try { T(k, 1); } catch (Exception e) { throw new E1(" V "(1)); } finally { Console.WriteLine(7); } Console.WriteLine(2); } catch (E1 e) { Console.WriteLine(e.v); } Console.WriteLine(9);", TH, EX);
    i32 k = I(0); line_v(k); bool t = k >= 1 && k <= 3; if (!t) line_v((i32)(100 + (u32)k)); line_i(7); if (t) line_v(I(1)); else line_i(2); line_i(9); expect_end(); });
  Reg("C25", "return_in_try", [=] { prog("Console.WriteLine(F(" V "(0))); Console.WriteLine(9);", S(TH) + "static int F(int k) { try { T(k, 0); return 1; } catch (E2 e) { return 2; } catch (E1 e) { Console.WriteLine(50); } finally { Console.WriteLine(51); } return 3; }", EX);
    i32 k = I(0); symapi_assume(k != 3); line_v(k); if (k == 1) { L({50, 51, 3}); } else if (k == 2) L({51, 2}); else { line_v((i32)(100 + (u32)k)); L({51, 1}); } line_i(9); expect_end(); });
  Reg("C25", "return_value_before_finally", [=] { prog("Console.WriteLine(F(" V "(0))); Console.WriteLine(9);", "static int F(int k) { int r = k; try { try { return r; } finally { r = r + 1; Console.WriteLine(r); } } finally { r = r + 1; Console.WriteLine(r); } }");
    u32 k = I(0); line_v((i32)(k + 1)); line_v((i32)(k + 2)); line_v((i32)k); line_i(9); expect_end(); });
  Reg("C25", "break_continue_finally", [=] { prog("int k = " V "(0); int m = " V "(1); for (int i = 0; i < 3; i++) { try { if (i == k) break; if (i == m) continue; Console.WriteLine(i); } finally { Console.WriteLine(10 + i); } Console.WriteLine(20 + i); } Console.WriteLine(9);");
    i32 k = I(0), m = I(1); for (int i = 0; i < 3; i++) { if (i == k) { line_i(10 + i); break; } if (i == m) { line_i(10 + i); continue; } L({i, 10 + i, 20 + i}); } line_i(9); expect_end(); });
  Reg("C25", "loop_catch", [=] { prog("int k = " V "(0); for (int i = 0; i < 3; i++) { try { if (i == k) throw new E1(i); Console.WriteLine(i); } catch (E1 e) { Console.WriteLine(e.v + 50); } } Console.WriteLine(9);", "", EX);
    i32 k = I(0); for (int i = 0; i < 3; i++) line_i(i == k ? i + 50 : i); line_i(9); expect_end(); });
  Reg("C25", "locals_survive", [=] { prog("int a = " V "(0); long b = " V "(1); bool t = " VB "(2); try { a = a + 1; if (t) throw new E1(a); b = b + 1; } catch (E1 e) { b = b - e.v; } Console.WriteLine(a); Console.WriteLine(b);", "", EX);
    u32 a = (u32)I(0) + 1; i64 b = I(1); line_v((i32)a); line_v(B(2) ? b - (i32)a : b + 1); expect_end(); });
  Reg("C25", "throw_in_expr", [=] { prog("int r = 5; try { r = F(1) + F(" V "(0)) * F(2); Console.WriteLine(1); } catch (E1 e) { Console.WriteLine(e.v); } Console.WriteLine(r);", "static int F(int k) { if (k > 100) throw new E1(k); return k; }", EX);
    i32 k = I(0); if (k > 100) { line_v(k); line_i(5); } else { line_i(1); line_v((i32)(1 + (u32)k * 2)); } expect_end(); });
  Reg("C25", "throw_in_args", [=] { prog("int z = " V "(1); try { Console.WriteLine(G(7, F(" V "(0)), 8)); } catch (E1 e) { Console.WriteLine(e.v); } Console.WriteLine(z); Console.WriteLine(G(1, F(2), 3));", "static int F(int k) { if (k > 100) throw new E1(k); return k; } static int G(int a, int b, int c) { return a * 100 + b * 10 + c; }", EX);
    i32 k = I(0); if (k > 100) line_v(k); else line_v((i32)(708 + (u32)k * 10)); line_v(I(1)); line_i(123); expect_end(); });
  Reg("C25", "recursion", [=] { i32 n = I(0); symapi_assume(n >= 0); symapi_assume(n <= 3); prog("try { R(" V "(0)); } catch (E1 e) { Console.WriteLine(e.v); } Console.WriteLine(9);", "static void R(int n) { try { if (n == 0) throw new E1(77); R(n - 1); } finally { Console.WriteLine(n); } Console.WriteLine(1000); }", EX);
    for (int i = 0; i <= n; i++) line_i(i); line_i(77); line_i(9); expect_end(); });
  Reg("C25", "ctor_throws", [=] { prog("C c = null; try { c = new C(" V "(0)); Console.WriteLine(c.v); } catch (E1 e) { Console.WriteLine(e.v); } Console.WriteLine(c == null);", "", S(EX) + "class C { public int v; public C(int k) { if (k < 0) throw new E1(k); v = k; } }");
    i32 k = I(0); line_v(k); line_v(k < 0); expect_end(); });
  Reg("C25", "in_virtual", [=] { prog("A a; if (" VB "(0)) a = new A(); else a = new B(); try { a.F(" V "(1)); Console.WriteLine(1); } catch (E1 e) { Console.WriteLine(e.v); }", "", S(EX) + "class A { public virtual void F(int k) { Console.WriteLine(5); } } class B : A { public override void F(int k) { throw new E1(k); } }");
    if (B(0)) L({5, 1}); else line_v(I(1)); expect_end(); });
  Reg("C25", "catch_no_var", [=] { prog("int k = " V "(0); try { T(k, 0); } catch (E2) { Console.WriteLine(2); } catch { Console.WriteLine(3); } Console.WriteLine(9);", TH, EX);
    i32 k = I(0); line_v(k); if (k == 2) line_i(2); else if (k == 1 || k == 3) line_i(3); else line_v((i32)(100 + (u32)k)); line_i(9); expect_end(); });
  Reg("C25", "finally_handles_exception", [=] { prog("Console.WriteLine(F(" V "(0)));", "static int F(int k) { try { return k; } finally { try { throw new E1(5); } catch (E1 e) { Console.WriteLine(e.v); } } }", EX);
    line_i(5); line_v(I(0)); expect_end(); });
  Reg("C25", "null_field", [=] { prog("C c = " VB "(0) ? new C() : null; try { Console.WriteLine(c.v); c.v = " V "(1); Console.WriteLine(c.v); } catch (NullReferenceException e) { Console.WriteLine(77); } Console.WriteLine(9);", "", "class C { public int v; }");
    if (B(0)) { line_i(0); line_v(I(1)); } else line_i(77); line_i(9); expect_end(); });
  Reg("C25", "null_field_write", [=] { prog("C c = " VB "(0) ? new C() : null; try { c.v = " V "(1); Console.WriteLine(c.v); } catch (NullReferenceException e) { Console.WriteLine(77); } Console.WriteLine(9);", "", "class C { public long p; public int v; }");
    if (B(0)) line_v(I(1)); else line_i(77); line_i(9); expect_end(); });
  Reg("C25", "null_array", [=] { prog("int[] c = " VB "(0) ? new int[2] : null; try { c[1] = " V "(1); Console.WriteLine(c[1]); } catch (NullReferenceException e) { Console.WriteLine(77); } int[] d = " VB "(2) ? new int[2] : null; try { Console.WriteLine(d[0]); } catch (NullReferenceException e) { Console.WriteLine(78); } Console.WriteLine(9);");
    if (B(0)) line_v(I(1)); else line_i(77); if (B(2)) line_i(0); else line_i(78); line_i(9); expect_end(); });

  // ---- C26: enums
  const char *EN = "enum E { A, B, C = 10, D, F = -5, G } enum S : byte { X = 200, Y, Z = 5 }";
  Reg("C26", "values", [EN] { prog("Console.WriteLine((int)E.A); Console.WriteLine((int)E.B); Console.WriteLine((int)E.C); Console.WriteLine((int)E.D); Console.WriteLine((int)E.F); Console.WriteLine((int)E.G); Console.WriteLine(E.A == E.B); Console.WriteLine(E.C == (E)10);", "", EN);
    L({0, 1, 10, 11, -5, -4}); line_v(false); line_v(true); expect_end(); });
  Reg("C26", "convert", [EN] { prog("int v = " V "(0); E e = (E)v; Console.WriteLine((int)e); Console.WriteLine(e == E.D); Console.WriteLine(e != E.F); E f = e; f = E.C; Console.WriteLine((int)e); Console.WriteLine((int)f);", "", EN);
    i32 v = I(0); line_v(v); line_v(v == 11); line_v(v != -5); line_v(v); line_i(10); expect_end(); });
  Reg("C26", "param_return", [EN] { prog("Console.WriteLine((int)F((E)" V "(0))); Console.WriteLine(G(E.D));", "static E F(E e) { if (e == E.A) return E.D; return e; } static int G(E e) { return (int)e + 1; }", EN);
    i32 v = I(0); line_v(v == 0 ? 11 : v); line_i(12); expect_end(); });
  Reg("C26", "field_array", [EN] { i32 i = I(2); symapi_assume(i >= 0); symapi_assume(i < 3); prog("C c = new C(); Console.WriteLine((int)c.e); c.p = 1; c.e = (E)" V "(0); c.q = 2; E[] a = new E[3]; a[" V "(2)] = (E)" V "(1); Console.WriteLine((int)c.e); Console.WriteLine(c.p); Console.WriteLine(c.q); Console.WriteLine((int)a[0]); Console.WriteLine((int)a[1]); Console.WriteLine((int)a[2]);", "", S(EN) + "class C { public int p; public E e; public int q; }");
    line_i(0); line_v(I(0)); line_i(1); line_i(2); for (int k = 0; k < 3; k++) line_v(k == i ? I(1) : 0); expect_end(); });

  // ---- C13: overloads, recursion, instance methods, this
  Reg("C13", "overload_int", [] { prog("F(" V "(0)); F(Verif.Verif_I64(1)); F(Verif.Verif_U8(2)); F(Verif.Verif_Bool(3)); F(Verif.Verif_F64(4)); F(Verif.Verif_Char(5)); F(Verif.Verif_U32(6)); F(Verif.Verif_I16(7));",
      "static void F(int x) { Console.WriteLine(1); Console.WriteLine(x); } static void F(long x) { Console.WriteLine(2); Console.WriteLine(x); } static void F(byte x) { Console.WriteLine(3); Console.WriteLine(x); } static void F(bool x) { Console.WriteLine(4); Console.WriteLine(x); } static void F(double x) { Console.WriteLine(5); Console.WriteLine(x); } static void F(char x) { Console.WriteLine(6); Console.WriteLine(x); } static void F(uint x) { Console.WriteLine(7); Console.WriteLine(x); } static void F(short x) { Console.WriteLine(8); Console.WriteLine(x); }");
    line_i(1); line_v(I(0)); line_i(2); line_v(in<i64>(1)); line_i(3); line_v(in<u8>(2)); line_i(4); line_v(B(3)); line_i(5); line_v(in<double>(4)); line_i(6); line_v(in<char16_t>(5)); line_i(7); line_v(in<u32>(6)); line_i(8); line_v(in<i16>(7)); expect_end(); });
  Reg("C13", "overload_count", [] { prog("F(); F(" V "(0)); F(" V "(0), " V "(1)); F(" V "(1), true); F(" V "(0), " V "(1), " V "(2));", "static void F() { Console.WriteLine(0); } static void F(int a) { Console.WriteLine(1); Console.WriteLine(a); } static void F(int a, int b) { Console.WriteLine(2); Console.WriteLine(a); Console.WriteLine(b); } static void F(int a, bool b) { Console.WriteLine(3); Console.WriteLine(a); Console.WriteLine(b); } static void F(int a, int b, int c) { Console.WriteLine(4); Console.WriteLine(c); Console.WriteLine(b); Console.WriteLine(a); }");
    line_i(0); line_i(1); line_v(I(0)); line_i(2); line_v(I(0)); line_v(I(1)); line_i(3); line_v(I(1)); line_v(true); line_i(4); line_v(I(2)); line_v(I(1)); line_v(I(0)); expect_end(); });
  Reg("C13", "overload_class", [] { prog("A a = new A(); B b = new B(); F(a); F(b); F(null == a ? a : b); object o = b; F(o);", "static void F(A x) { Console.WriteLine(1); } static void F(B x) { Console.WriteLine(2); } static void F(object x) { Console.WriteLine(3); }", "class A { } class B : A { }");
    L({1, 2, 1, 3}); expect_end(); });
  Reg("C13", "recursion", [] { i32 n = I(0); symapi_assume(n >= 0); symapi_assume(n <= 6); prog("Console.WriteLine(F(" V "(0), " V "(1))); Console.WriteLine(Fib(" V "(0)));", "static int F(int n, int a) { int t = a + n; if (n == 0) return t; int r = F(n - 1, t); return r - t + n; } static int Fib(int n) { return n < 2 ? n : Fib(n - 1) + Fib(n - 2); }");
    std::function<u32(u32, u32)> F = [&](u32 n, u32 a) -> u32 { u32 t = a + n; if (n == 0) return t; u32 r = F(n - 1, t); return r - t + n; }; int f[8] = {0, 1, 1, 2, 3, 5, 8, 13};
    line_v((i32)F(n, I(1))); line_i(f[n]); expect_end(); });
  Reg("C13", "mutual", [] { i32 n = I(0); symapi_assume(n >= 0); symapi_assume(n <= 5); prog("Console.WriteLine(Ev(" V "(0))); Console.WriteLine(Od(" V "(0)));", "static bool Ev(int n) { if (n == 0) return true; return Od(n - 1); } static bool Od(int n) { if (n == 0) return false; return Ev(n - 1); }");
    line_v(n % 2 == 0); line_v(n % 2 == 1); expect_end(); });
  Reg("C13", "instance", [] { prog("C c = new C(" V "(0)); C d = new C(" V "(1)); Console.WriteLine(c.Add(" V "(2)).Add(d.Get()).Get()); Console.WriteLine(d.Get()); Console.WriteLine(c.This() == c); Console.WriteLine(c.This() == d);", "", "class C { int v; public C(int k) { v = k; } public C Add(int k) { v = v + k; return this; } public int Get() { return v; } public C This() { return this; } }");
    u32 a = I(0), b = I(1), c = I(2); line_v((i32)(a + c + b)); line_v((i32)b); line_v(true); line_v(false); expect_end(); });
  Reg("C13", "many_args", [] { prog("F(Verif.Verif_U8(0), " V "(1), Verif.Verif_I64(2), Verif.Verif_I16(3), Verif.Verif_F32(4), Verif.Verif_Bool(5), Verif.Verif_F64(6), Verif.Verif_U32(7), Verif.Verif_Char(8), Verif.Verif_I8(9));", "static void F(byte a, int b, long c, short d, float e, bool f, double g, uint h, char i, sbyte j) { Console.WriteLine(j); Console.WriteLine(i); Console.WriteLine(h); Console.WriteLine(g); Console.WriteLine(f); Console.WriteLine(e); Console.WriteLine(d); Console.WriteLine(c); Console.WriteLine(b); Console.WriteLine(a); }");
    line_v(in<i8>(9)); line_v(in<char16_t>(8)); line_v(in<u32>(7)); line_v(in<double>(6)); line_v(B(5)); line_v(in<float>(4)); line_v(in<i16>(3)); line_v(in<i64>(2)); line_v(I(1)); line_v(in<u8>(0)); expect_end(); });

  // ---- C20: is / as / casts
  const char *H = "class A { public int v; } class B : A { } class C : A { } interface I { } class D : B, I { }\n";
  const char *MK = "static A Mk(int k) { if (k == 0) return new A(); if (k == 1) return new B(); if (k == 2) return new C(); if (k == 3) return new D(); return null; }\n";
  Reg("C20", "is", [=] { prog("A a = Mk(" V "(0)); Console.WriteLine(a is A); Console.WriteLine(a is B); Console.WriteLine(a is C); Console.WriteLine(a is D); object o = a; Console.WriteLine(o is B); Console.WriteLine(o is I);", MK, H);
    i32 k = I(0); bool n = k < 0 || k > 3; line_v(!n); line_v(k == 1 || k == 3); line_v(k == 2); line_v(k == 3); line_v(k == 1 || k == 3); line_v(k == 3); expect_end(); });
  Reg("C20", "as", [=] { prog("A a = Mk(" V "(0)); B b = a as B; C c = a as C; Console.WriteLine(b == null); Console.WriteLine(c == null); if (b != null) { b.v = 5; Console.WriteLine(a.v); }", MK, H);
    i32 k = I(0); line_v(!(k == 1 || k == 3)); line_v(k != 2); if (k == 1 || k == 3) line_i(5); expect_end(); });
  Reg("C20", "cast", [=] { prog("A a = Mk(" V "(0)); try { B b = (B)a; Console.WriteLine(1); } catch (InvalidCastException e) { Console.WriteLine(2); } try { C c = (C)a; Console.WriteLine(3); } catch (InvalidCastException e) { Console.WriteLine(4); }", MK, H);
    i32 k = I(0); bool n = k < 0 || k > 3; line_i(k == 1 || k == 3 || n ? 1 : 2); line_i(k == 2 || n ? 3 : 4); expect_end(); });
  Reg("C20", "unbox_type", [=] { prog("object o = " VB "(0) ? Bx(" V "(1)) : Lg(" V "(1)); Console.WriteLine(o is int); Console.WriteLine(o is long); try { int v = (int)o; Console.WriteLine(v); } catch (InvalidCastException e) { Console.WriteLine(2); }", "static object Bx(int k) { return k; } static object Lg(int k) { long l = k; return l; }");
    bool b = B(0); line_v(b); line_v(!b); if (b) line_v(I(1)); else line_i(2); expect_end(); });
  Reg("C20", "struct_box", [=] { prog("P p = new P(); p.a = " V "(0); p.b = Verif.Verif_I64(1); object o = p; p.a = 5; P q = (P)o; Console.WriteLine(q.a); Console.WriteLine(q.b); Console.WriteLine(p.a);", "", "struct P { public int a; public long b; }");
    line_v(I(0)); line_v(in<i64>(1)); line_i(5); expect_end(); });

  // ---- C18/C19: bounds, objects in arrays
  Reg("C18", "bounds_read", [] { i32 i = I(0); prog("int[] a = new int[3]; a[0] = " V "(1); a[1] = " V "(2); a[2] = " V "(3); try { Console.WriteLine(a[" V "(0)]); } catch (OutOfRangeException e) { Console.WriteLine(-1); Console.WriteLine(-2); } Console.WriteLine(9);");
    if (i >= 0 && i < 3) line_v(i == 0 ? I(1) : i == 1 ? I(2) : I(3)); else L({-1, -2}); line_i(9); expect_end(); });
  Reg("C18", "bounds_write", [] { i32 i = I(0); prog("int[] g = new int[2]; g[1] = 8; int[] a = new int[3]; int[] h = new int[2]; h[0] = 9; try { a[" V "(0)] = " V "(1); Console.WriteLine(1); } catch (OutOfRangeException e) { Console.WriteLine(-1); } Console.WriteLine(a[0]); Console.WriteLine(a[1]); Console.WriteLine(a[2]); Console.WriteLine(g[1]); Console.WriteLine(h[0]);");
    bool ok = i >= 0 && i < 3; line_i(ok ? 1 : -1); for (int k = 0; k < 3; k++) line_v(i == k ? I(1) : 0); line_i(8); line_i(9); expect_end(); });
  Reg("C18", "bounds_lengths", [] { i32 n = I(0), i = I(1); symapi_assume(n >= 0); symapi_assume(n <= 4); prog("int n = " V "(0); long[] a = new long[n]; Console.WriteLine(a.Length); try { a[" V "(1)] = 5L; Console.WriteLine(a[" V "(1)]); } catch (OutOfRangeException e) { Console.WriteLine(-1); }");
    line_v(n); line_i(i >= 0 && i < n ? 5 : -1); expect_end(); });
  Reg("C18", "bounds_compound", [] { i32 i = I(0); prog("int[] a = new int[2]; a[0] = " V "(1); a[1] = " V "(2); try { a[" V "(0)] += 5; Console.WriteLine(1); } catch (OutOfRangeException e) { Console.WriteLine(-1); } try { a[" V "(0)]++; Console.WriteLine(1); } catch (OutOfRangeException e) { Console.WriteLine(-1); } Console.WriteLine(a[0]); Console.WriteLine(a[1]);");
    bool ok = i == 0 || i == 1; L({ok ? 1 : -1, ok ? 1 : -1}); line_v((i32)((u32)I(1) + (i == 0 ? 6 : 0))); line_v((i32)((u32)I(2) + (i == 1 ? 6 : 0))); expect_end(); });
  Reg("C18", "of_objects", [] { i32 i = I(0); symapi_assume(i >= 0); symapi_assume(i < 3); prog("C[] a = new C[3]; Console.WriteLine(a[1] == null); C c = new C(); c.v = " V "(1); a[" V "(0)] = c; c.v = c.v + 1; for (int k = 0; k < 3; k++) { if (a[k] == null) Console.WriteLine(-1); else Console.WriteLine(a[k].v); }", "", "class C { public int v; }");
    line_v(true); for (int k = 0; k < 3; k++) if (k == i) line_v((i32)((u32)I(1) + 1)); else line_i(-1); expect_end(); });
  Reg("C18", "alias", [] { prog("int[] a = new int[2]; int[] b = a; b[0] = " V "(0); F(a, " V "(1)); Console.WriteLine(a[0]); Console.WriteLine(b[1]); Console.WriteLine(a == b);", "static void F(int[] x, int v) { x[1] = v; x = new int[5]; x[0] = 3; }");
    line_v(I(0)); line_v(I(1)); line_v(true); expect_end(); });
  Reg("C18", "loop_sum", [] { prog("int[] a = new int[4]; for (int i = 0; i < a.Length; i++) a[i] = " V "(i) + i; int s = 0; for (int i = a.Length - 1; i >= 0; i--) s = (s ^ i) + a[i]; Console.WriteLine(s);");
    u32 s = 0; for (int i = 3; i >= 0; i--) s = (s ^ (u32)i) + ((u32)I(i) + i); line_v((i32)s); expect_end(); });
  Reg("C19", "bounds", [] { i32 i = I(0), j = I(1); prog("int[,] a = new int[2,3]; a[1,2] = 7; try { a[" V "(0), " V "(1)] = " V "(2); Console.WriteLine(a[" V "(0), " V "(1)]); } catch (OutOfRangeException e) { Console.WriteLine(-1); Console.WriteLine(-2); } Console.WriteLine(a[1,2]); Console.WriteLine(a[0,0]);");
    bool ok = i >= 0 && i < 2 && j >= 0 && j < 3; if (ok) line_v(I(2)); else L({-1, -2}); line_v(ok && i == 1 && j == 2 ? I(2) : 7); line_v(ok && i == 0 && j == 0 ? I(2) : 0); expect_end(); });
  Reg("C19", "bounds_read", [] { i32 i = I(0), j = I(1); prog("int[,] a = new int[2,2]; a[0,0] = 1; a[0,1] = 2; a[1,0] = 3; a[1,1] = 4; try { Console.WriteLine(a[" V "(0), " V "(1)]); } catch (OutOfRangeException e) { Console.WriteLine(-1); }");
    bool ok = i >= 0 && i < 2 && j >= 0 && j < 2; line_i(ok ? i * 2 + j + 1 : -1); expect_end(); });
  Reg("C19", "dim3", [] { i32 i = I(0), j = I(1), k = I(2); symapi_assume(i >= 0); symapi_assume(i < 2); symapi_assume(j >= 0); symapi_assume(j < 2); symapi_assume(k >= 0); symapi_assume(k < 3);
    prog("int[,,] a = new int[2,2,3]; a[" V "(0), " V "(1), " V "(2)] = " V "(3); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) for (int k = 0; k < 3; k++) Console.WriteLine(a[i, j, k]); Console.WriteLine(a.Length); Console.WriteLine(a.GetLength(0)); Console.WriteLine(a.GetLength(1)); Console.WriteLine(a.GetLength(2)); Console.WriteLine(a.Rank);");
    for (int x = 0; x < 12; x++) line_v(x == i * 6 + j * 3 + k ? I(3) : 0); L({12, 2, 2, 3, 3}); expect_end(); });
  Reg("C19", "bounds3", [] { i32 i = I(0), j = I(1), k = I(2); prog("int[,,] a = new int[2,1,3]; try { a[" V "(0), " V "(1), " V "(2)] = 5; Console.WriteLine(a[" V "(0), " V "(1), " V "(2)]); } catch (OutOfRangeException e) { Console.WriteLine(-1); }");
    line_i(i >= 0 && i < 2 && j == 0 && k >= 0 && k < 3 ? 5 : -1); expect_end(); });
  Reg("C19", "lengths", [] { i32 n = I(0), m = I(1); symapi_assume(n >= 1); symapi_assume(n <= 3); symapi_assume(m >= 1); symapi_assume(m <= 3); prog("long[,] a = new long[" V "(0), " V "(1)]; Console.WriteLine(a.Length); Console.WriteLine(a.GetLength(0)); Console.WriteLine(a.GetLength(1)); for (int i = 0; i < " V "(0); i++) for (int j = 0; j < " V "(1); j++) a[i, j] = i * 10 + j; Console.WriteLine(a[0, 0]); Console.WriteLine(a[" V "(0) - 1, " V "(1) - 1]);");
    line_v(n * m); line_v(n); line_v(m); line_i(0); line_v((n - 1) * 10 + m - 1); expect_end(); });
  Reg("C19", "init", [] { i32 i = I(0), j = I(1); symapi_assume(i >= 0); symapi_assume(i < 2); symapi_assume(j >= 0); symapi_assume(j < 3); prog("int[,] a = new int[,] { { 1, 2, " V "(2) }, { 4, " V "(3), 6 } }; Console.WriteLine(a[" V "(0), " V "(1)]); Console.WriteLine(a.Length);");
    int x = i * 3 + j; line_v(x == 2 ? I(2) : x == 4 ? I(3) : x + 1); line_i(6); expect_end(); });

  // ---- C17: constructors, initializers, base
  Reg("C17", "ctors", [] { prog("C a = new C(); C b = new C(" V "(0)); C c = new C(" V "(0), " V "(1)); Console.WriteLine(a.x); Console.WriteLine(a.y); Console.WriteLine(b.x); Console.WriteLine(b.y); Console.WriteLine(c.x); Console.WriteLine(c.y);", "", "class C { public int x; public int y; public C() { x = 1; } public C(int a) { y = a; } public C(int a, int b) { x = b; y = a; } }");
    line_i(1); line_i(0); line_i(0); line_v(I(0)); line_v(I(1)); line_v(I(0)); expect_end(); });
  Reg("C17", "base_ctor", [] { prog("B b = new B(" V "(0), " V "(1)); Console.WriteLine(b.x); Console.WriteLine(b.y); Console.WriteLine(b.z); A a = b; a.x = 9; Console.WriteLine(b.x); Console.WriteLine(b.y);", "", "class A { public int x; public A(int k) { x = k + 1; } } class B : A { public byte z; public int y; public B(int p, int q) : base(q) { y = p; z = 3; } }");
    line_v((i32)((u32)I(1) + 1)); line_v(I(0)); line_i(3); line_i(9); line_v(I(0)); expect_end(); });
  Reg("C17", "field_init", [] { prog("C c = new C(); Console.WriteLine(c.x); Console.WriteLine(c.y); C d = new C(); d.x = " V "(0); Console.WriteLine(d.x); Console.WriteLine(c.x);", "", "class C { public int x = 5; public long y = 7; public C() { } }");
    line_i(5); line_i(7); line_v(I(0)); line_i(5); expect_end(); });
  Reg("C17", "linked", [] { prog("N h = null; for (int i = 0; i < 3; i++) { N n = new N(); n.v = " V "(i); n.next = h; h = n; } N p = h; while (p != null) { Console.WriteLine(p.v); p = p.next; } h.next.v = 5; Console.WriteLine(h.next.v); Console.WriteLine(h.v);", "", "class N { public int v; public N next; }");
    line_v(I(2)); line_v(I(1)); line_v(I(0)); line_i(5); line_v(I(2)); expect_end(); });
  Reg("C17", "many_objects", [] { prog("C[] a = new C[6]; for (int i = 0; i < 6; i++) { a[i] = new C(); a[i].p = (byte)i; a[i].v = " V "(i); a[i].q = i * 2; } for (int i = 5; i >= 0; i--) { Console.WriteLine(a[i].p); Console.WriteLine(a[i].v); Console.WriteLine(a[i].q); }", "", "class C { public byte p; public int v; public long q; }");
    for (int i = 5; i >= 0; i--) { line_i(i); line_v(I(i)); line_i(i * 2); } expect_end(); });
  Reg("C17", "derived_layout", [] { prog("C c = new C(); c.a = Verif.Verif_U8(0); c.b = Verif.Verif_I64(1); c.c = Verif.Verif_I16(2); c.d = Verif.Verif_U8(3); c.e = " V "(4); Console.WriteLine(c.e); Console.WriteLine(c.d); Console.WriteLine(c.c); Console.WriteLine(c.b); Console.WriteLine(c.a); ", "", "class A { public byte a; } class B : A { public long b; public short c; } class C : B { public byte d; public int e; }");
    line_v(I(4)); line_v(in<u8>(3)); line_v(in<i16>(2)); line_v(in<i64>(1)); line_v(in<u8>(0)); expect_end(); });

  // ---- C15: more struct shapes
  const char *P3 = "struct P { public int a; public byte b; public long c; public int Sum() { return a + b; } public void Inc() { a = a + 1; } }";
  Reg("C15", "param", [=] { prog("P p = new P(); p.a = " V "(0); p.b = Verif.Verif_U8(1); p.c = Verif.Verif_I64(2); int r = F(p, 5); Console.WriteLine(r); Console.WriteLine(p.a); Console.WriteLine(p.b); Console.WriteLine(p.c);", "static int F(P q, int k) { q.a = q.a + k; q.b = 0; q.c = 1; return q.a; }", P3);
    line_v((i32)((u32)I(0) + 5)); line_v(I(0)); line_v(in<u8>(1)); line_v(in<i64>(2)); expect_end(); });
  Reg("C15", "ret", [=] { prog("P p = F(" V "(0), Verif.Verif_U8(1), Verif.Verif_I64(2)); P q = p; q.a = 3; Console.WriteLine(p.a); Console.WriteLine(p.b); Console.WriteLine(p.c); Console.WriteLine(q.a); Console.WriteLine(q.c);", "static P F(int a, byte b, long c) { P p = new P(); p.a = a; p.b = b; p.c = c; return p; }", P3);
    line_v(I(0)); line_v(in<u8>(1)); line_v(in<i64>(2)); line_i(3); line_v(in<i64>(2)); expect_end(); });
  Reg("C15", "methods", [=] { prog("P p = new P(); p.a = " V "(0); p.b = Verif.Verif_U8(1); P q = p; p.Inc(); Console.WriteLine(p.Sum()); Console.WriteLine(q.Sum()); Console.WriteLine(p.a); Console.WriteLine(q.a);", "", P3);
    u32 a = I(0), b = in<u8>(1); line_v((i32)(a + 1 + b)); line_v((i32)(a + b)); line_v((i32)(a + 1)); line_v((i32)a); expect_end(); });
  Reg("C15", "in_class", [=] { prog("C c = new C(); P p = new P(); p.a = " V "(0); p.c = Verif.Verif_I64(2); c.x = 1; c.p = p; c.y = 2; p.a = 9; Console.WriteLine(c.p.a); Console.WriteLine(c.p.b); Console.WriteLine(c.p.c); c.p.a = " V "(1); Console.WriteLine(c.p.a); Console.WriteLine(p.a); Console.WriteLine(c.x); Console.WriteLine(c.y);", "", S(P3) + "class C { public int x; public P p; public int y; }");
    line_v(I(0)); line_i(0); line_v(in<i64>(2)); line_v(I(1)); L({9, 1, 2}); expect_end(); });
  Reg("C15", "in_struct", [=] { prog("Q q = new Q(); q.x = " V "(0); q.p.a = " V "(1); q.p.c = 5; q.y = 7; Q r = q; r.p.a = 3; r.x = 4; Console.WriteLine(q.x); Console.WriteLine(q.p.a); Console.WriteLine(q.p.c); Console.WriteLine(q.y); Console.WriteLine(r.x); Console.WriteLine(r.p.a); Console.WriteLine(r.y); P s = q.p; s.a = 8; Console.WriteLine(q.p.a); Console.WriteLine(s.c);", "", S(P3) + "struct Q { public int x; public P p; public int y; }");
    line_v(I(0)); line_v(I(1)); L({5, 7, 4, 3, 7}); line_v(I(1)); line_i(5); expect_end(); });
  Reg("C15", "in_array", [=] { i32 i = I(0); symapi_assume(i >= 0); symapi_assume(i < 3); prog("P[] a = new P[3]; P p = new P(); p.a = " V "(1); p.b = 3; p.c = Verif.Verif_I64(2); a[" V "(0)] = p; p.a = 77; for (int k = 0; k < 3; k++) { P q = a[k]; Console.WriteLine(q.a); Console.WriteLine(q.b); Console.WriteLine(q.c); }", "", P3);
    for (int k = 0; k < 3; k++) if (k == i) { line_v(I(1)); line_i(3); line_v(in<i64>(2)); } else L({0, 0, 0}); expect_end(); });
  Reg("C15", "ref", [=] { prog("P p = new P(); p.a = " V "(0); p.c = 4; F(ref p, " V "(1)); Console.WriteLine(p.a); Console.WriteLine(p.b); Console.WriteLine(p.c);", "static void F(ref P q, int k) { q.a = q.a + k; q.b = 5; }", P3);
    line_v((i32)((u32)I(0) + (u32)I(1))); line_i(5); line_i(4); expect_end(); });
  Reg("C15", "ctor", [=] { prog("P p = new P(" V "(0), Verif.Verif_I64(1)); P q = new P(5, 6); Console.WriteLine(p.a); Console.WriteLine(p.b); Console.WriteLine(q.a); Console.WriteLine(q.b); p = q; Console.WriteLine(p.a);", "", "struct P { public int a; public long b; public P(int x, long y) { a = x; b = y; } }");
    line_v(I(0)); line_v(in<i64>(1)); L({5, 6, 5}); expect_end(); });
  Reg("C15", "cond", [=] { prog("P p = new P(); p.a = " V "(0); P q = new P(); q.a = " V "(1); P r = " VB "(2) ? p : q; r.b = 9; Console.WriteLine(r.a); Console.WriteLine(p.b); Console.WriteLine(q.b); Console.WriteLine(r.b);", "", P3);
    line_v(B(2) ? I(0) : I(1)); L({0, 0, 9}); expect_end(); });

  // ---- C16: scopes
  Reg("C16", "scopes", [] { prog("int x = " V "(0); { int a = x + 1; long b = 5; Console.WriteLine(a); x = a; { byte c = Verif.Verif_U8(1); Console.WriteLine(c); Console.WriteLine(b); } } { long a = Verif.Verif_I64(2); Console.WriteLine(a); Console.WriteLine(x); } for (int a = 0; a < 1; a++) { int b = a + x; Console.WriteLine(b); } for (int a = 5; a < 6; a++) Console.WriteLine(a);");
    u32 x = (u32)I(0) + 1; line_v((i32)x); line_v(in<u8>(1)); line_i(5); line_v(in<i64>(2)); line_v((i32)x); line_v((i32)x); line_i(5); expect_end(); });
  Reg("C16", "many", [] { S b, d; for (int i = 0; i < 12; i++) b += "int v" + std::to_string(i) + " = Verif.Verif_I32(" + std::to_string(i) + ");\n"; b += "int t = v0; v0 = v11; v11 = v5; v5 = t;\n"; for (int i = 0; i < 12; i++) b += "Console.WriteLine(v" + std::to_string(i) + ");\n"; prog(b);
    for (int i = 0; i < 12; i++) line_v(i == 0 ? I(11) : i == 11 ? I(5) : i == 5 ? I(0) : I(i)); expect_end(); });
  Reg("C16", "const_local", [] { prog("const int k = 5; const long m = k * 2L; int x = " V "(0); Console.WriteLine(x + k); Console.WriteLine(m); Console.WriteLine(k);");
    line_v((i32)((u32)I(0) + 5)); line_i(10); line_i(5); expect_end(); });
} } init; }
