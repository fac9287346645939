// More shapes: sizes and counts around every special-cased boundary of the implementation
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
S n_(i64 v) { return std::to_string(v); }
S V(int k) { return "Verif.Verif_I32(" + n_(k) + ")"; }
i32 I(int k) { return in<i32>(k); }
S W(const S &e) { return "Console.WriteLine(" + e + ");\n"; }
void prog(const S &b, const S &m = "", const S &t = "") { run_program(program(b, m, t)); }
void range(int k, i32 lo, i32 hi) { i32 v = in<i32>(k); symapi_assume(v >= lo); symapi_assume(v <= hi); }

// ---- C12: switch with any number of labels ------------------------------------------------------------
std::vector<i64> labels(int n, int shape) {
  std::vector<i64> l;
  for (int i = 0; i < n; i++) {
    i64 v = shape == 0 ? i : shape == 1 ? (i64)i * 37 - 400 : shape == 2 ? (i64)i * 85899345 - 2147483647 : -(i64)i * i * 3 + 50;
    l.push_back(v);
  }
  std::vector<i64> r;      // written in a mixed order
  for (int i = 0; i < n; i++) r.push_back(l[(i * 7 + 3) % n]);
  for (size_t i = 0; i < r.size(); i++) for (size_t j = 0; j < i; j++) if (r[i] == r[j]) return l;
  return r;
}
void sw(int n, int shape, bool dflt) {
  auto l = labels(n, shape); S t = "int x = " + V(0) + ";\nswitch (x) {\n";
  for (int i = 0; i < n; i++) { if (dflt && i == n / 2) t += "default: Console.WriteLine(-5); break;\n"; t += "case " + n_(l[i]) + ": " + W(n_(i + 1000)) + " break;\n"; }
  prog(t + "}\n" + W("77"));
  i32 x = I(0); bool hit = false;
  for (int i = 0; i < n; i++) if (x == l[i]) { line_i(i + 1000); hit = true; break; }
  if (!hit && dflt) line_i(-5);
  line_i(77); expect_end();
}

// ---- C15: structs of every size ------------------------------------------------------------------------
struct F { const char *t, *v; int size; };
const F fb = {"byte", "U8", 1}, fs = {"short", "I16", 2}, fi = {"int", "I32", 4}, fl = {"long", "I64", 8};
void ex(const F &f, int k) { if (f.size == 1) line_v(in<u8>(k)); else if (f.size == 2) line_v(in<i16>(k)); else if (f.size == 4) line_v(in<i32>(k)); else line_v(in<i64>(k)); }
S inx(const F &f, int k) { return S("Verif.Verif_") + f.v + "(" + n_(k) + ")"; }
void structs(const std::vector<F> &fs) {
  int n = (int)fs.size(); S d = "struct P { ", set, b;
  for (int i = 0; i < n; i++) { d += S("public ") + fs[i].t + " f" + n_(i) + "; "; set += "p.f" + n_(i) + " = " + inx(fs[i], i) + ";\n"; }
  auto all = [&](const S &v) { S r; for (int i = 0; i < n; i++) r += W(v + ".f" + n_(i)); return r; };
  auto chk = [&] { for (int i = 0; i < n; i++) ex(fs[i], i); };
  auto chk0 = [&] { for (int i = 0; i < n; i++) line_i(0); };
  b = "int g1 = " + V(50) + "; P p = new P(); int g2 = " + V(51) + ";\n" + all("p") + set +
      "P q = p; int g3 = " + V(52) + "; p = Z();\n" + all("p") + all("q") +                       // copy, then clear the source
      "P r = Id(q, " + V(53) + ");\n" + all("r") +                                                 // argument and result
      "C c = new C(); c.a = " + V(54) + "; c.z = " + V(55) + "; c.s = r; r = Z();\n" + W("c.a") + W("c.z") +
      "P u = c.s;\n" + all("u") +
      "P[] a = new P[3]; a[1] = u; u = Z(); P w = a[1]; P w0 = a[0]; P w2 = a[2];\n" + all("w0") + all("w") + all("w2") + W("g1") + W("g2") + W("g3");
  prog(b, "static P Z() { P p = new P(); return p; }\nstatic P Id(P x, int k) { Console.WriteLine(k); P y = x; x = Z(); return y; }\n", d + "}\nclass C { public int a; public P s; public int z; }\n");
  chk0(); chk0(); chk(); line_v(I(53)); chk(); line_v(I(54)); line_v(I(55)); chk(); chk0(); chk(); chk0(); line_v(I(50)); line_v(I(51)); line_v(I(52)); expect_end();
}

// ---- C19: any number of dimensions -----------------------------------------------------------------------
void dims(int d, int t) {          // lengths: 2 at dimensions 0, d/2 and d-1, else 1
  auto len = [d](int i) { return i == 0 || i == d / 2 || i == d - 1 ? 2 : 1; };
  const char *tn[] = {"int", "byte", "long"}, *tv[] = {"I32", "U8", "I64"};
  S c(d - 1, ','), ls, ix; int k = 0, m = 0, len_total = 1; std::vector<i32> idx;
  for (int i = 0; i < d; i++) {
    len_total *= len(i); ls += (i ? "," : "") + n_(len(i)); S x = "0";
    if (len(i) == 2) { x = V(k); range(k, 0, 1); idx.push_back(I(k)); k++; }
    ix += (i ? "," : "") + x;
  }
  S b = S(tn[t]) + "[" + c + "] a = new " + tn[t] + "[" + ls + "]; int[] g = new int[2]; g[0] = 7; g[1] = 8;\n" + "a[" + ix + "] = Verif.Verif_" + tv[t] + "(20);\n";
  for (int v = 0; v < (1 << k); v++) { S e; int z = 0; for (int i = 0; i < d; i++) e += (i ? "," : "") + (len(i) == 2 ? n_((v >> z++) & 1) : S("0")); b += W("a[" + e + "]"); }
  b += W("g[0]") + W("g[1]") + W("a.Length");
  prog(b);
  for (int v = 0; v < (1 << k); v++) { bool eq = true; for (int z = 0; z < k; z++) eq &= idx[z] == ((v >> z) & 1);
    if (t == 0) line_v(eq ? in<i32>(20) : 0); else if (t == 1) line_v(eq ? in<u8>(20) : (u8)0); else line_v(eq ? in<i64>(20) : (i64)0); }
  line_i(7); line_i(8); line_i(len_total); expect_end(); (void)m;
}
void dims_bounds(int d) {
  S c(d - 1, ','), ls, ix; i32 x = I(0); int at = d / 2; 
  for (int i = 0; i < d; i++) { ls += (i ? "," : "") + n_(i == at ? 3 : i == 0 ? 2 : 1); ix += (i ? "," : "") + (i == at ? V(0) : S("0")); }
  prog("int[" + c + "] a = new int[" + ls + "]; try { a[" + ix + "] = 5; Console.WriteLine(a[" + ix + "]); } catch (OutOfRangeException e) { Console.WriteLine(-1); } Console.WriteLine(a.Length);");
  line_i(x >= 0 && x < (at == 0 ? 3 : 3) ? 5 : -1); line_i(at == 0 ? 3 : 6); expect_end();
}

template<typename T> S inT(int k) { return S(Ty<T>::ver()) + "(" + n_(k) + ")"; }

struct Init { Init() {
  for (int n : {1, 2, 3, 4, 5, 8, 9, 13, 16, 17, 18, 24, 33, 40}) Reg("C12", "labels_" + n_(n), [n] { sw(n, n % 4, n % 3 != 0); });
  for (int s = 0; s < 4; s++) Reg("C12", "labels_20_shape" + n_(s), [s] { sw(20, s, s & 1); });
  for (int n : {64, 100}) Reg("C12", "labels_" + n_(n), [n] { sw(n, n % 4, true); }, "thorough");
  Reg("C12", "labels_i64_range", [] { prog("int x = " + V(0) + "; switch (x) { case 2147483647: Console.WriteLine(1); break; case -2147483647: Console.WriteLine(2); break; case 0: Console.WriteLine(3); break; case -1: Console.WriteLine(4); break; case 1: Console.WriteLine(5); break; }");
    i32 x = I(0); if (x == 2147483647) line_i(1); else if (x == -2147483647) line_i(2); else if (x == 0) line_i(3); else if (x == -1) line_i(4); else if (x == 1) line_i(5); expect_end(); });

  for (int n = 1; n <= 24; n++) Reg("C15", "bytes_" + n_(n), [n] { structs(std::vector<F>(n, fb)); });
  for (int n = 1; n <= 10; n++) Reg("C15", "ints_" + n_(n), [n] { structs(std::vector<F>(n, fi)); });
  for (int n = 1; n <= 6; n++) Reg("C15", "longs_" + n_(n), [n] { structs(std::vector<F>(n, fl)); });
  for (int n : {1, 3, 5, 7, 9, 15}) Reg("C15", "shorts_" + n_(n), [n] { structs(std::vector<F>(n, fs)); });
  for (int m = 0; m < 12; m++) Reg("C15", "mixed_" + n_(m), [m] { const F all[] = {fb, fs, fi, fl}; std::vector<F> v; u32 r = m * 2654435761u + 12345; int n = 2 + m % 6; for (int i = 0; i < n; i++) { v.push_back(all[(r >> 13) & 3]); r = r * 1664525 + 1013904223; } structs(v); });

  for (int d = 2; d <= 11; d++) { Reg("C19", "dims_" + n_(d), [d] { dims(d, d % 3); }); Reg("C19", "dims_bounds_" + n_(d), [d] { dims_bounds(d); }); }

  // ---- C13: many parameters of mixed types
  for (int n : {1, 2, 6, 10, 17, 25}) Reg("C13", "params_" + n_(n), [n] {
    const F all[] = {fi, fb, fl, fs, fi}; S ps, as, b, sum = "0";
    for (int i = 0; i < n; i++) { ps += S(i ? ", " : "") + all[i % 5].t + " p" + n_(i); as += S(i ? ", " : "") + inx(all[i % 5], i); b += W("p" + n_(i)); }
    prog("int g = " + V(60) + "; Console.WriteLine(F(" + as + ")); C c = new C(); c.k = " + V(61) + "; Console.WriteLine(c.G(" + as + ")); Console.WriteLine(g);",
         "static int F(" + ps + ") { int x = 5; " + b + " p0 = 3; return p0 + x; }", "class C { public int k; public int G(" + ps + ") { " + b + " return this.k; } }");
    for (int i = 0; i < n; i++) ex(all[i % 5], i); line_i(8); for (int i = 0; i < n; i++) ex(all[i % 5], i); line_v(I(61)); line_v(I(60)); expect_end();
  });
  Reg("C13", "nested_calls", [] { prog(W("F(F(" + V(0) + ", F(" + V(1) + ", " + V(2) + ")), F(F(" + V(3) + ", " + V(4) + "), " + V(5) + "))"), "static int F(int a, int b) { int t = a; return (t << 3) ^ b; }");
    auto F = [](u32 a, u32 b) { return (a << 3) ^ b; }; line_v((i32)F(F(I(0), F(I(1), I(2))), F(F(I(3), I(4)), I(5)))); expect_end(); });
  Reg("C13", "mutual_recursion", [] { range(0, 0, 6); i32 n = I(0); prog(W("E(" + V(0) + ", " + V(1) + ")"), "static int E(int n, int a) { if (n == 0) return a; int k = n; int r = O(n - 1, a + k); return r + k; }\nstatic int O(int n, int a) { if (n == 0) return -a; int k = n * 2; int r = E(n - 1, a - k); return r - k; }");
    std::function<u32(i32, u32)> E, O; E = [&](i32 n, u32 a) { if (n == 0) return a; u32 k = n; return O(n - 1, a + k) + k; }; O = [&](i32 n, u32 a) { if (n == 0) return 0u - a; u32 k = n * 2; return E(n - 1, a - k) - k; };
    line_v((i32)E(n, (u32)I(1))); expect_end(); });
  Reg("C13", "deep_recursion", [] { prog(W("F(60, " + V(0) + ")"), "static int F(int n, int a) { int x = a + n; if (n == 0) return x; byte b = (byte)n; return F(n - 1, x) + b; }");
    u32 a = I(0), add = 0; for (int n = 60; n > 0; n--) { a += n; add += n; } line_v((i32)(a + add)); expect_end(); });
  Reg("C13", "fib", [] { range(0, 0, 7); prog(W("F(" + V(0) + ")"), "static int F(int n) { if (n < 2) return n; return F(n - 1) + F(n - 2); }");
    std::function<int(int)> F = [&](int n) { return n < 2 ? n : F(n - 1) + F(n - 2); }; line_i(F(I(0))); expect_end(); });
  Reg("C13", "overloads", [] { S m; const char *ts[] = {"int", "long", "double", "float", "bool", "char", "object", "uint", "ulong"}; for (int i = 0; i < 9; i++) m += S("static int F(") + ts[i] + " x) { return " + n_(i) + "; }\n";
    m += "static int F(int x, int y) { return x; }\nstatic int F(int x, long y) { return 20; }\nstatic int F() { return 30; }\n";
    prog("int a = " + V(0) + "; long b = a; double c = 1.5; float d = 2.5f; bool e = true; char f = 'x'; object g = null; uint h = 3u; ulong i = 4ul;\n" + W("F(a)") + W("F(b)") + W("F(c)") + W("F(d)") + W("F(e)") + W("F(f)") + W("F(g)") + W("F(h)") + W("F(i)") + W("F(a, a)") + W("F(a, b)") + W("F()"), m);
    for (int i = 0; i < 9; i++) line_i(i); line_v(I(0)); line_i(20); line_i(30); expect_end(); });

  // ---- C16: many locals of mixed sizes, all alive
  for (int n : {20, 40, 60}) Reg("C16", "locals_" + n_(n), [n] {
    const F all[] = {fb, fi, fs, fl, fb, fl, fi}; S b; for (int i = 0; i < n; i++) b += S(all[i % 7].t) + " v" + n_(i) + " = " + inx(all[i % 7], i) + ";\n";
    b += "v0 = v4; v4 = 0; v" + n_(n - 1) + " = v" + n_(n - 8) + ";\n"; for (int i = 0; i < n; i++) b += W("v" + n_(i)); prog(b);
    for (int i = 0; i < n; i++) { if (i == 0) ex(fb, 4); else if (i == 4) line_i(0); else if (i == n - 1) ex(all[(n - 8) % 7], n - 8); else ex(all[i % 7], i); } expect_end();
  });
  Reg("C16", "siblings", [] { S b = "int x = " + V(0) + ";\n"; const F all[] = {fb, fi, fs, fl}; for (int i = 0; i < 12; i++) b += S("{ ") + all[i % 4].t + " a = " + inx(all[i % 4], i + 1) + "; " + all[(i + 1) % 4].t + " b = " + inx(all[(i + 1) % 4], i + 20) + "; " + W("a") + W("b") + "}\n"; prog(b + W("x"));
    for (int i = 0; i < 12; i++) { ex(all[i % 4], i + 1); ex(all[(i + 1) % 4], i + 20); } line_v(I(0)); expect_end(); });

  // ---- C17: many fields, deep inheritance
  for (int n : {3, 11, 24, 40}) Reg("C17", "fields_" + n_(n), [n] {
    const F all[] = {fb, fi, fb, fs, fl, fb, fb, fi}; S d, b = "C o = new C(); C p = new C();\n", r; for (int i = 0; i < n; i++) { d += S("public ") + all[i % 8].t + " f" + n_(i) + "; "; r += W("o.f" + n_(i)); }
    S c = r; b += r; for (int i = n - 1; i >= 0; i--) b += "o.f" + n_(i) + " = " + inx(all[i % 8], i) + ";\n"; b += r; size_t q; while ((q = c.find("o.f")) != S::npos) c.replace(q, 3, "p.f"); prog(b + c, "", "class C { " + d + "}");
    for (int i = 0; i < n; i++) line_i(0); for (int i = 0; i < n; i++) ex(all[i % 8], i); for (int i = 0; i < n; i++) line_i(0); expect_end();
  });
  for (int m = 0; m < 6; m++) Reg("C17", "chain_" + n_(m), [m] {      // inheritance chain of 4 classes with mixed fields
    const F all[] = {fb, fs, fi, fl}; S d, b = "C3 o = new C3(); C3 p = new C3();\n"; std::vector<F> v; u32 r = m * 40503u + 77;
    for (int c = 0; c < 4; c++) { d += "class C" + n_(c) + (c ? " : C" + n_(c - 1) : S("")) + " { "; for (int i = 0; i < 3; i++) { r = r * 1664525 + 1013904223; F f = all[(r >> 15) & 3]; d += S("public ") + f.t + " f" + n_(v.size()) + "; "; v.push_back(f); } d += "}\n"; }
    for (size_t i = 0; i < v.size(); i++) b += "o.f" + n_(i) + " = " + inx(v[i], i) + ";\n";
    b += "C1 q = o; C0 z = q;\n"; for (size_t i = 0; i < v.size(); i++) b += W((i < 3 ? "z.f" : i < 6 ? "q.f" : "o.f") + n_(i)); for (size_t i = 0; i < v.size(); i++) b += W("p.f" + n_(i)); prog(b, "", d);
    for (size_t i = 0; i < v.size(); i++) ex(v[i], i); for (size_t i = 0; i < v.size(); i++) line_i(0); expect_end();
  });
  Reg("C17", "many_allocations", [] { prog("N first = new N(); first.v = " + V(0) + "; N last = first; for (int i = 0; i < 40; i++) { N n = new N(); if (n.v != 0) Console.WriteLine(-1); if (n.next != null) Console.WriteLine(-2); n.v = i; last.next = n; last = n; byte[] t = new byte[i]; for (int j = 0; j < i; j++) t[j] = (byte)255; } last.v = " + V(1) + "; int s = 0; N p = first.next; while (p.next != null) { s = s + p.v; p = p.next; } Console.WriteLine(first.v); Console.WriteLine(s); Console.WriteLine(p.v);", "", "class N { public int v; public N next; }");
    line_v(I(0)); line_i(39 * 38 / 2); line_v(I(1)); expect_end(); });

  // ---- C18: lengths and element sizes
  for (int n : {0, 1, 2, 7, 8, 9, 31}) each(List<u8, i16, i32, i64>(), [n](auto t) { typedef decltype(t) T; Reg("C18", S("len_") + n_(n) + "_" + Ty<T>::tag(), [n] {
    i32 i = I(0); S N = Ty<T>::name();
    prog(N + "[] a = new " + N + "[" + n_(n) + "]; " + N + "[] b = new " + N + "[3]; b[0] = (" + N + ")1; b[2] = (" + N + ")2; try { a[" + V(0) + "] = " + inT<T>(1) + "; Console.WriteLine(a[" + V(0) + "]); } catch (OutOfRangeException e) { Console.WriteLine(-1); }\n"
         "int c = 0; for (int k = 0; k < a.Length; k++) if (a[k] != 0) c++; Console.WriteLine(c);" + W("a.Length") + W("b[0]") + W("b[1]") + W("b[2]"));
    bool ok = i >= 0 && i < n; T v = in<T>(1); if (ok) line_v(v); else line_i(-1); line_i(ok && v != 0 ? 1 : 0); line_i(n); line_i(1); line_i(0); line_i(2); expect_end(); }); });

  // ---- C04: implicit widening in every context
  pairs(Ints(), Ints(), [](auto a, auto b) { typedef decltype(a) A; typedef decltype(b) B;
    constexpr bool widen = !std::is_same_v<A, B> && sizeof(B) > sizeof(A) && std::is_signed_v<B> == std::is_signed_v<A>;
    if constexpr (widen) Reg("C04", "widen_" + TAGS(A, B), [] {
      S N = Ty<B>::name(), M = Ty<A>::name(); auto r = [&](S s) { size_t p; while ((p = s.find("@B")) != S::npos) s.replace(p, 2, N); while ((p = s.find("@A")) != S::npos) s.replace(p, 2, M); while ((p = s.find("@0")) != S::npos) s.replace(p, 2, inT<A>(0)); return s; };
      prog(r("@A x = @0; @B y = x; Console.WriteLine(y); @B z; z = x; Console.WriteLine(z); z = @0; Console.WriteLine(z); Console.WriteLine(F(x)); Console.WriteLine(G(x)); Console.WriteLine(F(@0));\n"
             "C c = new C(); c.f = x; Console.WriteLine(c.f); c.P = x; Console.WriteLine(c.f); @B[] a = new @B[2]; a[1] = x; Console.WriteLine(a[1]); a[0] = @0; Console.WriteLine(a[0]);\n"
             "@B[,] m = new @B[2,2]; m[1,0] = x; Console.WriteLine(m[1,0]); @B w = Verif.Verif_Bool(3) ? x : z; Console.WriteLine(w); C d = new C(x); Console.WriteLine(d.f);\n"
             "@A[] s = new @A[1]; s[0] = x; @B v = s[0]; Console.WriteLine(v); H(ref z, x); Console.WriteLine(z); E e = new E(); e.g = x; v = e.g; Console.WriteLine(v); z = H2(x, x); Console.WriteLine(z); Q q = new Q(); q.f = x; Console.WriteLine(q.f); c.g = x; c.f = c.g; Console.WriteLine(c.f);"),
           r("static @B F(@B p) { return p; }\nstatic @B G(@A p) { return p; }\nstatic void H(ref @B p, @A q) { p = q; }\nstatic @B H2(@A p, @B q) { if (Verif.Verif_Bool(3)) return p; q = p; return q; }"), r("class C { public @B f; public @A g; public C() { } public C(@B k) { f = k; } public @B P { set { f = value; } } }\nclass E { public @A g; }\nstruct Q { public byte p; public @B f; }"));
      B v = (B)in<A>(0); for (int i = 0; i < 19; i++) line_v(v); expect_end(); });
  });

  // ---- C23: compound assignment on every kind of target and type
  each(Nums(), [](auto t) { typedef decltype(t) T;
    Reg("C23", S("targets_") + Ty<T>::tag(), [] { S N = Ty<T>::name(); auto r = [&](S s) { size_t p; while ((p = s.find("@T")) != S::npos) s.replace(p, 2, N); while ((p = s.find("@0")) != S::npos) s.replace(p, 2, inT<T>(0)); while ((p = s.find("@1")) != S::npos) s.replace(p, 2, inT<T>(1)); return s; };
      prog(r("@T x = @0; @T y = @1; x += y; Console.WriteLine(x); x -= @0; x++; Console.WriteLine(x); C c = new C(); c.p = 7; c.q = 8; c.f = @0; c.f += y; Console.WriteLine(c.f); c.f--; Console.WriteLine(c.f); Console.WriteLine(c.p); Console.WriteLine(c.q);\n"
             "@T[] a = new @T[3]; a[1] = @0; a[1] += y; Console.WriteLine(a[1]); a[1]--; Console.WriteLine(a[1]); ++a[1]; Console.WriteLine(a[1]); Console.WriteLine(a[0]); Console.WriteLine(a[2]); R(ref x, y); Console.WriteLine(x); A(@0, y);\n"
             "@T[,] m = new @T[2,2]; m[1,0] = @0; m[1,0] -= y; m[1,0]++; Console.WriteLine(m[1,0]); Console.WriteLine(m[0,1]);\n"
             "x = @0; @T z = x++; Console.WriteLine(z); Console.WriteLine(x); z = ++x; Console.WriteLine(z); z = x--; Console.WriteLine(z); z = --x; Console.WriteLine(z); Console.WriteLine(x);\n"
             "c.f = @0; z = c.f++; Console.WriteLine(z); z = ++c.f; Console.WriteLine(z); Console.WriteLine(c.f); a[2] = @0; z = a[2]++; Console.WriteLine(z); z = --a[2]; Console.WriteLine(z); Console.WriteLine(a[2]); z = x = a[0] = y; Console.WriteLine(z); Console.WriteLine(x); Console.WriteLine(a[0]); z = c.f = a[1] = @0; Console.WriteLine(z); Console.WriteLine(c.f); Console.WriteLine(a[1]); Console.WriteLine(c.p); Console.WriteLine(c.q);"),
           r("static void R(ref @T p, @T y) { p = @0; p += y; p++; p--; p -= y; }\nstatic void A(@T p, @T y) { p += y; Console.WriteLine(p); p++; Console.WriteLine(p); @T q = p--; Console.WriteLine(q); Console.WriteLine(p); }"), r("class C { public byte p; public @T f; public byte q; }"));
      typedef std::conditional_t<std::is_floating_point_v<T>, T, std::make_unsigned_t<std::conditional_t<std::is_floating_point_v<T>, i32, T>>> U;
      auto add = [](T a, T b) { return (T)(U)((U)a + (U)b); }; auto sub = [](T a, T b) { return (T)(U)((U)a - (U)b); };
      T x = in<T>(0), y = in<T>(1), z; auto o = [](T v) { line_v(v); };
      x = add(x, y); o(x); x = sub(x, in<T>(0)); x = add(x, (T)1); o(x); T f = add(in<T>(0), y); o(f); f = sub(f, (T)1); o(f); line_i(7); line_i(8);
      T a1 = add(in<T>(0), y); o(a1); a1 = sub(a1, (T)1); o(a1); a1 = add(a1, (T)1); o(a1); o((T)0); o((T)0);
      x = sub(sub(add(add(in<T>(0), y), (T)1), (T)1), y); o(x);
      T p = add(in<T>(0), y); o(p); p = add(p, (T)1); o(p); o(p); p = sub(p, (T)1); o(p);
      T m = add(sub(in<T>(0), y), (T)1); o(m); o((T)0);
      x = in<T>(0); z = x; x = add(x, (T)1); o(z); o(x); x = add(x, (T)1); o(x); z = x; x = sub(x, (T)1); o(z); x = sub(x, (T)1); o(x); o(x);
      f = in<T>(0); o(f); f = add(f, (T)1); f = add(f, (T)1); o(f); o(f);
      T a2 = in<T>(0); o(a2); a2 = add(a2, (T)1); a2 = sub(a2, (T)1); o(a2); o(a2); o(y); o(y); o(y); o(in<T>(0)); o(in<T>(0)); o(in<T>(0)); line_i(7); line_i(8); expect_end(); });
  });
  each(Ints(), [](auto t) { typedef decltype(t) T;
    Reg("C23", S("operators_") + Ty<T>::tag(), [] { S N = Ty<T>::name(); auto r = [&](S s) { size_t p; while ((p = s.find("@T")) != S::npos) s.replace(p, 2, N); while ((p = s.find("@0")) != S::npos) s.replace(p, 2, inT<T>(0)); while ((p = s.find("@1")) != S::npos) s.replace(p, 2, inT<T>(1)); return s; };
      S b = "@T y = @1; C c = new C(); @T[] a = new @T[2]; @T x;\n";
      for (const char *o : {"+", "-", "*", "&", "|", "^"}) { b += S("x = @0; x ") + o + "= y; " + W("x") + "c.f = @0; c.f " + o + "= y; " + W("c.f") + "a[1] = @0; a[1] " + o + "= y; " + W("a[1]"); }
      for (const char *o : {"<<", ">>"}) b += S("x = @0; x ") + o + "= 3; " + W("x") + "c.f = @0; c.f " + o + "= 3; " + W("c.f") + "a[1] = @0; a[1] " + o + "= 3; " + W("a[1]");
      prog(r(b), "", r("class C { public byte p; public @T f; }"));
      u64 x = (u64)in<T>(0), y = (u64)in<T>(1); u64 v[] = {x + y, x - y, x * y, x & y, x | y, x ^ y, x << 3, (u64)(in<T>(0) >> 3)};
      for (u64 e : v) for (int i = 0; i < 3; i++) line_v((T)e); expect_end(); });
  });

  // ---- C24: several interfaces and many virtual methods
  Reg("C24", "interfaces_3", [] { range(0, 0, 2); S b = "A a = null; int k = " + V(0) + "; if (k == 0) a = new A(); else if (k == 1) a = new B(); else a = new C(); a.v = " + V(1) + "; I1 p = a; I2 q = a; I3 r = a;\n";
    for (const char *o : {"p.F()", "q.G()", "r.H()", "q.G()", "p.F()", "r.H()", "r.K(3)", "p.F()", "q.G()", "r.K(4)", "q.G2()", "p.F2()", "q.G()", "a.F()", "a.K(5)"}) b += W(o);
    prog(b, "", "interface I1 { int F(); int F2(); }\ninterface I2 { int G(); int G2(); }\ninterface I3 { int H(); int K(int x); }\n"
      "class A : I1, I2, I3 { public int v; public int Get() { return v; } public virtual int F() { return v + 1; } public virtual int F2() { return v + 2; } public virtual int G() { return v + 3; } public virtual int G2() { return v + 4; } public virtual int H() { return v + 5; } public virtual int K(int x) { return v + x * 100; } }\n"
      "class B : A { public override int G() { return Get() + 30; } public override int K(int x) { return Get() - x; } }\nclass C : B { public override int F() { return Get() + 11; } public override int G() { return Get() + 31; } public override int H() { return Get() + 51; } }");
    i32 k = I(0); u32 v = I(1); auto F = [&] { return v + (k == 2 ? 11 : 1); }; auto G = [&] { return v + (k == 2 ? 31 : k == 1 ? 30 : 3); }; auto H = [&] { return v + (k == 2 ? 51 : 5); }; auto K = [&](u32 x) { return k ? v - x : v + x * 100; };
    for (u32 e : {F(), G(), H(), G(), F(), H(), K(3), F(), G(), K(4), v + 4, v + 2, G(), F(), K(5)}) line_v((i32)e); expect_end(); });
  Reg("C24", "two_objects_one_interface", [] { S b = "I x = Mk(" + V(0) + "); I y = Mk(" + V(1) + "); I z = Mk(" + V(2) + ");\n"; for (int i = 0; i < 2; i++) b += W("x.F(1)") + W("y.F(2)") + W("z.F(3)") + W("x.G()") + W("z.G()") + W("y.G()"); for (int i = 0; i < 3; i++) range(i, 0, 2);
    prog(b, "static I Mk(int k) { if (k == 0) return new A(); if (k == 1) return new B(); return new C(); }", "interface I { int F(int x); int G(); }\nclass A : I { public int p; public virtual int F(int x) { return x; } public virtual int G() { return 10; } }\nclass B : I { public virtual int G() { return 20; } public virtual int F(int x) { return x + 100; } }\nclass C : I { public virtual int Other() { return 5; } public virtual int F(int x) { return x + 200; } public virtual int More() { return 6; } public virtual int G() { return 30; } }");
    auto f = [](int k, int x) { return x + 100 * I(k); }; auto g = [](int k) { return 10 + 10 * I(k); }; for (int i = 0; i < 2; i++) { line_v(f(0, 1)); line_v(f(1, 2)); line_v(f(2, 3)); line_v(g(0)); line_v(g(2)); line_v(g(1)); } expect_end(); });
  Reg("C24", "virtuals_20", [] { range(0, 0, 3); S d, b = "C0 o = null; int k = " + V(0) + "; if (k == 0) o = new C0(); else if (k == 1) o = new C1(); else if (k == 2) o = new C2(); else o = new C3();\n";
    for (int c = 0; c < 4; c++) { d += "class C" + n_(c) + (c ? " : C" + n_(c - 1) : S("")) + " { "; for (int m = 0; m < 20; m++) if (c == 0 || (m * 7 + c) % (c + 2) == 0) d += S("public ") + (c ? "override" : "virtual") + " int M" + n_(m) + "(int x) { return x + " + n_(c * 100 + m) + "; }\n"; d += "}\n"; }
    for (int m = 0; m < 20; m++) b += W("o.M" + n_(m) + "(" + V(1) + ")"); prog(b, "", d);
    for (int m = 0; m < 20; m++) { int at = 0; for (int c = 1; c <= I(0); c++) if ((m * 7 + c) % (c + 2) == 0) at = c; line_v((i32)((u32)I(1) + at * 100 + m)); } expect_end(); });
  Reg("C24", "skip_levels", [] { range(0, 0, 3); prog("A o = null; int k = " + V(0) + "; if (k == 0) o = new A(); else if (k == 1) o = new B(); else if (k == 2) o = new C(); else o = new D();\n" + W("o.F()") + W("o.G()") + W("o.H()") + W("o.Call()"), "", "class A { public virtual int F() { return 1; } public virtual int G() { return 2; } public virtual int H() { return 3; } public int Call() { return F() * 100 + G() * 10 + H(); } }\nclass B : A { }\nclass C : B { public override int G() { return 5; } public virtual int X() { return 9; } }\nclass D : C { public override int H() { return 6; } public override int X() { return 8; } public override int F() { return 7; } }");
    int k = I(0), f = k == 3 ? 7 : 1, g = k >= 2 ? 5 : 2, hh = k == 3 ? 6 : 3; line_i(f); line_i(g); line_i(hh); line_i(f * 100 + g * 10 + hh); expect_end(); });
} } init; }
