// C31: the optimisation level does not change what a program does
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
S n_(i64 v) { return std::to_string(v); }
S V(int k) { return "Verif.Verif_I32(" + n_(k) + ")"; }
i32 I(int k) { return in<i32>(k); }
S W(const S &e) { return "Console.WriteLine(" + e + ");\n"; }
void dig(u8 c) { symapi_assume((u8)(c - '0') <= 2); }
void dig1(u8 c) { symapi_assume((u8)(c - '0') <= 1); }
template<typename A, typename K> void omit_ops(const S &suf) {
  Reg("C31", S("omit_") + TAGS(A, K), [=] {
    typedef promote_t<A, K> T; typedef std::conditional_t<(sizeof(A) < 4), i32, A> PA;
    src_assume(1, std::is_floating_point_v<T> ? dig1 : dig); S k = S(1, (char)1) + suf; constexpr bool fl = std::is_floating_point_v<T>;
    S b = Ty<A>::dcl("x", 0) + W("x + " + k) + W(k + " + x") + W("x - " + k) + W(k + " - x") + W("x * " + k) + W(k + " * x");
    if constexpr (!fl) b += W("x | " + k) + W(k + " | x") + W("x & " + k) + W(k + " ^ x") + W("x ^ " + k);
    if constexpr (!fl && std::is_same_v<K, i32>) b += W("x << " + k) + W("x >> " + k);
    b += W("x / 1" + suf);
    optimise(3); run_program(program(b));
    A x = in<A>(0); K kk = (K)(u8)(srcchar(1) - '0'); T a = (T)x, c = (T)kk;
    if constexpr (fl) { line_v((T)(a + c)); line_v((T)(c + a)); line_v((T)(a - c)); line_v((T)(c - a)); line_v((T)(a * c)); line_v((T)(c * a)); line_v((T)(a / (T)1)); }
    else {
      typedef std::make_unsigned_t<T> U; U ua = (U)a, uc = (U)c;
      line_v((T)(ua + uc)); line_v((T)(uc + ua)); line_v((T)(ua - uc)); line_v((T)(uc - ua)); line_v((T)(ua * uc)); line_v((T)(uc * ua));
      line_v((T)(ua | uc)); line_v((T)(uc | ua)); line_v((T)(ua & uc)); line_v((T)(uc ^ ua)); line_v((T)(ua ^ uc));
      if constexpr (std::is_same_v<K, i32>) { PA p = (PA)x; int s = (int)(srcchar(1) - '0'); line_v((PA)((std::make_unsigned_t<PA>)p << s)); line_v((PA)(p >> s)); }
      line_v(a);
    }
    expect_end();
  }, std::is_same_v<A, double> || std::is_same_v<K, double> && !std::is_same_v<A, i32> ? "thorough" : "quick");
}
void opt(const S &name, const S &body, const S &members, const S &types, std::function<void()> expect) {
  for (int l = 1; l <= 2; l++) Reg("C31", name + "_O" + n_(l), [=] { optimise(l); run_program(program(body, members, types)); expect(); expect_end(); });
}
const char *TRACE = "static bool B(int k) { Console.WriteLine(k); return Verif.Verif_Bool(k); }\nstatic int N(int k) { Console.WriteLine(k); return Verif.Verif_I32(k); }\n";
bool B(int k) { line_i(k); return in<bool>(k); }
i32 N(int k) { line_i(k); return I(k); }
struct Init { Init() {
  each(Nums(), [](auto a) { typedef decltype(a) A;
    omit_ops<A, i32>(""); omit_ops<A, u32>("U"); omit_ops<A, i64>("L"); omit_ops<A, u64>("UL"); omit_ops<A, double>(".0"); omit_ops<A, float>(".0f"); });

  Reg("C31", "omit_double", [] {
    src_assume(1, dig1); S k(1, (char)1); optimise(3); run_program(program(Ty<double>::dcl("x", 0) + W("x + " + k) + W(k + " - x")));
    double x = in<double>(0), c = (double)(int)(u8)(srcchar(1) - '0'); line_v(x + c); line_v(c - x); expect_end(); });
  for (int l = 0; l <= 3; l++) Reg("C31", "fold_char_O" + n_(l), [l] { for (int i = 1; i <= 2; i++) src_assume(i, [](u8 c) { symapi_assume((c >= 'A') & (c <= 'z') & (c != '\\') & (c != '`')); });
    S x = S("'") + (char)1 + "'", y = S("'") + (char)2 + "'", m; for (auto o : {"==", "!=", "<", "<=", ">", ">="}) m += W(x + " " + o + " " + y);
    if (l) optimise(l); run_program(program(m + W("(" + x + " < " + y + " ? 3 : 4) + 1"))); u8 a = srcchar(1), b = srcchar(2); line_v(a == b); line_v(a != b); line_v(a < b); line_v(a <= b); line_v(a > b); line_v(a >= b); line_i(a < b ? 4 : 5); expect_end(); });
  for (int l = 0; l <= 3; l++) Reg("C31", "fold_bool_O" + n_(l), [l] { src_assume(1, dig); src_assume(2, dig);
    S k(1, (char)1), j(1, (char)2), x = "(" + k + " < 5)", y = "(" + j + " > 3)"; if (l) optimise(l);
    run_program(program(W(x + " == " + y) + W(x + " != " + y) + W(x + " && " + y) + W(x + " || " + y) + W("!" + x) + W("true != " + x) + W("false == " + x) + W("(" + x + " != " + y + ") == true") + "bool z = " + x + " != " + y + "; if (" + x + " != true) Console.WriteLine(5);" + W("z") + W("typeof(int) == typeof(uint)") + W("typeof(int) != typeof(uint)") + W("typeof(long) == typeof(long)")));
    bool a = srcchar(1) < '5', b = srcchar(2) > '3'; line_v(a == b); line_v(a != b); line_v(a && b); line_v(a || b); line_v(!a); line_v(!a); line_v(!a); line_v(a != b); if (!a) line_i(5); line_v(a != b); line_v(false); line_v(true); line_v(true); expect_end(); });
  auto b = [](bool v) { line_v(v); };
  opt("logic", W("B(0) && true") + W("B(1) && false") + W("B(2) || true") + W("B(3) || false") + W("true && B(4)") + W("false && B(5)") + W("true || B(6)") + W("false || B(7)"), TRACE, "", [b] {
    b(B(0)); B(1); b(false); B(2); b(true); b(B(3)); b(B(4)); b(false); b(true); b(B(7)); });
  opt("logic2", S("if (B(8) && true) Console.WriteLine(100); else Console.WriteLine(101); if (false || B(9)) Console.WriteLine(102); else Console.WriteLine(103);\n") + W("!(true && B(10))") + W("!true || !B(11)"), TRACE, "", [b] {
    line_i(B(8) ? 100 : 101); line_i(B(9) ? 102 : 103); b(!B(10)); b(!B(11)); });
  opt("logic3", "bool c = B(12) && B(13) && true; " + W("c") + "c = false || B(14) || B(15);" + W("c") + W("true ? N(16) : N(17)") + W("false ? N(18) : N(19)") + W("B(20) ? N(21) : 5") + W("1 < 2 ? 7 : 8"), TRACE, "", [b] {
    { bool c = B(12); if (c) c = B(13); b(c); } { bool c = B(14); if (!c) c = B(15); b(c); } line_i(N(16)); line_i(N(19)); { i32 v = B(20) ? N(21) : 5; line_i(v); } line_i(7); });

  // constant conditions and unreachable code
  opt("unreached", "if (true) Console.WriteLine(N(0)); else Console.WriteLine(N(1)); if (false) Console.WriteLine(N(2)); else Console.WriteLine(N(3)); if (1 > 2) { Console.WriteLine(1); } if (!false) { Console.WriteLine(2); }\n"
      "while (false) { Console.WriteLine(3); } do { Console.WriteLine(4); } while (false); for (; false; ) { Console.WriteLine(5); } int i = 0; while (true) { i++; if (i > N(4) % 3) break; Console.WriteLine(i); }\n"
      "for (;;) { i++; if (i < 9) continue; break; } Console.WriteLine(i); for (int j = 0; true; j++) { if (j == 2) break; Console.WriteLine(j); } do { i--; if (i < 3) break; } while (true); Console.WriteLine(i);\n"
      "Console.WriteLine(F(N(5))); Console.WriteLine(G(N(6))); H(N(7)); const bool t = true; if (t && B(8)) Console.WriteLine(6); if (!t || B(9)) Console.WriteLine(7);",
      S(TRACE) + "static int F(int x) { if (true) { return x; } Console.WriteLine(50); return 2; }\nstatic int G(int x) { while (true) { if (x > 3) return x - 1; x = 7; } }\n"
      "static void H(int x) { if (x > 0) { Console.WriteLine(60); return; Console.WriteLine(61); } while (x < 5) { break; x = 6; } Console.WriteLine(x); }\n", "", [] {
    line_i(N(0)); line_i(N(3)); line_i(2); line_i(4); i32 i = 0; while (true) { i++; if (i > N(4) % 3) break; line_i(i); }
    while (i < 9) i++; line_i(i); line_i(0); line_i(1); line_i(2);
    line_i(N(5)); { i32 x = N(6); line_i(x > 3 ? x - 1 : 6); } { i32 x = N(7); if (x > 0) line_i(60); else line_i(x); } if (B(8)) line_i(6); if (B(9)) line_i(7); });

  // switches with no, one and two labels; the value is evaluated once
  opt("switch_few", "switch (N(0)) { } switch (N(1)) { default: Console.WriteLine(1); break; } switch (N(2)) { case 5: Console.WriteLine(2); break; } switch (N(3)) { case 5: Console.WriteLine(3); break; default: Console.WriteLine(4); break; }\n"
      "int x = N(7); switch (x++) { case 3: x = x + 10; break; } Console.WriteLine(x); for (int i = 0; i < 3; i++) { switch (i) { case 1: continue; } Console.WriteLine(i); } for (int i = 0; i < 3; i++) { switch (i) { default: if (i == 1) break; Console.WriteLine(i); break; } }\n"
      "Console.WriteLine(R(N(8))); switch (3) { case 3: Console.WriteLine(9); break; default: Console.WriteLine(10); break; } switch (B(9) ? 1 : 2) { case 1: Console.WriteLine(11); break; }", S(TRACE) + "static int R(int x) { switch (x) { case 4: return 40; } return 41; }\n", "", [] {
    N(0); N(1); line_i(1); if (N(2) == 5) line_i(2); line_i(N(3) == 5 ? 3 : 4); 
    { i32 x = N(7); u32 y = (u32)x + 1; if (x == 3) y += 10; line_i((i32)y); } line_i(0); line_i(2); line_i(0); line_i(2); line_i(N(8) == 4 ? 40 : 41); line_i(9); if (B(9)) line_i(11); });

  opt("switch_few2", "switch (N(4)) { default: Console.WriteLine(5); break; case 7: Console.WriteLine(6); break; } switch (N(5)) { case 1: case 2: Console.WriteLine(7); break; } switch (N(6)) { case 1: default: Console.WriteLine(8); break; }", TRACE, "", [] {
    line_i(N(4) == 7 ? 6 : 5); { i32 v = N(5); if (v == 1 || v == 2) line_i(7); } N(6); line_i(8); });

  // locals initialised with constants, changed in every possible place
  opt("const_locals", "int a = 1; int b = 2; int c = 3; int d = 4; int e = 5; int f = 6; int g = 7; int h = 8; int k = 9; int l = 10; int m = 11; int o = 12; int p = 13; int q = 14; int r = 15; int s = 16;\n"
      "if (B(0)) a = N(1); if ((b = N(2)) > 0) Console.WriteLine(b); while (c++ < 5) { } for (; d < 6; d++) { } for (e = 1; e < 3; ) { e += 2; } F(ref f); G(out g); C x = new C(ref h); switch (k++) { case 9: l = N(3); break; }\n"
      "try { m = N(4); throw new Exception(); } catch (Exception) { o = N(5); } finally { p--; } int[] z = new int[20]; z[q++] = r; z[--r] = (s *= 2); Console.WriteLine(z[14]); Console.WriteLine(z[15]); z[14] = 0;\n" +
      W("a") + W("b") + W("c") + W("d") + W("e") + W("f") + W("g") + W("h") + W("k") + W("l") + W("m") + W("o") + W("p") + W("q") + W("r") + W("s") + W("z[14]"),
      S(TRACE) + "static void F(ref int x) { x = x + 100; }\nstatic void G(out int x) { x = 200; }\n", "class C { public C(ref int x) { x = x * 50; } }\n", [] {
    i32 a = 1; if (B(0)) a = N(1); i32 b = N(2); if (b > 0) line_i(b); i32 l = N(3), m = N(4), o = N(5); line_i(32); line_i(0);
    (void)0; line_i(a); line_i(b); line_i(6); line_i(6); line_i(3); line_i(106); line_i(200); line_i(400); line_i(10); line_i(l); line_i(m); line_i(o); line_i(12); line_i(15); line_i(14); line_i(32); line_i(0); });
  // ... and never changed, of every type, also through conversions
  opt("const_locals_types", "int i = 7; long l = 7; uint u = 7U; byte b = (byte)255; sbyte sb = (sbyte)-1; short s = (short)40000; float f = 7; double d = 7; double e = 2.5; bool t = 1 < 2; string st = \"abc\"; string n = null; object ob = 5; E en = E.B; char c = 'x'; ulong ul = 7UL; int x = " + V(0) + ";\n" +
      W("i / 2 + x") + W("l * 3000000000L") + W("u - 8U") + W("b + x") + W("sb + x") + W("s") + W("f / 2") + W("d / 2") + W("e * i") + W("t") + W("st") + W("n") + W("(int)ob") + W("(int)en") + W("c") + W("ul + 1UL") + W("i + l") + W("i * i * i") + W("-i") + W("~i") + W("i << 30") +
      "if (t) Console.WriteLine(i); if (i > 7) Console.WriteLine(0); while (i < 7) { Console.WriteLine(1); } int[] a = new int[i]; Console.WriteLine(a.Length); a[i - 1] = x; Console.WriteLine(a[6]); switch (x) { case 7: Console.WriteLine(i); break; } long w = i; Console.WriteLine(w); P(i); Q(i);",
      "static void P(long x) { Console.WriteLine(x); }\nstatic void Q(object o) { Console.WriteLine((int)o); }\n", "enum E { A, B = 30 }\n", [] {
    i32 x = I(0); line_i((i32)(3u + (u32)x)); line_i(21000000000ll); line_u(4294967295u); line_i((i32)(255u + (u32)x)); line_i((i32)((u32)x - 1)); line_i(-25536); line_v(3.5f); line_v(3.5); line_v(17.5); line_v(true); line("abc"); line(""); line_i(5); line_i(30); line("x"); line_u(8); line_i(14); line_i(343); line_i(-7); line_i(-8); line_i((i32)(7u << 30));
    line_i(7); line_i(7); line_i(x); if (x == 7) line_i(7); line_i(7); line_i(7); line_i(7); });

  // constants used as objects are boxed with their own type
  opt("boxes", "Q(7); Q(-7); Q(3 + 4); const int c = 3; Q(c); Q(c * 2); int i = 7; Q(i); Q(i << 2); Q(i + " + V(0) + "); object o = 5 - 9; Q(o); o = 4; Q(o); object[] a = new object[2]; a[1] = 5 * 2; Q(a[1]); Q(true ? 4 : 5); Q(K); Q(K + 1); Q(F()); Q(G()); o = " + V(0) + "; Q(o);\n"
      "o = 1L + 2; Console.WriteLine(o is long); Console.WriteLine((long)o); o = 1.5 * 2; Console.WriteLine(o is double); Console.WriteLine((double)o); o = 1 < 2; Console.WriteLine((bool)o); o = 'x'; Console.WriteLine((char)o); o = (byte)300; Console.WriteLine(o is byte); Console.WriteLine((byte)o); o = 5U | 2U; Console.WriteLine(o is uint); Console.WriteLine((uint)o); o = \"st\"; Console.WriteLine(o is string); o = null; Console.WriteLine(o == null);",
      "static void Q(object o) { Console.WriteLine(o is int); Console.WriteLine((int)o); }\nconst int K = 9;\nstatic object F() { return 5; }\nstatic object G() { return 5 + 1; }\n", "", [] {
    auto q = [](i32 v) { line_v(true); line_i(v); }; q(7); q(-7); q(7); q(3); q(6); q(7); q(28); q((i32)(7u + (u32)I(0))); q(-4); q(4); q(10); q(4); q(9); q(10); q(5); q(6); q(I(0));
    line_v(true); line_i(3); line_v(true); line_v(3.0); line_v(true); line("x"); line_v(true); line_i(44); line_v(true); line_u(7); line_v(true); line_v(true); });

  // string constants: assigned, passed, stored, selected
  opt("strings", "string s = \"a\"; string t = \"b\"; Console.WriteLine(s); s = \"c\"; Console.WriteLine(s); if (B(0)) s = \"d\"; Console.WriteLine(s); string[] a = new string[2]; a[1] = \"e\"; Console.WriteLine(a[1]); a[0] = s; Console.WriteLine(a[0]); Console.WriteLine(B(1) ? \"f\" : t); C c = new C(); c.s = \"g\"; Console.WriteLine(c.s); c.P = \"h\"; Console.WriteLine(c.P); Console.WriteLine(F(\"i\")); R(ref t); Console.WriteLine(t);\n"
      "Console.WriteLine(K); Console.WriteLine(C.Z); object o = \"k\"; Console.WriteLine(o is string); Console.WriteLine((string)o); o = \"l\"; Console.WriteLine((string)o); object[] x = new object[1]; x[0] = \"m\"; Console.WriteLine((string)x[0]); string u = t = \"n\"; Console.WriteLine(u); Console.WriteLine(t); const string v = \"q\"; Console.WriteLine(v); string w = null; Console.WriteLine(w); w = \"r\"; Console.WriteLine(w);",
      S(TRACE) + "static string F(string x) { Console.WriteLine(x); x = \"j\"; return x; }\nstatic void R(ref string x) { x = \"o\"; }\nconst string K = \"p\";\n", "class C { public string s; public string P { get { return s; } set { s = value; } } public const string Z = \"zz\"; }\n", [] {
    line("a"); line("c"); line(B(0) ? "d" : "c"); line("e"); line(in<bool>(0) ? "d" : "c"); line(B(1) ? "f" : "b"); line("g"); line("h"); line("i"); line("j"); line("o"); line("p"); line("zz"); line_v(true); line("k"); line("l"); line("m"); line("n"); line("n"); line("q"); line(""); line("r"); });

  // statements whose value is not used keep their effects
  opt("effects", "int x = N(0); x++; --x; N(1); B(2); new C(N(3)); x = x += 2; int y = x = N(4); C c = new C(5); c.v = N(6); c.F(); c.v++; c.P = N(7); int[] a = new int[2]; a[1] = a[0] = N(8); a[0]++; T(); N(9); (x)++; \n" + W("x") + W("y") + W("c.v") + W("a[0]") + W("a[1]") + W("S(S(3))"),
      S(TRACE) + "static int T() { Console.WriteLine(70); return 71; }\nstatic int S(int x) { Console.WriteLine(x); T(); return x + 1; }\n", "class C { public int v; public C(int x) { Console.WriteLine(x); v = x; } public int F() { Console.WriteLine(v); v = v + 1; return 9; } public int P { get { return v; } set { Console.WriteLine(value); v = v + value; } } }\n", [] {
    N(0); N(1); B(2); { i32 t = N(3); line_i(t); } i32 x = N(4), y = x; line_i(5); i32 v = N(6); line_i(v); u32 w = (u32)v + 2; { i32 t = N(7); line_i(t); w += (u32)t; } i32 a = N(8); line_i(70); N(9);
    line_i((i32)((u32)x + 1)); line_i(y); line_i((i32)w); line_i((i32)((u32)a + 1)); line_i(a); line_i(3); line_i(70); line_i(4); line_i(70); line_i(5); });
} } init;
}
