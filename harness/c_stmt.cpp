// C11 loops, jumps, conditions; C12 switch
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
void prog(const S &b, const S &m = "", const S &t = "") { run_program(program(b, m, t)); }
const char *N3 = "int n = Verif.Verif_I32(0); int m = Verif.Verif_I32(1); int k = Verif.Verif_I32(2);\n";
i32 small(int i, i32 lo, i32 hi) { i32 v = in<i32>(i); symapi_assume(v >= lo); symapi_assume(v <= hi); return v; }

// the same text is the April program and, compiled here, the reference
#define WL(x) line_v((i32)(x));
#define LOOP(name, lo, hi, text) Reg("C11", name, [] { \
    i32 n = small(0, lo, hi), m = small(1, lo, hi), k = in<i32>(2); (void)m; (void)k; \
    S t = #text; size_t p; while ((p = t.find("WL(")) != S::npos) t.replace(p, 3, "Console.WriteLine("); \
    prog(S(N3) + t); { Con Console; text } expect_end(); });
struct Con { void WriteLine(i32 v) { line_v(v); } void WriteLine(bool v) { line_v(v); } };
#define Console_ Console

struct Init { Init() {
  LOOP("while", -1, 4, int i = 0; while (i < n) { Console.WriteLine(i); i++; } Console.WriteLine(i + 100);)
  LOOP("do_while", -1, 4, int i = 0; do { Console.WriteLine(i); i++; } while (i < n); Console.WriteLine(i + 100);)
  LOOP("for", -1, 4, for (int i = 0; i < n; i++) { Console.WriteLine(i); } Console.WriteLine(100);)
  LOOP("for_down", -1, 4, for (int i = n; i > 0; i--) { Console.WriteLine(i); } Console.WriteLine(100);)
  LOOP("for_step", -1, 6, int s = 0; for (int i = 1; i <= n; i += 2) { s += i; Console.WriteLine(s); } Console.WriteLine(s);)
  LOOP("for_empty", 1, 4, int i = 0; for (;;) { if (i == n) { break; } Console.WriteLine(i); i++; } Console.WriteLine(i + 100);)
  LOOP("for_no_init", -1, 4, int i = 1; for (; i < n; i++) { Console.WriteLine(i); } Console.WriteLine(i);)
  LOOP("for_no_step", -1, 4, for (int i = 0; i < n;) { i++; Console.WriteLine(i); } Console.WriteLine(77);)
  LOOP("for_no_body", 0, 4, int i = 0; for (i = 0; i < n; i++) { } Console.WriteLine(i);)
  LOOP("while_true_break", 0, 4, int i = 0; while (true) { if (i >= n) { break; } Console.WriteLine(i); i++; } Console.WriteLine(99);)
  LOOP("break", 0, 4, for (int i = 0; i < 4; i++) { if (i == n) { break; } Console.WriteLine(i); } Console.WriteLine(99);)
  LOOP("continue", 0, 4, for (int i = 0; i < 4; i++) { if (i == n) { continue; } Console.WriteLine(i); } Console.WriteLine(99);)
  LOOP("continue_while", 0, 4, int i = 0; while (i < 4) { i++; if (i == n) { continue; } Console.WriteLine(i); } Console.WriteLine(99);)
  LOOP("continue_do", 0, 4, int i = 0; do { i++; if (i == n) { continue; } Console.WriteLine(i); } while (i < 4); Console.WriteLine(99);)
  LOOP("nested", 0, 3, for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) { Console.WriteLine(i * 10 + j); } } Console.WriteLine(99);)
  LOOP("nested_break", 0, 3, for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { if (j == n) { break; } Console.WriteLine(i * 10 + j); } if (i == m) { break; } Console.WriteLine(50); } Console.WriteLine(99);)
  LOOP("nested_continue", 0, 3, for (int i = 0; i < 3; i++) { if (i == m) { continue; } int j = 0; while (j < 3) { j++; if (j == n) { continue; } Console.WriteLine(i * 10 + j); } Console.WriteLine(50); } Console.WriteLine(99);)
  LOOP("nested_mixed", 0, 3, int i = 0; do { for (int j = i; j < 3; j++) { if (j == n) { continue; } if (j + i == m) { break; } Console.WriteLine(j); } i++; } while (i < 2); Console.WriteLine(99);)
  LOOP("triple", 0, 2, for (int a = 0; a < n; a++) { for (int b = 0; b < m; b++) { for (int c = 0; c < 2; c++) { if (a == b && c == 1) { break; } Console.WriteLine(a * 100 + b * 10 + c); } } } Console.WriteLine(99);)
  LOOP("sum", 0, 5, int s = k; for (int i = 1; i <= n; i++) { s = s + i * 3; } Console.WriteLine(s);)
  LOOP("if_else", -5, 5, if (n < 0) Console.WriteLine(1); else if (n == 0) Console.WriteLine(2); else if (n < m) Console.WriteLine(3); else Console.WriteLine(4); Console.WriteLine(9);)
  LOOP("if_no_else", -5, 5, if (n < m) Console.WriteLine(1); if (n > m) { Console.WriteLine(2); } if (n == m) { } Console.WriteLine(9);)
  LOOP("dangling_else", -5, 5, if (n > 0) if (m > 0) Console.WriteLine(1); else Console.WriteLine(2); Console.WriteLine(9);)
  LOOP("dangling_else2", -5, 5, if (n > 0) { if (m > 0) Console.WriteLine(1); } else Console.WriteLine(2); Console.WriteLine(9);)
  LOOP("if_nested", -5, 5, if (n > 0) { if (m > 0) { Console.WriteLine(1); } else { if (m < -2) Console.WriteLine(2); else Console.WriteLine(3); } } else { Console.WriteLine(4); if (m == n) Console.WriteLine(5); } Console.WriteLine(9);)
  LOOP("if_const", -5, 5, if (true) Console.WriteLine(n); else Console.WriteLine(m); if (false) Console.WriteLine(1); else Console.WriteLine(2); if (false) Console.WriteLine(3); while (false) { Console.WriteLine(4); } do { Console.WriteLine(5); } while (false); for (int i = 0; false; i++) { Console.WriteLine(6); } Console.WriteLine(9);)
  LOOP("if_const_expr", -5, 5, if (1 + 1 == 2 && n > 0) Console.WriteLine(1); if (1 > 2 || m > 0) Console.WriteLine(2); if (1 > 2 && n > 0) Console.WriteLine(3); if (2 > 1 || m > 0) Console.WriteLine(4); Console.WriteLine(9);)
  LOOP("loop_in_if", 0, 3, if (n > 1) { for (int i = 0; i < m; i++) Console.WriteLine(i); } else { int i = m; while (i > 0) i--; Console.WriteLine(i); } Console.WriteLine(9);)
  LOOP("empty_statements", 0, 3, ;;; if (n > 1) ; else Console.WriteLine(1); { } { ; Console.WriteLine(2); } for (int i = 0; i < m; i++) ; Console.WriteLine(9);)
  LOOP("incr_cond", 0, 4, int i = 0; while (i++ < n) { Console.WriteLine(i); } Console.WriteLine(i); while (--i > 0) { Console.WriteLine(i); } Console.WriteLine(i);)
  LOOP("symbolic_sum", -2, 2, int i = n; int j = m; while (i < j) { i++; j--; Console.WriteLine(i - j); } Console.WriteLine(i); Console.WriteLine(j);)
  Reg("C11", "return_in_loop", [] { i32 n = small(0, 0, 5); prog("Console.WriteLine(F(Verif.Verif_I32(0))); G(Verif.Verif_I32(0)); Console.WriteLine(1000);",
      "static int F(int n) { for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { if (i + j == n) return i * 10 + j; if (j > i) break; } } return -1; }\n"
      "static void G(int n) { int i = 0; while (true) { if (i == n) return; Console.WriteLine(i); i++; } }");
    auto F = [](int n) { for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { if (i + j == n) return i * 10 + j; if (j > i) break; } return -1; };
    line_i(F(n)); for (int i = 0; i < n; i++) line_i(i); line_i(1000); expect_end(); });
  Reg("C11", "return_paths", [] { i32 n = in<i32>(0), m = in<i32>(1); prog("Console.WriteLine(F(Verif.Verif_I32(0), Verif.Verif_I32(1)));",
      "static int F(int n, int m) { if (n > m) { if (n > 100) return 1; else return 2; } else if (n == m) return 3; while (m > n) { if (m > 10) return 4; return 5; } return 6; }");
    int r; if (n > m) { if (n > 100) r = 1; else r = 2; } else if (n == m) r = 3; else if (m > 10) r = 4; else r = 5; line_i(r); expect_end(); });
  Reg("C11", "loop_types", [] { u8 n = in<u8>(0); symapi_assume(n <= 3); i64 m = in<i64>(1); symapi_assume(m >= 0); symapi_assume(m <= 3);
    prog("byte n = Verif.Verif_U8(0); long m = Verif.Verif_I64(1); for (int i = 0; i < n; i++) Console.WriteLine(i); for (long i = 0; i < m; i++) Console.WriteLine(i); for (uint i = 0u; i < 2; i++) Console.WriteLine(i);");
    for (int i = 0; i < n; i++) line_i(i); for (i64 i = 0; i < m; i++) line_i(i); line_i(0); line_i(1); expect_end(); });
  Reg("C11", "many_locals_per_iteration", [] { i32 k = in<i32>(2); prog("int k = Verif.Verif_I32(2); int t = 0; for (int i = 0; i < 3; i++) { int a = k + i; long b = a; int c = (int)b; if (i == 1) continue; int d = c - a; t = t + d + c; } Console.WriteLine(t);");
    u32 t = 0; for (int i = 0; i < 3; i++) { if (i == 1) continue; t += (u32)k + i; } line_v((i32)t); expect_end(); });

  // ---- switch
#define SW(name, decl, text, ref) Reg("C12", name, [] { prog(decl "\n switch (x) {" text "} Console.WriteLine(99);\n"); auto R = [](int v) { line_i(v); }; ref line_i(99); expect_end(); });
  SW("int", "int x = Verif.Verif_I32(0);", "case 1: Console.WriteLine(1); break; case 5: Console.WriteLine(5); break; case -7: Console.WriteLine(7); break; default: Console.WriteLine(0); break;",
     i32 x = in<i32>(0); if (x == 1) R(1); else if (x == 5) R(5); else if (x == -7) R(7); else R(0);)
  SW("int_no_default", "int x = Verif.Verif_I32(0);", "case 1: Console.WriteLine(1); break; case 2: Console.WriteLine(2); break;", i32 x = in<i32>(0); if (x == 1) R(1); else if (x == 2) R(2);)
  SW("one_case", "int x = Verif.Verif_I32(0);", "case 3: Console.WriteLine(1); break;", i32 x = in<i32>(0); if (x == 3) R(1);)
  SW("one_case_default", "int x = Verif.Verif_I32(0);", "case 3: Console.WriteLine(1); break; default: Console.WriteLine(2); break;", i32 x = in<i32>(0); R(x == 3 ? 1 : 2);)
  SW("default_first", "int x = Verif.Verif_I32(0);", "default: Console.WriteLine(0); break; case -1: Console.WriteLine(1); break; case 2147483647: Console.WriteLine(2); break; case -2147483647: Console.WriteLine(3); break;",
     i32 x = in<i32>(0); if (x == -1) R(1); else if (x == 2147483647) R(2); else if (x == -2147483647) R(3); else R(0);)
  SW("default_middle", "int x = Verif.Verif_I32(0);", "case 1: Console.WriteLine(1); break; default: Console.WriteLine(0); break; case 2: Console.WriteLine(2); break; case 0: Console.WriteLine(3); break;",
     i32 x = in<i32>(0); if (x == 1) R(1); else if (x == 2) R(2); else if (x == 0) R(3); else R(0);)
  SW("shared", "int x = Verif.Verif_I32(0);", "case 1: case 3: case 9: Console.WriteLine(1); break; case 2: case 4: Console.WriteLine(2); break; case 6: default: Console.WriteLine(3); break;",
     i32 x = in<i32>(0); if (x == 1 || x == 3 || x == 9) R(1); else if (x == 2 || x == 4) R(2); else R(3);)
  SW("many", "int x = Verif.Verif_I32(0);", "case 30: Console.WriteLine(1); break; case 20: Console.WriteLine(2); break; case 10: Console.WriteLine(3); break; case 0: Console.WriteLine(4); break; case -10: Console.WriteLine(5); break; case 40: Console.WriteLine(6); break; case 25: Console.WriteLine(7); break; case 15: Console.WriteLine(8); break;",
     i32 x = in<i32>(0); if (x == 30) R(1); else if (x == 20) R(2); else if (x == 10) R(3); else if (x == 0) R(4); else if (x == -10) R(5); else if (x == 40) R(6); else if (x == 25) R(7); else if (x == 15) R(8);)
  SW("expr", "int a = Verif.Verif_I32(0); int x = a + 1;", "case 1 + 2 * 3: Console.WriteLine(1); break; case -(4 - 2): Console.WriteLine(2); break; case 0x10: Console.WriteLine(3); break;",
     i32 x = (i32)((u32)in<i32>(0) + 1); if (x == 7) R(1); else if (x == -2) R(2); else if (x == 16) R(3);)
  SW("blocks", "int x = Verif.Verif_I32(0); int y = 0;", "case 1: { y = 5; int z = y + 1; Console.WriteLine(z); break; } case 2: y = 8; Console.WriteLine(y); break; default: if (x > 100) { Console.WriteLine(1); break; } Console.WriteLine(2); break;",
     i32 x = in<i32>(0); if (x == 1) R(6); else if (x == 2) R(8); else if (x > 100) R(1); else R(2);)
#define SWT(tag, T, N, VER, c1, c2, c3) SW("type_" tag, N " x = Verif." VER "(0);", "case " #c1 ": Console.WriteLine(1); break; case " #c2 ": Console.WriteLine(2); break; case " #c3 ": Console.WriteLine(3); break; default: Console.WriteLine(0); break;", \
     T x = in<T>(0); if (x == (T)(c1)) R(1); else if (x == (T)(c2)) R(2); else if (x == (T)(c3)) R(3); else R(0);)
  SWT("byte", u8, "byte", "Verif_U8", 0, 5, 255) SWT("sbyte", i8, "sbyte", "Verif_I8", -128, -1, 127) SWT("short", i16, "short", "Verif_I16", -32768, 3, 32767) SWT("ushort", u16, "ushort", "Verif_U16", 0, 65535, 256)
  SWT("uint", u32, "uint", "Verif_U32", 0, 7, 2147483647) SWT("char", char16_t, "char", "Verif_Char", 'a', 'z', '0')
#undef SWT
  Reg("C12", "type_enum", [] { prog("E x = (E)Verif.Verif_I32(0); switch (x) { case E.A: Console.WriteLine(1); break; case E.B: Console.WriteLine(2); break; case E.C: Console.WriteLine(3); break; default: Console.WriteLine(0); break; }", "", "enum E { A, B = 10, C }"); i32 x = in<i32>(0); line_i(x == 0 ? 1 : x == 10 ? 2 : x == 11 ? 3 : 0); expect_end(); });
  Reg("C12", "type_long", [] { prog("long x = Verif.Verif_I64(0); switch (x) { case 97: Console.WriteLine(1); break; case 98: Console.WriteLine(2); break; default: Console.WriteLine(3); break; }");
    i64 x = in<i64>(0); line_i(x == 97 ? 1 : x == 98 ? 2 : 3); expect_end(); });
  SW("call_once", "int x = 0;", "case 0: switch (Verif.Verif_I32(0)) { case 1: Console.WriteLine(1); break; case 2: Console.WriteLine(2); break; default: Console.WriteLine(3); break; } Console.WriteLine(4); break; case 1: Console.WriteLine(5); break;", i32 x = in<i32>(0); R(x == 1 ? 1 : x == 2 ? 2 : 3); R(4);)
  Reg("C12", "in_loop", [] { i32 n = in<i32>(0), m = in<i32>(1); prog("int n = Verif.Verif_I32(0); int m = Verif.Verif_I32(1); for (int i = 0; i < 3; i++) { switch (n + i) { case 1: continue; case 2: Console.WriteLine(2); break; case 3: if (m > 0) break; Console.WriteLine(3); break; default: Console.WriteLine(0); break; } Console.WriteLine(i + 10); } Console.WriteLine(99);");
    for (int i = 0; i < 3; i++) { i32 x = (i32)((u32)n + i); if (x == 1) continue; if (x == 2) line_i(2); else if (x == 3) { if (!(m > 0)) line_i(3); } else line_i(0); line_i(i + 10); } line_i(99); expect_end(); });
  Reg("C12", "loop_inside", [] { i32 n = in<i32>(0); i32 m = small(1, 0, 3); prog("int n = Verif.Verif_I32(0); int m = Verif.Verif_I32(1); switch (n) { case 1: for (int i = 0; i < 3; i++) { if (i == m) break; Console.WriteLine(i); } Console.WriteLine(50); break; case 2: int j = 0; while (j < m) { j++; if (j == 2) continue; Console.WriteLine(j); } break; } Console.WriteLine(99);");
    if (n == 1) { for (int i = 0; i < 3; i++) { if (i == m) break; line_i(i); } line_i(50); } else if (n == 2) { int j = 0; while (j < m) { j++; if (j == 2) continue; line_i(j); } } line_i(99); expect_end(); });
  Reg("C12", "return_from", [] { i32 n = in<i32>(0); prog("Console.WriteLine(F(Verif.Verif_I32(0)));", "static int F(int n) { switch (n) { case 1: return 10; case 2: case 3: if (n == 3) return 30; return 20; case 4: break; default: return -1; } return 40; }");
    line_i(n == 1 ? 10 : n == 2 ? 20 : n == 3 ? 30 : n == 4 ? 40 : -1); expect_end(); });
  Reg("C12", "return_all", [] { i32 n = in<i32>(0); prog("Console.WriteLine(F(Verif.Verif_I32(0)));", "static int F(int n) { switch (n) { case 1: return 10; case 2: return 20; default: return 30; } }");
    line_i(n == 1 ? 10 : n == 2 ? 20 : 30); expect_end(); });
  Reg("C12", "nested", [] { i32 n = in<i32>(0), m = in<i32>(1); prog("int n = Verif.Verif_I32(0); int m = Verif.Verif_I32(1); switch (n) { case 1: switch (m) { case 1: Console.WriteLine(11); break; case 2: Console.WriteLine(12); break; default: Console.WriteLine(10); break; } Console.WriteLine(5); break; case 2: switch (m) { case 7: Console.WriteLine(27); break; case 8: Console.WriteLine(28); break; } break; default: Console.WriteLine(0); break; }");
    if (n == 1) { line_i(m == 1 ? 11 : m == 2 ? 12 : 10); line_i(5); } else if (n == 2) { if (m == 7) line_i(27); else if (m == 8) line_i(28); } else line_i(0); expect_end(); });
  Reg("C12", "two_switches", [] { i32 n = in<i32>(0); prog("int n = Verif.Verif_I32(0); switch (n) { case 1: Console.WriteLine(1); break; case 2: Console.WriteLine(2); break; } switch (n) { case 2: Console.WriteLine(22); break; case 3: Console.WriteLine(33); break; default: Console.WriteLine(0); break; } ");
    if (n == 1) line_i(1); else if (n == 2) line_i(2); line_i(n == 2 ? 22 : n == 3 ? 33 : 0); expect_end(); });
  Reg("C12", "const_switch", [] { i32 n = in<i32>(0); prog("int n = Verif.Verif_I32(0); switch (3) { case 1: Console.WriteLine(n); break; case 3: Console.WriteLine(3); break; default: Console.WriteLine(4); break; } switch (5) { case 5: Console.WriteLine(n); break; } switch (6) { case 5: Console.WriteLine(n); break; default: Console.WriteLine(8); break; }");
    line_i(3); line_v(n); line_i(8); expect_end(); });
  Reg("C12", "in_try", [] { i32 n = in<i32>(0); prog("int n = Verif.Verif_I32(0); try { switch (n) { case 1: Console.WriteLine(1); break; case 2: throw new Exception(); default: Console.WriteLine(3); break; } Console.WriteLine(4); } catch (Exception e) { Console.WriteLine(5); } Console.WriteLine(6);");
    if (n == 1) { line_i(1); line_i(4); } else if (n == 2) line_i(5); else { line_i(3); line_i(4); } line_i(6); expect_end(); });
} } init; }
