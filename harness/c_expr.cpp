// C09 precedence and associativity, C10 evaluation order and short circuit
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
struct Op { const char *t, *tag; int p; };
const Op ops[] = {{"*", "mul", 9}, {"/", "div", 9}, {"%", "mod", 9}, {"+", "add", 8}, {"-", "sub", 8}, {"<<", "shl", 7}, {">>", "shr", 7}, {"&", "and", 4}, {"^", "xor", 3}, {"|", "or", 2}};
i32 ap(const S &o, i32 a, i32 b) {
  u32 x = a, y = b;
  if (o == "*") return x * y; if (o == "/") return a / b; if (o == "%") return a % b; if (o == "+") return x + y; if (o == "-") return x - y;
  if (o == "<<") return x << y; if (o == ">>") return a >> b; if (o == "&") return x & y; if (o == "^") return x ^ y; return x | y;
}
void init3() {   // a free, 1 <= c < b <= 5: every divisor is positive, every shift count in range
  i32 b = in<i32>(1), c = in<i32>(2); symapi_assume(c >= 1); symapi_assume(b > c); symapi_assume(b <= 5);
}
const char *D3 = "int a = Verif.Verif_I32(0); int b = Verif.Verif_I32(1); int c = Verif.Verif_I32(2); int d = Verif.Verif_I32(3);\n";
i32 A() { return in<i32>(0); } i32 B() { return in<i32>(1); } i32 C() { return in<i32>(2); } i32 DD() { return in<i32>(3); }

void prog(const S &b, const S &m = "", const S &t = "") { run_program(program(b, m, t)); }
S W(const S &e) { return "Console.WriteLine(" + e + ");\n"; }
S BD = "bool x = Verif.Verif_Bool(0); bool y = Verif.Verif_Bool(1); bool z = Verif.Verif_Bool(2); bool w = Verif.Verif_Bool(3);\n";
const char *FN = "static int F(int k) { Console.WriteLine(k); return Verif.Verif_I32(k); }\n static bool P(int k) { Console.WriteLine(k); return Verif.Verif_Bool(k); }\n";
i32 F(int k) { line_i(k); return in<i32>(k); }
bool P(int k) { line_i(k); return in<bool>(k); }

struct Init { Init() {
  for (auto &o1 : ops) Reg("C09", S("pair_") + o1.tag, [o1] {
    init3(); S p = D3;
    for (auto &o2 : ops) p += W(S("a ") + o1.t + " b " + o2.t + " c");
    prog(p);
    for (auto &o2 : ops) { i32 v = o1.p >= o2.p ? ap(o2.t, ap(o1.t, A(), B()), C()) : ap(o1.t, A(), ap(o2.t, B(), C())); line_v(v, (S("a ") + o1.t + " b " + o2.t + " c").c_str()); }
    expect_end();
  });
  for (auto &o1 : ops) Reg("C09", S("paren_") + o1.tag, [o1] {
    init3(); S p = D3; bool dv = o1.p == 9 && o1.t[0] != '*', sh = o1.p == 7;
    for (auto &o2 : ops) { p += W(S("(a ") + o1.t + " b) " + o2.t + " c"); if (!dv && !sh) p += W(S("a ") + o1.t + " (b " + o2.t + " c)"); }
    prog(p);
    for (auto &o2 : ops) { line_v(ap(o2.t, ap(o1.t, A(), B()), C())); if (!dv && !sh) line_v(ap(o1.t, A(), ap(o2.t, B(), C()))); }
    expect_end();
  });
#define B9(name, expr) Reg("C09", name, [] { prog(BD + W(#expr)); bool x = in<bool>(0), y = in<bool>(1), z = in<bool>(2), w = in<bool>(3); line_v((bool)(expr)); expect_end(); });
  B9("bool_1", x || y && z) B9("bool_2", x && y || z && w) B9("bool_3", !x && y || !z) B9("bool_4", x == y != z) B9("bool_5", x != y == z || w) B9("bool_6", x == y && z == w)
  B9("bool_7", (x || y) && (z || w)) B9("bool_8", !(x && y) == z) B9("bool_9", x ? y : z ? w : x) B9("bool_10", x || y ? z && w : z || w) B9("bool_11", x && y ? z : w) B9("bool_12", x || y || z && w)
  B9("bool_13", x && !y && z || w) B9("bool_14", (x ? y : z) ? w : x) B9("bool_15", !x ? !y : !z) B9("bool_16", x ? y ? z : w : y)
#define I9(name, T, expr) Reg("C09", name, [] { prog(S(D3) + W(#expr)); u32 a = A(), b = B(), c = C(), d = DD(); (void)a; (void)b; (void)c; (void)d; line_v((T)(expr)); expect_end(); });
  I9("int_1", i32, a + b * c - d) I9("int_2", i32, a - b - c - d) I9("int_4", i32, -a + -b) I9("int_5", i32, ~a & b | c ^ d) I9("int_6", i32, a * b + c * d)
  I9("int_7", i32, (a + b) * (c - d)) I9("int_9", i32, a | b & c | d) I9("int_10", i32, -(a + b)) I9("int_11", i32, ~a + ~b) I9("int_12", i32, - -a) I9("int_13", i32, a - -b) I9("int_14", i32, ~-a)
  I9("int_15", i32, a ^ b ^ c & d) I9("int_16", i32, a - b + c - d) I9("int_19", i32, ((a)) + ((b - ((c)))))
#define I8_(name, expr) Reg("C09", name, [] { prog("int a = Verif.Verif_I8(0); int b = Verif.Verif_I8(1); int c = Verif.Verif_I8(2); int d = Verif.Verif_I8(3);\n" + W(#expr)); i32 a = in<i8>(0), b = in<i8>(1), c = in<i8>(2), d = in<i8>(3); (void)a; (void)b; (void)c; (void)d; line_v((i32)(expr)); expect_end(); });
  I8_("int_3", -a * b) I8_("int_8", a - (b - (c - d))) I8_("int_17", a * (b + c) - d) I8_("int_18", a - b * c * d)
#define M9(name, T, expr) Reg("C09", name, [] { prog(S(D3) + W(#expr)); i32 a = A(), b = B(), c = C(), d = DD(); symapi_assume(a > -1000000 && a < 1000000 && b > -1000000 && b < 1000000 && c > -1000000 && c < 1000000 && d > -1000000 && d < 1000000); (void)c; (void)d; line_v((T)(expr)); expect_end(); });
  M9("mixed_1", bool, a + b < c + d) M9("mixed_2", bool, a < b == c < d) M9("mixed_3", bool, a < b && b < c || c > d) M9("mixed_4", bool, a == b && c != d) M9("mixed_5", bool, !(a < b) && c >= d)
  M9("mixed_6", i32, a < b ? c : d) M9("mixed_7", i32, a < b ? c < d ? a : b : c < d ? c : d) M9("mixed_8", i32, a + (b > c ? b : c) + d) M9("mixed_9", i32, a == b ? a + c : b - d) M9("mixed_10", bool, (a & b) == c || (a | b) != d)
  M9("mixed_11", bool, a - b > 0 && b - c > 0) M9("mixed_12", bool, a >= b == (c <= d)) M9("mixed_13", i32, (a < b || c < d ? a : c) + d) M9("mixed_14", bool, a << 1 > b) M9("mixed_15", bool, a >> 1 == b || c << 2 != d)
  CASE_ASSIGN();
  // ---- evaluation order
  Reg("C10", "order_add", [] { prog(W("F(1) + F(2) + F(3)"), FN); u32 a = F(1), b = F(2), c = F(3); line_v((i32)(a + b + c)); expect_end(); });
  Reg("C10", "order_mul", [] { prog(W("F(1) + F(2) * F(3)"), FN); u32 a = F(1), b = F(2), c = F(3); line_v((i32)(a + b * c)); expect_end(); });
  Reg("C10", "order_paren", [] { prog(W("F(1) - (F(2) - F(3))"), FN); u32 a = F(1), b = F(2), c = F(3); line_v((i32)(a - (b - c))); expect_end(); });
  Reg("C10", "order_cmp", [] { prog(W("F(1) < F(2) == F(3) < F(4)"), FN); i32 a = F(1), b = F(2), c = F(3), d = F(4); line_v((a < b) == (c < d)); expect_end(); });
  Reg("C10", "order_args", [] { prog("G(F(1), F(2), F(3));", S(FN) + "static void G(int a, int b, int c) { Console.WriteLine(a); Console.WriteLine(b); Console.WriteLine(c); }"); i32 a = F(1), b = F(2), c = F(3); line_v(a); line_v(b); line_v(c); expect_end(); });
  Reg("C10", "order_nested_args", [] { prog("Console.WriteLine(G(F(1), G(F(2), F(3))));", S(FN) + "static int G(int a, int b) { Console.WriteLine(a); return a - b; }"); u32 a = F(1), b = F(2), c = F(3); line_v((i32)b); u32 r = b - c; line_v((i32)a); line_v((i32)(a - r)); expect_end(); });
  Reg("C10", "and", [] { prog(W("P(1) && P(2)"), FN); bool r = P(1); if (r) r = P(2); line_v(r); expect_end(); });
  Reg("C10", "or", [] { prog(W("P(1) || P(2)"), FN); bool r = P(1); if (!r) r = P(2); line_v(r); expect_end(); });
  Reg("C10", "and_or", [] { prog(W("P(1) && P(2) || P(3) && P(4)"), FN); bool r = P(1); if (r) r = P(2); if (!r) { r = P(3); if (r) r = P(4); } line_v(r); expect_end(); });
  Reg("C10", "or_and", [] { prog(W("(P(1) || P(2)) && (P(3) || P(4))"), FN); bool r = P(1); if (!r) r = P(2); if (r) { r = P(3); if (!r) r = P(4); } line_v(r); expect_end(); });
  Reg("C10", "not", [] { prog(W("!P(1) || !(P(2) && !P(3))"), FN); bool r = !P(1); if (!r) { bool q = P(2); if (q) q = !P(3); r = !q; } line_v(r); expect_end(); });
  Reg("C10", "chain", [] { prog(W("P(1) && P(2) && P(3) && P(4)"), FN); bool r = true; for (int i = 1; i <= 4 && r; i++) r = P(i); line_v(r); expect_end(); });
  Reg("C10", "chain_or", [] { prog(W("P(1) || P(2) || P(3) || P(4)"), FN); bool r = false; for (int i = 1; i <= 4 && !r; i++) r = P(i); line_v(r); expect_end(); });
  Reg("C10", "cond", [] { prog(W("P(1) ? F(2) : F(3)"), FN); i32 r = P(1) ? F(2) : F(3); line_v(r); expect_end(); });
  Reg("C10", "cond_nested", [] { prog(W("P(1) ? P(2) ? F(3) : F(4) : P(5) ? F(6) : F(7)"), FN); i32 r = P(1) ? (P(2) ? F(3) : F(4)) : (P(5) ? F(6) : F(7)); line_v(r); expect_end(); });
  Reg("C10", "cond_sc", [] { prog(W("P(1) && P(2) ? F(3) : F(4) + F(5)"), FN); bool q = P(1); if (q) q = P(2); u32 r; if (q) r = F(3); else { r = F(4); r += F(5); } line_v((i32)r); expect_end(); });
  Reg("C10", "if_sc", [] { prog("if (P(1) && (P(2) || P(3))) Console.WriteLine(100); else Console.WriteLine(200);", FN); bool q = P(1); if (q) { q = P(2); if (!q) q = P(3); } line_i(q ? 100 : 200); expect_end(); });
  Reg("C10", "if_not", [] { prog("if (!(P(1) || P(2))) Console.WriteLine(100); Console.WriteLine(200);", FN); bool q = P(1); if (!q) q = P(2); if (!q) line_i(100); line_i(200); expect_end(); });
  Reg("C10", "while_sc", [] { prog("int i = 1; while (i < 4 && P(i)) i++; Console.WriteLine(i);", FN); int i = 1; while (i < 4 && P(i)) i++; line_i(i); expect_end(); });
  Reg("C10", "assign_sc", [] { prog("bool a = P(1) || P(2); bool b = a && P(3); bool c = !a || b; Console.WriteLine(a); Console.WriteLine(b); Console.WriteLine(c);", FN); bool a = P(1); if (!a) a = P(2); bool b = a; if (b) b = P(3); line_v(a); line_v(b); line_v(!a || b); expect_end(); });
  Reg("C10", "return_sc", [] { prog("Console.WriteLine(G(1));", S(FN) + "static bool G(int k) { return P(k) && P(k + 1) || P(k + 2); }"); bool a = P(1); if (a) a = P(2); if (!a) a = P(3); line_v(a); expect_end(); });
  Reg("C10", "arg_sc", [] { prog("G(P(1) && P(2), P(3) || P(4));", S(FN) + "static void G(bool a, bool b) { Console.WriteLine(a); Console.WriteLine(b); }"); bool a = P(1); if (a) a = P(2); bool b = P(3); if (!b) b = P(4); line_v(a); line_v(b); expect_end(); });
  Reg("C10", "null_guard", [] { prog("C o = Verif.Verif_Bool(0) ? new C() : null; if (o != null && o.v == 5) Console.WriteLine(1); else Console.WriteLine(2); Console.WriteLine(o == null || o.v == 5);", "", "class C { public int v; public C() { v = Verif.Verif_I32(1); } }");
    bool n = in<bool>(0); bool q = n && in<i32>(1) == 5; line_i(q ? 1 : 2); line_v(!n || in<i32>(1) == 5); expect_end(); });
  Reg("C10", "index_order", [] { prog("int[] a = new int[4]; a[1] = F(2); Console.WriteLine(a[I(1)] + F(3));", S(FN) + "static int I(int k) { Console.WriteLine(k); return k; }"); u32 v = F(2); line_i(1); u32 w = F(3); line_v((i32)(v + w)); expect_end(); });
  Reg("C10", "receiver_order", [] { prog("Console.WriteLine(M().G(F(2)));", S(FN) + "static C M() { Console.WriteLine(9); return new C(); }", "class C { public int G(int x) { return x; } }"); line_i(9); i32 v = F(2); line_v(v); expect_end(); });
  Reg("C10", "new_args_order", [] { prog("C c = new C(F(1), F(2)); Console.WriteLine(c.a); Console.WriteLine(c.b);", FN, "class C { public int a; public int b; public C(int x, int y) { a = x; b = y; } }"); i32 x = F(1), y = F(2); line_v(x); line_v(y); expect_end(); });
  Reg("C10", "array_init_order", [] { prog("int[] a = new int[] { F(1), F(2), F(3) }; Console.WriteLine(a[0]); Console.WriteLine(a[2]);", FN); i32 x = F(1); F(2); i32 y = F(3); line_v(x); line_v(y); expect_end(); });
  Reg("C10", "incr_in_expr", [] { prog("int i = Verif.Verif_I32(0); int a = i++ + i++; int b = ++i - i--; Console.WriteLine(a); Console.WriteLine(b); Console.WriteLine(i);"); u32 i = in<i32>(0); u32 a = i; i++; a += i; i++; ++i; u32 b = i - i; i--; line_v((i32)a); line_v((i32)b); line_v((i32)i); expect_end(); });
}
static void CASE_ASSIGN() {
  Reg("C09", "assign_right", [] { prog("int a; int b; int c; a = b = c = Verif.Verif_I32(0); Console.WriteLine(a); Console.WriteLine(b); Console.WriteLine(c); a = b + (c = 5); Console.WriteLine(a); Console.WriteLine(c);");
    i32 v = in<i32>(0); line_v(v); line_v(v); line_v(v); line_v((i32)((u32)v + 5)); line_i(5); expect_end(); });
  Reg("C09", "assign_compound", [] { prog("int a = Verif.Verif_I32(0); int b = Verif.Verif_I32(1); a += b * 2 - 1; b -= a == b ? 1 : 2; Console.WriteLine(a); Console.WriteLine(b);");
    u32 a = in<i32>(0), b = in<i32>(1); a += b * 2 - 1; b -= a == b ? 1 : 2; line_v((i32)a); line_v((i32)b); expect_end(); });
  Reg("C09", "cast", [] { prog("int a = Verif.Verif_I32(0); int b = Verif.Verif_I32(1); Console.WriteLine((byte)a + b); Console.WriteLine((byte)(a + b)); Console.WriteLine((long)a * b); Console.WriteLine(-(sbyte)a); Console.WriteLine((short)(-a));");
    i32 a = in<i32>(0), b = in<i32>(1); line_v((i32)((u32)(u8)a + (u32)b)); line_v((u8)(a + (u32)b)); line_v((i64)a * b); line_v((i32)-(i8)a); line_v((i16)(0 - (u32)a)); expect_end(); });
  Reg("C09", "postfix", [] { prog("C c = new C(); c.v = Verif.Verif_I32(0); int[] a = new int[2]; a[1] = Verif.Verif_I32(1); Console.WriteLine(-c.v); Console.WriteLine(~a[1]); Console.WriteLine(c.G(1) * 2); Console.WriteLine(c.D().v + a[1]);", "", "class C { public int v; public int G(int k) { return v - k; } public C D() { return this; } }");
    u32 v = in<i32>(0), a = in<i32>(1); line_v((i32)(0 - v)); line_v((i32)~a); line_v((i32)((v - 1) * 2)); line_v((i32)(v + a)); expect_end(); });
}
} init; }
