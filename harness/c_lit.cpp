// C07 numeric literals, C06 constant folding: the digits of the source text are symbolic
#include "ty.h"
using namespace h;
typedef std::string S;
static void dig(u8 c) { symapi_assume((u8)(c - '0') <= 9); }
static void bin(u8 c) { symapi_assume((u8)(c - '0') <= 1); }
static void oct(u8 c) { symapi_assume((u8)(c - '0') <= 7); }
static void hexd(u8 c) { symapi_assume(((u8)(c - '0') <= 9) | ((u8)(c - 'a') <= 5)); }
static void nz(u8 c) { symapi_assume((u8)(c - '1') <= 8); }
// source character number k, k = 0..: bytes 1..8, 14..31
static int sc(int k) { return k < 8 ? k + 1 : k + 6; }
static S digits(int n, int from, void (*first)(u8), void (*rest)(u8)) {
  S r; for (int i = 0; i < n; i++) { int k = sc(from + i); src_assume(k, i ? rest : first); r += (char)k; } return r;
}
static u64 val(int n, int from, int radix) {
  u64 v = 0; for (int i = 0; i < n; i++) { u8 c = srcchar(sc(from + i)); u64 d = radix == 16 ? (c > '9' ? c - 'a' + 10 : c - '0') : c - '0'; v = v * radix + d; } return v;
}
static const char *KIND = "static void K(int v) { Console.WriteLine(1); Console.WriteLine(v); }\n static void K(uint v) { Console.WriteLine(2); Console.WriteLine(v); }\n"
  "static void K(long v) { Console.WriteLine(3); Console.WriteLine(v); }\n static void K(ulong v) { Console.WriteLine(4); Console.WriteLine(v); }\n";

// a numeric literal as text: ? is a symbolic digit of the radix.  Its value is computed here, digit by digit.
static S pat(const S &t, int radix, S *out = nullptr) {
  S r; int k = 0;
  for (char c : t) if (c == '?') { int x = sc(k++); src_assume(x, radix == 16 ? hexd : radix == 8 ? oct : radix == 2 ? bin : dig); r += (char)x; } else r += c;
  return r;
}
static u64 pval(const S &t, int radix) {
  u64 v = 0; int k = 0;
  for (char c : t) {
    if (c == '\'') continue;
    u64 d; u8 b = c == '?' ? srcchar(sc(k++)) : (u8)c;
    if (radix == 16) d = (b & 15) + (b >> 6) * 9; else d = (u64)(b - '0');
    v = v * radix + d;
  }
  return v;
}
static void literal(const char *prop, const S &name, const S &pre, const S &digs, const S &suf, int radix, int (*kind)(u64), const char *tier = "quick") {
  Reg(prop, name, [=] {
    run_program(program("K(" + pre + pat(digs, radix) + suf + ");", KIND));
    u64 v = pval(digs, radix); int k = kind(v);
    line_i(k); line_u(v); expect_end();
  }, tier);
}
static int kdec(u64 v) { return v <= 0x7fffffffu ? 1 : v <= 0x7fffffffffffffffull ? 3 : 4; }
static int kbin(u64 v) { return v <= 0x7fffffffu ? 1 : v <= 0xffffffffu ? 2 : v <= 0x7fffffffffffffffull ? 3 : 4; }
static int khex(u64 v) { return v <= 0xffffffffu ? 2 : 4; }
static int kL(u64 v) { return v <= 0x7fffffffffffffffull ? 3 : 4; }
static int kU(u64 v) { return v <= 0xffffffffu ? 2 : 4; }
static int kUL(u64 v) { return 4; }

// ---- constant folding: each constant expression, and the same with values unknown to the compiler --------
struct Lit { const char *ty, *pat, *suf, *tag; u64 max; };       // ?? are free digits
static const Lit lits[] = {
  {"int", "1??", "", "i32", 0}, {"int", "21474836??", "", "i32max", 2147483647u}, {"uint", "1??", "U", "u32", 0}, {"uint", "42949672??", "U", "u32max", 4294967295u},
  {"long", "1??", "L", "i64", 0}, {"long", "92233720368547758??", "L", "i64max", 9223372036854775807ull}, {"ulong", "1??", "UL", "u64", 0}, {"ulong", "184467440737095516??", "UL", "u64max", ~0ull},
  {"double", "1?.5", "", "f64", 0}, {"float", "1?.5", "f", "f32", 0}};
static const Lit small[] = {{"int", "1?5", "", "i32", 0}, {"int", "214748364?", "", "i32max", 2147483647u}, {"uint", "1?5", "U", "u32", 0}, {"uint", "429496729?", "U", "u32max", 4294967295u},
  {"long", "1?5", "L", "i64", 0}, {"long", "922337203685477580?", "L", "i64max", 9223372036854775807ull}, {"ulong", "1?5", "UL", "u64", 0}, {"ulong", "1844674407370955161?", "UL", "u64max", ~0ull},
  {"double", "1?.5", "", "f64", 0}, {"float", "1?.5", "f", "f32", 0}};
static bool sgn(const Lit &l) { return l.ty[0] != 'u'; }
static S lit(const Lit &l, int from) {
  S r; int k = from; for (const char *p = l.pat; *p; p++) if (*p == '?') { int x = sc(k++); src_assume(x, dig); r += (char)x; } else r += *p;
  return r + l.suf;
}
static void lassume(const Lit &l, int from) {
  if (!l.max) return;
  if (std::count(l.pat, l.pat + strlen(l.pat), '?') == 1) { symapi_assume(srcchar(sc(from)) - '0' <= (int)(l.max % 10)); return; }
  int d = (srcchar(sc(from)) - '0') * 10 + (srcchar(sc(from + 1)) - '0'); symapi_assume(d <= (int)(l.max % 100));
}
static S ids() { S r; for (auto t : {"int", "uint", "long", "ulong", "double", "float", "bool"}) r += S("static ") + t + " Id(" + t + " x) { return x; }\n"; return r; }
static bool fp(const Lit &l) { return !strcmp(l.ty, "double") || !strcmp(l.ty, "float"); }
static void fold2(const Lit &a, const Lit &b, const S &name, std::initializer_list<const char *> ops, const char *tier = "quick", const S &pre = "", const S &pre2 = "") {
  std::vector<S> o(ops.begin(), ops.end());
  Reg("C06", name + "_" + a.tag + "_" + b.tag, [=] {
    S x = lit(a, 0), y = lit(b, 2), p = S(a.ty) + " a = Id(" + x + "); " + b.ty + " b = Id(" + y + ");\n";
    lassume(a, 0); lassume(b, 2);
    for (auto &op : o) p += "Console.WriteLine(" + pre + x + " " + op + " " + pre2 + y + ");\nConsole.WriteLine(" + pre + "a " + op + " " + pre2 + "b);\n";
    optimise(1); run_program(program(p, ids()));
    for (auto &op : o) same_lines(("constant " + op).c_str());
    expect_end();
  }, tier);
}
static void fold1(const Lit &a, const S &name, std::initializer_list<const char *> exprs) {
  std::vector<S> o(exprs.begin(), exprs.end());
  Reg("C06", name + "_" + a.tag, [=] {
    S x = lit(a, 0), p = S(a.ty) + " a = Id(" + x + ");\n"; lassume(a, 0);
    for (auto &e : o) { S c = e, v = e; size_t i; while ((i = c.find('@')) != S::npos) { c.replace(i, 1, x); v.replace(v.find('@'), 1, "a"); }
      p += "Console.WriteLine(" + c + ");\nConsole.WriteLine(" + v + ");\n"; }
    optimise(1); run_program(program(p, ids()));
    for (auto &e : o) same_lines(("constant " + e).c_str());
    expect_end();
  });
}
static void floatlit(const S &name, const S &digs, const S &suf) {
  Reg("C07", name, [=] {
    run_program(program("Console.WriteLine(" + pat(digs, 10) + suf + ");"));
    size_t e = digs.find_first_of("eE"), p = digs.find('.'); S m = digs.substr(0, e); int frac = p == S::npos ? 0 : (int)m.size() - 1 - (int)p;
    if (p != S::npos) m.erase(p, 1);
    double v = (double)(i64)pval(m, 10), s = 1; int x = -frac + (e == S::npos ? 0 : atoi(digs.c_str() + e + 1));
    for (int i = 0; i < abs(x); i++) s *= 10;
    v = x < 0 ? v / s : v * s;
    if (suf == "f") expect_near32((float)v, (float)s * 1e-4f); else expect_near64(v, v * 1e-14);
    expect_nl(); expect_end();
  });
}
namespace { struct Init { Init() {
  for (auto &a : lits) {
    for (auto &b : lits) {
      fold2(a, b, "arith2", {"+", "-", "*", "/"}, "thorough"); fold2(a, b, "cmp2", {"<", "<=", ">", ">=", "==", "!="}, "thorough");
      if (!fp(a) && !fp(b)) fold2(a, b, "int2", {"%", "&", "|", "^"}, "thorough");
    }
    if (!fp(a)) fold1(a, "unary_int", {"~@", "+@", "@ << 3", "@ >> 5", "(byte)@", "(sbyte)@", "(short)@", "(ushort)@", "(int)@", "(uint)@", "(long)@", "(ulong)@"});
    if (strcmp(a.ty, "ulong")) fold1(a, "neg", {"-@", "-(-@)", "@ - @ - @"});
    fold1(a, "tofp", {"(float)@", "(double)@"});
    fold1(a, "cond", {"@ > 150 ? @ : @ + @", "@ > 150 && @ < 170", "@ > 180 || @ < 120", "!(@ > 120)", "(@ > 130) == (@ < 160)"});
  }
  for (auto &a : small) for (auto &b : small) {
    bool f = fp(a) || fp(b), mx = a.max || b.max; const char *t = f && mx ? "thorough" : "quick";
    fold2(a, b, f ? "arithx" : "arith", {"+", "-", "*", "/"}, f ? "thorough" : "quick"); fold2(a, b, "cmp", {"<", "<=", ">", ">=", "==", "!="}, t);
    if (f && !mx) { Lit c = a, d = b; c.pat = fp(a) ? "13.5" : "13"; d.pat = fp(b) ? "13.5" : "13"; fold2(a, d, "arith1", {"+", "-", "*", "/"}, !strcmp(a.tag, "f64") && strcmp(b.tag, "f64") ? "thorough" : "quick"); fold2(c, b, "arithr", {"+", "-", "*", "/"}, fp(b) ? "thorough" : "quick"); }
    if (!f) fold2(a, b, "int", {"%", "&", "|", "^"});
    if (!f && sgn(a) && sgn(b)) {
      fold2(a, b, "neg1", {"/", "%", "*", "<", ">="}, t, "-"); fold2(a, b, "neg2", {"/", "%", "-", "<=", ">"}, t, "", "-"); fold2(a, b, "neg3", {"/", "%", "&", "<", "=="}, t, "-", "-"); }
    if (!f && !strcmp(b.tag, "i32")) { Lit c = b; c.pat = "?"; c.tag = "count"; fold2(a, c, "shift", {"<<", ">>"}); if (sgn(a)) fold2(a, c, "nshift", {"<<", ">>"}, t, "-"); c.pat = "2?"; fold2(a, c, "shift2", {"<<", ">>"}); }
  }
  floatlit("float_1", "?.?", ""); floatlit("float_2", "1?.?5", ""); floatlit("float_3", "?0?.25", ""); floatlit("float_4", "0.00?", ""); floatlit("float_5", "123456.??", "");
  floatlit("float_f1", "?.5", "f"); floatlit("float_f2", "1?.?", "f"); floatlit("float_f3", "1??", "f");
  floatlit("float_e1", "1.?e+2", ""); floatlit("float_e2", "2?5E-3", ""); floatlit("float_e3", "0.0?5e-2", ""); floatlit("float_e4", "0.0?5e+3", ""); floatlit("float_e5", "12?.5e+1", "");

  for (int n = 1; n <= 5; n++) Reg("C07", "dec_" + std::to_string(n), [=] {
    S d = digits(n, 0, nz, dig); run_program(program("K(" + d + ");", KIND));
    i32 v = 0; for (int i = 0; i < n; i++) v = v * 10 + (i32)(srcchar(sc(i)) - '0');
    line_i(1); line_i(v); expect_end();
  });
  // every length, the last three digits and three digits at the front free
  for (int n = 4; n <= 19; n++) { S d = S("1234567890123456789").substr(0, n);
    S e = d; for (int i = 0; i < 3; i++) e[n - 1 - i] = '?'; literal("C07", "dec_tail_" + std::to_string(n), "", e, "", 10, kdec);
    e = d; for (int i = 1; i < 4; i++) e[i] = '?'; literal("C07", "dec_head_" + std::to_string(n), "", e, "", 10, kdec); }
  const char *edge[] = {"214748364?", "21474836??", "429496729?", "922337203685477580?", "92233720368547758??", "1844674407370955160?", "214748364?0", "99999999?9"};
  for (auto e : edge) { S n = e; for (auto &c : n) if (c == '?') c = 'x'; literal("C07", "edge_" + n, "", e, "", 10, kdec); }
  literal("C07", "hex4", "0x", "????", "", 16, khex); literal("C07", "hex8_lo", "0x", "1234f???", "", 16, khex); literal("C07", "hex8_hi", "0x", "???81234", "", 16, khex);
  literal("C07", "hex9", "0X", "1?????89a", "", 16, khex); literal("C07", "hex16", "0x", "??3456789ABCDE??", "", 16, khex);
  literal("C07", "oct3", "0", "???", "", 8, kbin); literal("C07", "oct10", "0", "1???123412?", "", 8, kbin); literal("C07", "oct11", "0", "?7777777???", "", 8, kbin); literal("C07", "oct12", "0", "12???1234???", "", 8, kbin);
  literal("C07", "bin8", "0b", "????????", "", 2, kbin); literal("C07", "bin32", "0B", "??1010101010101010101010101010??", "", 2, kbin); literal("C07", "bin33", "0b", "1?1010101010101010101010101010?0??", "", 2, kbin);
  literal("C07", "sep", "", "1'?3?'45?", "", 10, kdec);
  literal("C07", "suffix_L", "", "1????", "L", 10, kL); literal("C07", "suffix_l", "", "1????", "l", 10, kL); literal("C07", "suffix_U", "", "429496????", "U", 10, kU);
  literal("C07", "suffix_UL", "", "1????", "UL", 10, kUL); literal("C07", "suffix_ul", "", "18446744073709550???", "ul", 10, kUL); literal("C07", "suffix_Lbig", "", "922337203685477????", "L", 10, kL);
  literal("C07", "suffix_hexL", "0x", "f???", "L", 16, kUL);
} } init; }
