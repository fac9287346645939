// C08 character and string literals, C29 lexical structure: characters of the source text are symbolic
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
int sc(int k) { return k < 8 ? k + 1 : k + 6; }
char s_(int k) { return (char)sc(k); }
u8 c_(int k) { return srcchar(sc(k)); }
S W(const S &e) { return "Console.WriteLine(" + e + ");\n"; }
void print_(u8 c) { symapi_assume((c >= 32) & (c < 127) & (c != '`')); }
void plain_s(u8 c) { symapi_assume((c >= 32) & (c < 127) & (c != '`') & (c != '"') & (c != '\\')); }
void plain_c(u8 c) { symapi_assume((c >= 32) & (c < 127) & (c != '`') & (c != '\'') & (c != '\\')); }
void no_quote(u8 c) { symapi_assume((c >= 32) & (c < 127) & (c != '`') & (c != '"')); }
void esc(u8 c) { symapi_assume((c == 'n') | (c == 'r') | (c == 't') | (c == 'b') | (c == 'a') | (c == '0') | (c == '\\') | (c == '"') | (c == '\'') | (c == 'v') | (c == 'f') | (c == '?')); }
void esc_nz(u8 c) { esc(c); symapi_assume(c != '0'); }
void in_comment(u8 c) { symapi_assume(((c >= 32) & (c < 127) & (c != '`')) | (c == '\t')); }
void in_mcomment(u8 c) { symapi_assume(((c >= 32) & (c < 127) & (c != '`')) | (c == '\t') | (c == '\n') | (c == '\r')); }
void blank(u8 c) { symapi_assume((c == ' ') | (c == '\t') | (c == '\n') | (c == '\r')); }
void few(u8 c) { symapi_assume((c == ' ') | (c == '\'') | (c == 'z') | (c == '/')); }
void letter(u8 c) { symapi_assume(((c >= 'a') & (c <= 'z'))); }
void letterU(u8 c) { symapi_assume(((c >= 'A') & (c <= 'Z'))); }
void wordch(u8 c) { symapi_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_')); }
void sa(int k, void (*f)(u8)) { src_assume(sc(k), f); }
u32 unesc(u8 c) { switch (c) { case 'n': return '\n'; case 'r': return '\r'; case 't': return '\t'; case 'b': return '\b'; case 'a': return '\a'; case '0': return 0; case 'v': return '\v'; case 'f': return '\f'; default: return c; } }
}
CASE(C08, char_plain) {
  sa(0, plain_c); S c = S("'") + s_(0) + "'";
  run_program(program(W(c) + W("(int)" + c) + "char x = " + c + "; Console.WriteLine((int)x); Console.WriteLine(x == (char)65); Console.WriteLine(" + c + " == 'a');"));
  u8 v = c_(0); expect_ch(v); expect_nl(); line_i(v); line_i(v); line_v(v == 65); line_v(v == 'a'); expect_end();
}
CASE(C08, char_escape) {
  sa(0, esc); S c = S("'\\") + s_(0) + "'";
  run_program(program(W("(int)" + c) + "char x = " + c + "; Console.WriteLine((int)x); int y = 7; Console.WriteLine(y);"));
  u32 v = unesc(c_(0)); line_i(v); line_i(v); line_i(7); expect_end();
}
CASE(C08, string_plain) {
  sa(0, plain_s); sa(1, few); sa(2, few);
  run_program(program(S("string s = \"") + s_(0) + "b" + s_(1) + "\"; Console.WriteLine(s); Console.WriteLine(\"x" + s_(2) + "\"); Console.WriteLine(s);"));
  for (int r = 0; r < 3; r++) { if (r == 1) { expect_ch('x'); expect_ch(c_(2)); } else { expect_ch(c_(0)); expect_ch('b'); expect_ch(c_(1)); } expect_nl(); }
  expect_end();
}
CASE(C08, string_escape) {
  sa(0, esc_nz); sa(1, few); sa(2, esc_nz);
  run_program(program(S("Console.WriteLine(\"a\\") + s_(0) + s_(1) + "\\" + s_(2) + "\"); Console.WriteLine(\"\\" + s_(0) + "\");"));
  expect_ch('a'); expect_ch(unesc(c_(0))); expect_ch(c_(1)); expect_ch(unesc(c_(2))); expect_nl(); expect_ch(unesc(c_(0))); expect_nl(); expect_end();
}
CASE(C08, string_verbatim) {
  sa(0, no_quote); sa(1, few);
  run_program(program(S("Console.WriteLine(@\"") + s_(0) + "\\n" + s_(1) + "\"); Console.WriteLine(@\"\");"));
  expect_ch(c_(0)); expect_text("\\n"); expect_ch(c_(1)); expect_nl(); expect_nl(); expect_end();
}
CASE(C08, string_verbatim_quote) {
  sa(0, no_quote); sa(1, few);
  run_program(program(S("Console.WriteLine(@\"") + s_(0) + "\"\"" + s_(1) + "\"); Console.WriteLine(@\"\"\"\"); Console.WriteLine(5);"));
  expect_ch(c_(0)); expect_ch('"'); expect_ch(c_(1)); expect_nl(); line("\""); line_i(5); expect_end();
}
CASE(C08, string_two) {      // two literals that differ in one character stay apart; equal ones are equal
  sa(0, plain_s); sa(1, few);
  run_program(program(S("Console.Write(\"ab") + s_(0) + "\"); Console.Write(\"ab" + s_(1) + "\"); Console.Write(\"ab\"); Console.WriteLine(\"\"); Show(\"ab" + s_(0) + "\");", "static void Show(string s) { Console.WriteLine(s); }\n"));
  expect_text("ab"); expect_ch(c_(0)); expect_text("ab"); expect_ch(c_(1)); line("ab"); expect_text("ab"); expect_ch(c_(0)); expect_nl(); expect_end();
}
CASE(C08, string_like_code) {   // quotes, comments and braces inside literals mean themselves
  sa(0, plain_s);
  run_program(program(S("Console.WriteLine(\"// \\\" /* ") + s_(0) + " ; } {\"); Console.WriteLine('\"'); Console.WriteLine('{'); Console.WriteLine(\"'\"); Console.WriteLine('/'); Console.WriteLine(\"*/\");"));
  expect_text("// \" /* "); expect_ch(c_(0)); line(" ; } {"); line("\""); line("{"); line("'"); line("/"); line("*/"); expect_end();
}
CASE(C08, char_switch) {
  sa(0, plain_c);
  run_program(program(S("char c = '") + s_(0) + "'; switch (c) { case 'a': Console.WriteLine(1); break; case ';': Console.WriteLine(2); break; case '\\'': Console.WriteLine(3); break; case ' ': Console.WriteLine(4); break; default: Console.WriteLine(5); break; }"));
  u8 c = c_(0); line_i(c == 'a' ? 1 : c == ';' ? 2 : c == ' ' ? 4 : 5); expect_end();
}
// ---- C29 -------------------------------------------------------------------------------------------------
CASE(C29, line_comment) {
  for (int i = 0; i < 3; i++) sa(i, in_comment);
  run_program(program(S("int x = 1; //") + s_(0) + s_(1) + s_(2) + "\nx = x + 1; // */ /* \" ' \nConsole.WriteLine(x);//"));
  (void)c_(0); line_i(2); expect_end();
}
CASE(C29, block_comment) {
  for (int i = 0; i < 3; i++) sa(i, in_mcomment);
  u8 a = c_(0), b = c_(1), c = c_(2); symapi_assume(!((a == '*') & (b == '/')) & !((b == '*') & (c == '/')));
  run_program(program(S("int x = 1;/*") + s_(0) + s_(1) + s_(2) + "*/x = x + 1; /**/ Console/* a */./* // */WriteLine(/***/x/*\n\n*/);"));
  line_i(2); expect_end();
}
CASE(C29, block_comment_end) {       // the first */ ends it
  sa(0, in_comment); sa(1, in_comment); symapi_assume(!((c_(0) == '*') & (c_(1) == '/')));
  run_program(program(S("int x = 1;/*") + s_(0) + s_(1) + "*/ x = x + 1; /* */ Console.WriteLine(x); /* x = 5; */ Console.WriteLine(x); // */"));
  line_i(2); line_i(2); expect_end();
}
CASE(C29, whitespace) {
  for (int i = 0; i < 4; i++) sa(i, blank);
  S a(1, s_(0)), b(1, s_(1)), c(1, s_(2)), d(1, s_(3));
  run_program(program("int" + a + "x" + b + "=" + c + "5" + d + ";" + a + b + "if(x>3)" + a + "Console" + b + "." + c + "WriteLine" + d + "(" + a + "x" + b + "+" + c + "1" + d + ")" + a + ";else" + b + "Console.WriteLine(0);"));
  (void)c_(0); line_i(6); expect_end();
}
CASE(C29, no_whitespace) {
  run_program(program("int x=" + S("Verif.Verif_I32(0);int y=x-1;int z=x- -1;bool b=x<y&&!(y>z)||x==z;if(b){Console.WriteLine(x);}else{Console.WriteLine(y+z*2);}for(int i=0;i<2;i++)Console.WriteLine(x+i);")));
  i32 x = in<i32>(0), y = (i32)((u32)x - 1), z = (i32)((u32)x + 1); bool b = (x < y && !(y > z)) || x == z;
  line_i(b ? x : (i32)((u32)y + (u32)z * 2)); line_i(x); line_i((i32)((u32)x + 1)); expect_end();
}
CASE(C29, name_one_letter) {         // a name means the variable with exactly those characters
  sa(0, letter);
  run_program(program(S("int a = 1; int b = 2; int z = 3; int A = 4; Console.WriteLine(") + s_(0) + ");"));
  u8 c = c_(0);
  if (c == 'a' || c == 'b' || c == 'z') { line_i(c == 'a' ? 1 : c == 'b' ? 2 : 3); expect_end(); }
  else symapi_assert(output_contains("error"), "an undefined name is reported");
}

namespace {
// two symbolic operator characters between two operands
bool op2(u8 a, u8 b, i32 x, i32 y, i64 &r, bool &isb) {
  isb = false;
  auto U = [](u32 v) { return (i64)(i32)v; };
  u32 ux = (u32)x, uy = (u32)y;
  if (b == ' ' || b == '-') {
    if (b == '-') { uy = 0u - uy; y = (i32)uy; }
    switch (a) { case '+': r = U(ux + uy); return true; case '*': r = U(ux * uy); return true; case '<': isb = true; r = x < y; return true; case '>': isb = true; r = x > y; return true;
      case '&': r = U(ux & uy); return true; case '|': r = U(ux | uy); return true; case '^': r = U(ux ^ uy); return true; case '=': r = y; return true;
      case '-': if (b == ' ') { r = U(ux - uy); return true; } return false; }
    return false;
  }
  if (b == '=') switch (a) {
    case '=': isb = true; r = x == y; return true; case '!': isb = true; r = x != y; return true; case '<': isb = true; r = x <= y; return true; case '>': isb = true; r = x >= y; return true;
    case '+': r = U(ux + uy); return true; case '-': r = U(ux - uy); return true; case '*': r = U(ux * uy); return true; case '&': r = U(ux & uy); return true; case '|': r = U(ux | uy); return true; case '^': r = U(ux ^ uy); return true; }
  if (a == '<' && b == '<') { r = U(ux << y); return true; }
  if (a == '>' && b == '>') { r = x >> y; return true; }
  return false;
}
void opchar(u8 c) { symapi_assume((c == '+') | (c == '-') | (c == '*') | (c == '<') | (c == '>') | (c == '=') | (c == '!') | (c == '&') | (c == '|') | (c == '^')); }
void opchar2(u8 c) { symapi_assume((c == ' ') | (c == '-') | (c == '<') | (c == '>') | (c == '=')); }
void rejected(const char *what) { symapi_assert(output_contains("error"), what); symapi_assert(!output_contains("RAN"), "a rejected program does not run"); }
}
CASE(C29, operator_chars) {          // the longest operator is taken, and each means itself
  sa(0, opchar); sa(1, opchar2); i64 r = 0; bool b = false; i32 y = 3;
  { u8 a = c_(0), c = c_(1); symapi_assume(op2(a, c, 7, y, r, b)); }
  run_program(program(S("int x = Verif.Verif_I32(0); int y = 3; Console.WriteLine(x") + s_(0) + s_(1) + "y);"));
  op2(c_(0), c_(1), in<i32>(0), y, r, b); if (b) line_v((bool)r); else line_i(r); expect_end();
}
CASE(C29, name_in_the_middle) {
  sa(0, wordch);
  run_program(program(S("int a") + s_(0) + "b = Verif.Verif_I32(0); int axxb = 5; a" + s_(0) + "b = a" + s_(0) + "b + 1; Console.WriteLine(a" + s_(0) + "b); Console.WriteLine(axxb);"));
  (void)c_(0); line_i((i32)((u32)in<i32>(0) + 1)); line_i(5); expect_end();
}
CASE(C29, name_two_variables) {      // names that differ in one character are two variables
  sa(0, wordch); u8 c = c_(0); symapi_assume(c != 'q');
  run_program(program(S("int vq = 1; int v") + s_(0) + " = 2; vq = vq + 10; Console.WriteLine(vq); Console.WriteLine(v" + s_(0) + ");"));
  line_i(11); line_i(2); expect_end();
}
CASE(C29, name_case) {
  sa(0, letter);
  run_program(program(S("int ") + s_(0) + "1 = 1; int A1 = 2; int B1 = 3; Console.WriteLine(" + s_(0) + "1 + A1 * 10 + B1 * 100);"));
  (void)c_(0); line_i(321); expect_end();
}
CASE(C29, name_near_keyword) {       // a name that starts like a keyword is a name
  sa(0, wordch);
  run_program(program(S("int int") + s_(0) + " = 4; int for" + s_(0) + "x = 5; bool true" + s_(0) + "s = false; Console.WriteLine(int" + s_(0) + " + for" + s_(0) + "x); if (true" + s_(0) + "s) Console.WriteLine(0); return" + s_(0) + "x();", S("static void return") + s_(0) + "x() { Console.WriteLine(9); }\n"));
  (void)c_(0); line_i(9); line_i(9); expect_end();
}
CASE(C29, name_method) {
  sa(0, letterU);
  run_program(program(S("Console.WriteLine(F") + s_(0) + "(1)); Console.WriteLine(new C" + s_(0) + "().v);", S("static int F") + s_(0) + "(int x) { return x + 40; }\nstatic int F(int x) { return x; }\nstatic int FAB(int x) { return 0 - x; }\n",
    S("class C") + s_(0) + " { public int v; public C" + s_(0) + "() { v = 8; } }\nclass C { public int v; public C() { v = 9; } }\n"));
  (void)c_(0); line_i(41); line_i(8); expect_end();
}
CASE(C29, name_field) {
  sa(0, letter);
  run_program(program(S("C c = new C(); c.a = 1; c.m = 2; c.z = 3; c.am = 4; Console.WriteLine(c.") + s_(0) + ");", "", "class C { public int a; public int m; public int z; public int am; }\n"));
  u8 c = c_(0); if (c == 'a' || c == 'm' || c == 'z') { line_i(c == 'a' ? 1 : c == 'm' ? 2 : 3); expect_end(); } else rejected("an undefined field is reported");
}
CASE(C29, number_then_name) {        // tokens need no blanks between an operator and its operands
  run_program(program("int x=1+2*3-4;int y=-x+ +x- -x;Console.WriteLine(x);Console.WriteLine(y);Console.WriteLine(1<2);Console.WriteLine(x>=3&&y<=3?1:2);"));
  line_i(3); line_i(3); line_v(true); line_i(1); expect_end();
}
// ---- C30 rejection -------------------------------------------------------------------------------------------
namespace {
void digit_(u8 c) { symapi_assume((u8)(c - '0') <= 9); }
struct TV { const char *t, *pre, *suf; int rank, sgn; };      // a value of each type, with a symbolic digit
const TV tv[] = {{"sbyte", "(sbyte)1", "", 1, 1}, {"byte", "(byte)1", "", 1, 0}, {"short", "(short)1", "", 2, 1}, {"ushort", "(ushort)1", "", 2, 0}, {"int", "1", "", 3, 1}, {"uint", "1", "U", 3, 0},
  {"long", "1", "L", 4, 1}, {"ulong", "1", "UL", 4, 0}, {"float", "1", ".5f", 5, 2}, {"double", "1", ".5", 6, 2}, {"bool", "x > 1", "", 0, 3}, {"string", "\"1", "\"", 0, 4}, {"C", "", "", 0, 5}};
S val(const TV &v, int k) { return v.sgn == 5 ? S("new C(1") + s_(k) + ")" : S(v.pre) + s_(k) + v.suf; }
void reject(const S &name, const S &b, const S &m = "", const S &t = "") {
  Reg("C30", name, [=] { sa(0, digit_); (void)c_(0); run_program(program("Console.WriteLine(\"RAN\"); int x = 1" + S(1, s_(0)) + ";\n" + b, m, "class C { public C(int x) { } }\n" + t)); rejected("the program is rejected"); });
}
void accept(const S &name, const S &b, const S &m = "", const S &t = "") {
  Reg("C30", name, [=] { sa(0, digit_); run_program(program("Console.WriteLine(\"RAN\"); int x = 1" + S(1, s_(0)) + ";\n" + b + "Console.WriteLine(x);", m, "class C { public C(int x) { } }\n" + t)); line("RAN"); line_i(10 + c_(0) - '0'); expect_end(); });
}
struct Init30 { Init30() {
  for (auto &f : tv) for (auto &t : tv) {
    S n = S(f.t) + "_" + t.t;
    bool num = f.sgn < 3 && t.sgn < 3;
    bool same = f.t == t.t, narrowing = num && !same && (f.rank > t.rank || (f.sgn == 2 && t.sgn < 2)), other = !same && !num;
    if (narrowing || other) {
      reject("init_" + n, S(t.t) + " y = " + val(f, 0) + ";");
      reject("arg_" + n, "F(" + val(f, 0) + ");", S("static void F(") + t.t + " y) { }\n");
      reject("ret_" + n, "F(1);", S("static ") + t.t + " F(int x) { return " + val(f, 0) + "; }\n");
    }
    if (same) { accept("init_ok_" + n, S(t.t) + " y = " + val(f, 0) + ";\n"); accept("call_ok_" + n, S(t.t) + " y = F(" + val(f, 0) + ");\n", S("static ") + t.t + " F(" + t.t + " y) { return y; }\n"); }
  }
  reject("undef_var", S("Console.WriteLine(y") + s_(0) + ");"); reject("undef_method", S("F") + s_(0) + "();"); reject("undef_type", S("D") + s_(0) + " d = null;"); reject("undef_member", S("C c = new C(1); c.f") + s_(0) + " = 1;");
  reject("undef_static", S("Console.WriteLine(C.f") + s_(0) + ");"); reject("args_few", S("F(1") + s_(0) + ");", "static void F(int a, int b) { }\n"); reject("args_many", S("F(1, 2, 1") + s_(0) + ");", "static void F(int a, int b) { }\n");
  reject("ctor_args", S("C c = new C(1, 1") + s_(0) + ");"); reject("ctor_type", "C c = new C(\"a\");"); reject("ref_value", S("F(1") + s_(0) + ");", "static void F(ref int x) { x = 1; }\n"); reject("ref_missing", "F(x);", "static void F(ref int x) { x = 1; }\n");
  reject("void_value", "int y = F();", "static void F() { }\n"); reject("return_value_void", S("return 1") + s_(0) + ";"); reject("return_nothing", "F();", "static int F() { return; }\n");
  reject("no_return", "F();", "static int F() { }\n"); reject("no_return_if", "F(x);", S("static int F(int x) { if (x > 1") + s_(0) + ") return 1; }\n"); reject("no_return_else", "F(x);", S("static int F(int x) { if (x > 1") + s_(0) + ") return 1; else x = 2; }\n");
  accept("return_if_else", "x = x + F(x);\n", S("static int F(int x) { if (x > 1") + s_(0) + ") return 1; else return 0; }\n");
  reject("private_field", "D d = new D(); d.f = 1;", "", S("class D { private int f; public int f") + s_(0) + "; }\n"); reject("private_method", "D d = new D(); d.F();", "", S("class D { private void F() { } public void F") + s_(0) + "() { } }\n");
  reject("private_static", "D.F();", "", S("class D { private static void F() { } public static void F") + s_(0) + "() { } }\n"); reject("protected_field", "D d = new D(); d.f = 1;", "", S("class D { protected int f; public int f") + s_(0) + "; }\n");
  reject("private_read", "D d = new D(); Console.WriteLine(d.f);", "", S("class D { private int f; public int f") + s_(0) + "; }\n");
  accept("private_own", "D d = new D(); d.Set(); \n", "", S("class D { private int f; public int f") + s_(0) + "; public void Set() { f = 1; G(); } private void G() { f = f + 1; } }\n");
  reject("dup_type", "", "", S("class D") + s_(0) + " { }\nclass D" + s_(0) + " { }\n"); reject("dup_method", "", S("static void F") + s_(0) + "() { }\nstatic void F" + s_(0) + "() { }\n");
  accept("overloads", "", S("static void F") + s_(0) + "() { }\nstatic void F" + s_(0) + "(int x) { }\n"); reject("enum_member", "E e = E.B;", "", S("enum E { A, B") + s_(0) + " }\n");
  reject("scope", S("{ int z") + s_(0) + " = 1; } z" + s_(0) + " = 2;"); reject("scope_for", S("for (int i") + s_(0) + " = 0; i" + s_(0) + " < 2; i" + s_(0) + "++) { } Console.WriteLine(i" + s_(0) + ");"); reject("unrelated_class", "C c = new D();", "", S("class D { public int f") + s_(0) + "; }\n");
  reject("downcast_implicit", "A a = new B(); B b = a;", "", S("class A { }\nclass B : A { public int f") + s_(0) + "; }\n"); accept("upcast_implicit", "A a = new B(); I i = new B();\n", "", S("interface I { }\nclass A { }\nclass B : A, I { public int f") + s_(0) + "; }\n");
  reject("abstract_in_concrete", "", "", S("class A { public abstract void F") + s_(0) + "(); }\n"); reject("missing_semicolon", S("int y = 1") + s_(0) + " int z = 2;"); reject("missing_paren", S("Console.WriteLine((1") + s_(0) + ");");
  reject("array_type", "int[] a = new long[1" + S(1, s_(0)) + "];"); reject("generic_arity", S("G<int, int> g = null; int y = 1") + s_(0) + ";", "", "class G<T> { public T v; }\n");
} } init30;
}
