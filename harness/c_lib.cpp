// C27 System.Math, C28 console output
#include "ty.h"
#include <math.h>
using namespace h;
typedef std::string S;
namespace {
S W(const S &e) { return "Console.WriteLine(" + e + ");\n"; }
template<typename T> void math_t() {
  S t = Ty<T>::tag();
  Reg("C27", "maxmin_" + t, [] {
    run_program(program(Ty<T>::dcl("a", 0) + Ty<T>::dcl("b", 1) + W("Math.Max(a, b)") + W("Math.Min(a, b)")));
    T a = in<T>(0), b = in<T>(1);
    if constexpr (std::is_floating_point_v<T>) { symapi_assume((a == a) & (b == b) & (a != b)); }
    line_v(a > b ? a : b); line_v(a < b ? a : b); expect_end();
  });
  if constexpr (std::is_signed_v<T>) Reg("C27", "abssign_" + t, [] {
    run_program(program(Ty<T>::dcl("a", 0) + W("Math.Abs(a)") + W("Math.Sign(a)")));
    T a = in<T>(0);
    if constexpr (std::is_floating_point_v<T>) { symapi_assume((a == a) & (a != 0)); line_v((T)fabs(a)); }
    else line_v((T)(a < 0 ? (T)(0 - (std::make_unsigned_t<T>)a) : a));
    line_i(a > 0 ? 1 : a < 0 ? -1 : 0); expect_end();
  });
}
template<typename F> void fn1(const S &name, double lo, double hi, F f) {
  Reg("C27", "fn_" + name, [=] {
    double x = in<double>(0), y = in<double>(1); symapi_assume((x > lo) & (x < hi)); symapi_assume((y > lo) & (y < hi));
    run_program(program(S("double x = Verif.Verif_F64(0); double y = Verif.Verif_F64(1);\n") + W("Math." + name + "(x)") + W("Math." + name + "(y)") + W("x") + W("Math." + name + "(x)")));
    double r = f(x); line_v(r); line_v(f(y)); line_v(x); line_v(r); expect_end();
  });
}
struct Init { Init() {
  each(Nums(), [](auto x) { math_t<decltype(x)>(); });
  fn1("Sin", .25, .75, [](double x) { return sin(x); }); fn1("Cos", .25, .75, [](double x) { return cos(x); }); fn1("Tan", .25, .75, [](double x) { return tan(x); });
  fn1("Asin", .25, .75, [](double x) { return asin(x); }); fn1("Acos", .25, .75, [](double x) { return acos(x); }); fn1("Atan", .25, .75, [](double x) { return atan(x); });
  fn1("Sinh", .25, .75, [](double x) { return sinh(x); }); fn1("Cosh", .25, .75, [](double x) { return cosh(x); }); fn1("Tanh", .25, .75, [](double x) { return tanh(x); });
  fn1("Asinh", .25, .75, [](double x) { return asinh(x); }); fn1("Acosh", 1.25, 1.75, [](double x) { return acosh(x); }); fn1("Atanh", .25, .75, [](double x) { return atanh(x); });
  fn1("Log", 1.25, 1.75, [](double x) { return log(x); }); fn1("Log10", 1.25, 1.75, [](double x) { return log10(x); }); fn1("Sqrt", 2, 1e300, [](double x) { return sqrt(x); });
} } init;
}
CASE(C27, fn_Pow) {
  double x = in<double>(0), y = in<double>(1); symapi_assume((x > 1.25) & (x < 2)); symapi_assume((y > 2.25) & (y < 3));
  run_program(program("double x = Verif.Verif_F64(0); double y = Verif.Verif_F64(1);\nConsole.WriteLine(Math.Pow(x, y));Console.WriteLine(Math.Pow(y, x));"));
  line_v(pow(x, y)); line_v(pow(y, x)); expect_end();
}
// nested calls
CASE(C27, clamp) {
  run_program(program("int a = Verif.Verif_I32(0); int l = Verif.Verif_I32(1); int h = Verif.Verif_I32(2);\n"
    "Console.WriteLine(Math.Max(l, Math.Min(h, a))); Console.WriteLine(Math.Abs(Math.Min(a, 0))); Console.WriteLine(Math.Sign(Math.Max(a, l)) * Math.Abs(Math.Max(a, l)));"));
  i32 a = in<i32>(0), l = in<i32>(1), u = in<i32>(2), m = u < a ? u : a;
  line_i(l > m ? l : m); line_i(a < 0 ? (i32)(0u - (u32)a) : 0); line_i(a > l ? a : l); expect_end();
}
// ---- C28 ------------------------------------------------------------------------------------------------
namespace {
template<typename T> void console() {
  S t = Ty<T>::tag();
  Reg("C28", "write_" + t, [] {
    S v = S(Ty<T>::ver()) + "(0)", u = S(Ty<T>::ver()) + "(1)";
    run_program(program(S(Ty<T>::name()) + " a = " + v + "; " + Ty<T>::name() + " b = " + u + ";\nConsole.Write(a); Console.Write(\"|\"); Console.WriteLine(b); Console.Write(b); Console.Write(' '); Console.Write(a); Console.WriteLine();\n"
      "Console.WriteLine(a); P(a); Console.WriteLine(\"end\");", S("static void P(") + Ty<T>::name() + " x) { Console.Write(\"<\"); Console.Write(x); Console.WriteLine(\">\"); }\n"));
    T a = in<T>(0), b = in<T>(1);
    expect_v(a); expect_text("|"); line_v(b); expect_v(b); expect_text(" "); expect_v(a); expect_nl(); line_v(a); expect_text("<"); expect_v(a); line(">"); line("end"); expect_end();
  });
}
struct Init28 { Init28() { each(List<i8, u8, i16, u16, i32, u32, i64, u64, float, double, bool, char16_t>(), [](auto x) { console<decltype(x)>(); }); } } init28;
}
CASE(C28, text) {
  run_program(program("string s = null; string t = \"abc\"; string u = \"\"; bool b = Verif.Verif_Bool(0); if (b) { string w = s; s = t; t = w; }\n"
    "Console.Write(s); Console.Write('-'); Console.Write(t); Console.WriteLine(u); Console.WriteLine(s); Console.WriteLine(t); Console.Write(\"x\\ty\"); Console.Write(u); Console.WriteLine(b ? \"yes\" : \"no\");"));
  bool b = in<bool>(0);
  if (b) { line("abc-"); line("abc"); line(""); } else { line("-abc"); line(""); line("abc"); }
  expect_text("x\ty"); line(b ? "yes" : "no"); expect_end();
}
CASE(C28, order) {      // output of nested calls keeps its order
  run_program(program("Console.WriteLine(A(Verif.Verif_I32(0)) + B(Verif.Verif_I32(1))); Console.Write(A(3)); Console.WriteLine(B(4));",
    "static int A(int x) { Console.Write(\"a\"); Console.WriteLine(x); return x; }\nstatic int B(int x) { Console.Write('b'); Console.WriteLine(x); return x; }\n"));
  i32 a = in<i32>(0), b = in<i32>(1);
  expect_text("a"); line_i(a); expect_text("b"); line_i(b); line_i((i32)((u32)a + (u32)b)); line("a3"); expect_text("3"); line("b4"); line_i(4); expect_end();
}
CASE(C28, many) {       // many writes in a loop
  i32 n = in<i32>(0); symapi_assume(n >= 0); symapi_assume(n <= 12);
  run_program(program("int n = Verif.Verif_I32(0); long s = 0L; for (int i = 0; i < n; i++) { Console.Write(i); Console.Write(i % 2 == 0 ? \",\" : \";\"); s += (long)i; } Console.WriteLine(); Console.WriteLine(s); Console.Write((byte)200); Console.Write((sbyte)-5); Console.WriteLine((ushort)65535);"));
  for (i32 i = 0; i < n; i++) { expect_i(i); expect_text(i % 2 ? ";" : ","); }
  expect_nl(); line_i(n * (n - 1) / 2); expect_text("200"); expect_text("-5"); line("65535"); expect_end();
}
