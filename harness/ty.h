// April's primitive types and the promotion rules of its operators, as reference.
#pragma once
#include "h.h"
#include <type_traits>
namespace h {

struct ch16 { u16 v; };       // April char

template<typename T> struct Ty;
#define DEFTY(T, an, vn, cs) template<> struct Ty<T> { \
  static const char *name() { return an; } static const char *ver() { return "Verif.Verif_" vn; } \
  static const char *tag() { return cs; } \
  static std::string dcl(const char *v, int k) { return std::string(an " ") + v + " = Verif.Verif_" vn "(" + std::to_string(k) + ");\n"; } };
DEFTY(i8, "sbyte", "I8", "i8")  DEFTY(u8, "byte", "U8", "u8")  DEFTY(i16, "short", "I16", "i16")  DEFTY(u16, "ushort", "U16", "u16")
DEFTY(i32, "int", "I32", "i32") DEFTY(u32, "uint", "U32", "u32") DEFTY(i64, "long", "I64", "i64") DEFTY(u64, "ulong", "U64", "u64")
DEFTY(float, "float", "F32", "f32") DEFTY(double, "double", "F64", "f64") DEFTY(bool, "bool", "Bool", "bool")
DEFTY(char16_t, "char", "Char", "char")
#undef DEFTY

template<typename A, typename B> struct Promote {
  static constexpr bool fl = std::is_floating_point_v<A> || std::is_floating_point_v<B>;
  static constexpr bool has(auto x) { return std::is_same_v<A, decltype(x)> || std::is_same_v<B, decltype(x)>; }
  static constexpr bool sgn = std::is_signed_v<A> || std::is_signed_v<B>;
  static auto f() {
    if constexpr (has(double())) return double();
    else if constexpr (fl) return float();
    else if constexpr (has(u64())) return u64();
    else if constexpr (has(i64())) return i64();
    else if constexpr (has(u32())) { if constexpr (sgn) return i64(); else return u32(); }
    else return i32();
  }
  typedef decltype(f()) type;
};
template<typename A, typename B> using promote_t = typename Promote<A, B>::type;

template<typename T> inline void expect_v(T v, const char *what = "printed value") {
  if constexpr (std::is_same_v<T, double>) expect_f64(v, what);
  else if constexpr (std::is_same_v<T, float>) expect_f32(v, what);
  else if constexpr (std::is_same_v<T, char16_t>) expect_ch(v, what);
  else if constexpr (std::is_same_v<T, bool>) expect_text(v ? "True" : "False");
  else if constexpr (std::is_signed_v<T>) expect_i(v, what);
  else expect_u(v, what);
}
template<typename T> inline void line_v(T v, const char *what = "printed value") {
  expect_v(v, what);
  if constexpr (std::is_same_v<T, bool>) expect_ch('\r');
  expect_nl();
}

template<typename... T> struct List {};
typedef List<i8, u8, i16, u16, i32, u32, i64, u64> Ints;
typedef List<i8, i16, i32, i64> SInts;
typedef List<float, double> Floats;
typedef List<i8, u8, i16, u16, i32, u32, i64, u64, float, double> Nums;
template<typename... T, typename F> void each(List<T...>, F f) { (f(T()), ...); }
template<typename L1, typename L2, typename F> void pairs(L1, L2, F f) { each(L1(), [&](auto a) { each(L2(), [&](auto b) { f(a, b); }); }); }
#define TAGS(A, B) (std::string(Ty<A>::tag()) + "_" + Ty<B>::tag())
}
