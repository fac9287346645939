// Harness library: cases, symbolic inputs, expected output.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <functional>
#include "symapi.h"

namespace h {

typedef int8_t i8; typedef uint8_t u8; typedef int16_t i16; typedef uint16_t u16;
typedef int32_t i32; typedef uint32_t u32; typedef int64_t i64; typedef uint64_t u64;

struct Case { std::string prop, name, tier; std::function<void()> run; };
std::vector<Case> &cases();
struct Reg { Reg(const char *prop, const std::string &name, std::function<void()> f, const char *tier = "quick") {
  cases().push_back({prop, name, tier, f}); } };

// symbolic inputs, shared by the program under test and the reference
template<typename T> T in(int k);     // T: i8..u64, bool, char16_t (April char), float, double

// source characters: the text of a program may contain bytes \x01..\x08, \x0e..\x1f; each stands for
// one symbolic character, srcchar(k).  src_assume sets the precondition of character k.
u8 srcchar(int k);
void src_assume(int k, void (*f)(u8));

// runs an April program; its output is recorded
void run_program(const std::string &src);
void library(const std::string &name, const std::string &src);   // compiled to NAME.apl, given to the next run_program
// level >= 0: run_program compiles a solution with that optimisation level
void optimise(int level);
// "main body" -> full program
std::string program(const std::string &body, const std::string &members = "", const std::string &types = "");

// what the program printed, consumed in order
void expect_i(i64 v, const char *what = "printed integer");
void expect_u(u64 v, const char *what = "printed unsigned integer");
void expect_ch(u32 c, const char *what = "printed character");
void expect_text(const char *s);
void expect_f32(float v, const char *what = "printed float");
void expect_f64(double v, const char *what = "printed double");
inline void expect_nl() { expect_ch('\n', "line end"); }
inline void line_i(i64 v) { expect_i(v); expect_nl(); }
inline void line_u(u64 v) { expect_u(v); expect_nl(); }
inline void line(const char *s) { expect_text(s); expect_nl(); }
// the next two output items, each a line of its own, are the same value
void same_lines(const char *what);
void expect_near64(double v, double tol, const char *what = "printed double");
void expect_near32(float v, float tol, const char *what = "printed float");
void expect_end();
// true if the remaining output contains the text (concrete only)
bool output_contains(const char *s);

}  // namespace h

#define HCAT_(a, b) a##b
#define HCAT(a, b) HCAT_(a, b)
#define CASE(prop, name) \
  static void HCAT(case_##prop##_, name)(); \
  static h::Reg HCAT(reg_##prop##_, name)(#prop, #name, HCAT(case_##prop##_, name)); \
  static void HCAT(case_##prop##_, name)()
#define CASE_T(prop, name) \
  static void HCAT(case_##prop##_, name)(); \
  static h::Reg HCAT(reg_##prop##_, name)(#prop, #name, HCAT(case_##prop##_, name), "thorough"); \
  static void HCAT(case_##prop##_, name)()
