// C01 integer arithmetic, C02 bit operations, C03 comparisons, C04 conversions, C05 floating point
#include "ty.h"
using namespace h;
typedef std::string S;
#define W(e) "Console.WriteLine(" e ");\n"

namespace { struct Init { Init() {
  pairs(Ints(), Ints(), [](auto a, auto b) {
    typedef decltype(a) A; typedef decltype(b) B; typedef promote_t<A, B> R; typedef std::make_unsigned_t<R> U;
    Reg("C01", "addsubmul_" + TAGS(A, B), [] {
      run_program(program(Ty<A>::dcl("a", 0) + Ty<B>::dcl("b", 1) + W("a + b") W("a - b") W("a * b")));
      U x = (U)(R)in<A>(0), y = (U)(R)in<B>(1);
      line_v((R)(U)(x + y), "a + b"); line_v((R)(U)(x - y), "a - b"); line_v((R)(U)(x * y), "a * b"); expect_end();
    });
    Reg("C01", "divmod_" + TAGS(A, B), [] {
      R x = (R)in<A>(0), y = (R)in<B>(1);
      symapi_assume(y != 0);
      if (std::is_signed_v<R> && sizeof(R) >= 4) symapi_assume(!(x == std::numeric_limits<R>::min() && y == (R)-1));
      run_program(program(Ty<A>::dcl("a", 0) + Ty<B>::dcl("b", 1) + W("a / b") W("a % b")));
      line_v((R)(x / y), "a / b"); line_v((R)(x % y), "a % b"); expect_end();
    });
    Reg("C02", "bits_" + TAGS(A, B), [] {
      run_program(program(Ty<A>::dcl("a", 0) + Ty<B>::dcl("b", 1) + W("a & b") W("a | b") W("a ^ b")));
      U x = (U)(R)in<A>(0), y = (U)(R)in<B>(1);
      line_v((R)(x & y), "a & b"); line_v((R)(x | y), "a | b"); line_v((R)(x ^ y), "a ^ b"); expect_end();
    });
    Reg("C03", "cmp_" + TAGS(A, B), [] {
      run_program(program(Ty<A>::dcl("a", 0) + Ty<B>::dcl("b", 1) + W("a < b") W("a <= b") W("a > b") W("a >= b") W("a == b") W("a != b")));
      R x = (R)in<A>(0), y = (R)in<B>(1);
      line_v(x < y); line_v(x <= y); line_v(x > y); line_v(x >= y); line_v(x == y); line_v(x != y); expect_end();
    });
    Reg("C04", "cast_" + TAGS(A, B), [] {
      run_program(program(Ty<A>::dcl("a", 0) + S(Ty<B>::name()) + " b = (" + Ty<B>::name() + ")a;\n long c = (long)b; Console.WriteLine(c);"));
      line_v((i64)(B)in<A>(0), "converted value"); expect_end();
    });
  });
  pairs(Nums(), Floats(), [](auto a, auto b) {
    typedef decltype(a) A; typedef decltype(b) B; typedef promote_t<A, B> R;
    for (int sw = 0; sw < (std::is_floating_point_v<A> ? 1 : 2); sw++) {
      Reg("C05", S(sw ? "arith_" : "arith_r_") + TAGS(A, B), [sw] {
        run_program(program(sw ? Ty<A>::dcl("a", 0) + Ty<B>::dcl("b", 1) + W("a + b") W("a - b") W("a * b") W("a / b")
                               : Ty<B>::dcl("a", 1) + Ty<A>::dcl("b", 0) + W("a + b") W("a - b") W("a * b") W("a / b")));
        R x = (R)in<A>(0), y = (R)in<B>(1);
        if (!sw) std::swap(x, y);
        line_v(x + y); line_v(x - y); line_v(x * y); line_v(x / y); expect_end();
      });
      Reg("C05", S(sw ? "cmp_" : "cmp_r_") + TAGS(A, B), [sw] {
        run_program(program(sw ? Ty<A>::dcl("a", 0) + Ty<B>::dcl("b", 1) + W("a < b") W("a <= b") W("a > b") W("a >= b") W("a == b") W("a != b")
                               : Ty<B>::dcl("a", 1) + Ty<A>::dcl("b", 0) + W("a < b") W("a <= b") W("a > b") W("a >= b") W("a == b") W("a != b")));
        R x = (R)in<A>(0), y = (R)in<B>(1);
        if (!sw) std::swap(x, y);
        line_v(x < y); line_v(x <= y); line_v(x > y); line_v(x >= y); line_v(x == y); line_v(x != y); expect_end();
      });
    }
    Reg("C05", "to_float_" + TAGS(A, B), [] {
      run_program(program(Ty<A>::dcl("a", 0) + S(Ty<B>::name()) + " b = (" + Ty<B>::name() + ")a; Console.WriteLine(b);"));
      line_v((B)in<A>(0)); expect_end();
    });
  });
  each(Ints(), [](auto a) {
    typedef decltype(a) A; typedef promote_t<A, A> R; typedef std::make_unsigned_t<R> U;
    Reg("C01", S("neg_") + Ty<A>::tag(), [] {
      if constexpr (std::is_same_v<A, u64>) { run_program(program(Ty<A>::dcl("a", 0) + W("+a"))); line_v(in<A>(0)); }
      else {
        typedef promote_t<A, i8> N;
        run_program(program(Ty<A>::dcl("a", 0) + W("-a") W("+a")));
        line_v((N)(0 - (std::make_unsigned_t<N>)(N)in<A>(0))); line_v((R)in<A>(0));
      }
      expect_end();
    });
    Reg("C02", S("not_") + Ty<A>::tag(), [] {
      run_program(program(Ty<A>::dcl("a", 0) + W("~a")));
      line_v((R)~(U)(R)in<A>(0)); expect_end();
    });
    Reg("C02", S("shift_") + Ty<A>::tag(), [] {
      i32 n = in<i32>(1); symapi_assume(n >= 0 && n < (int)sizeof(R) * 8);
      run_program(program(Ty<A>::dcl("a", 0) + Ty<i32>::dcl("n", 1) + W("a << n") W("a >> n")));
      R x = (R)in<A>(0); line_v((R)((U)x << n)); line_v((R)(x >> n)); expect_end();
    });
  });
} } init; }
