// C18/C19/C20/...: values survive every kind of storage, and storing disturbs nothing else
#include "ty.h"
using namespace h;
typedef std::string S;
#define W(e) "Console.WriteLine(" e ");\n"
static S rep(S s, const S &T) { size_t p; while ((p = s.find("@T")) != S::npos) s.replace(p, 2, T); return s; }
static S wl(std::initializer_list<const char *> l) { S r; for (auto e : l) r += S("Console.WriteLine(") + e + ");\n"; return r; }

typedef List<i8, u8, i16, u16, i32, u32, i64, u64, float, double, bool, char16_t> All;
template<typename T> static S in_(int k) { return S(Ty<T>::ver()) + "(" + std::to_string(k) + ")"; }

namespace { struct Init { Init() {
  each(All(), [](auto t) {
    typedef decltype(t) T; S N = Ty<T>::name(), G = Ty<T>::tag();
    auto P = [N](const S &b, const S &m = "", const S &ty = "") { run_program(program(rep(b, N), rep(m, N), rep(ty, N))); };
    auto I = [](int k) { return in_<T>(k); };
    // locals
    Reg("C16", "local_" + G, [=] {
      P("int p = Verif.Verif_I32(10); @T a = " + I(0) + "; byte q = Verif.Verif_U8(11); @T b = " + I(1) + "; long r = Verif.Verif_I64(12); @T c = " + I(2) + ";\n"
        "@T t = a; a = b; b = c; c = t;\n" + wl({"p", "a", "q", "b", "r", "c", "t"}));
      line_v(in<i32>(10)); line_v(in<T>(1)); line_v(in<u8>(11)); line_v(in<T>(2)); line_v(in<i64>(12)); line_v(in<T>(0)); line_v(in<T>(0)); expect_end();
    });
    // parameters and return values
    Reg("C13", "param_" + G, [=] {
      P("@T r = M(Verif.Verif_I32(10), " + I(0) + ", Verif.Verif_U8(11), " + I(1) + ", Verif.Verif_I64(12)); Console.WriteLine(r);\n"
        "@T x = " + I(2) + "; @T y = N(x, 1); Console.WriteLine(x); Console.WriteLine(y);",
        "static @T M(int p, @T a, byte q, @T b, long r) {\n" + wl({"p", "a", "q", "b", "r"}) + " @T t = a; a = b; b = t; " + wl({"p", "a", "q", "b", "r"}) + " return b; }\n"
        "static @T N(@T x, int k) { if (k == 0) return x; x = N(x, k - 1); return x; }");
      for (int k = 0; k < 2; k++) { line_v(in<i32>(10)); line_v(in<T>(k)); line_v(in<u8>(11)); line_v(in<T>(1 - k)); line_v(in<i64>(12)); }
      line_v(in<T>(0)); line_v(in<T>(2)); line_v(in<T>(2)); expect_end();
    });
    // class fields: layout with neighbours of every size
    Reg("C17", "field_" + G, [=] {
      P("C o = new C(); " + wl({"o.x", "o.y", "o.p", "o.q", "o.r"}) +
        "o.p = Verif.Verif_U8(10); o.x = " + I(0) + "; o.q = Verif.Verif_I16(11); o.y = " + I(1) + "; o.r = Verif.Verif_I64(12);\n"
        "C n = new C(); n.p = Verif.Verif_U8(13); n.x = " + I(2) + ";\n" + wl({"o.p", "o.x", "o.q", "o.y", "o.r", "n.p", "n.x", "n.q", "n.r"}) +
        "o.x = n.x; o.q = Verif.Verif_I16(14);\n" + wl({"o.p", "o.x", "o.q", "o.y", "o.r"}),
        "", "class C { public byte p; public @T x; public short q; public @T y; public long r; }");
      line_v(T()); line_v(T()); line_i(0); line_i(0); line_i(0);
      line_v(in<u8>(10)); line_v(in<T>(0)); line_v(in<i16>(11)); line_v(in<T>(1)); line_v(in<i64>(12));
      line_v(in<u8>(13)); line_v(in<T>(2)); line_i(0); line_i(0);
      line_v(in<u8>(10)); line_v(in<T>(2)); line_v(in<i16>(14)); line_v(in<T>(1)); line_v(in<i64>(12)); expect_end();
    });
    // struct fields, copied by value
    Reg("C15", "struct_field_" + G, [=] {
      P("C o = new C(); o.p = Verif.Verif_U8(10); o.x = " + I(0) + "; o.q = Verif.Verif_I16(11); o.y = " + I(1) + "; o.r = Verif.Verif_I64(12);\n"
        "C n = o; n.x = " + I(2) + "; n.r = Verif.Verif_I64(13);\n" + wl({"o.p", "o.x", "o.q", "o.y", "o.r", "n.p", "n.x", "n.q", "n.y", "n.r"}),
        "", "struct C { public byte p; public @T x; public short q; public @T y; public long r; }");
      line_v(in<u8>(10)); line_v(in<T>(0)); line_v(in<i16>(11)); line_v(in<T>(1)); line_v(in<i64>(12));
      line_v(in<u8>(10)); line_v(in<T>(2)); line_v(in<i16>(11)); line_v(in<T>(1)); line_v(in<i64>(13)); expect_end();
    });
    // arrays: any index
    Reg("C18", "array_" + G, [=] {
      i32 i = in<i32>(10), j = in<i32>(11); symapi_assume(i >= 0 && i < 4 && j >= 0 && j < 4);
      P("@T[] a = new @T[4]; int i = Verif.Verif_I32(10); int j = Verif.Verif_I32(11); int z = Verif.Verif_I32(12);\n"
        "a[i] = " + I(0) + "; a[j] = " + I(1) + "; @T t = a[i];\n" + wl({"a[0]", "a[1]", "a[2]", "a[3]", "t", "a.Length", "z"}));
      T v[4] = {}; v[i] = in<T>(0); v[j] = in<T>(1);
      for (int k = 0; k < 4; k++) line_v(v[k]); line_v(v[i]); line_i(4); line_v(in<i32>(12)); expect_end();
    });
    Reg("C18", "array_init_" + G, [=] {
      P("@T x = " + I(0) + "; @T[] a = new @T[] { " + I(1) + ", x, " + I(2) + " }; @T[] b = new @T[2]; b[0] = a[2];\n" + wl({"a[0]", "a[1]", "a[2]", "a.Length", "b[0]", "b[1]"}));
      line_v(in<T>(1)); line_v(in<T>(0)); line_v(in<T>(2)); line_i(3); line_v(in<T>(2)); line_v(T()); expect_end();
    });
    // 2-dimensional arrays
    Reg("C19", "array2_" + G, [=] {
      i32 i = in<i32>(10), j = in<i32>(11); symapi_assume(i >= 0 && i < 2 && j >= 0 && j < 3);
      P("@T[,] a = new @T[2,3]; int[] g = new int[2]; int i = Verif.Verif_I32(10); int j = Verif.Verif_I32(11); g[0] = 7;\n"
        "a[1, 0] = " + I(1) + "; a[i, j] = " + I(0) + ";\n" + wl({"a[0,0]", "a[0,1]", "a[0,2]", "a[1,0]", "a[1,1]", "a[1,2]", "g[0]", "g[1]", "a.Length"}));
      T v[2][3] = {}; v[1][0] = in<T>(1); v[i][j] = in<T>(0);
      for (int k = 0; k < 6; k++) line_v(v[k / 3][k % 3]); line_i(7); line_i(0); line_i(6); expect_end();
    });
    // ref and out
    Reg("C14", "refout_" + G, [=] {
      P("@T a = " + I(0) + "; @T b = " + I(1) + "; int z = Verif.Verif_I32(10); @T c; Swap(ref a, ref b); Out(out c, a);\n" + wl({"a", "b", "c", "z"}) + "Nest(ref a, " + I(2) + "); " + wl({"a", "b", "z"}),
        "static void Swap(ref @T x, ref @T y) { @T t = x; x = y; y = t; }\n static void Out(out @T x, @T v) { x = v; }\n static void Nest(ref @T x, @T v) { Set(ref x, v); }\n static void Set(ref @T x, @T v) { x = v; }");
      line_v(in<T>(1)); line_v(in<T>(0)); line_v(in<T>(1)); line_v(in<i32>(10)); line_v(in<T>(2)); line_v(in<T>(0)); line_v(in<i32>(10)); expect_end();
    });
    // boxing
    Reg("C20", "box_" + G, [=] {
      P("@T a = " + I(0) + "; object o = a; a = " + I(1) + "; object p = a; @T b = (@T)o; @T c = (@T)p;\n" + wl({"a", "b", "c", "o == p"}) + "p = o; " + wl({"o == p", "(@T)p"}));
      line_v(in<T>(1)); line_v(in<T>(0)); line_v(in<T>(1)); line_v(false); line_v(true); line_v(in<T>(0)); expect_end();
    });
    // generics
    Reg("C21", "class_" + G, [=] {
      P("G<@T> g = new G<@T>(); g.p = Verif.Verif_U8(10); g.v = " + I(0) + "; g.q = Verif.Verif_I64(11); @T t; g.Get(out t); g.Set(" + I(1) + ");\n" + wl({"g.p", "g.v", "g.q", "t"}) + "G<long> h = new G<long>(); h.v = Verif.Verif_I64(12); h.Set(Verif.Verif_I64(13)); g.Set(" + I(2) + ");\n" + wl({"h.v", "h.p", "g.v", "g.q"}),
        "", "class G<E> { public byte p; public E v; public long q; public void Get(out E x) { x = v; } public void Set(E x) { v = x; } }");
      line_v(in<u8>(10)); line_v(in<T>(1)); line_v(in<i64>(11)); line_v(in<T>(0)); line_v(in<i64>(13)); line_i(0); line_v(in<T>(2)); line_v(in<i64>(11)); expect_end();
    });
    Reg("C21", "two_params_" + G, [=] {
      P("G<@T, byte> g = new G<@T, byte>(); G<byte, @T> h = new G<byte, @T>(); g.Set(" + I(0) + ", Verif.Verif_U8(10)); h.Set(Verif.Verif_U8(11), " + I(1) + ");\n" + wl({"g.a", "g.b", "h.a", "h.b"}) + "h.b = g.a; g.b = h.a;\n" + wl({"g.a", "g.b", "h.a", "h.b"}),
        "", "class G<A, B> { public A a; public B b; public void Set(A x, B y) { a = x; b = y; } }");
      line_v(in<T>(0)); line_v(in<u8>(10)); line_v(in<u8>(11)); line_v(in<T>(1)); line_v(in<T>(0)); line_v(in<u8>(11)); line_v(in<u8>(11)); line_v(in<T>(0)); expect_end();
    });
    Reg("C21", "method_" + G, [=] {
      P("@T a; Id<@T>(" + I(0) + ", out a); @T b; Pick<@T>(Verif.Verif_Bool(10), " + I(1) + ", " + I(2) + ", out b); Swap<@T>(ref a, ref b); Console.WriteLine(a); Console.WriteLine(b);",
        "static void Id<E>(E x, out E r) { r = x; }\n static void Pick<E>(bool c, E x, E y, out E r) { if (c) r = x; else r = y; }\n static void Swap<E>(ref E x, ref E y) { E t = x; x = y; y = t; }");
      line_v(in<bool>(10) ? in<T>(1) : in<T>(2)); line_v(in<T>(0)); expect_end();
    });
    // properties
    Reg("C23", "property_" + G, [=] {
      P("C o = new C(); o.X = " + I(0) + "; o.Y = o.X; o.X = " + I(1) + ";\n" + wl({"o.X", "o.Y", "o.n"}),
        "", "class C { @T x; @T y; public int n; public @T X { get { return x; } set { x = value; n = n + 1; } } public @T Y { get { return y; } set { y = value; } } }");
      line_v(in<T>(1)); line_v(in<T>(0)); line_i(2); expect_end();
    });
    // delegates
    Reg("C22", "delegate_" + G, [=] {
      P("C o = new C(); o.k = " + I(2) + "; Delegate<@T, @T> d = Id; Delegate<@T, @T> e = o.Get; @T a = d(" + I(0) + "); @T b = e(" + I(1) + "); Console.WriteLine(a); Console.WriteLine(b); Console.WriteLine(o.n);",
        "static @T Id(@T x) { return x; }", "class C { public @T k; public @T n; public @T Get(@T x) { n = x; return k; } }");
      line_v(in<T>(0)); line_v(in<T>(2)); line_v(in<T>(1)); expect_end();
    });
  });
} } init; }
