// every kind of int expression in every kind of context: with operands pending on the evaluation stack, converted,
// boxed, as argument, element, result, condition ...
#include "ty.h"
using namespace h;
typedef std::string S;
namespace {
i32 I(int k) { return in<i32>(k); }
i32 w(i64 v) { return (i32)(u32)(u64)v; }
void range(int k, i32 lo, i32 hi) { symapi_assume((I(k) >= lo) & (I(k) <= hi)); }
const char *TYPES = R"(
class C { public int f; public C n; public int X { get { return f + 1; } set { f = value; } } public int this[int i] { get { return f + i; } set { f = value + i; } } public C(int v) { f = v; } public C() { f = 50; } public virtual int V(int a) { return a + f; } public int M(int a, int b) { return a - b + f; } public C Self() { return this; } }
class D : C { public override int V(int a) { return a + 1000; } }
interface I { int W(int a); int Q { get; } } class E : I { public int W(int a) { return a + 7; } public int Q { get { return 77; } } }
struct S2 { public int u; public int v; }
struct S { public int a; public long b; public int c; public S2 s; public int Sum() { return a + (int)b + c; } }
enum N { A = 3, B = 9 }
class G<T> { public T t; public void Set(T x) { t = x; } public int K(T x, int y) { t = x; return y + 1; } }
)";
const char *MEMBERS = R"(
static int F(int a) { return a + 100; } static int F2(int a, long b) { return a + (int)b; } static S MS(int k) { S s; s.a = k; s.b = 2L; s.c = 3; s.s.u = 8; s.s.v = k + 9; return s; } static long L(int a) { return 5L + a; } static C MC(int v) { C c = new C(v); return c; }
static int TC(int k) { try { if (k == 2) throw new Exception(); return k; } catch (Exception e) { return 55; } finally { k = 9; } }
static int[] MA(int v) { int[] a = new int[3]; a[1] = v; return a; }
static int O(object o) { return (int)o; } static void Show(int a, int b, int c) { Console.WriteLine(a); Console.WriteLine(b); Console.WriteLine(c); } static int R(ref int x) { x = x + 1; return x; } static int GM<T>(T x, int y) { return y; } static short Sh(short a) { return a; } static bool B(bool b) { return b; }
)";
// k = in(0), c.f = in(1), d.f = in(2), a[2] = in(3), m[1,2] = in(4)
const char *PRE = "int k = Verif.Verif_I32(0); int j = 2; C c = new C(Verif.Verif_I32(1)); C d = new D(); d.f = Verif.Verif_I32(2); I e = new E(); int[] a = new int[4]; a[2] = Verif.Verif_I32(3); int[,] m = new int[3,3]; m[1,2] = Verif.Verif_I32(4); bool b = true; ";
struct Pre { const char *word, *text; };
const Pre PRES[] = {{"s.", "S s = MS(k); "}, {"sa[", "S[] sa = new S[2]; sa[1] = MS(k); "}, {"(int)o", "object o = k; "}, {"g.", "G<int> g = new G<int>(); g.t = k; "}, {"gl.", "G<long> gl = new G<long>(); gl.t = 6L; "}, {"ca[", "C[] ca = new C[2]; ca[1] = new D(); ca[1].f = k; "}, {"(int)n", "N n = N.B; "}, {"dl(", "Delegate<int,int> dl = F; "}, {"di(", "Delegate<int,int,int> di = c.M; "}, {"c.n", "c.n = d; "}, {".n.", "c.n = d; "}, {"sh", "short sh = (short)k; "}, {"db", "double db = 2.5; "}, {"lg", "long lg = 70L + k; "}, {"by", "byte by = (byte)200; uint ui = 5u; "}};
struct X { const char *prop, *name, *text; i32 (*v)(); };
#define K I(0)
#define CF I(1)
#define DF I(2)
#define A2 I(3)
#define M12 I(4)
#define V(e) [] { return (i32)(e); }
const X XS[] = {
  {"C23", "property", "c.X", V(w((i64)CF + 1))}, {"C23", "indexer", "c[3]", V(w((i64)CF + 3))}, {"C24", "virtual", "d.V(k)", V(w((i64)K + 1000))}, {"C24", "virtual_base", "c.V(k)", V(w((i64)K + CF))},
  {"C24", "interface", "e.W(k)", V(w((i64)K + 7))}, {"C24", "interface_property", "e.Q", V(77)}, {"C18", "element", "a[j]", V(A2)}, {"C18", "element_const", "a[2]", V(A2)}, {"C19", "element", "m[j-1,j]", V(M12)}, {"C19", "element_const", "m[1,2]", V(M12)},
  {"C15", "field", "s.a", V(K)}, {"C15", "inner_field", "s.s.v", V(w((i64)K + 9))}, {"C15", "of_array", "sa[1].a", V(K)}, {"C15", "of_array_inner", "sa[j-1].s.v", V(w((i64)K + 9))}, {"C15", "method", "s.Sum()", V(w((i64)K + 5))},
  {"C15", "of_result", "MS(k).a", V(K)}, {"C15", "of_result_inner", "MS(k).s.v", V(w((i64)K + 9))}, {"C15", "method_of_result", "MS(k).Sum()", V(w((i64)K + 5))},
  {"C20", "unbox", "(int)o", V(K)}, {"C20", "box_argument", "O(k)", V(K)}, {"C20", "box_constant", "O(33)", V(33)}, {"C20", "cast_cast", "(int)((object)k)", V(K)}, {"C20", "is", "(d is D?1:2)", V(1)}, {"C20", "as", "((d as D)==null?1:2)", V(2)}, {"C20", "cast_class", "((D)d).f", V(DF)},
  {"C21", "field", "g.t", V(K)}, {"C21", "method", "g.K(k,4)", V(5)}, {"C21", "method_long", "gl.K(3L,k)", V(w((i64)K + 1))}, {"C21", "generic_method", "GM<long>(5L,k)", V(K)}, {"C21", "generic_method_int", "GM<int>(5,k)", V(K)},
  {"C24", "array_of_objects", "ca[1].V(k)", V(w((i64)K + 1000))}, {"C17", "array_of_objects", "ca[1].f", V(K)}, {"C26", "enum", "(int)n", V(9)}, {"C26", "member", "(int)N.A", V(3)},
  {"C10", "cond", "(b?k:7)", V(K)}, {"C10", "cond_calls", "(B(!b)?F(1):F(k))", V(w((i64)K + 100))}, {"C10", "and", "(b&&B(b)?k:0)", V(K)}, {"C10", "or", "(!B(b)||!b?1:k)", V(K)},
  {"C22", "static", "dl(k)", V(w((i64)K + 100))}, {"C22", "instance", "di(k,6)", V((int)((unsigned)(K) - 6u + (unsigned)(CF)))}, {"C22", "nested", "dl(dl(k))", V(w((i64)K + 200))}, {"C22", "nested_two", "di(dl(k),dl(2))", V((int)((unsigned)(K) + 100u - 102u + (unsigned)(CF)))}, {"C22", "in_call", "c.M(dl(k),di(1,2))", V((int)((unsigned)(K) + 100u - (1u - 2u + (unsigned)(CF)) + (unsigned)(CF)))},
  {"C04", "cast_long", "(int)lg", V(w((i64)K + 70))}, {"C04", "cast_result", "(int)L(3)", V(8)}, {"C04", "cast_chain", "(int)(short)(byte)k", V((u8)(u32)K)}, {"C04", "cast_double", "(int)(db*2)", V(5)}, {"C04", "small", "Sh(sh)+0", V((i16)(u16)(u32)K)},
  {"C13", "call", "F(k)", V(w((i64)K + 100))}, {"C13", "two_args", "F2(k,L(1))", V(w((i64)K + 6))}, {"C13", "nested", "F(F(F(k)))", V(w((i64)K + 300))}, {"C13", "instance", "c.M(k,F(1))", V(w((i64)K - 101 + CF))}, {"C13", "of_result", "MC(k).M(1,2)", V(w((i64)K - 1))}, {"C13", "chain", "MC(k).Self().Self().f", V(K)},
  {"C17", "of_result", "MC(k).f", V(K)}, {"C17", "chain", "c.n.f", V(DF)}, {"C17", "of_new", "(new C(k).f)", V(K)}, {"C17", "chain_calls", "c.Self().n.Self().f", V(DF)}, {"C18", "of_result", "MA(k)[1]", V(K)}, {"C18", "length", "a.Length", V(4)},
  {"C23", "assign", "(k=8)", V(8)}, {"C23", "post", "k++", V(K)}, {"C23", "pre", "++k", V(w((i64)K + 1))}, {"C23", "assign_element", "(a[1]=k)", V(K)}, {"C23", "post_element", "a[j]++", V(A2)}, {"C23", "pre_element", "--a[j]", V(w((i64)A2 - 1))}, {"C23", "post_field", "c.f--", V(CF)}, {"C23", "pre_field", "--c.f", V(w((i64)CF - 1))}, {"C23", "assign_field", "(c.f=12)", V(12)},
  {"C23", "compound", "(k+=5)", V(w((i64)K + 5))}, {"C23", "compound_shift", "(k<<=2)", V(w((i64)(u32)K << 2))}, {"C23", "compound_element", "(a[2]+=5)", V(w((i64)A2 + 5))}, {"C23", "compound_field", "(c.f-=1)", V(w((i64)CF - 1))}, {"C23", "post_field_of_result", "c.Self().f++", V(CF)}, {"C23", "property_of_result", "MC(k).X", V(w((i64)K + 1))},
  {"C14", "ref", "R(ref k)", V(w((i64)K + 1))}, {"C27", "max", "Math.Max(k,6)", V(K > 6 ? K : 6)}, {"C25", "try", "TC(k)", V(K == 2 ? 55 : K)}, {"C01", "minus", "-k", V(w(-(i64)K))}, {"C02", "not", "~k", V(~K)}, {"C02", "shift", "k<<3", V(w((i64)(u32)K << 3))}, {"C01", "small", "(sh+k)", V(w((i64)(i16)(u16)(u32)K + K))}, {"C03", "compare", "(by+ui==205?1:0)", V(1)},
};
S rep(S s, const S &x) { for (size_t i; (i = s.find('@')) != S::npos;) s.replace(i, 1, x); return s; }
struct Add { Add() {
  for (auto &x : XS) Reg(x.prop, S("ctx_") + x.name, [&x] {
    if (S(x.prop) == "C22") { range(1, -100, 100); range(2, -100, 100); range(9, -2000, 2000); }
    S pre = PRE, done; for (auto &p : PRES) if (S(x.text).find(p.word) != S::npos && pre.find(p.text) == S::npos) pre += p.text;
    i32 v = x.v(), f = I(2);
    std::vector<std::function<void()>> want; S mem = MEMBERS, main; int n = 0;
    bool pure = S(x.prop) != "C23" || S(x.name) == "property" || S(x.name) == "indexer" || S(x.name) == "property_of_result"; if (S(x.prop) == "C14") pure = false;
    S one; std::vector<std::function<void()>> want1;
    // an expression without side effects: one method for all contexts that change none of its operands
    auto add = [&](const S &body, std::function<void()> e) {
      bool writes = false; for (auto q : {"k = @", "c.f = @", "d.X = (@)", "d[5] = @", "t += @"}) writes |= body.find(q) != S::npos;
      if (pure && !writes) { one += "{ " + rep(body, x.text) + " }\n"; want1.push_back(e); return; }
      S t = "T" + std::to_string(n++); mem += "static void " + t + "() { " + pre + rep(body, x.text) + " }\n"; main += t + "(); "; want.push_back(e);
    };
    add("Console.WriteLine(@);", [=] { line_i(v); });
    add("int z = 1000 + (@); Console.WriteLine(z);", [=] { line_i(w((i64)v + 1000)); });
    add("Show(71, @, 72);", [=] { line_i(71); line_i(v); line_i(72); });
    add("Console.WriteLine(F2(9, 1L) + (@) * 2);", [=] { line_i(w((i64)v * 2 + 10)); });
    add("a[0] = @; Console.WriteLine(a[0]);", [=] { line_i(v); });
    add("long y = @; Console.WriteLine(y);", [=] { line_i(v); });
    add("c.f = @; Console.WriteLine(c.f);", [=] { line_i(v); });
    add("bool t = (@) < Verif.Verif_I32(9); Console.WriteLine(t);", [=] { line_v(v < I(9)); });
    add("d.X = (@); Console.WriteLine(d.f);", [=] { line_i(v); });
    add("object q = @; Console.WriteLine((int)q);", [=] { line_i(v); });
    add("d[5] = @; Console.WriteLine(d.f);", [=] { line_i(w((i64)v + 5)); });
    add("m[1,1] = @; Console.WriteLine(m[1,1]);", [=] { line_i(v); });
    add("Console.WriteLine(d.M(7, @));", [=] { line_i(w(7 - (i64)v + f)); });
    add("S[] st = new S[2]; st[1].c = @; Console.WriteLine(st[1].c);", [=] { line_i(v); });
    add("Console.WriteLine(e.W(@));", [=] { line_i(w((i64)v + 7)); });
    add("G<int> gi = new G<int>(); gi.Set(@); Console.WriteLine(gi.t);", [=] { line_i(v); });
    add("k = @; Console.WriteLine(k);", [=] { line_i(v); });
    add("int t = 0; for (int u = @; t < 1; t++) { Console.WriteLine(u); }", [=] { line_i(v); });
    add("double t = @; Console.WriteLine(t);", [=] { line_v((double)v); });
    add("Console.WriteLine((7 + (3 - (@))) * 2);", [=] { line_i(w((10 - (i64)v) * 2)); });
    add("int[] t = new int[] { 1, @, 3 }; Console.WriteLine(t[0]); Console.WriteLine(t[1]); Console.WriteLine(t[2]);", [=] { line_i(1); line_i(v); line_i(3); });
    add("C t = new C(@); Console.WriteLine(t.f);", [=] { line_i(v); });
    add("int t = 5; t += @; Console.WriteLine(t);", [=] { line_i(w((i64)v + 5)); });
    add("int t = b ? @ : 3; Console.WriteLine(t);", [=] { line_i(v); });
    add("Console.WriteLine(F(F(@) + 1));", [=] { line_i(w((i64)v + 201)); });
    add("short t = (short)(@); Console.WriteLine(t); long u = (long)(@);", [=] { line_i((i16)(u16)(u32)v); });
    add("Delegate<int,int> t = F; Console.WriteLine(1 + t(@));", [=] { line_i(w((i64)v + 101)); });
    add("bool t = b && (@) != 10; Console.WriteLine(t);", [=] { line_v(v != 10); });
    if (one.size()) { mem += "static int One() { " + pre + one + " return 4; }\n"; main += "Console.WriteLine(3 + One() * 5); "; for (auto &e : want1) want.push_back(e); want.push_back([] { line_i(23); }); }
    mem += "static int RI() { " + pre + " return " + x.text + "; }\nstatic long RL() { " + pre + " return " + x.text + "; }\nstatic object RO() { " + pre + " return " + x.text + "; }\n";
    main += "Console.WriteLine(3 + RI()); Console.WriteLine(RL()); Console.WriteLine((int)RO()); ";
    want.push_back([=] { line_i(w((i64)v + 3)); line_i(v); line_i(v); });
    run_program(program(main, mem, TYPES));
    for (auto &e : want) e();
    expect_end();
  });
} } init; }
