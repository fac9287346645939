// control flow: every nesting of two statements around every way to leave them, in void and int methods,
// as the last statement and followed by another; the reference executes the same tree
#include "ty.h"
#include <memory>
using namespace h;
typedef std::string S;
namespace {
S n_(i64 v) { return std::to_string(v); }
enum Exit { PASS, BRK, CNT, RET, THR };
struct Node; typedef std::shared_ptr<Node> P; typedef std::vector<P> B;
enum Kind { PRINT, LEAVE, IFK, IFELSE, FOR, WHILE, TRUE_R, TRUE_B, DO, SW, SWD, TRYC, CATCH, TRYF, TRYCF, DOTRUE, KINDS };
struct Node { Kind kind; int n = 0; Exit e = PASS; B a, b; };
int g_n;                                       // label / variable counter of the current program
P mk(Kind k, B a = {}, B b = {}) { P p = std::make_shared<Node>(); p->kind = k; p->n = ++g_n; p->a = a; p->b = b; return p; }
P leave(Exit e) { P p = mk(LEAVE); p->e = e; return p; }
bool ends(const B &b) { return !b.empty() && b.back()->kind == LEAVE; }
S text(const B &b, bool val);
S text(const Node &x, bool val) {
  S n = n_(x.n), w = "w" + n, br = ends(x.a) ? "" : " break;";
  auto blk = [&](const B &b) { return "{ " + text(b, val) + "}"; };
  switch (x.kind) {
    case PRINT: return "Console.WriteLine(" + n + "); ";
    case LEAVE: return x.e == BRK ? "break; " : x.e == CNT ? "continue; " : x.e == RET ? (val ? "return " + n + "; " : "return; ") : "throw new X(" + n + "); ";
    case IFK: return "if (k == 1) " + blk(x.a) + " ";
    case IFELSE: return "if (k == 1) " + blk(x.a) + " else " + blk(x.b) + " ";
    case FOR: return "for (int " + w + " = 0; " + w + " < k; " + w + "++) " + blk(x.a) + " ";
    case WHILE: return "int " + w + " = 0; while (" + w + " < k) { " + w + " = " + w + " + 1; " + text(x.a, val) + "} ";
    case TRUE_R: return "int " + w + " = 0; while (true) { " + w + " = " + w + " + 1; if (" + w + " > k) " + (val ? "return " + n + "; " : "return; ") + text(x.a, val) + "} ";
    case TRUE_B: return "int " + w + " = 0; while (true) { " + w + " = " + w + " + 1; if (" + w + " > k) break; " + text(x.a, val) + "} ";
    case DO: return "int " + w + " = 0; do { " + w + " = " + w + " + 1; " + text(x.a, val) + "} while (" + w + " < k); ";
    case DOTRUE: return "int " + w + " = 0; do { " + w + " = " + w + " + 1; if (" + w + " > k) break; " + text(x.a, val) + "} while (true); ";
    case SW: return "switch (k) { case 1: " + text(x.a, val) + br + " default: Console.WriteLine(" + n_(x.n + 10000) + "); break; } ";
    case SWD: return "switch (k) { case 1: Console.WriteLine(" + n_(x.n + 10000) + "); break; default: " + text(x.a, val) + br + " } ";
    case TRYC: return "try " + blk(x.a) + " catch (X e" + n + ") { Console.WriteLine(e" + n + ".v); } ";
    case CATCH: return "try { throw new X(" + n + "); } catch (X e" + n + ") " + blk(x.a) + " ";
    case TRYF: return "try " + blk(x.a) + " finally { Console.WriteLine(" + n_(x.n + 10000) + "); } ";
    case TRYCF: return "try " + blk(x.a) + " catch (X e" + n + ") { Console.WriteLine(e" + n + ".v); } finally { Console.WriteLine(" + n_(x.n + 10000) + "); } ";
    default: return "";
  }
}
S text(const B &b, bool val) { S s; for (auto &p : b) s += text(*p, val); return s; }
int g_val;                                     // returned value or thrown number
Exit run(const B &b, i32 k);
Exit run(const Node &x, i32 k) {
  auto loop = [&](int from, bool post, int over, bool over_ret) {    // the four loop shapes
    for (int w = 0;;) { if (!post && !over && !(w < k)) return PASS; w++; if (over && w > k) { if (over_ret) { g_val = x.n; return RET; } return PASS; }
      Exit e = run(x.a, k); if (e == BRK) return PASS; if (e == RET || e == THR) return e; if (post && !over && !(w < k)) return PASS; } };
  switch (x.kind) {
    case PRINT: line_i(x.n); return PASS;
    case LEAVE: if (x.e == RET || x.e == THR) g_val = x.n; return x.e;
    case IFK: return k == 1 ? run(x.a, k) : PASS;
    case IFELSE: return k == 1 ? run(x.a, k) : run(x.b, k);
    case FOR: case WHILE: return loop(0, false, 0, false);
    case TRUE_R: return loop(0, false, 1, true);
    case TRUE_B: case DOTRUE: return loop(0, false, 1, false);
    case DO: return loop(0, true, 0, false);
    case SW: { if (k != 1) { line_i(x.n + 10000); return PASS; } Exit e = run(x.a, k); return e == BRK ? PASS : e; }
    case SWD: { if (k == 1) { line_i(x.n + 10000); return PASS; } Exit e = run(x.a, k); return e == BRK ? PASS : e; }
    case TRYC: { Exit e = run(x.a, k); if (e == THR) { line_i(g_val); return PASS; } return e; }
    case CATCH: return run(x.a, k);
    case TRYF: { Exit e = run(x.a, k); int v = g_val; line_i(x.n + 10000); g_val = v; return e; }
    case TRYCF: { Exit e = run(x.a, k); if (e == THR) { line_i(g_val); e = PASS; } int v = g_val; line_i(x.n + 10000); g_val = v; return e; }
    default: return PASS;
  }
}
Exit run(const B &b, i32 k) { for (auto &p : b) { Exit e = run(*p, k); if (e != PASS) return e; } return PASS; }
bool is_loop(Kind k) { return k == FOR || k == WHILE || k == TRUE_R || k == TRUE_B || k == DO || k == DOTRUE; }
bool is_sw(Kind k) { return k == SW || k == SWD; }
bool is_try(Kind k) { return k == TRYC || k == CATCH || k == TRYF || k == TRYCF; }
// the methods for one pair of statements: each way to leave, unconditional, conditional, and one of two
std::vector<B> shapes(Kind o, Kind i) {
  std::vector<B> r; bool lp = is_loop(o) || is_loop(i), br = lp || is_sw(o) || is_sw(i);
  std::vector<std::function<B()>> leaf;
  for (Exit e : {RET, THR, BRK, CNT}) if ((e != BRK || br) && (e != CNT || lp)) {
    leaf.push_back([e] { return B{leave(e)}; });
    leaf.push_back([e] { return B{mk(IFK, B{leave(e)}), mk(PRINT)}; });
    leaf.push_back([e] { return B{mk(IFELSE, B{leave(e)}, B{leave(RET)})}; });
  }
  for (auto &l : leaf) { B b = l(); P in = i == KINDS ? nullptr : mk(i, b); r.push_back(B{mk(o, in ? B{in} : b)}); if (in) r.push_back(B{mk(o, B{mk(PRINT), in, mk(PRINT)})}); }
  return r;
}
const char *kn(Kind k) { static const char *n[] = {"print", "leave", "ifk", "if", "for", "while", "true_r", "true_b", "do", "switch", "default", "catch_of", "in_catch", "finally_of", "catch_finally_of", "do_true"}; return n[k]; }
void flow(const std::vector<B> &m) {
  i32 k = in<i32>(0); symapi_assume(k >= 0); symapi_assume(k <= 2);
  S mem, body;
  for (size_t i = 0; i < m.size(); i++) { S n = n_(i);
    mem += "static void M" + n + "(int k) { " + text(m[i], false) + "}\nstatic int N" + n + "(int k) { " + text(m[i], true) + "Console.WriteLine(-5); return -6; }\n";
    body += "try { M" + n + "(k); Console.WriteLine(-1); } catch (X e) { Console.WriteLine(e.v); }\ntry { Console.WriteLine(N" + n + "(k)); } catch (X e) { Console.WriteLine(e.v); }\n"; }
  run_program(h::program("int k = Verif.Verif_I32(0);\n" + body, mem, "class X : Exception { public int v; public X(int k) { v = k; } }"));
  for (auto &b : m) {
    line_i(run(b, k) == THR ? g_val : -1);
    Exit e = run(b, k); if (e == PASS) line_i(-5); line_i(e == PASS ? -6 : g_val); }
  expect_end();
}
struct Init { Init() {
  for (int o = IFELSE; o < KINDS; o++) for (int i = IFELSE; i <= KINDS; i++) {
    Kind O = (Kind)o, I = (Kind)i; bool t = is_try(O) || (I != KINDS && is_try(I)), s = is_sw(O) || (I != KINDS && is_sw(I));
    S name = S("leave_") + kn(O) + (I == KINDS ? S("") : S("_") + kn(I));
    Reg(t ? "C25" : s ? "C12" : "C11", name, [O, I] { g_n = 100; flow(shapes(O, I)); });
  }
} } init;
}
