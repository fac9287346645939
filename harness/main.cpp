#include <april.h>
#include <rtlib.h>
#include <stdio.h>
#include <unistd.h>
#include <sys/stat.h>
#include "h.h"
#include <sys/stat.h>
#include <unistd.h>

namespace april::modules::april { int __main(int argc, char **argv); }
namespace april::modules::rtlib { libfunc_t april_original_get_libfunc(const string_t &name); }

namespace h {

std::vector<Case> &cases() { static std::vector<Case> v; return v; }

void (*g_pre[32])(u8);
void src_assume(int k, void (*f)(u8)) { g_pre[k] = f; }
// ---- inputs ---------------------------------------------------------------------------------
static struct { bool made; union { u64 u; } v; } g_in[64];
static u64 raw_in(int k, int bytes, const char *ty) {
  if (!g_in[k].made) {
    char n[40]; snprintf(n, sizeof n, "%s_%d", ty, k);
    g_in[k].made = true; g_in[k].v.u = 0;
    symapi_make(&g_in[k].v, bytes, n);
  }
  return g_in[k].v.u;
}
template<> i8 in<i8>(int k) { return (i8)raw_in(k, 1, "i8"); }
template<> u8 in<u8>(int k) { return (u8)raw_in(k, 1, "u8"); }
template<> i16 in<i16>(int k) { return (i16)raw_in(k, 2, "i16"); }
template<> u16 in<u16>(int k) { return (u16)raw_in(k, 2, "u16"); }
template<> i32 in<i32>(int k) { return (i32)raw_in(k, 4, "i32"); }
template<> u32 in<u32>(int k) { return (u32)raw_in(k, 4, "u32"); }
template<> i64 in<i64>(int k) { return (i64)raw_in(k, 8, "i64"); }
template<> u64 in<u64>(int k) { return (u64)raw_in(k, 8, "u64"); }
template<> char16_t in<char16_t>(int k) { return (char16_t)raw_in(k, 2, "char"); }
template<> bool in<bool>(int k) { return raw_in(k, 1, "bool") & 1; }
template<> float in<float>(int k) { raw_in(k, 4, "f32"); float f; memcpy(&f, &g_in[k].v, 4); return f; }
template<> double in<double>(int k) { raw_in(k, 8, "f64"); double f; memcpy(&f, &g_in[k].v, 8); return f; }

// ---- natives of class Verif --------------------------------------------------------------------
using april::modules::rtlib::rtlib_context_t;
typedef april::modules::rt_stack_unit_t unit_t;
static int argk(rtlib_context_t &ctx) { return *(int32_t *)ctx.args<unit_t>(); }
template<typename T> static void put(rtlib_context_t &ctx, T v) {   // value in the low bytes, sign/zero extended
  unit_t *u = ctx.args<unit_t>();
  if (sizeof(T) <= 4 && std::is_signed_v<T>) *(i64 *)u = (i64)v; else *(u64 *)u = (u64)v;
}
static void v_bool(rtlib_context_t &c) { put<u8>(c, in<bool>(argk(c))); }
static void v_i8(rtlib_context_t &c) { put(c, in<i8>(argk(c))); }
static void v_u8(rtlib_context_t &c) { put(c, in<u8>(argk(c))); }
static void v_i16(rtlib_context_t &c) { put(c, in<i16>(argk(c))); }
static void v_u16(rtlib_context_t &c) { put(c, in<u16>(argk(c))); }
static void v_i32(rtlib_context_t &c) { put(c, in<i32>(argk(c))); }
static void v_u32(rtlib_context_t &c) { put(c, in<u32>(argk(c))); }
static void v_i64(rtlib_context_t &c) { put(c, in<i64>(argk(c))); }
static void v_u64(rtlib_context_t &c) { put(c, in<u64>(argk(c))); }
static void v_char(rtlib_context_t &c) { put<u16>(c, (u16)in<char16_t>(argk(c))); }
static void v_f32(rtlib_context_t &c) { float f = in<float>(argk(c)); u32 b; memcpy(&b, &f, 4); put<u32>(c, b); }
static void v_f64(rtlib_context_t &c) { double f = in<double>(argk(c)); u64 b; memcpy(&b, &f, 8); put<u64>(c, b); }
}  // namespace h

namespace april::modules::rtlib {
libfunc_t get_libfunc(const string_t &name) {
  static const struct { const wchar_t *n; libfunc_t f; } tab[] = {
    {L"Verif_Bool", h::v_bool}, {L"Verif_I8", h::v_i8}, {L"Verif_U8", h::v_u8}, {L"Verif_I16", h::v_i16}, {L"Verif_U16", h::v_u16},
    {L"Verif_I32", h::v_i32}, {L"Verif_U32", h::v_u32}, {L"Verif_I64", h::v_i64}, {L"Verif_U64", h::v_u64},
    {L"Verif_Char", h::v_char}, {L"Verif_F32", h::v_f32}, {L"Verif_F64", h::v_f64}};
  for (auto &t : tab) if (name == t.n) return t.f;
  return april_original_get_libfunc(name);
}
}

namespace h {
// ---- symbolic source characters: byte \x01..\x1f (not \t \n \v \f \r) in the text is input character k -----
static u8 g_sc[32]; static bool g_scm[32];
u8 srcchar(int k) {
  if (!g_scm[k]) { g_scm[k] = true; char n[16]; snprintf(n, sizeof n, "src_%d", k); symapi_make(&g_sc[k], 1, n); if (g_pre[k]) g_pre[k](g_sc[k]); }
  return g_sc[k];
}
}
extern "C" long __sym_native_wread(void *f, wchar_t *s, long n);
extern "C" void *__symw__ZNSt13basic_istreamIwSt11char_traitsIwEE4readEPwl(void *f, wchar_t *s, long n) {
  long g = __sym_native_wread(f, s, n);
  for (long i = 0; i < g; i++) if (s[i] > 0 && s[i] < 32 && !(s[i] >= 9 && s[i] <= 13)) s[i] = h::srcchar((int)s[i]);
  return f;
}
namespace h {
// ---- programs --------------------------------------------------------------------------------------
std::string program(const std::string &body, const std::string &members, const std::string &types) {
  return "import System;\nusing System;\nclass Program\n{\n    [EntryPoint]\n    public static void Main()\n    {\n" + body +
         "\n    }\n" + members + "\n}\n" + types + "\n";
}
static std::string g_scratch, g_apl;
static std::string save(const std::string &src) {
  std::string p = g_scratch + "/p.cs";
  FILE *f = fopen(p.c_str(), "wb"); fwrite(src.data(), 1, src.size(), f); fclose(f);
  return p;
}
static int g_opt = -1;                    // >= 0: compiled as a solution with this optimisation level
void optimise(int level) { g_opt = level; }
static std::string g_lib;
static void put_file(const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "wb"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
// compiles a library (concrete text) with this april in a process of its own, without symbolic values
void library(const std::string &name, const std::string &src) {
  std::string d = g_scratch + "/" + name; mkdir(d.c_str(), 0777); put_file(d + "/" + name + ".cs", src);
  char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n < 0 ? 0 : n] = 0;
  std::string c = "cd '" + d + "' && env -u SYM_MODE '" + std::string(self) + "' --april compile " + name + ".cs '" + g_apl + "' > out.txt 2>&1 < /dev/null";
  if (system(c.c_str())) {}
  g_lib = d + "/" + name + ".apl";
}
void run_program(const std::string &src) {
  std::string p = save(src);
  std::vector<std::string> a = {"april", "run", p, g_apl};
  if (!g_lib.empty()) a.insert(a.begin() + 3, g_lib);
  if (g_opt >= 0) {
    const char *x = "<?xml version=\"1.0\" encoding=\"utf-8\" ?>\n";
    put_file(g_scratch + "/p.project", std::string(x) + "<project><name>p</name><files><file><path>p.cs</path></file></files></project>\n");
    put_file(g_scratch + "/s.solution", std::string(x) + "<solution><name>s</name><projects><project><path>p.project</path></project></projects></solution>\n");
    a = {"april", "run", "-O", std::to_string(g_opt), g_scratch + "/s.solution", g_apl};
  }
  std::vector<char *> v; for (auto &x : a) v.push_back((char *)x.c_str());
  v.push_back(nullptr);
  symapi_out_record(1);
  ::april::modules::april::__main((int)a.size(), v.data());
}

// ---- expectations -------------------------------------------------------------------------------------
static int g_t = 0; static u64 g_c = 0;      // token, character within a text token
static char g_msg[200];
static const char *msg(const char *what) { snprintf(g_msg, sizeof g_msg, "%s (output item %d)", what, g_t); return g_msg; }
static bool more() {
  while (g_t < symapi_out_count() && symapi_out_kind(g_t) == 's' && g_c >= symapi_out_val(g_t)) { g_t++; g_c = 0; }
  return g_t < symapi_out_count();
}
static void dump_output();
static void bad(const char *what) {
  if (!symapi_active()) dump_output();
  symapi_assert(false, msg(what)); symapi_finish();
}
void expect_i(i64 v, const char *what) {
  if (!more()) return bad("output ends early, expected an integer");
  int k = symapi_out_kind(g_t);
  if (k != 'i' && k != 'u') return bad("expected an integer in the output");
  u64 x = symapi_out_val(g_t);
  symapi_assert_eq(x, (u64)v, msg(what));
  if (k == 'u') symapi_assert(v >= 0, msg("sign of printed integer"));
  g_t++; g_c = 0;
}
void expect_u(u64 v, const char *what) {
  if (!more()) return bad("output ends early, expected an integer");
  int k = symapi_out_kind(g_t);
  if (k != 'i' && k != 'u') return bad("expected an integer in the output");
  u64 x = symapi_out_val(g_t);
  symapi_assert_eq(x, v, msg(what));
  if (k == 'i') symapi_assert((i64)x >= 0, msg("sign of printed integer"));
  g_t++; g_c = 0;
}
void expect_f32(float v, const char *what) {
  if (!more()) return bad("output ends early, expected a float");
  if (symapi_out_kind(g_t) != 'f') return bad("expected a float in the output");
  u32 b; memcpy(&b, &v, 4); u32 x = (u32)symapi_out_val(g_t); float y; memcpy(&y, &x, 4);
  symapi_assert((x == b) | ((v != v) & (y != y)), msg(what));
  g_t++; g_c = 0;
}
void expect_f64(double v, const char *what) {
  if (!more()) return bad("output ends early, expected a double");
  if (symapi_out_kind(g_t) != 'd') return bad("expected a double in the output");
  u64 b; memcpy(&b, &v, 8); u64 x = symapi_out_val(g_t); double y; memcpy(&y, &x, 8);
  symapi_assert((x == b) | ((v != v) & (y != y)), msg(what));
  g_t++; g_c = 0;
}
void expect_ch(u32 c, const char *what) {
  if (!more()) return bad("output ends early, expected a character");
  int k = symapi_out_kind(g_t);
  if (k == 'c') { symapi_assert_eq(symapi_out_val(g_t), c, msg(what)); g_t++; g_c = 0; return; }
  if (k == 's') { symapi_assert_eq((u32)symapi_out_str(g_t)[g_c], c, msg(what)); g_c++; more(); return; }
  bad("expected a character in the output");
}
void expect_text(const char *s) {
  // a run of concrete digits may arrive as an integer item
  while (*s) {
    if (more()) {
      int k = symapi_out_kind(g_t);
      if ((k == 'i' || k == 'u') && ((*s >= '0' && *s <= '9') || *s == '-')) {
        char *e; if (*s == '-') { i64 v = strtoll(s, &e, 10); expect_i(v); } else { u64 v = strtoull(s, &e, 10); expect_u(v); }
        s = e; continue;
      }
    }
    expect_ch((unsigned char)*s++, "printed text");
  }
}
void expect_near64(double v, double tol, const char *what) {
  if (!more()) return bad("output ends early, expected a double");
  if (symapi_out_kind(g_t) != 'd') return bad("expected a double in the output");
  u64 x = symapi_out_val(g_t); double y; memcpy(&y, &x, 8);
  double d = y - v; symapi_assert((d <= tol) & (d >= -tol), msg(what));
  g_t++; g_c = 0;
}
void expect_near32(float v, float tol, const char *what) {
  if (!more()) return bad("output ends early, expected a float");
  if (symapi_out_kind(g_t) != 'f') return bad("expected a float in the output");
  u32 x = (u32)symapi_out_val(g_t); float y; memcpy(&y, &x, 4);
  float d = y - v; symapi_assert((d <= tol) & (d >= -tol), msg(what));
  g_t++; g_c = 0;
}
void same_lines(const char *what) {
  if (!more()) return bad("output ends early");
  int k = symapi_out_kind(g_t);
  if (k == 'i' || k == 'u' || k == 'f' || k == 'd') {
    u64 v = symapi_out_val(g_t); g_t++; g_c = 0; expect_nl();
    if (!more()) return bad("output ends early");
    if (symapi_out_kind(g_t) != k) return bad("the same kind of value was expected");
    u64 w = symapi_out_val(g_t);
    if (k == 'd') { double a, b; memcpy(&a, &v, 8); memcpy(&b, &w, 8); symapi_assert((v == w) | ((a != a) & (b != b)), msg(what)); }
    else if (k == 'f') { float a, b; memcpy(&a, &v, 4); memcpy(&b, &w, 4); symapi_assert((v == w) | ((a != a) & (b != b)), msg(what)); }
    else symapi_assert_eq(v, w, msg(what));
    g_t++; g_c = 0; expect_nl(); return;
  }
  // text: two lines
  std::vector<u32> l;
  for (;;) {
    if (!more()) return bad("output ends early");
    if (symapi_out_kind(g_t) != 's' && symapi_out_kind(g_t) != 'c') return bad("text was expected");
    u32 c = symapi_out_kind(g_t) == 'c' ? (u32)symapi_out_val(g_t) : (u32)symapi_out_str(g_t)[g_c];
    expect_ch(c); l.push_back(c); if (c == '\n') break;
  }
  for (u32 c : l) expect_ch(c, what);
}
void expect_end() {
  if (more()) bad("more output than expected");
}
bool output_contains(const char *s) {
  std::wstring w(s, s + strlen(s));
  for (int i = 0; i < symapi_out_count(); i++)
    if (symapi_out_kind(i) == 's' && std::wstring(symapi_out_str(i)).find(w) != std::wstring::npos) return true;
  return false;
}
static void dump_output() {
  printf("OUTPUT: ");
  for (int i = 0; i < symapi_out_count(); i++) {
    int k = symapi_out_kind(i); u64 v = symapi_out_val(i);
    if (k == 'i') printf("<%lld>", (long long)v);
    else if (k == 'u') printf("<%llu>", (unsigned long long)v);
    else if (k == 'c') { if (v == '\n') printf("\\n"); else if (v >= 32 && v < 127) printf("%c", (int)v); else printf("<char %llx>", (unsigned long long)v); }
    else if (k == 'f') { u32 b = (u32)v; float f; memcpy(&f, &b, 4); printf("<%g>", f); }
    else if (k == 'd') { double f; memcpy(&f, &v, 8); printf("<%g>", f); }
    else for (const wchar_t *s = symapi_out_str(i); *s; s++) { if (*s == '\n') printf("\\n"); else if (*s >= 32 && *s < 127) printf("%c", (int)*s); else printf("<char %x>", (int)*s); }
  }
  printf("\n"); fflush(stdout);
}
}  // namespace h

// ---- C31: the cases of the other properties, compiled with optimisation ---------------------------------
// C31: the programs of other properties, compiled at the highest optimisation level
static void optimised_cases() {
  using namespace h;
  static const char *props[] = {"C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"};
  static const char *skip[] = {"C12 type_long", "C17 base_ctor", "C22 virtual_method", "C25 rethrow", "C25 finally_handles_exception"};  // known findings at every level
  auto &v = cases(); size_t n = v.size();
  for (size_t i = 0; i < n; i++) {
    bool in = false; for (auto p : props) in |= v[i].prop == p;
    for (auto k : skip) if (v[i].prop + " " + v[i].name == k) in = false;
    if (!in || v[i].name.compare(0, 4, "ctx_") == 0) continue;  // the ctx_ programs: too many to run twice
    auto f = v[i].run;
    v.push_back({"C31", "o3_" + v[i].prop + "_" + v[i].name, v[i].tier, [f] { optimise(3); f(); }});
  }
}
int main(int argc, char **argv) {
  using namespace h;
  optimised_cases();
  if (argc > 1 && !strcmp(argv[1], "--april")) return april::modules::april::__main(argc - 1, argv + 1);
  if (argc > 1 && !strcmp(argv[1], "--list")) {
    for (auto &c : cases()) printf("%s %s %s\n", c.prop.c_str(), c.name.c_str(), c.tier.c_str());
    return 0;
  }
  // --case PROP NAME SCRATCH APL
  if (argc < 6 || strcmp(argv[1], "--case")) { fprintf(stderr, "usage\n"); return 64; }
  g_scratch = argv[4]; g_apl = argv[5];
  const char *mode = getenv("SYM_MODE");
  if (!mode || strcmp(mode, "explore"))
    atexit([] { printf("REPLAY-ASSERT-FAILED the process exited inside the code under test\n"); fflush(stdout); _exit(75); });
  for (auto &c : cases()) if (c.prop == argv[2] && c.name == argv[3]) {
    c.run();
    if (!symapi_active()) dump_output();
    symapi_finish();
  }
  fprintf(stderr, "no such case\n"); return 65;
}
