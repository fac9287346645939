#include <dlfcn.h>
// Runtime of the symbolic execution engine (not instrumented).  Expression DAG, shadow memory,
// path-constraint log, fork server.  One process = one concrete execution + its symbolic trace.
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <wchar.h>
#include <new>
#include "symapi.h"

typedef uint32_t E;
extern "C" {
E __sym_args[128];
uint64_t __sym_vals[128];
void *__sym_byval[128];
E __sym_ret[16];
void *__sym_callee;
void *__sym_retfn;
}

// ---- modes ----------------------------------------------------------------------------------
// inert: no symbolic values at all (plain execution, replay); server/child: exploring
static bool g_explore = false;      // SYM_MODE=explore
static bool g_active = false;       // some symbolic value exists in this process
static bool g_begun = false;
static const char *g_outpath = nullptr;
static bool g_dumped = false;

// ---- expression DAG ---------------------------------------------------------------------------
enum { OP_VAR = 1, OP_CONST, OP_BIN, OP_ICMP, OP_FBIN, OP_FCMP, OP_FNEG, OP_CAST, OP_SELECT,
       OP_EXTRACT, OP_CONCAT, OP_FMATH };
struct Node { uint8_t op, pad; uint16_t sub; uint16_t tc; uint16_t stc; E a, b, c; uint64_t imm, cval; };
static Node *N; static uint32_t nN = 1; static const uint32_t MAXN = 1u << 23;
static uint32_t *HT; static uint32_t HTN = 1u << 20; static uint32_t htUsed = 0;
static uint64_t g_mismatch = 0, g_stale = 0, g_concs = 0;

static inline uint64_t mask(uint64_t v, unsigned b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
static inline int64_t sx(uint64_t v, unsigned b) { return b >= 64 ? (int64_t)v : (int64_t)(v << (64 - b)) >> (64 - b); }

// ---- log --------------------------------------------------------------------------------------
enum { EV_BR = 1, EV_CONC, EV_ASSUME, EV_ASSERT, EV_NOTE, EV_OBS, EV_DIV };
struct Ev { uint8_t kind, taken; uint16_t pad; uint32_t site; E e; uint32_t str; uint64_t val; };
static Ev *EV; static uint32_t nEV = 0; static const uint32_t MAXEV = 1u << 21;
static char *STR; static uint32_t nSTR = 1; static const uint32_t MAXSTR = 1u << 22;
static uint32_t g_brlimit = 200000, nbr = 0;
static uint8_t *asserted; // bit per node: constraint already known true(1)/false(2)

struct Var { char name[48]; uint32_t bits; uint64_t val; };
static Var V[4096]; static uint32_t nV = 0;
struct In { char name[48]; uint64_t val; };
static In *INP; static uint32_t nINP = 0;

static void finish(int status, int info);

static uint32_t putstr(const char *s) {
  size_t n = strlen(s) + 1;
  if (nSTR + n > MAXSTR) return 0;
  memcpy(STR + nSTR, s, n); uint32_t r = nSTR; nSTR += n; return r;
}
static void *bigmap(size_t n) {
  void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(90); }
  return p;
}
static void init_tables() {
  if (N) return;
  N = (Node *)bigmap(sizeof(Node) * MAXN);
  HT = (uint32_t *)bigmap(4ull * HTN);
  EV = (Ev *)bigmap(sizeof(Ev) * MAXEV);
  STR = (char *)bigmap(MAXSTR);
  asserted = (uint8_t *)bigmap(MAXN);
}
static void logev(uint8_t k, uint8_t taken, uint32_t site, E e, uint32_t str, uint64_t val) {
  if (nEV >= MAXEV) finish(3, 1);
  EV[nEV++] = {k, taken, 0, site, e, str, val};
}
static void note(const char *fmt, ...) {
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  logev(EV_NOTE, 0, 0, 0, putstr(b), 0);
}

static E mk(uint8_t op, uint16_t sub, uint16_t tc, uint16_t stc, E a, E b, E c, uint64_t imm, uint64_t cval) {
  uint64_t h = op * 0x9E3779B97F4A7C15ull;
  auto mix = [&](uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
  mix(sub); mix(tc | (uint64_t)stc << 16); mix(a); mix(b); mix(c); mix(imm);
  uint32_t i = h & (HTN - 1);
  while (HT[i]) {
    Node &n = N[HT[i]];
    if (n.op == op && n.sub == sub && n.tc == tc && n.stc == stc && n.a == a && n.b == b && n.c == c && n.imm == imm) return HT[i];
    i = (i + 1) & (HTN - 1);
  }
  if (nN >= MAXN - 2 || htUsed > HTN * 3 / 4) finish(3, 2);
  N[nN] = {op, 0, sub, tc, stc, a, b, c, imm, cval};
  HT[i] = nN; htUsed++;
  return nN++;
}
static E mkconst(uint16_t tc, uint64_t v) { v = mask(v, tc & 0xff); return mk(OP_CONST, 0, tc, 0, 0, 0, 0, v, v); }
static inline E lift(E e, uint16_t tc, uint64_t v) { return e ? e : mkconst(tc, v); }

// LLVM opcodes (18)
enum { L_Add = 13, L_FAdd, L_Sub, L_FSub, L_Mul, L_FMul, L_UDiv, L_SDiv, L_FDiv, L_URem, L_SRem, L_FRem,
       L_Shl, L_LShr, L_AShr, L_And, L_Or, L_Xor };
enum { L_Trunc = 38, L_ZExt, L_SExt, L_FPToUI, L_FPToSI, L_UIToFP, L_SIToFP, L_FPTrunc, L_FPExt, L_PtrToInt, L_IntToPtr, L_BitCast };

static void mismatch(const char *what, unsigned op, uint64_t want, uint64_t got) {
  g_mismatch++;
  if (g_mismatch < 20) note("ENGINE-MISMATCH %s op=%u eval=%llx native=%llx", what, op, (unsigned long long)want, (unsigned long long)got);
}
// call sites in the code under test that handled a symbolic value
static uint64_t RA[1 << 14]; static uint32_t nRA = 0;
static uint64_t g_ra;
static inline void ra(void *p) {
  uint64_t a = (uint64_t)p; g_ra = a; uint32_t h = (a * 0x9E3779B97F4A7C15ull) >> 50;
  while (RA[h] && RA[h] != a) h = (h + 1) & ((1 << 14) - 1);
  if (!RA[h] && nRA < 12000) { RA[h] = a; nRA++; }
}
#define RAHERE ra(__builtin_return_address(0))
static void assert_known(E c, bool t) { asserted[c] |= t ? 1 : 2; }
static void refine(E c, bool t);
static void branch(uint8_t kind, E c, bool t, uint32_t site) {
  if (!c) return;
  if (N[c].cval != (uint64_t)t) mismatch("branch", kind, N[c].cval, t);
  if (N[c].op == OP_CONST) return;
  if (asserted[c]) return;   // same condition already decided on this path
  assert_known(c, t); refine(c, t);
  if (++nbr > g_brlimit) finish(3, 3);
  logev(kind, t, site, c, (uint32_t)g_ra, 0);
}
static E icmp_(unsigned pred, unsigned bits, E a, E b);
static void concretize(E e, uint32_t site) {
  if (!e || N[e].op == OP_CONST) return;
  if (N[e].tc & 0x100) {   // floating point: compare the bit pattern
    unsigned b = N[e].tc & 0xff;
    e = mk(OP_CAST, L_BitCast, b, N[e].tc, e, 0, 0, 0, N[e].cval);
  }
  unsigned b = N[e].tc & 0xff;
  E c = icmp_(32, b, e, mkconst(b, N[e].cval));
  if (N[c].op == OP_CONST || asserted[c]) return;
  assert_known(c, true); refine(c, true);
  g_concs++;
  if (++nbr > g_brlimit) finish(3, 3);
  logev(EV_CONC, 1, site, c, (uint32_t)g_ra, N[e].cval);
}

static uint64_t evalbin(unsigned op, unsigned b, uint64_t x, uint64_t y, bool &ok) {
  ok = true;
  switch (op) {
    case L_Add: return mask(x + y, b);
    case L_Sub: return mask(x - y, b);
    case L_Mul: return mask(x * y, b);
    case L_UDiv: if (!y) { ok = false; return 0; } return mask(x / y, b);
    case L_URem: if (!y) { ok = false; return 0; } return mask(x % y, b);
    case L_SDiv: if (!y || (sx(y, b) == -1)) { ok = y != 0; return mask(-x, b); } return mask((uint64_t)(sx(x, b) / sx(y, b)), b);
    case L_SRem: if (!y || (sx(y, b) == -1)) { ok = y != 0; return 0; } return mask((uint64_t)(sx(x, b) % sx(y, b)), b);
    case L_Shl: if (y >= b) { ok = false; return 0; } return mask(x << y, b);
    case L_LShr: if (y >= b) { ok = false; return 0; } return mask(x, b) >> y;
    case L_AShr: if (y >= b) { ok = false; return 0; } return mask((uint64_t)(sx(x, b) >> y), b);
    case L_And: return x & y;
    case L_Or: return x | y;
    case L_Xor: return x ^ y;
  }
  ok = false; return 0;
}
static bool evalicmp(unsigned p, unsigned b, uint64_t x, uint64_t y) {
  switch (p) {
    case 32: return x == y; case 33: return x != y;
    case 34: return x > y;  case 35: return x >= y; case 36: return x < y; case 37: return x <= y;
    case 38: return sx(x, b) > sx(y, b); case 39: return sx(x, b) >= sx(y, b);
    case 40: return sx(x, b) < sx(y, b); case 41: return sx(x, b) <= sx(y, b);
  }
  return false;
}
static E icmp_(unsigned pred, unsigned bits, E a, E b) {
  if (a == b) return mkconst(1, evalicmp(pred, bits, 0, 0));
  // (zext (icmp) ) ==/!= 0  ->  icmp / not icmp : keeps branch conditions canonical
  if ((pred == 32 || pred == 33) && N[b].op == OP_CONST && N[a].op == OP_CAST && N[a].sub == L_ZExt) {
    E s = N[a].a; unsigned sb = N[s].tc & 0xff;
    if (N[b].imm == mask(N[b].imm, sb)) return icmp_(pred, sb, s, mkconst(sb, N[b].imm));
  }
  if (bits == 1 && N[b].op == OP_CONST && (pred == 32 || pred == 33)) {
    bool same = (pred == 32) == (N[b].imm == 1);
    if (same) return a;
    if (N[a].op == OP_BIN && N[a].sub == L_Xor && N[N[a].b].op == OP_CONST && N[N[a].b].imm == 1) return N[a].a;
    return mk(OP_BIN, L_Xor, 1, 0, a, mkconst(1, 1), 0, 0, N[a].cval ^ 1);
  }
  return mk(OP_ICMP, pred, 1, bits, a, b, 0, 0, evalicmp(pred, bits, N[a].cval, N[b].cval));
}

extern "C" {

E __sym_bin(uint32_t code, E a, E b, uint64_t va, uint64_t vb, uint64_t vr) {
  if (!(a | b)) return 0;
  RAHERE;
  unsigned op = code >> 16, bits = code & 0xffff;
  if (a && N[a].cval != mask(va, bits)) mismatch("binA", op, N[a].cval, va);
  if (b && N[b].cval != mask(vb, bits)) mismatch("binB", op, N[b].cval, vb);
  a = lift(a, bits, va); b = lift(b, bits, vb);
  bool ok; uint64_t r = evalbin(op, bits, N[a].cval, N[b].cval, ok);
  // shift by >= width: x86 masks the amount; LLVM says poison.  Recorded, result pinned.
  if (!ok && (op == L_Shl || op == L_LShr || op == L_AShr)) {
    note("SHIFT-RANGE op=%u bits=%u amount=%llu", op, bits, (unsigned long long)N[b].cval);
    concretize(a, 0x51); concretize(b, 0x51); return 0;
  }
  if ((op == L_Shl || op == L_LShr || op == L_AShr) && N[b].op != OP_CONST) {
    E c = icmp_(36, bits, b, mkconst(bits, bits));   // amount < width, as a decision of its own
    branch(EV_BR, c, true, 0x5151);
  }
  if (ok && r != mask(vr, bits)) mismatch("bin", op, r, vr);
  // small simplifications
  if (N[b].op == OP_CONST) {
    uint64_t k = N[b].imm;
    if (k == 0 && (op == L_Add || op == L_Sub || op == L_Or || op == L_Xor || op == L_Shl || op == L_LShr || op == L_AShr)) return a;
    if (k == 1 && (op == L_Mul || op == L_UDiv || op == L_SDiv)) return a;
    if (k == 0 && (op == L_And || op == L_Mul)) return 0;
    if (op == L_And && k == mask(~0ull, bits)) return a;
  }
  if (N[a].op == OP_CONST) {
    uint64_t k = N[a].imm;
    if (k == 0 && (op == L_Add || op == L_Or || op == L_Xor)) return b;
    if (k == 1 && op == L_Mul) return b;
    if (k == 0 && (op == L_And || op == L_Mul)) return 0;
  }
  return mk(OP_BIN, op, bits, 0, a, b, 0, 0, mask(vr, bits));
}
E __sym_icmp(uint32_t code, E a, E b, uint64_t va, uint64_t vb, uint64_t vr) {
  if (!(a | b)) return 0;
  RAHERE;
  unsigned p = code >> 16, bits = code & 0xffff;
  if (a && N[a].cval != mask(va, bits)) mismatch("icmpA", p, N[a].cval, va);
  if (b && N[b].cval != mask(vb, bits)) mismatch("icmpB", p, N[b].cval, vb);
  a = lift(a, bits, va); b = lift(b, bits, vb);
  E r = icmp_(p, bits, a, b);
  if (N[r].cval != (vr & 1)) mismatch("icmp", p, N[r].cval, vr);
  return N[r].op == OP_CONST ? 0 : r;
}
E __sym_fbin(uint32_t code, E a, E b, uint64_t va, uint64_t vb, uint64_t vr) {
  if (!(a | b)) return 0;
  unsigned op = code >> 16, bits = code & 0xffff; uint16_t tc = bits | 0x100;
  a = lift(a, tc, va); b = lift(b, tc, vb);
  if (op == L_FRem) { concretize(a, 0x52); concretize(b, 0x52); note("UNSUP frem"); return 0; }
  return mk(OP_FBIN, op, tc, 0, a, b, 0, 0, vr);
}
E __sym_fneg(uint32_t bits, E a, uint64_t vr) {
  if (!a) return 0;
  return mk(OP_FNEG, 0, bits | 0x100, 0, a, 0, 0, 0, vr);
}
E __sym_math1(uint32_t code, E a, uint64_t va, uint64_t vr) {
  if (!a) return 0;
  return mk(OP_FMATH, code >> 16, code & 0xffff, 0, a, 0, 0, 0, vr);
}
E __sym_fcmp(uint32_t code, E a, E b, uint64_t va, uint64_t vb, uint64_t vr) {
  if (!(a | b)) return 0;
  unsigned p = code >> 16, bits = code & 0xffff; uint16_t tc = bits | 0x100;
  a = lift(a, tc, va); b = lift(b, tc, vb);
  return mk(OP_FCMP, p, 1, tc, a, b, 0, 0, vr & 1);
}
E __sym_cast(uint32_t code, E a, uint32_t, uint64_t vr) {
  if (!a) return 0;
  RAHERE;
  unsigned op = code >> 20; uint16_t st = (code >> 10) & 0x3ff, dt = code & 0x3ff;
  unsigned db = dt & 0xff, sb = st & 0xff;
  vr = mask(vr, db);
  if (op == L_Trunc) {
    // trunc(zext/sext x) -> x / smaller ext
    if (N[a].op == OP_CAST && (N[a].sub == L_ZExt || N[a].sub == L_SExt)) {
      E x = N[a].a; unsigned xb = N[x].tc & 0xff;
      if (xb == db) return x;
      if (xb < db) return mk(OP_CAST, N[a].sub, db, xb, x, 0, 0, 0, vr);
    }
    if (mask(N[a].cval, db) != vr) mismatch("trunc", op, N[a].cval, vr);
  } else if (op == L_ZExt) { if (N[a].cval != vr) mismatch("zext", op, N[a].cval, vr); }
  else if (op == L_SExt) { if (mask((uint64_t)sx(N[a].cval, sb), db) != vr) mismatch("sext", op, N[a].cval, vr); }
  else if (op == L_BitCast) {
    if (N[a].op == OP_CAST && N[a].sub == L_BitCast && N[N[a].a].tc == dt) return N[a].a;
  } else if (op == L_FPToUI || op == L_FPToSI) {
    // out-of-range conversion is undefined in C++; the harness must keep it out of the claim
    note("FPTOINT");
  }
  return mk(OP_CAST, op, dt, st, a, 0, 0, 0, vr);
}
E __sym_select(uint32_t tc, E c, uint64_t vc, E t, uint64_t vt, E f, uint64_t vf) {
  if (!(c | t | f)) return 0;
  if (!c) return (vc & 1) ? t : f;
  t = lift(t, tc, vt); f = lift(f, tc, vf);
  if (t == f) return t;
  return mk(OP_SELECT, 0, tc, 0, c, t, f, 0, (vc & 1) ? N[t].cval : N[f].cval);
}
E __sym_gep(E base, uint64_t vb, E idx, uint64_t vi, uint64_t scale) {
  if (!(base | idx)) return 0;
  if (idx) { E m = __sym_bin(L_Mul << 16 | 64, idx, 0, vi, scale, vi * scale);
    return __sym_bin(L_Add << 16 | 64, base, m, vb, vi * scale, vb + vi * scale); }
  return __sym_bin(L_Add << 16 | 64, base, 0, vb, vi * scale, vb + vi * scale);
}

// ---- shadow memory ---------------------------------------------------------------------------
}
struct SB { E e; uint32_t k; };           // byte k of expression e (little endian)
struct Page { uint64_t id; uint32_t live; SB b[4096]; };
static Page **PT; static const uint32_t PTN = 1u << 16; static uint32_t nPages = 0;
static inline Page *page(uint64_t a) {
  uint64_t id = a >> 12; uint32_t i = (id * 0x9E3779B1u) & (PTN - 1);
  while (PT[i]) { if (PT[i]->id == id) return PT[i]; i = (i + 1) & (PTN - 1); }
  return nullptr;
}
static Page *mkpage(uint64_t a) {
  uint64_t id = a >> 12; uint32_t i = (id * 0x9E3779B1u) & (PTN - 1);
  while (PT[i]) { if (PT[i]->id == id) return PT[i]; i = (i + 1) & (PTN - 1); }
  if (++nPages > PTN / 2) finish(3, 4);
  Page *p = (Page *)bigmap(sizeof(Page)); p->id = id; PT[i] = p; return p;
}
static inline SB getb(uint64_t a) { Page *p = page(a); return p ? p->b[a & 4095] : SB{0, 0}; }
static inline void setb(uint64_t a, SB s) {
  Page *p = s.e ? mkpage(a) : page(a);
  if (p) p->b[a & 4095] = s;
}
static E extract_byte(SB s) {
  Node &n = N[s.e];
  E e = s.e;
  if (n.tc & 0x100) e = mk(OP_CAST, L_BitCast, n.tc & 0xff, n.tc, e, 0, 0, 0, n.cval);
  unsigned bits = N[e].tc & 0xff;
  if (bits <= 8) {
    if (bits == 8) return e;
    return mk(OP_CAST, L_ZExt, 8, bits, e, 0, 0, 0, N[e].cval);
  }
  if (s.k * 8 >= bits) return mkconst(8, 0);
  return mk(OP_EXTRACT, 0, 8, bits, e, 0, 0, s.k * 8, (N[e].cval >> (s.k * 8)) & 0xff);
}
static bool range_any(uint64_t a, uint64_t n) {
  uint64_t end = a + n;
  for (uint64_t x = a; x < end;) {
    Page *p = page(x); uint64_t pe = (x | 4095) + 1; if (pe > end) pe = end;
    if (p) for (; x < pe; x++) if (p->b[x & 4095].e) return true;
    x = pe;
  }
  return false;
}
// ---- single-byte domains: table loads indexed by one 8-bit input stay symbolic ---------------------------
// For a node that depends on exactly one 8-bit input, VT gives its value for each of the 256 inputs;
// DOM holds the inputs still compatible with the single-input decisions of this path (a superset of
// the feasible ones).
struct VT { uint32_t var; uint64_t v[256]; };
static VT **VTAB; static uint8_t *VTBAD; static uint64_t DOM[4096][4]; static bool g_table = true;
static VT *vt(E n) {
  if (!g_table) return nullptr;
  if (!VTAB) { VTAB = (VT **)bigmap(sizeof(VT *) * (size_t)MAXN); VTBAD = (uint8_t *)bigmap(MAXN); }
  if (VTAB[n]) return VTAB[n];
  if (VTBAD[n]) return nullptr;
  Node x = N[n];
  VTBAD[n] = 1;                              // until computed
  if (x.tc & 0x100) return nullptr;
  VT *A = nullptr, *Bt = nullptr, *Ct = nullptr; bool ka = false, kb = false, kc = false;
  auto kid = [&](E k, VT *&T, bool &isc) -> bool {
    if (N[k].op == OP_CONST) { isc = true; return true; }
    T = vt(k); return T != nullptr;
  };
  switch (x.op) {
    case OP_VAR: if (x.tc != 8) return nullptr; break;
    case OP_BIN: case OP_ICMP: case OP_CONCAT: if (!kid(x.a, A, ka) || !kid(x.b, Bt, kb)) return nullptr; break;
    case OP_SELECT: if (!kid(x.a, A, ka) || !kid(x.b, Bt, kb) || !kid(x.c, Ct, kc)) return nullptr; break;
    case OP_CAST: if (x.sub < L_Trunc || x.sub > L_SExt || (x.stc & 0x100) || !kid(x.a, A, ka)) return nullptr; break;
    case OP_EXTRACT: if (!kid(x.a, A, ka)) return nullptr; break;
    default: return nullptr;
  }
  uint32_t var = x.op == OP_VAR ? (uint32_t)x.imm : A ? A->var : Bt ? Bt->var : Ct->var;
  if ((A && A->var != var) || (Bt && Bt->var != var) || (Ct && Ct->var != var)) return nullptr;
  VT *R = (VT *)malloc(sizeof(VT)); R->var = var;
  unsigned b = x.tc & 0xff, sb = x.stc & 0xff; bool ok;
  for (int i = 0; i < 256; i++) {
    uint64_t a = A ? A->v[i] : N[x.a].imm, bb = Bt ? Bt->v[i] : N[x.b].imm, c = Ct ? Ct->v[i] : N[x.c].imm, r = 0;
    switch (x.op) {
      case OP_VAR: r = i; break;
      case OP_BIN: r = evalbin(x.sub, b, a, bb, ok); break;
      case OP_ICMP: r = evalicmp(x.sub, sb, a, bb); break;
      case OP_CONCAT: r = a << (N[x.b].tc & 0xff) | bb; break;
      case OP_SELECT: r = (a & 1) ? bb : c; break;
      case OP_CAST: r = x.sub == L_SExt ? mask((uint64_t)sx(a, sb), b) : mask(a, b); break;
      case OP_EXTRACT: r = mask(a >> x.imm, b); break;
    }
    R->v[i] = r;
  }
  VTBAD[n] = 0; VTAB[n] = R; return R;
}
static void refine(E c, bool t) {
  VT *T = vt(c); if (!T) return;
  uint64_t *D = DOM[T->var];
  for (int i = 0; i < 256; i++) if ((T->v[i] & 1) != (uint64_t)t) D[i >> 6] &= ~(1ull << (i & 63));
}
static bool readable(uint64_t a, unsigned n) {
  static int fd[2] = {-1, -1};
  if (fd[0] < 0 && pipe(fd)) return false;
  char b[16]; if (write(fd[1], (void *)a, n) != (ssize_t)n) return false;
  return read(fd[0], b, n) == (ssize_t)n;
}
static E table_load(E pe, uint64_t p, unsigned bytes, unsigned bits, uint64_t val) {
  VT *T = vt(pe); if (!T || bits != bytes * 8) return 0;
  uint64_t *D = DOM[T->var];
  uint64_t vals[256]; int idx[256], n = 0;
  for (int i = 0; i < 256; i++) if (D[i >> 6] >> (i & 63) & 1) {
    uint64_t a = T->v[i];
    if (a + (1u << 20) - p > (2u << 20)) return 0;
    if (range_any(a, bytes) || !readable(a, bytes)) return 0;
    uint64_t v = 0; memcpy(&v, (void *)a, bytes);
    vals[n] = v; idx[n++] = i;
  }
  if (n < 1) return 0;
  E x = 0; { E q = pe; x = mk(OP_VAR, 0, 8, 0, 0, 0, 0, T->var, V[T->var].val); (void)q; }
  // most frequent value as default
  uint64_t def = vals[0]; int best = 0;
  for (int i = 0; i < n; i++) { int c = 0; for (int j = 0; j < n; j++) c += vals[j] == vals[i]; if (c > best) { best = c; def = vals[i]; } }
  E r = mkconst(bits, def);
  for (int i = n - 1; i >= 0; i--) if (vals[i] != def) {
    E c = icmp_(32, 8, x, mkconst(8, idx[i]));
    r = mk(OP_SELECT, 0, bits, 0, c, mkconst(bits, vals[i]), r, 0, N[c].cval ? vals[i] : N[r].cval);
  }
  if (N[r].cval != mask(val, bits)) { mismatch("table", 0, N[r].cval, val); return 0; }
  return r;
}
extern "C" {
int __sym_range_concrete(const void *p, uint64_t n) { return !g_active || !range_any((uint64_t)p, n); }

E __sym_load(void *p, E pe, uint32_t code, uint64_t val) {
  if (!g_active) return 0;
  if (pe) RAHERE;
  unsigned bytes = code & 0xff, bits = (code >> 8) & 0xff; bool fp = code & 0x10000;
  if (pe) {
    if (N[pe].cval != (uint64_t)p) mismatch("loadaddr", 0, N[pe].cval, (uint64_t)p);
    if (!fp) if (E r = table_load(pe, (uint64_t)p, bytes, bits, val)) return N[r].op == OP_CONST ? 0 : r;
    concretize(pe, 0xADD2);
  }
  uint64_t a = (uint64_t)p;
  Page *pg = page(a);
  if (!pg && (!(((a + bytes - 1) ^ a) & ~4095ull) || !page(a + bytes - 1))) return 0;
  SB s[8]; bool any = false;
  for (unsigned i = 0; i < bytes && i < 8; i++) { s[i] = getb(a + i); any |= s[i].e != 0; }
  if (!any) return 0;
  RAHERE;
  uint16_t tc = bits | (fp ? 0x100 : 0);
  val = mask(val, bits);
  // whole expression stored here?
  bool whole = s[0].e != 0;
  for (unsigned i = 0; i < bytes && whole; i++) whole = s[i].e == s[0].e && s[i].k == i;
  if (whole) {
    E e = s[0].e; unsigned eb = N[e].tc & 0xff; unsigned ebytes = (eb + 7) / 8;
    if (ebytes == bytes && eb == bits) {
      if (N[e].cval != val) goto stale;
      if ((N[e].tc & 0x100) == (tc & 0x100)) return e;
      return __sym_cast(L_BitCast << 20 | N[e].tc << 10 | tc, e, 0, val);
    }
  }
  {
    E r = 0; unsigned rb = 0;
    for (unsigned i = 0; i < bytes; i++) {
      uint64_t bv = (val >> (8 * i)) & 0xff;
      if (bits < 8) bv = *(uint8_t *)(a + i);
      E x = s[i].e ? extract_byte(s[i]) : mkconst(8, bv);
      if (N[x].cval != bv) goto stale;
      if (!r) { r = x; rb = 8; }
      else { uint64_t cv = N[r].cval | N[x].cval << rb; r = mk(OP_CONCAT, 0, rb + 8, 0, x, r, 0, 0, cv); rb += 8; }
    }
    if (bits < rb) { r = mk(OP_CAST, L_Trunc, bits, rb, r, 0, 0, 0, mask(N[r].cval, bits)); }
    if (N[r].op == OP_CONST) return 0;
    if (fp) return __sym_cast(L_BitCast << 20 | bits << 10 | tc, r, 0, val);
    return r;
  }
stale:
  g_stale++;
  if (g_stale < 10) note("STALE-SHADOW at %p", p);
  for (unsigned i = 0; i < bytes; i++) setb(a + i, {0, 0});
  return 0;
}
void __sym_store(void *p, E pe, uint32_t code, E e) {
  if (!g_active) return;
  unsigned bytes = code & 0xff;
  if (pe) { RAHERE; concretize(pe, 0xADD3); }
  uint64_t a = (uint64_t)p;
  if (!e) { for (unsigned i = 0; i < bytes; i++) setb(a + i, {0, 0}); return; }
  for (unsigned i = 0; i < bytes; i++) setb(a + i, {e, i});
}
void __sym_store_c(void *p, uint32_t bytes) {
  if (!g_active) return;
  uint64_t a = (uint64_t)p;
  Page *pg = page(a);
  if (!pg && (!(((a + bytes - 1) ^ a) & ~4095ull))) return;
  for (unsigned i = 0; i < bytes; i++) setb(a + i, {0, 0});
}
void __sym_memcpy(void *d, void *s, uint64_t n) {
  if (!g_active || !n || d == s) return;
  uint64_t D = (uint64_t)d, S = (uint64_t)s;
  bool sa = range_any(S, n);
  if (!sa) {
    for (uint64_t x = D, end = D + n; x < end;) {
      Page *p = page(x); uint64_t pe = (x | 4095) + 1; if (pe > end) pe = end;
      if (p) for (; x < pe; x++) p->b[x & 4095] = {0, 0};
      x = pe;
    }
    return;
  }
  if (D < S) for (uint64_t i = 0; i < n; i++) setb(D + i, getb(S + i));
  else for (uint64_t i = n; i-- > 0;) setb(D + i, getb(S + i));
}
void __sym_memset(void *d, E e, uint64_t n) {
  if (!g_active) return;
  uint64_t D = (uint64_t)d;
  if (e) { for (uint64_t i = 0; i < n; i++) setb(D + i, {e, 0}); return; }
  for (uint64_t x = D, end = D + n; x < end;) {
    Page *p = page(x); uint64_t pe = (x | 4095) + 1; if (pe > end) pe = end;
    if (p) for (; x < pe; x++) p->b[x & 4095] = {0, 0};
    x = pe;
  }
}
void __sym_clear(void *d, uint64_t n) { if (g_active) __sym_memset(d, 0, n); }
void __sym_unsup_mem(void *p, uint64_t n, uint32_t site) {
  if (!g_active) return;
  if (!range_any((uint64_t)p, n)) return;
  note("UNSUP-MEM size=%llu site=%x", (unsigned long long)n, site);
  for (uint64_t i = 0; i < n; i++) { SB s = getb((uint64_t)p + i); if (s.e) concretize(s.e, site); }
}
void __sym_byval_copy(void *dst, uint32_t k, uint64_t n) {
  if (!g_active) return;
  if (dst && __sym_byval[k]) __sym_memcpy(dst, __sym_byval[k], n);
}
void __sym_br(E c, uint64_t v, uint32_t site) { if (c) RAHERE; if (c) branch(EV_BR, c, v & 1, site); }
void __sym_switch(E e, uint64_t v, uint64_t *cases, uint32_t n, uint32_t site) {
  if (!e) return;
  RAHERE;
  unsigned bits = N[e].tc & 0xff;
  for (uint32_t i = 0; i < n; i++) {
    bool hit = mask(v, bits) == cases[i];
    E c = icmp_(32, bits, e, mkconst(bits, cases[i]));
    branch(EV_BR, c, hit, site + i);
    if (hit) break;
  }
}
void __sym_conc(E e, uint32_t site) { if (e) RAHERE; if (e) concretize(e, site); }
void __sym_divchk(uint32_t code, E a, E b, uint64_t va, uint64_t vb, uint32_t site) {
  if (!(a | b)) return;
  unsigned op = code >> 16, bits = code & 0xffff;
  E bb = lift(b, bits, vb), aa = lift(a, bits, va);
  if (b) branch(EV_DIV, icmp_(32, bits, bb, mkconst(bits, 0)), mask(vb, bits) == 0, site);
  if (op == L_SDiv || op == L_SRem) {
    uint64_t mn = 1ull << (bits - 1);
    if (bits < 32) return;                       // promoted by hardware: no trap
    bool tm = mask(vb, bits) == mask(~0ull, bits);
    if (b) branch(EV_DIV, icmp_(32, bits, bb, mkconst(bits, ~0ull)), tm, site + 1);
    if (tm && a) branch(EV_DIV, icmp_(32, bits, aa, mkconst(bits, mn)), mask(va, bits) == mn, site + 2);
  }
}

// ---- calls -------------------------------------------------------------------------------------
static void **FS; static const uint32_t FSN = 1u << 20; 
void __sym_register(void **fns, uint64_t n) {
  if (!FS) FS = (void **)bigmap(sizeof(void *) * FSN);
  for (uint64_t i = 0; i < n; i++) {
    uint32_t h = ((uint64_t)fns[i] * 0x9E3779B97F4A7C15ull) >> 44;
    while (FS[h] && FS[h] != fns[i]) h = (h + 1) & (FSN - 1);
    FS[h] = fns[i];
  }
}
static bool registered(void *f) {
  uint32_t h = ((uint64_t)f * 0x9E3779B97F4A7C15ull) >> 44;
  while (FS[h]) { if (FS[h] == f) return true; h = (h + 1) & (FSN - 1); }
  return false;
}
static const char *kPure[] = {  // externals that do not read the memory behind their pointers,
  // or read it without it mattering for data flow
  "free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdlPvSt11align_val_t", "__cxa_", "_Unwind_", "__dynamic_cast", "symapi_",
  "__symw_", "_ZSt18_Rb_tree_", "_ZSt28_Rb_tree_", "_ZSt29_Rb_tree_", "_ZNKSt8__detail20_Prime", "_ZNSt8__detail15_List_node",
  "pthread_", "_ZSt", "exit", "abort", nullptr};
void __sym_call_ext(void *target, uint32_t n, uint64_t ptrmask, const char *name) {
  if (!g_active) return;
  g_ra = (uint64_t)__builtin_return_address(0);
  if (registered(target)) return;
  if (name && !strncmp(name, "symapi_", 7)) return;
  if (name && !strncmp(name, "__symw_", 7)) return;
  for (uint32_t i = 0; i < n && i < 128; i++) if (__sym_args[i]) {
    note("EXT-ARG %s arg%u", name ? name : "?", i);
    concretize(__sym_args[i], 0xE7);
  }
  if (!name && n == 8) {     // codecvt::do_in(this, state, from, from_end, ..): reads exactly [from, from_end)
    Dl_info di; 
    if (dladdr(target, &di) && di.dli_sname && strstr(di.dli_sname, "codecvt") && strstr(di.dli_sname, "do_in")) {
      uint64_t a = __sym_vals[2], b = __sym_vals[3];
      if (b > a && range_any(a, b - a)) note("EXT-MEM codecvt::do_in");
      return;
    }
  }
  for (uint32_t i = 0; i < n && i < 64; i++) if (ptrmask >> i & 1) {
    uint64_t p = __sym_vals[i];
    if (p < 4096) continue;
    if (page(p) && range_any(p, 32)) {
      bool pure = false;
      if (name) for (auto k = kPure; *k; ++k) if (!strncmp(name, *k, strlen(*k))) pure = true;
      if (!pure) { if (name) note("EXT-MEM %s arg%u", name, i); else note("EXT-MEM @%llx from @%llx arg%u", (unsigned long long)target, (unsigned long long)g_ra, i); }
    }
  }
}
}  // extern C

// ---- libc wrappers that need native behaviour + shadow update ------------------------------------
static void carg(void *fn, int k) {
  g_ra = (uint64_t)fn;
  if (g_active && __sym_callee == fn) for (int i = 0; i < k; i++) if (__sym_args[i]) concretize(__sym_args[i], 0xE8);
  __sym_callee = nullptr;
}
static E arg(void *fn, int i) { return __sym_callee == fn ? __sym_args[i] : 0; }
extern "C" {
void *__symw_memcpy(void *d, const void *s, size_t n) { carg((void *)__symw_memcpy, 3); memcpy(d, s, n); __sym_memcpy(d, (void *)s, n); __sym_retfn = 0; return d; }
void *__symw_memmove(void *d, const void *s, size_t n) { carg((void *)__symw_memmove, 3); memmove(d, s, n); __sym_memcpy(d, (void *)s, n); __sym_retfn = 0; return d; }
void *__symw_memset(void *d, int c, size_t n) {
  E e = arg((void *)__symw_memset, 1); if (g_active && e) e = __sym_cast(L_Trunc << 20 | 32 << 10 | 8, e, 0, c & 0xff);
  if (__sym_callee == (void *)__symw_memset) { E z = __sym_args[1]; __sym_args[1] = 0; carg((void *)__symw_memset, 3); __sym_args[1] = z; }
  __sym_callee = nullptr; memset(d, c, n); __sym_memset(d, e, n); __sym_retfn = 0; return d;
}
wchar_t *__symw_wmemcpy(wchar_t *d, const wchar_t *s, size_t n) { carg((void *)__symw_wmemcpy, 3); wmemcpy(d, s, n); __sym_memcpy(d, (void *)s, n * 4); __sym_retfn = 0; return d; }
wchar_t *__symw_wmemmove(wchar_t *d, const wchar_t *s, size_t n) { carg((void *)__symw_wmemmove, 3); wmemmove(d, s, n); __sym_memcpy(d, (void *)s, n * 4); __sym_retfn = 0; return d; }
wchar_t *__symw_wmemset(wchar_t *d, wchar_t c, size_t n) {
  E e = arg((void *)__symw_wmemset, 1);
  E n_ = arg((void *)__symw_wmemset, 2); if (n_) concretize(n_, 0xE9);
  __sym_callee = nullptr; wmemset(d, c, n);
  for (size_t i = 0; i < n; i++) __sym_store(d + i, 0, 4 | 32 << 8, e);
  __sym_retfn = 0; return d;
}
void *__symw_malloc(size_t n) { carg((void *)__symw_malloc, 1); void *p = malloc(n); __sym_memset(p, 0, n); __sym_retfn = 0; return p; }
void *__symw_calloc(size_t m, size_t n) { carg((void *)__symw_calloc, 2); void *p = calloc(m, n); __sym_memset(p, 0, m * n); __sym_retfn = 0; return p; }
void *__symw_realloc(void *q, size_t n) {
  carg((void *)__symw_realloc, 2); void *p = realloc(q, n);
  if (q && p != q && g_active) note("REALLOC-MOVED");
  __sym_retfn = 0; return p;
}
void __symw_free(void *p) { __sym_callee = nullptr; free(p); }
void *__symw__Znwm(size_t n) { carg((void *)__symw__Znwm, 1); void *p = ::operator new(n); __sym_memset(p, 0, n); __sym_retfn = 0; return p; }
void *__symw__Znam(size_t n) { carg((void *)__symw__Znam, 1); void *p = ::operator new[](n); __sym_memset(p, 0, n); __sym_retfn = 0; return p; }
void *__symw__ZnwmSt11align_val_t(size_t n, std::align_val_t a) { carg((void *)__symw__ZnwmSt11align_val_t, 1); void *p = ::operator new(n, a); __sym_memset(p, 0, n); __sym_retfn = 0; return p; }
// native versions for the fast paths of rtwrap.c
double __sym_native_math(int f, double x, double y) {
  static double (*const t[])(double) = {sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, log, log10};
  return f == 14 ? pow(x, y) : f == 15 ? sqrt(x) : t[f](x);
}
int __sym_native_memcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *__sym_native_memchr(const void *a, int c, size_t n) { return (void *)memchr(a, c, n); }
}

// ---- std::wcout: what the program prints, recorded as tokens -----------------------------------------
#include <iostream>
#include <string>
struct Tok { int kind; E e; uint64_t v; wchar_t *s; uint64_t n; };
static Tok *TK; static uint32_t nTK = 0; static bool g_rec = false; static const uint32_t MAXTK = 1u << 16;
static void tok(int kind, E e, uint64_t v, wchar_t *s = nullptr, uint64_t n = 0) {
  if (!TK) TK = (Tok *)bigmap(sizeof(Tok) * MAXTK);
  if (nTK >= MAXTK) finish(3, 6);
  TK[nTK++] = {kind, e, v, s, n};
}
#define IS_OUT(o) (g_rec && (o) == &std::wcout)
#define OSIG(m) _ZNSt13basic_ostreamIwSt11char_traitsIwEElsE##m
#define CAT(a, b) a##b
#define XCAT(a, b) CAT(a, b)
#define OUTINT(m, T, K)                                                                        \
  std::wostream *XCAT(__symw_, OSIG(m))(std::wostream *o, T v) {                                 \
    void *self = (void *)XCAT(__symw_, OSIG(m)); E e = arg(self, 1);                             \
    if (!IS_OUT(o)) { carg(self, 2); *o << v; __sym_retfn = 0; return o; }                       \
    __sym_callee = nullptr; __sym_retfn = 0;                                                     \
    if (e) e = (K) == 'i' ? (sizeof(T) == 8 ? e : __sym_cast(L_SExt << 20 | sizeof(T) * 8 << 10 | 64, e, 0, (uint64_t)(int64_t)v)) \
                          : (sizeof(T) == 8 ? e : __sym_cast(L_ZExt << 20 | sizeof(T) * 8 << 10 | 64, e, 0, (uint64_t)v)); \
    tok(K, e, (K) == 'i' ? (uint64_t)(int64_t)v : (uint64_t)v); return o;                        \
  }
extern "C" {
OUTINT(s, short, 'i') OUTINT(i, int, 'i') OUTINT(l, long, 'i') OUTINT(x, long long, 'i')
OUTINT(t, unsigned short, 'u') OUTINT(j, unsigned, 'u') OUTINT(m, unsigned long, 'u') OUTINT(y, unsigned long long, 'u')
OUTINT(b, bool, 'u')
std::wostream *__symw__ZNSt13basic_ostreamIwSt11char_traitsIwEElsEf(std::wostream *o, float v) {
  void *self = (void *)__symw__ZNSt13basic_ostreamIwSt11char_traitsIwEElsEf; E e = arg(self, 1);
  if (!IS_OUT(o)) { carg(self, 2); *o << v; __sym_retfn = 0; return o; }
  __sym_callee = nullptr; __sym_retfn = 0;
  uint32_t u; memcpy(&u, &v, 4); tok('f', e, u); return o;
}
std::wostream *__symw__ZNSt13basic_ostreamIwSt11char_traitsIwEElsEd(std::wostream *o, double v) {
  void *self = (void *)__symw__ZNSt13basic_ostreamIwSt11char_traitsIwEElsEd; E e = arg(self, 1);
  if (!IS_OUT(o)) { carg(self, 2); *o << v; __sym_retfn = 0; return o; }
  __sym_callee = nullptr; __sym_retfn = 0;
  uint64_t u; memcpy(&u, &v, 8); tok('d', e, u); return o;
}
std::wostream *__symw__ZNSt13basic_ostreamIwSt11char_traitsIwEElsEPFRS2_S3_E(std::wostream *o, std::wostream &(*f)(std::wostream &)) {
  void *self = (void *)__symw__ZNSt13basic_ostreamIwSt11char_traitsIwEElsEPFRS2_S3_E;
  std::wostream &(*endl_)(std::wostream &) = std::endl<wchar_t, std::char_traits<wchar_t>>;
  carg(self, 2); __sym_retfn = 0;
  if (!IS_OUT(o)) { f(*o); return o; }
  if (f == endl_) tok('c', 0, '\n'); else f(*o);
  return o;
}
// std::endl / std::flush called directly
std::wostream *__symw__ZSt4endlIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_(std::wostream *o) {
  __sym_callee = nullptr; __sym_retfn = 0;
  if (IS_OUT(o)) tok('c', 0, '\n'); else *o << std::endl;
  return o;
}
// operator<<(wostream &, wchar_t)
std::wostream *__symw__ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_S3_(std::wostream *o, wchar_t v) {
  void *self = (void *)__symw__ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_S3_; E e = arg(self, 1);
  if (!IS_OUT(o)) { carg(self, 2); *o << v; __sym_retfn = 0; return o; }
  __sym_callee = nullptr; __sym_retfn = 0;
  if (e) e = __sym_cast(L_ZExt << 20 | 32 << 10 | 64, e, 0, (uint32_t)v);
  tok('c', e, (uint32_t)v); return o;
}
// operator<<(wostream &, char)
std::wostream *__symw__ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_c(std::wostream *o, char v) {
  void *self = (void *)__symw__ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_c; E e = arg(self, 1);
  if (!IS_OUT(o)) { carg(self, 2); *o << v; __sym_retfn = 0; return o; }
  __sym_callee = nullptr; __sym_retfn = 0;
  if (e) e = __sym_cast(L_ZExt << 20 | 8 << 10 | 64, e, 0, (uint8_t)v);
  tok('c', e, (uint8_t)v); return o;
}
// strings arrive here with their length (rtwrap.c)
int __sym_is_out(void *o) { return IS_OUT((std::wostream *)o); }
void __sym_out_str(void *o, const wchar_t *s, uint64_t n) {
  if (!IS_OUT((std::wostream *)o)) {
    if (g_active && n && range_any((uint64_t)s, n * 4)) note("EXT-MEM wostream<<string");
    ((std::wostream *)o)->write(s, n); return;
  }
  wchar_t *c = (wchar_t *)malloc(4 * n + 4); memcpy(c, s, 4 * n); c[n] = 0;
  __sym_memset(c, 0, 4 * n + 4); __sym_memcpy(c, (void *)s, 4 * n);
  tok('s', 0, n, c, n);
}
// ---- files: the assembly the compiler writes is read back by the loader in the same run ----------------
struct Img { uint8_t *d; SB *sh; uint64_t n; bool sym; void *o; };
static const unsigned MAXIMG = 4; static Img IMG[MAXIMG]; static unsigned nIMG = 0; static bool fiSym = false; static const uint64_t MAXFI = 1u << 22;
std::ostream *__symw__ZNSo5writeEPKcl(std::ostream *o, const char *s, long n) {
  carg((void *)__symw__ZNSo5writeEPKcl, 3); __sym_retfn = 0;
  if (g_active && n > 0) {
    int64_t off = (int64_t)o->tellp();
    Img *m = nullptr;
    if (off == 0) {          // a new file (or an old one written again)
      m = &IMG[nIMG++ % MAXIMG];
      if (!m->d) { m->d = (uint8_t *)bigmap(MAXFI); m->sh = (SB *)bigmap(MAXFI * sizeof(SB)); }
      memset(m->sh, 0, m->n * sizeof(SB)); m->n = 0; m->sym = false; m->o = o;
    } else for (unsigned i = 0; i < MAXIMG && !m; i++) if (IMG[(nIMG - 1 - i) % MAXIMG].o == o) m = &IMG[(nIMG - 1 - i) % MAXIMG];
    if (m && off >= 0 && off + (uint64_t)n <= MAXFI) {
      for (long i = 0; i < n; i++) { SB b = getb((uint64_t)s + i); m->d[off + i] = s[i]; m->sh[off + i] = b; if (b.e) { m->sym = true; fiSym = true; } }
      if (off + (uint64_t)n > m->n) m->n = off + n;
    } else { bool sy = false; for (long i = 0; i < n; i++) if (getb((uint64_t)s + i).e) sy = true; if (sy) note("EXT-MEM file write out of model"); }
  }
  o->write(s, n); return o;
}
// the written image that the file behind f holds, by its whole content
static Img *image_of(std::istream *f) {
  static struct { std::istream *f; Img *m; } last;
  std::streampos p = f->tellg(); if ((int64_t)p < 0) return nullptr;
  if ((int64_t)p != 0 && last.f == f) return last.m;
  f->seekg(0, std::ios::end); int64_t len = (int64_t)f->tellg(); last.f = f; last.m = nullptr;
  if (len > 0 && len < (int64_t)MAXFI) for (unsigned i = 0; i < MAXIMG && !last.m; i++) {
    Img *m = &IMG[(nIMG + MAXIMG - 1 - i) % MAXIMG]; if (!m->d || !m->sym || m->n != (uint64_t)len) continue;
    static char buf[4096]; bool same = true; f->seekg(0);
    for (int64_t o = 0; o < len && same; o += sizeof buf) { int64_t k = len - o < (int64_t)sizeof buf ? len - o : (int64_t)sizeof buf; f->read(buf, k); same = !memcmp(buf, m->d + o, k); }
    if (same) last.m = m;
  }
  f->clear(); f->seekg(p); return last.m;
}
std::istream *__symw__ZNSi4readEPcl(std::istream *f, char *s, long n) {
  carg((void *)__symw__ZNSi4readEPcl, 3); __sym_retfn = 0;
  Img *m = nullptr; int64_t off = -1;
  if (g_active && fiSym && f->good()) { m = image_of(f); off = (int64_t)f->tellg(); }
  f->read(s, n);
  if (g_active) {
    long got = f->gcount();
    __sym_memset(s, 0, n);
    if (m && off >= 0 && (uint64_t)off + got <= m->n)
      for (long i = 0; i < got; i++) if (m->sh[off + i].e) setb((uint64_t)s + i, m->sh[off + i]);
  }
  return f;
}
long __sym_native_wread(void *f, wchar_t *s, long n) { std::wistream *i = (std::wistream *)f; i->read(s, n); long g = i->gcount(); __sym_memset(s, 0, n * 4); return g; }
void symapi_out_record(int on) { __sym_callee = nullptr; g_rec = on; nTK = 0; }
int symapi_out_count(void) { __sym_retfn = 0; return nTK; }
int symapi_out_kind(int i) { __sym_callee = nullptr; __sym_retfn = 0; return TK[i].kind; }
uint64_t symapi_out_val(int i) {
  __sym_callee = nullptr; E e = TK[i].e;
  if (e) { if (N[e].tc & 0x100) e = mk(OP_CAST, L_BitCast, N[e].tc & 0xff, N[e].tc, e, 0, 0, 0, N[e].cval);
           if ((N[e].tc & 0xff) < 64) e = mk(OP_CAST, L_ZExt, 64, N[e].tc & 0xff, e, 0, 0, 0, N[e].cval);
           __sym_ret[0] = e; __sym_retfn = (void *)symapi_out_val; }
  else __sym_retfn = 0;
  return TK[i].v;
}
const wchar_t *symapi_out_str(int i) { __sym_callee = nullptr; __sym_retfn = 0; return TK[i].s; }
}

// ---- harness API ---------------------------------------------------------------------------------
static void wr(int fd, const void *p, size_t n) {
  const char *c = (const char *)p;
  while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(91); c += k; n -= k; }
}
// status: 0 finished, 1 assume false, 2 signal(info), 3 resource limit(info), 4 exit(info)
static void finish(int status, int info) {
  if (g_explore && g_outpath && !g_dumped) {
    g_dumped = true;
    int fd = open(g_outpath, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    uint32_t h[10] = {0x53594d31, (uint32_t)status, (uint32_t)info, nV, nN, nEV, nSTR, (uint32_t)g_mismatch, (uint32_t)g_stale, (uint32_t)g_concs};
    wr(fd, h, sizeof h);
    for (uint32_t i = 0; i < nV; i++) wr(fd, &V[i], sizeof(Var));
    wr(fd, N, sizeof(Node) * (size_t)nN);
    wr(fd, EV, sizeof(Ev) * (size_t)nEV);
    wr(fd, STR, nSTR);
    wr(fd, &nRA, 4); for (uint32_t i = 0; i < 1 << 14; i++) if (RA[i]) wr(fd, &RA[i], 8);
    close(fd);
  }
  _exit(status == 0 ? 0 : status == 2 ? 70 : status == 1 ? 71 : status == 3 ? 72 : 73);
}
static void onsig(int s) { finish(2, s); }
static void onexit() { if (g_explore && g_begun && !g_dumped) finish(4, 0); }

static void parse_inputs(char *line) {   // "name=hex name=hex ..."
  nINP = 0;
  for (char *t = strtok(line, " \n"); t; t = strtok(nullptr, " \n")) {
    char *q = strchr(t, '='); if (!q) continue; *q = 0;
    In &x = INP[nINP++]; strncpy(x.name, t, 47); x.name[47] = 0; x.val = strtoull(q + 1, nullptr, 16);
  }
}
static uint64_t lookup(const char *n) {
  for (uint32_t i = 0; i < nINP; i++) if (!strcmp(INP[i].name, n)) return INP[i].val;
  return 0;
}
static void begin() {
  if (g_begun) return;
  g_begun = true;
  INP = (In *)bigmap(sizeof(In) * 4096);
  const char *m = getenv("SYM_MODE");
  if (!m) m = "replay";
  if (!strcmp(m, "explore")) {
    g_explore = true;
    // fork server on fds 198 (commands) / 199 (replies)
    static char line[1 << 20];
    FILE *in = fdopen(198, "r");
    init_tables(); PT = (Page **)bigmap(sizeof(Page *) * PTN);
    if (write(199, "R\n", 2) != 2) _exit(92);
    for (;;) {
      if (!fgets(line, sizeof line, in)) _exit(0);
      // "<outpath> <timeout> name=hex ..."
      char *sp = strchr(line, ' '); if (!sp) _exit(93); *sp = 0;
      char *rest = sp + 1; int tmo = strtol(rest, &rest, 10);
      fflush(stdout); fflush(stderr);
      pid_t pid = fork();
      if (pid == 0) {
        g_outpath = strdup(line);
        parse_inputs(rest);
        static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
        struct sigaction sa = {}; sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM, SIGTERM}) sigaction(s, &sa, nullptr);
        atexit(onexit);
        if (tmo > 0) alarm(tmo);
        g_active = true;
        return;
      }
      int st = 0; waitpid(pid, &st, 0);
      char b[64]; int k = snprintf(b, sizeof b, "%d %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
      if (write(199, b, k) != k) _exit(92);
    }
  }
  // replay: inputs from SYM_INPUT
  const char *s = getenv("SYM_INPUT");
  if (s) { static char buf[1 << 20]; strncpy(buf, s, sizeof buf - 1); parse_inputs(buf); }
}
static int g_replay_fail = 0;
extern "C" {
int symapi_active(void) { return g_explore; }
void symapi_make(void *p, uint32_t bytes, const char *name) {
  __sym_callee = nullptr;
  begin();
  uint64_t v = lookup(name);
  memcpy(p, &v, bytes);
  if (!g_explore) return;
  if (nV >= 4096) finish(3, 5);
  for (auto &d : DOM[nV]) d = ~0ull;
  Var &x = V[nV]; strncpy(x.name, name, 47); x.bits = bytes * 8; x.val = mask(v, bytes * 8);
  E e = mk(OP_VAR, 0, bytes * 8, 0, 0, 0, 0, nV, x.val); nV++;
  __sym_store(p, 0, bytes | (bytes * 8) << 8, e);
}
void symapi_assume(bool c) {
  E e = arg((void *)symapi_assume, 0); __sym_callee = nullptr;
  if (g_explore) {
    if (e && N[e].op != OP_CONST) branch(EV_ASSUME, e, c, 0xA55);
    if (!c) finish(1, 0);
  } else if (!c) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(74); }
}
void symapi_assert(bool c, const char *what) {
  E e = arg((void *)symapi_assert, 0); __sym_callee = nullptr;
  begin();
  if (g_explore) logev(EV_ASSERT, c, 0, e, putstr(what), c);
  else if (!c) { printf("REPLAY-ASSERT-FAILED %s\n", what); fflush(stdout); g_replay_fail = 1; }
}
void symapi_assert_eq(uint64_t a, uint64_t b, const char *what) {
  E x = arg((void *)symapi_assert_eq, 0), y = arg((void *)symapi_assert_eq, 1); __sym_callee = nullptr;
  begin();
  if (g_explore) {
    E e = 0;
    if (x | y) { x = lift(x, 64, a); y = lift(y, 64, b); e = mk(OP_ICMP, 32, 1, 64, x, y, 0, 0, a == b); }
    logev(EV_ASSERT, a == b, 0, e, putstr(what), a == b);
  } else if (a != b) { printf("REPLAY-ASSERT-FAILED %s: got %llx, expected %llx\n", what, (unsigned long long)a, (unsigned long long)b); fflush(stdout); g_replay_fail = 1; }
}
void symapi_begin(void) { begin(); }
void symapi_note(const char *t) {
  __sym_callee = nullptr;
  if (g_explore) note("H:%s", t); else { printf("NOTE %s\n", t); fflush(stdout); }
}
void symapi_observe(const char *name, uint64_t v) {
  E e = arg((void *)symapi_observe, 1); __sym_callee = nullptr;
  if (g_explore) logev(EV_OBS, 0, 0, e, putstr(name), v);
  else { printf("OBS %s=%llx\n", name, (unsigned long long)v); fflush(stdout); }
}
void symapi_finish(void) {
  begin();
  if (g_explore) finish(0, 0);
  fflush(stdout); _exit(g_replay_fail ? 75 : 0);
}
}
