/* Instrumented re-implementations of libc functions that read data: compiled with the pass, so
   comparisons on symbolic bytes become ordinary decisions. Concrete ranges take the native path. */
#include <stddef.h>
#include <stdint.h>
int __sym_range_concrete(const void *p, uint64_t n);
int __sym_native_memcmp(const void *a, const void *b, size_t n);
void *__sym_native_memchr(const void *a, int c, size_t n);
int __symw_memcmp(const void *a, const void *b, size_t n) {
  if (__sym_range_concrete(a, n) && __sym_range_concrete(b, n)) return __sym_native_memcmp(a, b, n);
  const unsigned char *x = a, *y = b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int __symw_bcmp(const void *a, const void *b, size_t n) { return __symw_memcmp(a, b, n); }
void *__symw_memchr(const void *a, int c, size_t n) {
  if (__sym_range_concrete(a, n)) return __sym_native_memchr(a, c, n);
  const unsigned char *x = a;
  for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i);
  return 0;
}
size_t __symw_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int __symw_strcmp(const char *a, const char *b) {
  for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int __symw_strncmp(const char *a, const char *b, size_t n) {
  for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
size_t __symw_wcslen(const int32_t *s) { size_t n = 0; while (s[n]) n++; return n; }
int __symw_wcscmp(const int32_t *a, const int32_t *b) {
  for (;; a++, b++) { if (*a != *b) return *a < *b ? -1 : 1; if (!*a) return 0; }
}
int __symw_wmemcmp(const int32_t *a, const int32_t *b, size_t n) {
  for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
int32_t *__symw_wmemchr(const int32_t *a, int32_t c, size_t n) {
  for (size_t i = 0; i < n; i++) if (a[i] == c) return (int32_t *)(a + i);
  return 0;
}
/* libstdc++'s murmur hash (64 bit) */
static uint64_t mixs(uint64_t v) { return v ^ (v >> 47); }
size_t __symw__ZSt11_Hash_bytesPKvmm(const void *ptr, size_t len, size_t seed) {
  const uint64_t mul = (((uint64_t)0xc6a4a793UL) << 32) + (uint64_t)0x5bd1e995UL;
  const char *buf = ptr;
  const size_t al = len & ~(size_t)7;
  const char *end = buf + al;
  uint64_t hash = seed ^ (len * mul);
  for (const char *p = buf; p != end; p += 8) {
    uint64_t d; d = *(const uint64_t *)p;
    d = mixs(d * mul) * mul; hash ^= d; hash *= mul;
  }
  if (len & 7) {
    uint64_t d = 0; for (int i = (int)(len & 7) - 1; i >= 0; i--) d = (d << 8) + (unsigned char)end[i];
    hash ^= d; hash *= mul;
  }
  hash = mixs(hash) * mul; return mixs(hash);
}
int iswspace(unsigned), iswdigit(unsigned), iswalpha(unsigned); unsigned towupper(unsigned), towlower(unsigned);
int __symw_iswspace(unsigned c) { return c == ' ' || (c >= 9 && c <= 13) || c == 0x1680 || (c >= 0x2000 && c <= 0x2006) || (c >= 0x2008 && c <= 0x200a) || c == 0x2028 || c == 0x2029 || c == 0x205f || c == 0x3000; }
int __symw_iswdigit(unsigned c) { return c >= '0' && c <= '9'; }
int __symw_iswalpha(unsigned c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
unsigned __symw_towupper(unsigned c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
unsigned __symw_towlower(unsigned c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int __symw_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int __symw_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int __symw_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int __symw_isdigit(int c) { return c >= '0' && c <= '9'; }
int __symw_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int __symw_isalnum(int c) { return __symw_isalpha(c) || __symw_isdigit(c); }

/* wostream << const wchar_t * ; wostream << std::wstring ; __ostream_insert */
int __sym_is_out(void *o); void __sym_out_str(void *o, const int32_t *s, uint64_t n);
void *__symw__ZStlsIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_(void *o, const int32_t *s) {
  if (!s) return o;
  size_t n = 0; while (s[n]) n++;
  __sym_out_str(o, s, n); return o;
}
void *__symw__ZStlsIwSt11char_traitsIwESaIwEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE(void *o, const void *str) {
  const int32_t *s = *(const int32_t *const *)str; size_t n = *(const size_t *)((const char *)str + 8);
  __sym_out_str(o, s, n); return o;
}
void *__symw__ZSt16__ostream_insertIwSt11char_traitsIwEERSt13basic_ostreamIT_T0_ES6_PKS3_l(void *o, const int32_t *s, long n) {
  __sym_out_str(o, s, n); return o;
}

/* the mathematical library: uninterpreted functions (equal arguments give equal results) */
double __sym_native_math(int f, double x, double y);
void symapi_make(void *p, uint32_t bytes, const char *name); void symapi_assume(_Bool c); int symapi_active(void);
static struct { int f; uint64_t x, y; uint64_t r; } g_math[64]; static int g_nmath;
static double math(int f, double x, double y) {
  if (!symapi_active() || (__sym_range_concrete(&x, 8) && __sym_range_concrete(&y, 8)) || g_nmath >= 64) return __sym_native_math(f, x, y);
  uint64_t a = *(uint64_t *)&x, b = *(uint64_t *)&y, r; char n[] = "math_00"; int k = g_nmath++;
  n[5] += k / 10; n[6] += k % 10; symapi_make(&r, 8, n);
  for (int i = 0; i < k; i++) if (g_math[i].f == f) symapi_assume(((g_math[i].x ^ a) | (g_math[i].y ^ b)) != 0 | g_math[i].r == r);
  g_math[k].f = f; g_math[k].x = a; g_math[k].y = b; g_math[k].r = r;
  return *(double *)&r;
}
#define MATH(i, n) double __symw_##n(double x) { return math(i, x, 0); }
MATH(0, sin) MATH(1, cos) MATH(2, tan) MATH(3, asin) MATH(4, acos) MATH(5, atan) MATH(6, sinh) MATH(7, cosh) MATH(8, tanh)
MATH(9, asinh) MATH(10, acosh) MATH(11, atanh) MATH(12, log) MATH(13, log10)
double __symw_pow(double x, double y) { return math(14, x, y); }
double __symw_sqrt(double x) { return math(15, x, 0); }
