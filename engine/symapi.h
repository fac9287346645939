// Harness API of the symbolic execution engine.  The engine's pass gives these functions the
// symbolic expression of each argument next to its concrete value.
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void symapi_make(void *p, uint32_t bytes, const char *name);   // fresh symbolic value at p
void symapi_assume(bool c);                                     // precondition: path ends if false
void symapi_assert(bool c, const char *what);                   // property
void symapi_assert_eq(uint64_t a, uint64_t b, const char *what);
void symapi_begin(void);                                        // start of the explored region
void symapi_note(const char *text);                             // free text in the trace
void symapi_observe(const char *name, uint64_t v);              // value the coordinator can look at
void symapi_finish(void);                                       // end of the explored region
int  symapi_active(void);                                       // 0 in inert / replay mode
void symapi_out_record(int on);     // record what goes to std::wcout as tokens
int symapi_out_count(void);
int symapi_out_kind(int i);         // 'i' signed, 'u' unsigned, 'c' character, 'f'/'d' bits, 's' text
uint64_t symapi_out_val(int i);     // value (symbolic); length for text
const wchar_t *symapi_out_str(int i);
#ifdef __cplusplus
}
static inline uint64_t sym_u64(const char *n) { uint64_t v; symapi_make(&v, 8, n); return v; }
static inline uint32_t sym_u32(const char *n) { uint32_t v; symapi_make(&v, 4, n); return v; }
static inline uint16_t sym_u16(const char *n) { uint16_t v; symapi_make(&v, 2, n); return v; }
static inline uint8_t  sym_u8(const char *n)  { uint8_t v;  symapi_make(&v, 1, n); return v; }
#endif
