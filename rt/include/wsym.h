// Primitives a harness uses.  Under wsym they are interpreted symbolically; in a
// replay they read the recorded counterexample (rt/native.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t wsym_sym(const char* name, unsigned bits);
void wsym_bytes(void* p, size_t n, const char* name);
void wsym_assume_(uint64_t c);
void wsym_assert_(uint64_t c, const char* id);
void wsym_fail(const char* kind, const char* msg);
void wsym_cover_(const char* id);
uint64_t wsym_conc(uint64_t x);
uint64_t wsym_is_sym(uint64_t x);
uint64_t wsym_ite(uint64_t c, uint64_t a, uint64_t b);
void wsym_print(const char* n, uint64_t x);
void wsym_stop(void);
int wsym_native(void);
int wsym_readable(const void* p, size_t n);
int wsym_thread_new(void (*fn)(void*), void* arg);
int wsym_thread_self(void);
void wsym_thread_switch(int tid);
void wsym_hb_release(const void* a);
void wsym_hb_acquire(const void* a);
#ifdef __cplusplus
}
#define sym_assume(c) wsym_assume_((c) ? 1 : 0)
#define sym_assert(c, id) wsym_assert_((c) ? 1 : 0, id)
#define sym_cover(id) wsym_cover_(id)
static inline int64_t sym_i64(const char* n) { return (int64_t)wsym_sym(n, 64); }
static inline uint64_t sym_u64(const char* n) { return wsym_sym(n, 64); }
static inline int32_t sym_i32(const char* n) { return (int32_t)wsym_sym(n, 32); }
static inline int16_t sym_i16(const char* n) { return (int16_t)wsym_sym(n, 16); }
static inline uint8_t sym_u8(const char* n) { return (uint8_t)wsym_sym(n, 8); }
static inline bool sym_bool(const char* n) { return wsym_sym(n, 1) != 0; }
// symbolic value in [lo, hi]
static inline int64_t sym_range(const char* n, int64_t lo, int64_t hi) {
  int64_t x = (int64_t)wsym_sym(n, 64);
  wsym_assume_((uint64_t)((x >= lo) & (x <= hi)));
  return x;
}
// forks into one path per value in [lo, hi]
static inline int64_t sym_choice(const char* n, int64_t lo, int64_t hi) {
  int64_t x = (int64_t)wsym_sym(n, 64);
  wsym_assume_((uint64_t)((x >= lo) & (x <= hi)));
  return (int64_t)wsym_conc((uint64_t)x);
}
#endif
