// helpers shared by the harnesses
#pragma once
#include <wsym.h>
#include "rt.h"
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
// exactly n bytes: any access outside is caught
static inline char* exactBuf(size_t n) { return (char*)malloc(n); }
static inline char* symBuf(size_t n, const char* name) { char* p = (char*)malloc(n); if (n) wsym_bytes(p, n, name); return p; }
// a non negative 64 bit value; mode 0 keeps three encoded lengths (1, 2 and 9 bytes), mode 1 all of them
static inline int64_t symPos(const char* name, long mode) {
  int64_t x = sym_i64(name);
  sym_assume(x >= 0);
  if (mode == 0) sym_assume((x < (1ll << 14)) | (x >= (1ll << 56)));
  return x;
}
static inline int64_t symPosFull(const char* name) { return symPos(name, 1); }
// string of any content of exactly n bytes
static inline std::string symStr(size_t n, const char* name) {
  std::string s(n, 'x');
  if (n) wsym_bytes(&s[0], n, name);
  return s;
}
static inline int64_t sym_conc_seq(int64_t x) { return (int64_t)wsym_conc((uint64_t)x); }
static inline bool sameStr(const std::string& a, const std::string& b) {
  if (a.size() != b.size()) return false;
  uint64_t d = 0;
  for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]);
  return d == 0;
}
