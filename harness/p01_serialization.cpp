#include "common.h"
#include <wdt/util/SerializationUtil.h>
using namespace facebook::wdt;
using folly::ByteRange;
static ByteRange rng(const char* b, size_t n) { return ByteRange((const uint8_t*)b, n); }
// ---- varint, unsigned: encode then decode for every 64 bit value, every capacity and position
extern "C" void h_varu64(long) {
  uint64_t v = sym_u64("v");
  int64_t cap = sym_choice("cap", 0, 12);
  int64_t pos = sym_choice("pos", 0, cap);
  char* buf = exactBuf(cap);
  memset(buf, 0x5a, cap);
  int64_t p = pos;
  bool ok = encodeVarU64(buf, cap, p, v);
  if (!ok) {
    sym_cover("enc_fail");
    sym_assert(p == pos, "a failed encode leaves the offset unchanged");
    int64_t room = cap - pos;
    // it needs one byte per started group of 7 bits, 9 at most
    sym_assert(room < 9, "encoding a varint fails only for lack of room");
    if (room > 0) sym_assert(v >> (7 * room) != 0, "encoding a varint fails only if it does not fit");
  } else {
    sym_cover("enc_ok");
    sym_assert(p > pos && p <= cap && p - pos <= 9, "an encoded varint occupies 1 to 9 bytes inside the buffer");
    uint64_t r = 0;
    int64_t q = pos;
    bool d = decodeVarU64(buf, p, q, r);
    sym_assert(d, "decoding what was encoded succeeds");
    sym_assert(r == v, "decode(encode(v)) == v");
    sym_assert(q == p, "decoding consumes exactly the encoded bytes");
    // cut short: refused
    uint64_t r2 = 0;
    int64_t q2 = pos;
    if (p - 1 > pos) sym_assert(!decodeVarU64(buf, p - 1, q2, r2), "a cut varint is refused");
  }
  for (int64_t i = 0; i < pos; i++) sym_assert(buf[i] == (char)0x5a, "encode leaves bytes before the offset alone");
  free(buf);
}
extern "C" void h_varu64_neg(long) {
  char buf[16] = {0};
  int64_t p = sym_i64("pos");
  sym_assume(p < 0);
  int64_t q = p;
  uint64_t r;
  sym_assert(!encodeVarU64(buf, 16, p, 5), "negative positions are refused (encode)");
  sym_assert(!decodeVarU64(buf, 16, q, r), "negative positions are refused (decode)");
  sym_cover("neg");
}
extern "C" void h_vari64(long) {
  int64_t v = sym_i64("v");
  sym_assert(decodeZigZag(encodeZigZag(v)) == v, "zigzag is inverse");
  uint64_t u = sym_u64("u");
  sym_assert(encodeZigZag(decodeZigZag(u)) == u, "zigzag is onto");
  char* buf = exactBuf(9);
  int64_t p = 0, r = 0, q = 0;
  sym_assert(encodeVarI64(buf, 9, p, v), "every signed value fits 9 bytes");
  sym_assert(decodeVarI64(buf, p, q, r) && r == v && q == p, "signed varint round trip");
  ByteRange br = rng(buf, p);
  int64_t r64 = 0;
  sym_assert(decodeInt64(br, r64) && r64 == v && br.empty(), "signed range decode round trip");
  ByteRange br2 = rng(buf, p);
  int32_t r32 = 0;
  bool fits = v >= INT32_MIN && v <= INT32_MAX;
  bool ok = decodeInt32(br2, r32);
  sym_assert(ok == fits, "a 32 bit decode succeeds exactly when the value fits");
  if (ok) { sym_cover("fits"); sym_assert(r32 == v && br2.empty(), "32 bit round trip"); }
  else { sym_cover("nofit"); sym_assert(br2.size() == (size_t)p, "a refused 32 bit value is not consumed"); }
  // magnitude: n bytes are enough for 7n-1 bit magnitudes
  int64_t m = v < 0 ? -(v + 1) : v;
  if (p < 9) sym_assert(m < (1ll << (7 * p - 1)), "signed varints use the least number of bytes");
  if (p > 1 && p < 9) sym_assert(m >= (1ll << (7 * (p - 1) - 1)), "signed varints are not longer than needed");
  free(buf);
}
extern "C" void h_vari64c(long) {
  int64_t v = sym_i64("v");
  sym_assume(v >= 0);
  char* buf = exactBuf(9);
  int64_t p = 0;
  sym_assert(encodeVarI64C(buf, 9, p, v), "every non negative value fits 9 bytes");
  ByteRange br = rng(buf, p);
  int64_t r = 0;
  sym_assert(decodeInt64C(br, r) && r == v && br.empty(), "positive varint round trip");
  ByteRange b2 = rng(buf, p);
  int32_t r32 = 0;
  bool ok = decodeInt32C(b2, r32);
  sym_assert(ok == (v <= INT32_MAX), "a positive 32 bit decode succeeds exactly when the value fits");
  if (ok) sym_assert(r32 == v && b2.empty(), "positive 32 bit round trip");
  else { sym_assert(b2.size() == (size_t)p, "a refused positive 32 bit value is not consumed"); sym_cover("nofit"); }
  free(buf);
}
// std::string versions
extern "C" void h_varstring(long) {
  uint64_t v = sym_u64("v");
  int64_t s = sym_i64("s");
  std::string b;
  size_t n = encodeVarU64(b, v);
  sym_assert(n == b.size() && n >= 1 && n <= 9, "string varint length");
  uint64_t r = 0;
  int64_t p = 0;
  sym_assert(decodeVarU64(b.data(), b.size(), p, r) && r == v && p == (int64_t)n, "string varint round trip");
  std::string b2;
  size_t n2 = encodeVarI64(b2, s);
  int64_t p2 = 0, r2 = 0;
  sym_assert(decodeVarI64(b2.data(), b2.size(), p2, r2) && r2 == s && p2 == (int64_t)n2 && n2 == b2.size(), "string signed varint round trip");
}
// fixed width integers
extern "C" void h_fixed(long) {
  int64_t cap = sym_choice("cap", 0, 10);
  int64_t pos = sym_choice("pos", 0, cap);
  int which = (int)sym_choice("width", 0, 2);
  char* buf = exactBuf(cap);
  memset(buf, 0x5a, cap);
  int64_t v = sym_i64("v");
  int64_t p = pos;
  int w = which == 0 ? 2 : which == 1 ? 4 : 8;
  bool ok = which == 0 ? encodeInt16FixedLength(buf, cap, p, (int16_t)v) : which == 1 ? encodeInt32FixedLength(buf, cap, p, (int32_t)v) : encodeInt64FixedLength(buf, cap, p, v);
  sym_assert(ok == (pos + w <= cap), "a fixed width integer is written exactly when it fits");
  sym_assert(p == (ok ? pos + w : pos), "fixed width encode moves the offset by its width or not at all");
  if (!ok) { sym_cover("nofit"); return; }
  for (int64_t i = 0; i < cap; i++) if (i < pos || i >= pos + w) sym_assert(buf[i] == (char)0x5a, "fixed width encode writes only its own bytes");
  ByteRange br = rng(buf + pos, cap - pos);
  int64_t want = which == 0 ? (int16_t)v : which == 1 ? (int32_t)v : v;
  int64_t got = 0;
  bool d;
  if (which == 0) { int16_t x = 0; d = decodeInt16FixedLength(br, x); got = x; }
  else if (which == 1) { int32_t x = 0; d = decodeInt32FixedLength(br, x); got = x; }
  else { int64_t x = 0; d = decodeInt64FixedLength(br, x); got = x; }
  sym_assert(d == (want >= 0), "fixed width decode accepts exactly the non negative values");
  if (d) { sym_cover("ok"); sym_assert(got == want, "fixed width round trip"); sym_assert((int64_t)br.size() == cap - pos - w, "fixed width decode consumes its width"); }
  // little endian on the wire
  sym_assert((uint8_t)buf[pos] == (uint8_t)want, "fixed width integers are little endian");
  ByteRange sh = rng(buf + pos, w - 1);
  int16_t a; int32_t b; int64_t c;
  bool s = which == 0 ? decodeInt16FixedLength(sh, a) : which == 1 ? decodeInt32FixedLength(sh, b) : decodeInt64FixedLength(sh, c);
  sym_assert(!s && (int64_t)sh.size() == w - 1, "a cut fixed width integer is refused");
  free(buf);
}
// strings
extern "C" void h_string(long maxLen) {
  int64_t n = sym_choice("len", 0, maxLen);
  std::string s = symStr(n, "s");
  int64_t cap = sym_choice("cap", 0, maxLen + 3);
  int64_t pos = sym_choice("pos", 0, cap < 2 ? cap : 2);
  char* buf = exactBuf(cap);
  memset(buf, 0x5a, cap);
  int64_t p = pos;
  bool ok = encodeString(buf, cap, p, s);
  sym_assert(ok == (pos + 1 + n <= cap), "a short string is written exactly when it fits");
  sym_assert(p >= pos && p <= cap, "string encode stays inside the buffer");
  if (!ok) { sym_cover("nofit"); return; }
  sym_assert(p == pos + 1 + n, "a short string takes its length plus one byte");
  ByteRange br = rng(buf + pos, cap - pos);
  std::string r = "old";
  sym_assert(decodeString(br, r), "string decode succeeds");
  sym_assert(sameStr(r, s), "string round trip");
  sym_assert((int64_t)br.size() == cap - p, "string decode consumes exactly the string");
  ByteRange sh = rng(buf + pos, n);  // cut by one byte
  std::string r2;
  sym_assert(!decodeString(sh, r2), "a cut string is refused");
  sym_cover("ok");
  free(buf);
}
// a string long enough for a two byte length
extern "C" void h_string_long(long) {
  for (int n = 126; n <= 130; n++) {
    std::string s(n, 'a');
    s[n - 1] = (char)sym_u8("last");
    char* buf = exactBuf(n + 2);
    int64_t p = 0;
    sym_assert(encodeString(buf, n + 2, p, s), "long string fits");
    ByteRange br = rng(buf, p);
    std::string r;
    sym_assert(decodeString(br, r) && sameStr(r, s) && br.empty(), "long string round trip");
    free(buf);
  }
}
// decoding arbitrary bytes
extern "C" void h_decode_any(long n) {
  int64_t len = sym_choice("n", 0, n);
  char* b = symBuf(len, "b");
  int which = (int)sym_choice("decoder", 0, 9);
  ByteRange br = rng(b, len);
  bool ok = false;
  int64_t r64; int32_t r32; int16_t r16; uint64_t u; std::string s;
  switch (which) {
    case 0: ok = decodeInt64(br, r64); break;
    case 1: ok = decodeInt32(br, r32); break;
    case 2: ok = decodeUInt64(br, u); break;
    case 3: ok = decodeInt64C(br, r64); if (ok) sym_assert(r64 >= 0, "positive decode yields a non negative value"); break;
    case 4: ok = decodeInt32C(br, r32); if (ok) sym_assert(r32 >= 0, "positive 32 bit decode yields a non negative value"); break;
    case 5: ok = decodeInt16FixedLength(br, r16); if (ok) sym_assert(r16 >= 0, "fixed decode yields a non negative value"); break;
    case 6: ok = decodeInt32FixedLength(br, r32); if (ok) sym_assert(r32 >= 0, "fixed decode yields a non negative value"); break;
    case 7: ok = decodeInt64FixedLength(br, r64); if (ok) sym_assert(r64 >= 0, "fixed decode yields a non negative value"); break;
    case 8: ok = decodeString(br, s); if (ok) sym_assert((int64_t)s.size() < len, "a decoded string is shorter than its encoding"); break;
    case 9: { int64_t p = sym_choice("p", 0, len); int64_t p0 = p; ok = decodeVarU64(b, len, p, u); sym_assert(ok ? (p > p0 && p <= len && p - p0 <= 9) : p == p0, "varint decode stays inside the bytes"); break; }
  }
  sym_assert(br.size() <= (size_t)len && br.end() == (const uint8_t*)b + len, "decoding never moves past the end");
  if (ok) sym_cover("ok"); else sym_cover("refused");
  if (which == 8 && ok) {
    size_t hdr = len - br.size() - s.size();
    for (size_t i = 0; i < s.size(); i++) sym_assert(s[i] == b[hdr + i], "a decoded string is the received bytes");
  }
  free(b);
}
