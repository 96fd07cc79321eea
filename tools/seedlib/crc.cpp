#include <folly/hash/Checksum.h>
namespace folly {
uint32_t crc32c(const uint8_t* d, size_t n, uint32_t c) {
  for (size_t i = 0; i < n; i++) { c ^= d[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ (0x82f63b78u & -(c & 1)); }
  return c;
}
}
