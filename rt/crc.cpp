#include <folly/hash/Checksum.h>
namespace folly {
// stand-in checksum: position dependent and byte-wise; the code under test treats
// the checksum as an opaque function, which is all the properties rely on.
uint32_t crc32c(const uint8_t* d, size_t n, uint32_t c) {
  for (size_t i = 0; i < n; i++) c = ((c << 5) | (c >> 27)) ^ d[i];
  return c;
}
}
