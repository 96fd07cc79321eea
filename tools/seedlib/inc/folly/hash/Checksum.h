#pragma once
#include <cstddef>
#include <cstdint>
namespace folly { uint32_t crc32c(const uint8_t* data, size_t n, uint32_t start = ~0U); }
