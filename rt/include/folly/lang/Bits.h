#pragma once
#include <cstdint>
#include <cstring>
namespace folly {
template <class T> inline T loadUnaligned(const void* p) { T v; memcpy(&v, p, sizeof(T)); return v; }
template <class T> inline void storeUnaligned(void* p, T v) { memcpy(p, &v, sizeof(T)); }
struct Endian { template <class T> static T little(T v) { return v; } template <class T> static T big(T v) { T r = 0; for (unsigned i = 0; i < sizeof(T); i++) { ((char*)&r)[i] = ((char*)&v)[sizeof(T) - 1 - i]; } return r; } };
}
