// Included before everything: instantiate libstdc++ templates in every unit, so
// that the executor sees their code instead of a reference into libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#ifdef __cplusplus
#include <algorithm>
#include <cstring>
#include <functional>
#include <cmath>
#include <mutex>
#include <shared_mutex>
#include <thread>
#endif
#include <cstdint>
