#pragma once
#include <memory>
namespace folly {
template <class T, void (*F)(T*)> struct static_function_deleter { void operator()(T* p) const { F(p); } };
}
