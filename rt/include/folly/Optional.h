#pragma once
#include <utility>
namespace folly {
struct None {}; constexpr None none{};
template <class T> class Optional {
 public:
  Optional() : h_(false), v_() {} Optional(None) : h_(false), v_() {} Optional(const T& v) : h_(true), v_(v) {}
  Optional& operator=(None) { h_ = false; return *this; }
  Optional& operator=(const T& v) { h_ = true; v_ = v; return *this; }
  bool hasValue() const { return h_; } bool has_value() const { return h_; } explicit operator bool() const { return h_; }
  const T& value() const { return v_; } T& value() { return v_; }
  const T& operator*() const { return v_; } T& operator*() { return v_; }
  const T* operator->() const { return &v_; } T* operator->() { return &v_; }
  bool operator==(const Optional& o) const { return h_ == o.h_ && (!h_ || v_ == o.v_); }
  void reset() { h_ = false; }
 private: bool h_; T v_;
};
}
