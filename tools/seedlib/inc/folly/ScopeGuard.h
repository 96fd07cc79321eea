#pragma once
#include <utility>
namespace folly {
template <class F> class ScopeGuardImpl {
 public:
  explicit ScopeGuardImpl(F&& f) : f_(std::move(f)) {}
  ScopeGuardImpl(ScopeGuardImpl&& o) : d_(o.d_), f_(std::move(o.f_)) { o.d_ = true; }
  ~ScopeGuardImpl() { if (!d_) f_(); }
  void dismiss() { d_ = true; }
 private:
  bool d_{false};
  F f_;
};
template <class F> ScopeGuardImpl<F> makeGuard(F f) { return ScopeGuardImpl<F>(std::move(f)); }
}
