#pragma once
#include <map>
extern "C" int wsym_thread_self(void);
namespace folly {
template <class T, class Tag = void> class ThreadLocalPtr {
  T* p_[8] = {nullptr};
 public:
  ~ThreadLocalPtr() { for (auto& x : p_) { delete x; x = nullptr; } }
  T* get() const { return p_[wsym_thread_self()]; } T* operator->() const { return get(); } T& operator*() const { return *get(); }
  void reset(T* n = nullptr) { delete p_[wsym_thread_self()]; p_[wsym_thread_self()] = n; }
  explicit operator bool() const { return get() != nullptr; }
};
}
