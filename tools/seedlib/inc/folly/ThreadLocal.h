#pragma once
#include <map>
#include <mutex>
#include <thread>
namespace folly {
template <class T, class Tag = void> class ThreadLocalPtr {
  mutable std::mutex m_;
  std::map<std::thread::id, T*> p_;
 public:
  ~ThreadLocalPtr() { for (auto& x : p_) delete x.second; }
  T* get() const { std::lock_guard<std::mutex> g(m_); auto it = p_.find(std::this_thread::get_id()); return it == p_.end() ? nullptr : it->second; }
  T* operator->() const { return get(); } T& operator*() const { return *get(); }
  void reset(T* n = nullptr) { std::lock_guard<std::mutex> g(m_); auto& x = p_[std::this_thread::get_id()]; delete x; x = n; }
  explicit operator bool() const { return get() != nullptr; }
};
}
