#pragma once
#include <mutex>
namespace folly {
class SpinLock { std::mutex m_; public: void lock() { m_.lock(); } void unlock() { m_.unlock(); } bool try_lock() { return m_.try_lock(); } };
template <class L> struct SpinLockGuardImpl : std::unique_lock<L> { using std::unique_lock<L>::unique_lock; };
typedef SpinLockGuardImpl<SpinLock> SpinLockGuard;
}
