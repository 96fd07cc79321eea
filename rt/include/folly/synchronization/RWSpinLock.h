#pragma once
// reader/writer lock: readers do not exclude each other (a thread may hold a shared lock several times), see rt/runtime.cpp
struct RtRw { int readers = 0, writer = 0; };
void rt_rw_lock(RtRw*); void rt_rw_unlock(RtRw*); void rt_rw_lock_shared(RtRw*); void rt_rw_unlock_shared(RtRw*);
namespace folly {
class RWSpinLock {
  RtRw m_;
 public:
  RWSpinLock() {}
  RWSpinLock(const RWSpinLock&) = delete;
  void lock() { rt_rw_lock(&m_); } void unlock() { rt_rw_unlock(&m_); }
  void lock_shared() { rt_rw_lock_shared(&m_); } void unlock_shared() { rt_rw_unlock_shared(&m_); }
  class ReadHolder { RWSpinLock* l_; public: explicit ReadHolder(RWSpinLock& l) : l_(&l) { l_->lock_shared(); } explicit ReadHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock_shared(); } ~ReadHolder() { if (l_) l_->unlock_shared(); } };
  class WriteHolder { RWSpinLock* l_; public: explicit WriteHolder(RWSpinLock& l) : l_(&l) { l_->lock(); } explicit WriteHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock(); } ~WriteHolder() { if (l_) l_->unlock(); } };
};
}
