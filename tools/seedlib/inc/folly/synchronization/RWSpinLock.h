#pragma once
#include <shared_mutex>
namespace folly {
class RWSpinLock {
  std::shared_mutex m_;
 public:
  void lock() { m_.lock(); } void unlock() { m_.unlock(); }
  void lock_shared() { m_.lock_shared(); } void unlock_shared() { m_.unlock_shared(); }
  class ReadHolder { RWSpinLock* l_; public: explicit ReadHolder(RWSpinLock& l) : l_(&l) { l_->lock_shared(); } explicit ReadHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock_shared(); } ~ReadHolder() { if (l_) l_->unlock_shared(); } };
  class WriteHolder { RWSpinLock* l_; public: explicit WriteHolder(RWSpinLock& l) : l_(&l) { l_->lock(); } explicit WriteHolder(RWSpinLock* l) : l_(l) { if (l_) l_->lock(); } ~WriteHolder() { if (l_) l_->unlock(); } };
};
}
