#ifndef _GLIBCXX_UNIQUE_LOCK_H
#define _GLIBCXX_UNIQUE_LOCK_H 1
#include <bits/std_mutex.h>
namespace std {
template <typename M> class unique_lock {
 public:
  unique_lock() {} explicit unique_lock(M &m) : m_(&m) { lock(); } unique_lock(M &m, defer_lock_t) : m_(&m) {} unique_lock(M &m, adopt_lock_t) : m_(&m), o_(true) {} unique_lock(M &m, try_to_lock_t) : m_(&m) { try_lock(); }
  unique_lock(unique_lock &&x) : m_(x.m_), o_(x.o_) { x.m_ = nullptr; x.o_ = false; } unique_lock(const unique_lock &) = delete;
  unique_lock &operator=(unique_lock &&x) { if (o_) unlock(); m_ = x.m_; o_ = x.o_; x.m_ = nullptr; x.o_ = false; return *this; }
  ~unique_lock() { if (o_) m_->unlock(); }
  void lock() { m_->lock(); o_ = true; } bool try_lock() { o_ = m_->try_lock(); return o_; } void unlock() { o_ = false; m_->unlock(); } bool owns_lock() const { return o_; } explicit operator bool() const { return o_; } M *mutex() const { return m_; } M *release() { M *r = m_; m_ = nullptr; o_ = false; return r; }
 private:
  M *m_ = nullptr; bool o_ = false;
};
}
#endif
