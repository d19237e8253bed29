#ifndef _GLIBCXX_MUTEX_H
#define _GLIBCXX_MUTEX_H 1
namespace symsched { void mutex_lock(void *m, bool &held, int &owner); bool mutex_try(bool &held, int &owner); void mutex_unlock(void *m, bool &held, int owner); void mutex_gone(bool held); }
namespace std {
class mutex {
 public:
  constexpr mutex() noexcept {} mutex(const mutex &) = delete; mutex &operator=(const mutex &) = delete;
  void lock() { symsched::mutex_lock(this, held_, owner_); } bool try_lock() { return symsched::mutex_try(held_, owner_); } void unlock() { symsched::mutex_unlock(this, held_, owner_); }
 private:
  bool held_ = false; int owner_ = 0;
};
struct defer_lock_t {}; struct try_to_lock_t {}; struct adopt_lock_t {};
inline constexpr defer_lock_t defer_lock{}; inline constexpr try_to_lock_t try_to_lock{}; inline constexpr adopt_lock_t adopt_lock{};
template <typename M> class lock_guard { public: typedef M mutex_type; explicit lock_guard(M &m) : m_(m) { m_.lock(); } lock_guard(M &m, adopt_lock_t) : m_(m) {} ~lock_guard() { m_.unlock(); } lock_guard(const lock_guard &) = delete; private: M &m_; };
}
#endif
