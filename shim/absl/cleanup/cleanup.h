#pragma once
#include <utility>
namespace absl {
struct CleanupTag_ {};
template <typename A, typename F = void> class Cleanup;
template <typename F> class Cleanup<CleanupTag_, F> {
 public:
  Cleanup(F f) : f_(std::move(f)) {}
  Cleanup(Cleanup &&o) : f_(std::move(o.f_)), on_(o.on_) { o.on_ = false; }
  ~Cleanup() { if (on_) f_(); }
  void Cancel() && { on_ = false; }
  void Invoke() && { if (on_) f_(); on_ = false; }
 private:
  F f_; bool on_ = true;
};
template <typename F> Cleanup(F) -> Cleanup<CleanupTag_, F>;
template <typename F> Cleanup<CleanupTag_, F> MakeCleanup(F f) { return Cleanup<CleanupTag_, F>(std::move(f)); }
}
