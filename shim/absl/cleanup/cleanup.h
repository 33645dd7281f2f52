#pragma once
#include <utility>
namespace absl {
template <typename F> class Cleanup {
 public:
  Cleanup(F f) : f_(std::move(f)) {}  // NOLINT
  Cleanup(Cleanup &&o) noexcept : f_(std::move(o.f_)), armed_(o.armed_) { o.armed_ = false; }
  Cleanup(const Cleanup &) = delete;
  ~Cleanup() { if (armed_) f_(); }
  void Cancel() && { armed_ = false; }
  void Invoke() && { if (armed_) { armed_ = false; f_(); } }
 private:
  F f_;
  bool armed_ = true;
};
template <typename F> Cleanup(F) -> Cleanup<F>;
template <typename F> Cleanup<F> MakeCleanup(F f) { return Cleanup<F>(std::move(f)); }
}  // namespace absl
