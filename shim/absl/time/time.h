#pragma once
#include <time.h>
#include <cstdint>
#include <cstdio>
#include <limits>
#include <ostream>
#include <string>
namespace absl {
class Duration {
 public:
  constexpr Duration() = default;
  constexpr explicit Duration(int64_t ns) : ns_(ns) {}
  int64_t ns() const { return ns_; }
  Duration &operator+=(Duration o) { ns_ += o.ns_; return *this; }
  Duration &operator-=(Duration o) { ns_ -= o.ns_; return *this; }
  Duration operator-() const { return Duration(-ns_); }
  friend Duration operator+(Duration a, Duration b) { return Duration(a.ns_ + b.ns_); }
  friend Duration operator-(Duration a, Duration b) { return Duration(a.ns_ - b.ns_); }
  template <typename N> friend Duration operator*(Duration a, N n) { return Duration((int64_t)(a.ns_ * n)); }
  template <typename N> friend Duration operator*(N n, Duration a) { return Duration((int64_t)(a.ns_ * n)); }
  template <typename N> friend Duration operator/(Duration a, N n) { return Duration((int64_t)(a.ns_ / n)); }
  friend int64_t operator/(Duration a, Duration b) { return b.ns_ ? a.ns_ / b.ns_ : 0; }
  auto operator<=>(const Duration &) const = default;
 private:
  int64_t ns_ = 0;
};
inline Duration ZeroDuration() { return Duration(); }
inline Duration InfiniteDuration() { return Duration(std::numeric_limits<int64_t>::max()); }
template <typename T> Duration Nanoseconds(T n) { return Duration((int64_t)n); }
template <typename T> Duration Microseconds(T n) { return Duration((int64_t)(n * 1000)); }
template <typename T> Duration Milliseconds(T n) { return Duration((int64_t)(n * 1000000)); }
template <typename T> Duration Seconds(T n) { return Duration((int64_t)(n * 1000000000ll)); }
template <typename T> Duration Minutes(T n) { return Seconds(n * 60); }
template <typename T> Duration Hours(T n) { return Seconds(n * 3600); }
inline int64_t ToInt64Nanoseconds(Duration d) { return d.ns(); }
inline int64_t ToInt64Microseconds(Duration d) { return d.ns() / 1000; }
inline int64_t ToInt64Milliseconds(Duration d) { return d.ns() / 1000000; }
inline int64_t ToInt64Seconds(Duration d) { return d.ns() / 1000000000; }
inline double ToDoubleNanoseconds(Duration d) { return (double)d.ns(); }
inline double ToDoubleMicroseconds(Duration d) { return d.ns() / 1e3; }
inline double ToDoubleMilliseconds(Duration d) { return d.ns() / 1e6; }
inline double ToDoubleSeconds(Duration d) { return d.ns() / 1e9; }
inline double FDivDuration(Duration a, Duration b) { return (double)a.ns() / b.ns(); }
inline std::string FormatDuration(Duration d) { char b[64]; snprintf(b, sizeof b, "%gs", d.ns() / 1e9); return b; }
inline std::ostream &operator<<(std::ostream &o, Duration d) { return o << FormatDuration(d); }
class Time {
 public:
  constexpr Time() = default;
  explicit Time(int64_t ns) : ns_(ns) {}
  int64_t ns() const { return ns_; }
  Time &operator+=(Duration d) { ns_ += d.ns(); return *this; }
  friend Duration operator-(Time a, Time b) { return Duration(a.ns_ - b.ns_); }
  friend Time operator+(Time a, Duration d) { return Time(a.ns_ + d.ns()); }
  friend Time operator-(Time a, Duration d) { return Time(a.ns_ - d.ns()); }
  auto operator<=>(const Time &) const = default;
 private:
  int64_t ns_ = 0;
};
inline int64_t ToUnixNanos(Time t) { return t.ns(); }
inline int64_t ToUnixMicros(Time t) { return t.ns() / 1000; }
inline int64_t ToUnixMillis(Time t) { return t.ns() / 1000000; }
inline int64_t ToUnixSeconds(Time t) { return t.ns() / 1000000000; }
inline Time UnixEpoch() { return Time(); }
inline Time FromUnixSeconds(int64_t s) { return Time(s * 1000000000); }
inline Time Now() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return Time(ts.tv_sec * 1000000000ll + ts.tv_nsec);
}
inline int64_t GetCurrentTimeNanos() { return Now().ns(); }
inline void SleepFor(Duration d) {
  struct timespec ts{d.ns() / 1000000000, d.ns() % 1000000000};
  nanosleep(&ts, nullptr);
}
}  // namespace absl
