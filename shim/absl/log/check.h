// Stand-in for absl/log/check.h (not in the installed abseil): a failed check
// prints a message and aborts.
#pragma once
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>

namespace absl_log_shim {
class Fatal {
 public:
  Fatal(const char *file, int line, const char *what) { s_ << file << ":" << line << "] Check failed: " << what << " "; }
  [[noreturn]] ~Fatal() {
    std::cerr << s_.str() << std::endl;
    abort();
  }
  std::ostream &stream() { return s_; }
  template <typename T> Fatal &operator<<(const T &v) { s_ << v; return *this; }
  Fatal &operator<<(std::ostream &(*m)(std::ostream &)) { s_ << m; return *this; }
 private:
  std::ostringstream s_;
};
struct Voidify { void operator&&(const Fatal &) const {} };
struct Null {
  template <typename T> Null &operator<<(const T &) { return *this; }
};
struct VoidifyNull { void operator&&(const Null &) const {} };
}  // namespace absl_log_shim

#define ABSL_SHIM_CHECK(cond, text) \
  (cond) ? (void)0 : ::absl_log_shim::Voidify() && ::absl_log_shim::Fatal(__FILE__, __LINE__, text)
#define CHECK(c) ABSL_SHIM_CHECK((c), #c)
#define QCHECK(c) CHECK(c)
#define CHECK_EQ(a, b) ABSL_SHIM_CHECK((a) == (b), #a " == " #b)
#define CHECK_NE(a, b) ABSL_SHIM_CHECK((a) != (b), #a " != " #b)
#define CHECK_LT(a, b) ABSL_SHIM_CHECK((a) < (b), #a " < " #b)
#define CHECK_LE(a, b) ABSL_SHIM_CHECK((a) <= (b), #a " <= " #b)
#define CHECK_GT(a, b) ABSL_SHIM_CHECK((a) > (b), #a " > " #b)
#define CHECK_GE(a, b) ABSL_SHIM_CHECK((a) >= (b), #a " >= " #b)
#define CHECK_STREQ(a, b) ABSL_SHIM_CHECK(strcmp((a), (b)) == 0, #a " == " #b)
#ifdef NDEBUG
#define DCHECK(c) true ? (void)0 : ::absl_log_shim::VoidifyNull() && ::absl_log_shim::Null()
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#else
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#endif
