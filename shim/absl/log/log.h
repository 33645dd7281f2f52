#pragma once
#include "absl/log/check.h"
namespace absl_log_shim {
class Line {
 public:
  explicit Line(const char *sev) { s_ << sev << " "; }
  ~Line() { std::cerr << s_.str() << std::endl; }
  template <typename T> Line &operator<<(const T &v) { s_ << v; return *this; }
 private:
  std::ostringstream s_;
};
struct LineINFO : Line { LineINFO() : Line("I") {} };
struct LineWARNING : Line { LineWARNING() : Line("W") {} };
struct LineERROR : Line { LineERROR() : Line("E") {} };
struct LineFATAL : Fatal { LineFATAL() : Fatal("", 0, "LOG(FATAL)") {} };
}  // namespace absl_log_shim
#define LOG(sev) ::absl_log_shim::Line##sev()
