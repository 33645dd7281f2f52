#pragma once
#include <utility>
#include "absl/log/check.h"
namespace absl_log_shim {
template <typename T> T DieIfNull(const char *file, int line, const char *e, T &&t) {
  if (t == nullptr) Fatal(file, line, e);
  return std::forward<T>(t);
}
}  // namespace absl_log_shim
#define ABSL_DIE_IF_NULL(v) ::absl_log_shim::DieIfNull(__FILE__, __LINE__, #v, (v))
