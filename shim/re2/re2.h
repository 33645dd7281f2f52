// Stand-in for RE2 (not installed): same syntax subset and leftmost-first
// semantics, implemented on boost::regex inside the simulator. Pure function.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>

namespace re2 {
using StringPiece = std::string_view;
class RE2 {
 public:
  enum CannedOptions { DefaultOptions = 0, Latin1, POSIX, Quiet };
  enum Anchor { UNANCHORED, ANCHOR_START, ANCHOR_BOTH };
  class Options {
   public:
    Options() = default;
    Options(CannedOptions) {}
    void set_case_sensitive(bool b) { case_sensitive_ = b; }
    bool case_sensitive() const { return case_sensitive_; }
    void set_log_errors(bool b) { log_errors_ = b; }
    bool log_errors() const { return log_errors_; }
    void set_literal(bool b) { literal_ = b; }
    bool literal() const { return literal_; }
    void set_dot_nl(bool b) { dot_nl_ = b; }
    bool dot_nl() const { return dot_nl_; }
    void set_one_line(bool) {}
    void set_longest_match(bool) {}
    void set_never_capture(bool) {}
    void set_max_mem(int64_t) {}
    void set_posix_syntax(bool) {}
   private:
    bool case_sensitive_ = true, log_errors_ = true, literal_ = false, dot_nl_ = false;
  };
  RE2(const char *p) : RE2(std::string_view(p), Options()) {}                // NOLINT
  RE2(const std::string &p) : RE2(std::string_view(p), Options()) {}         // NOLINT
  RE2(std::string_view p) : RE2(p, Options()) {}                             // NOLINT
  RE2(std::string_view p, const Options &o);
  ~RE2();
  RE2(const RE2 &) = delete;
  RE2 &operator=(const RE2 &) = delete;
  bool ok() const { return impl_ != nullptr; }
  const std::string &error() const { return error_; }
  const std::string &pattern() const { return pattern_; }
  const Options &options() const { return options_; }
  int NumberOfCapturingGroups() const { return groups_; }

  class Arg {
   public:
    Arg() = default;
    Arg(std::nullptr_t) {}                                        // NOLINT
    Arg(std::string *s) : kind_(1), p_(s) {}                      // NOLINT
    Arg(std::string_view *s) : kind_(2), p_(s) {}                 // NOLINT
    Arg(int *s) : kind_(3), p_(s) {}                              // NOLINT
    Arg(int64_t *s) : kind_(4), p_(s) {}                          // NOLINT
    Arg(unsigned *s) : kind_(5), p_(s) {}                         // NOLINT
    bool Set(const char *b, size_t n) const;
   private:
    int kind_ = 0;
    void *p_ = nullptr;
  };
  template <typename... A> static bool FullMatch(std::string_view t, const RE2 &re, A &&...a) {
    return Apply(t, re, ANCHOR_BOTH, nullptr, {Arg(a)...});
  }
  template <typename... A> static bool PartialMatch(std::string_view t, const RE2 &re, A &&...a) {
    return Apply(t, re, UNANCHORED, nullptr, {Arg(a)...});
  }
  template <typename... A> static bool Consume(std::string_view *t, const RE2 &re, A &&...a) {
    return Apply(*t, re, ANCHOR_START, t, {Arg(a)...});
  }
  template <typename... A> static bool FindAndConsume(std::string_view *t, const RE2 &re, A &&...a) {
    return Apply(*t, re, UNANCHORED, t, {Arg(a)...});
  }
  bool Match(std::string_view text, size_t start, size_t end, Anchor a, std::string_view *sub, int n) const;
  static bool Replace(std::string *s, const RE2 &re, std::string_view rewrite);
  static int GlobalReplace(std::string *s, const RE2 &re, std::string_view rewrite);
  static std::string QuoteMeta(std::string_view s);

 private:
  static bool Apply(std::string_view t, const RE2 &re, Anchor a, std::string_view *consume, const std::vector<Arg> &args);
  void *impl_ = nullptr;
  std::string pattern_, error_;
  Options options_;
  int groups_ = 0;
};
class LazyRE2 {
 public:
  RE2 &operator*() const { return *get(); }
  RE2 *operator->() const { return get(); }
  RE2 *get() const;
  const char *pattern_;
  mutable RE2 *ptr_;
  mutable int state_;
};
}  // namespace re2
using re2::LazyRE2;
using re2::RE2;
