// Stand-ins for abseil string functions (the installed abseil has its own
// string_view type and does not fit the sources). Pure functions.
#pragma once
#include <algorithm>
#include <charconv>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <map>
#include <ostream>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

#include "absl/strings/string_view.h"

namespace absl {
// ---- ascii
inline bool ascii_isalpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool ascii_isdigit(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool ascii_isalnum(unsigned char c) { return ascii_isalpha(c) || ascii_isdigit(c); }
inline bool ascii_isspace(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool ascii_isblank(unsigned char c) { return c == ' ' || c == '\t'; }
inline bool ascii_ispunct(unsigned char c) { return c > 32 && c < 127 && !ascii_isalnum(c); }
inline bool ascii_isupper(unsigned char c) { return c >= 'A' && c <= 'Z'; }
inline bool ascii_islower(unsigned char c) { return c >= 'a' && c <= 'z'; }
inline bool ascii_isprint(unsigned char c) { return c >= 32 && c < 127; }
inline bool ascii_isgraph(unsigned char c) { return c > 32 && c < 127; }
inline bool ascii_iscntrl(unsigned char c) { return c < 32 || c == 127; }
inline bool ascii_isxdigit(unsigned char c) { return ascii_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline bool ascii_isascii(unsigned char c) { return c < 128; }
inline char ascii_tolower(unsigned char c) { return ascii_isupper(c) ? c + 32 : c; }
inline char ascii_toupper(unsigned char c) { return ascii_islower(c) ? c - 32 : c; }
inline void AsciiStrToLower(std::string *s) { for (char &c : *s) c = ascii_tolower(c); }
inline void AsciiStrToUpper(std::string *s) { for (char &c : *s) c = ascii_toupper(c); }
inline std::string AsciiStrToLower(string_view s) { std::string r(s); AsciiStrToLower(&r); return r; }
inline std::string AsciiStrToUpper(string_view s) { std::string r(s); AsciiStrToUpper(&r); return r; }
inline string_view StripLeadingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.front())) s.remove_prefix(1); return s; }
inline string_view StripTrailingAsciiWhitespace(string_view s) { while (!s.empty() && ascii_isspace(s.back())) s.remove_suffix(1); return s; }
inline string_view StripAsciiWhitespace(string_view s) { return StripLeadingAsciiWhitespace(StripTrailingAsciiWhitespace(s)); }
inline void StripAsciiWhitespace(std::string *s) { *s = std::string(StripAsciiWhitespace(string_view(*s))); }
inline void StripLeadingAsciiWhitespace(std::string *s) { *s = std::string(StripLeadingAsciiWhitespace(string_view(*s))); }
inline void StripTrailingAsciiWhitespace(std::string *s) { *s = std::string(StripTrailingAsciiWhitespace(string_view(*s))); }
// ---- match, strip
inline bool StrContains(string_view h, string_view n) { return h.find(n) != string_view::npos; }
inline bool StrContains(string_view h, char n) { return h.find(n) != string_view::npos; }
inline bool StartsWith(string_view s, string_view p) { return s.size() >= p.size() && s.substr(0, p.size()) == p; }
inline bool EndsWith(string_view s, string_view p) { return s.size() >= p.size() && s.substr(s.size() - p.size()) == p; }
inline bool EqualsIgnoreCase(string_view a, string_view b) { return AsciiStrToLower(a) == AsciiStrToLower(b); }
inline bool StartsWithIgnoreCase(string_view a, string_view b) { return StartsWith(AsciiStrToLower(a), AsciiStrToLower(b)); }
inline bool EndsWithIgnoreCase(string_view a, string_view b) { return EndsWith(AsciiStrToLower(a), AsciiStrToLower(b)); }
inline bool StrContainsIgnoreCase(string_view a, string_view b) { return StrContains(AsciiStrToLower(a), AsciiStrToLower(b)); }
inline string_view StripPrefix(string_view s, string_view p) { if (StartsWith(s, p)) s.remove_prefix(p.size()); return s; }
inline string_view StripSuffix(string_view s, string_view p) { if (EndsWith(s, p)) s.remove_suffix(p.size()); return s; }
inline bool ConsumePrefix(string_view *s, string_view p) { if (!StartsWith(*s, p)) return false; s->remove_prefix(p.size()); return true; }
inline bool ConsumeSuffix(string_view *s, string_view p) { if (!EndsWith(*s, p)) return false; s->remove_suffix(p.size()); return true; }
// ---- numbers
template <typename T> bool SimpleAtoi(string_view s, T *out) {
  s = StripAsciiWhitespace(s);
  if (!s.empty() && s[0] == '+') s.remove_prefix(1);
  T v{};
  auto [p, ec] = std::from_chars(s.data(), s.data() + s.size(), v);
  if (ec != std::errc() || p != s.data() + s.size() || s.empty()) return false;
  *out = v;
  return true;
}
inline bool SimpleAtod(string_view s, double *out) {
  std::string t(StripAsciiWhitespace(s));
  char *e;
  *out = strtod(t.c_str(), &e);
  return !t.empty() && !*e;
}
inline bool SimpleAtob(string_view s, bool *out) {
  const std::string t = AsciiStrToLower(s);
  if (t == "true" || t == "t" || t == "yes" || t == "y" || t == "1") { *out = true; return true; }
  if (t == "false" || t == "f" || t == "no" || t == "n" || t == "0") { *out = false; return true; }
  return false;
}
// ---- StrCat
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8, kZeroPad16 = kNoPad + 15 };
struct Hex {
  uint64_t v; int w;
  template <typename T> explicit Hex(T x, PadSpec s = kNoPad) : v((uint64_t)(std::conditional_t<std::is_pointer_v<T>, uintptr_t, std::make_unsigned_t<std::conditional_t<std::is_pointer_v<T>, long, T>>>)x), w(s) {}
};
struct Dec { int64_t v; int w; template <typename T> explicit Dec(T x, PadSpec s = kNoPad) : v((int64_t)x), w(s) {} };
template <typename T, typename = void> struct HasStringify : std::false_type {};
struct StringifySink {
  std::string s;
  void Append(string_view v) { s.append(v); }
  void Append(size_t n, char c) { s.append(n, c); }
  friend void AbslFormatFlush(StringifySink *k, string_view v) { k->Append(v); }
};
template <typename T> struct HasStringify<T, std::void_t<decltype(AbslStringify(std::declval<StringifySink &>(), std::declval<const T &>()))>> : std::true_type {};
class AlphaNum {
 public:
  AlphaNum(int x) : b_(std::to_string(x)), v_(b_) {}                      // NOLINT
  AlphaNum(unsigned x) : b_(std::to_string(x)), v_(b_) {}                 // NOLINT
  AlphaNum(long x) : b_(std::to_string(x)), v_(b_) {}                     // NOLINT
  AlphaNum(unsigned long x) : b_(std::to_string(x)), v_(b_) {}            // NOLINT
  AlphaNum(long long x) : b_(std::to_string(x)), v_(b_) {}                // NOLINT
  AlphaNum(unsigned long long x) : b_(std::to_string(x)), v_(b_) {}       // NOLINT
  AlphaNum(float f) : AlphaNum((double)f) {}                              // NOLINT
  AlphaNum(double f) { char t[40]; snprintf(t, sizeof t, "%g", f); b_ = t; v_ = b_; }  // NOLINT
  AlphaNum(Hex h) { char t[40]; snprintf(t, sizeof t, "%0*llx", h.w <= 1 ? 1 : h.w, (unsigned long long)h.v); b_ = t; v_ = b_; }  // NOLINT
  AlphaNum(Dec h) { char t[40]; snprintf(t, sizeof t, "%0*lld", h.w <= 1 ? 1 : h.w, (long long)h.v); b_ = t; v_ = b_; }  // NOLINT
  AlphaNum(const char *s) : v_(s ? string_view(s) : string_view()) {}     // NOLINT
  AlphaNum(string_view s) : v_(s) {}                                      // NOLINT
  template <typename A> AlphaNum(const std::basic_string<char, std::char_traits<char>, A> &s) : v_(s) {}  // NOLINT
  template <typename T, typename = std::enable_if_t<HasStringify<T>::value>> AlphaNum(const T &t) {  // NOLINT
    StringifySink k; AbslStringify(k, t); b_ = k.s; v_ = b_;
  }
  AlphaNum(char) = delete;
  AlphaNum(const AlphaNum &) = delete;
  string_view Piece() const { return v_; }
  size_t size() const { return v_.size(); }
  const char *data() const { return v_.data(); }
 private:
  std::string b_;
  string_view v_;
};
namespace sim_internal {
inline std::string CatN(std::initializer_list<string_view> l) {
  size_t n = 0;
  for (auto v : l) n += v.size();
  std::string r;
  r.reserve(n);
  for (auto v : l) r.append(v);
  return r;
}
template <typename... A> std::string Cat(const A &...a) { return CatN({a.Piece()...}); }
template <typename T> using AsAlpha = AlphaNum;
}  // namespace sim_internal
inline std::string StrCat() { return ""; }
template <typename... T> std::string StrCat(const T &...t) {
  return sim_internal::CatN({sim_internal::AsAlpha<T>(t).Piece()...});
}
template <typename... T> void StrAppend(std::string *d, const T &...t) {
  const std::string s = sim_internal::CatN({sim_internal::AsAlpha<T>(t).Piece()...});
  d->append(s);
}
// ---- StrFormat
namespace sim_internal {
struct FmtArg {
  enum K { kI, kU, kD, kS, kP, kC } k;
  int64_t i = 0; uint64_t u = 0; double d = 0; string_view s; const void *p = nullptr; int size = 8;
  FmtArg(bool v) : k(kI), i(v) {}                                          // NOLINT
  FmtArg(char v) : k(kC), i(v) {}                                          // NOLINT
  FmtArg(const char *v) : k(kS), s(v ? v : "") {}                          // NOLINT
  FmtArg(char *v) : k(kS), s(v ? v : "") {}                                // NOLINT
  FmtArg(string_view v) : k(kS), s(v) {}                                   // NOLINT
  FmtArg(const std::string &v) : k(kS), s(v) {}                            // NOLINT
  FmtArg(double v) : k(kD), d(v) {}                                        // NOLINT
  FmtArg(float v) : k(kD), d(v) {}                                         // NOLINT
  FmtArg(const void *v) : k(kP), p(v) {}                                   // NOLINT
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>>> FmtArg(T v) : k(std::is_signed_v<T> ? kI : kU), i((int64_t)v), u((uint64_t)v), size(sizeof(T)) {}  // NOLINT
};
std::string FormatN(string_view f, const std::vector<FmtArg> &a);
inline std::string FormatN(string_view f, const std::vector<FmtArg> &a) {
  std::string out;
  size_t n = 0;
  for (size_t i = 0; i < f.size(); ++i) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (++i >= f.size()) break;
    if (f[i] == '%') { out += '%'; continue; }
    std::string spec = "%";
    while (i < f.size() && strchr("-+ #0", f[i])) spec += f[i++];
    auto num = [&]() {
      if (i < f.size() && f[i] == '*') { ++i; if (n < a.size()) { spec += std::to_string(a[n].k == FmtArg::kU ? (int)a[n].u : (int)a[n].i); ++n; } }
      else while (i < f.size() && ascii_isdigit(f[i])) spec += f[i++];
    };
    num();
    if (i < f.size() && f[i] == '.') { spec += '.'; ++i; num(); }
    while (i < f.size() && strchr("hlLqjzt", f[i])) ++i;
    if (i >= f.size() || n >= a.size()) break;
    char c = f[i];
    const FmtArg &x = a[n++];
    char b[512];
    b[0] = 0;
    if (c == 'v') c = x.k == FmtArg::kS ? 's' : x.k == FmtArg::kD ? 'g' : x.k == FmtArg::kP ? 'p' : x.k == FmtArg::kU ? 'u' : 'd';
    switch (c) {
      case 's': {
        const std::string s = x.k == FmtArg::kS ? std::string(x.s) : x.k == FmtArg::kC ? std::string(1, (char)x.i) : std::to_string(x.i);
        // width and precision by hand: any length
        long w = 0, p = -1; bool left = false;
        size_t q = 1;
        while (q < spec.size() && strchr("-+ #0", spec[q])) { left |= spec[q] == '-'; ++q; }
        if (q < spec.size() && spec[q] != '.') { w = strtol(spec.c_str() + q, nullptr, 10); }
        size_t dot = spec.find('.');
        if (dot != std::string::npos) p = strtol(spec.c_str() + dot + 1, nullptr, 10);
        if (w < 0) { left = true; w = -w; }
        std::string t = p >= 0 ? s.substr(0, p) : s;
        if ((long)t.size() < w) { if (left) t.append(w - t.size(), ' '); else t.insert(0, w - t.size(), ' '); }
        out += t;
        continue;
      }
      case 'c': snprintf(b, sizeof b, (spec + "c").c_str(), (int)x.i); break;
      case 'd': case 'i':
        if (x.k == FmtArg::kU) snprintf(b, sizeof b, (spec + "llu").c_str(), (unsigned long long)x.u);
        else snprintf(b, sizeof b, (spec + "lld").c_str(), (long long)x.i);
        break;
      case 'u': case 'x': case 'X': case 'o': {
        uint64_t v = x.k == FmtArg::kP ? (uint64_t)x.p : x.k == FmtArg::kC ? (uint64_t)x.i : x.k == FmtArg::kI ? (uint64_t)x.i : x.u;
        if (x.size < 8 && x.k == FmtArg::kI) v &= (1ull << (8 * x.size)) - 1;
        snprintf(b, sizeof b, (spec + "ll" + c).c_str(), (unsigned long long)v);
        break;
      }
      case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': case 'a': case 'A':
        snprintf(b, sizeof b, (spec + c).c_str(), x.k == FmtArg::kD ? x.d : x.k == FmtArg::kU ? (double)x.u : (double)x.i);
        break;
      case 'p': snprintf(b, sizeof b, "%p", x.p); break;
      default: break;
    }
    out += b;
  }
  return out;
}
}  // namespace sim_internal
template <typename... A> using FormatSpec = string_view;
template <typename... A> std::string StrFormat(string_view f, const A &...a) { return sim_internal::FormatN(f, {sim_internal::FmtArg(a)...}); }
template <typename... A> void StrAppendFormat(std::string *d, string_view f, const A &...a) { d->append(StrFormat(f, a...)); }
template <typename... A> int PrintF(string_view f, const A &...a) { const std::string s = StrFormat(f, a...); fwrite(s.data(), 1, s.size(), stdout); return s.size(); }
template <typename... A> int FPrintF(FILE *o, string_view f, const A &...a) { const std::string s = StrFormat(f, a...); fwrite(s.data(), 1, s.size(), o); return s.size(); }
struct StreamedFormat { std::string s; friend std::ostream &operator<<(std::ostream &o, const StreamedFormat &f) { return o << f.s; } };
template <typename... A> StreamedFormat StreamFormat(string_view f, const A &...a) { return {StrFormat(f, a...)}; }
// ---- StrJoin
struct AlphaNumFormatter { template <typename T> void operator()(std::string *o, const T &v) const { if constexpr (std::is_same_v<T, bool>) StrAppend(o, (int)v); else StrAppend(o, v); } };
struct StreamFormatter { template <typename T> void operator()(std::string *o, const T &v) const { std::ostringstream s; s << v; o->append(s.str()); } };
template <typename F> struct PairFormatterT { std::string sep; template <typename P> void operator()(std::string *o, const P &p) const { StrAppend(o, p.first, sep, p.second); } };
inline PairFormatterT<int> PairFormatter(string_view sep) { return {std::string(sep)}; }
struct DereferenceFormatterT { template <typename T> void operator()(std::string *o, const T &v) const { AlphaNumFormatter()(o, *v); } };
inline DereferenceFormatterT DereferenceFormatter() { return {}; }
template <typename It, typename F> std::string StrJoin(It b, It e, string_view sep, F &&f) {
  std::string r;
  bool first = true;
  for (; b != e; ++b) { if (!first) r.append(sep); first = false; f(&r, *b); }
  return r;
}
template <typename R, typename F> std::string StrJoin(const R &r, string_view sep, F &&f) { return StrJoin(std::begin(r), std::end(r), sep, std::forward<F>(f)); }
template <typename R> std::string StrJoin(const R &r, string_view sep) { return StrJoin(std::begin(r), std::end(r), sep, AlphaNumFormatter()); }
template <typename T> std::string StrJoin(std::initializer_list<T> r, string_view sep) { return StrJoin(r.begin(), r.end(), sep, AlphaNumFormatter()); }
// ---- StrReplaceAll
template <typename C> int StrReplaceAll(const C &reps, std::string *s) {
  std::string out;
  int n = 0;
  for (size_t i = 0; i < s->size();) {
    string_view best_from, best_to;
    for (const auto &[from, to] : reps) {
      const string_view f(from);
      if (!f.empty() && f.size() > best_from.size() && s->compare(i, f.size(), f) == 0) { best_from = f; best_to = to; }
    }
    if (best_from.empty()) { out += (*s)[i++]; continue; }
    out.append(best_to);
    i += best_from.size();
    ++n;
  }
  if (n) *s = out;
  return n;
}
inline int StrReplaceAll(std::initializer_list<std::pair<string_view, string_view>> r, std::string *s) {
  return StrReplaceAll<std::initializer_list<std::pair<string_view, string_view>>>(r, s);
}
template <typename C> std::string StrReplaceAll(string_view s, const C &reps) { std::string r(s); StrReplaceAll(reps, &r); return r; }
inline std::string StrReplaceAll(string_view s, std::initializer_list<std::pair<string_view, string_view>> reps) { std::string r(s); StrReplaceAll(reps, &r); return r; }
// ---- StrSplit
struct AllowEmpty { bool operator()(string_view) const { return true; } };
struct SkipEmpty { bool operator()(string_view s) const { return !s.empty(); } };
struct SkipWhitespace { bool operator()(string_view s) const { return !StripAsciiWhitespace(s).empty(); } };
struct ByChar { char c; explicit ByChar(char x) : c(x) {} std::pair<size_t, size_t> Find(string_view t, size_t p) const { return {t.find(c, p), 1}; } };
struct ByString { std::string s; explicit ByString(string_view x) : s(x) {} std::pair<size_t, size_t> Find(string_view t, size_t p) const { if (s.empty()) return {p + 1 < t.size() ? p + 1 : string_view::npos, 0}; return {t.find(s, p), s.size()}; } };
struct ByAnyChar { std::string s; explicit ByAnyChar(string_view x) : s(x) {} std::pair<size_t, size_t> Find(string_view t, size_t p) const { return {t.find_first_of(s, p), 1}; } };
namespace sim_internal {
inline ByChar Delim(char c) { return ByChar(c); }
inline ByString Delim(string_view s) { return ByString(s); }
inline ByString Delim(const char *s) { return ByString(s); }
inline ByString Delim(const std::string &s) { return ByString(s); }
inline ByString Delim(const ByString &s) { return s; }
inline ByChar Delim(const ByChar &s) { return s; }
inline ByAnyChar Delim(const ByAnyChar &s) { return s; }
template <typename D> struct MaxSplitsT { D d; int n; };
template <typename D> MaxSplitsT<D> Delim(const MaxSplitsT<D> &m) { return m; }
template <typename D> struct Limit { static int Get(const D &) { return std::numeric_limits<int>::max(); } static const D &In(const D &d) { return d; } };
template <typename D> struct Limit<MaxSplitsT<D>> { static int Get(const MaxSplitsT<D> &m) { return m.n; } static const D &In(const MaxSplitsT<D> &m) { return m.d; } };
class Pieces {
 public:
  std::string hold;
  std::vector<string_view> v;
  template <typename C, typename E = typename C::value_type, typename = std::enable_if_t<!std::is_same_v<C, string_view> && !std::is_same_v<C, std::string>>>
  operator C() const { C r; for (auto s : v) r.insert(r.end(), E(s)); return r; }  // NOLINT
  template <typename A, typename B> operator std::pair<A, B>() const { return {v.size() > 0 ? A(v[0]) : A(), v.size() > 1 ? B(v[1]) : B()}; }  // NOLINT
  auto begin() const { return v.begin(); }
  auto end() const { return v.end(); }
};
}  // namespace sim_internal
template <typename D> auto MaxSplits(D d, int n) { auto x = sim_internal::Delim(d); return sim_internal::MaxSplitsT<decltype(x)>{x, n}; }
template <typename D, typename P> sim_internal::Pieces StrSplit(string_view t, D &&d, P p) {
  auto delim = sim_internal::Delim(d);
  using L = sim_internal::Limit<decltype(delim)>;
  int left = L::Get(delim);
  sim_internal::Pieces r;
  size_t pos = 0;
  for (;;) {
    size_t at = string_view::npos, len = 0;
    if (left-- > 0) std::tie(at, len) = L::In(delim).Find(t, pos);
    const string_view s = t.substr(pos, at == string_view::npos ? at : at - pos);
    if (p(s)) r.v.push_back(s);
    if (at == string_view::npos) break;
    pos = at + len;
  }
  return r;
}
template <typename D> sim_internal::Pieces StrSplit(string_view t, D &&d) { return StrSplit(t, std::forward<D>(d), AllowEmpty()); }
// ---- escaping
inline std::string CEscapeImpl(string_view s, bool hex, bool utf8) {
  std::string r;
  bool last_hex = false;
  for (unsigned char c : s) {
    bool h = false;
    switch (c) {
      case '\n': r += "\\n"; break;
      case '\r': r += "\\r"; break;
      case '\t': r += "\\t"; break;
      case '"': r += "\\\""; break;
      case '\'': r += "\\'"; break;
      case '\\': r += "\\\\"; break;
      default:
        if ((!utf8 || c < 128) && (!ascii_isprint(c) || (last_hex && ascii_isxdigit(c)))) {
          char b[8];
          snprintf(b, sizeof b, hex ? "\\x%02x" : "\\%03o", c);
          r += b;
          h = hex;
        } else r += (char)c;
    }
    last_hex = h;
  }
  return r;
}
inline std::string CEscape(string_view s) { return CEscapeImpl(s, false, false); }
inline std::string CHexEscape(string_view s) { return CEscapeImpl(s, true, false); }
inline std::string Utf8SafeCEscape(string_view s) { return CEscapeImpl(s, false, true); }
inline std::string Utf8SafeCHexEscape(string_view s) { return CEscapeImpl(s, true, true); }
inline bool CUnescape(string_view s, std::string *out) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\') { r += s[i]; continue; }
    if (++i >= s.size()) return false;
    switch (s[i]) {
      case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
      case 'a': r += '\a'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case 'v': r += '\v'; break;
      case '\\': case '\'': case '"': case '?': r += s[i]; break;
      case 'x': { int v = 0, n = 0; while (i + 1 < s.size() && ascii_isxdigit(s[i + 1])) { v = v * 16 + (int)strtol(std::string(1, s[++i]).c_str(), nullptr, 16); ++n; } if (!n || v > 255) return false; r += (char)v; break; }
      default: if (s[i] >= '0' && s[i] <= '7') { int v = 0, n = 0; while (n < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7') { v = v * 8 + s[i++] - '0'; ++n; } --i; if (v > 255) return false; r += (char)v; } else return false;
    }
  }
  *out = r;
  return true;
}
inline std::string BytesToHexString(string_view s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r; }
}  // namespace absl
