// RE2 stand-in; runs as a pure function outside of the simulated world.
#include <re2/re2.h>

#include <boost/regex.hpp>
#include <cstdio>
#include <cstdlib>

#include "core.h"

namespace re2 {
using Re = boost::regex;
#define VIS __attribute__((visibility("default")))
VIS RE2::RE2(std::string_view p, const Options &o) : pattern_(p), options_(o) {
  sim::Enter e;
  boost::regex::flag_type f = boost::regex::perl | boost::regex::no_mod_s | boost::regex::no_mod_m;
  if (o.dot_nl()) f = boost::regex::perl | boost::regex::mod_s | boost::regex::no_mod_m;
  if (!o.case_sensitive()) f |= boost::regex::icase;
  if (o.literal()) f |= boost::regex::literal;
  try {
    auto *r = new Re(pattern_, f);
    impl_ = r;
    groups_ = (int)r->mark_count();
  } catch (const std::exception &ex) {
    error_ = ex.what();
    const size_t nl = error_.find_first_of(".\n");
    if (nl != std::string::npos) error_.resize(nl);
  }
}
VIS RE2::~RE2() { sim::Enter e; delete (Re *)impl_; }
VIS bool RE2::Arg::Set(const char *b, size_t n) const {
  switch (kind_) {
    case 0: return true;
    case 1: ((std::string *)p_)->assign(b ? b : "", n); return true;
    case 2: *(std::string_view *)p_ = std::string_view(b, n); return true;
  }
  std::string s(b ? b : "", n);
  if (s.empty()) return false;
  char *end;
  const long long v = strtoll(s.c_str(), &end, 10);
  if (*end) return false;
  if (kind_ == 3) *(int *)p_ = (int)v;
  else if (kind_ == 4) *(int64_t *)p_ = v;
  else *(unsigned *)p_ = (unsigned)v;
  return true;
}
static bool Search(const Re &re, const char *b, const char *e, boost::cmatch *m, RE2::Anchor a) {
  try {
    boost::match_flag_type fl = boost::match_default;
    if (a == RE2::ANCHOR_BOTH) return boost::regex_match(b, e, *m, re, fl);
    if (a == RE2::ANCHOR_START) fl |= boost::match_continuous;
    return boost::regex_search(b, e, *m, re, fl);
  } catch (const std::exception &) {
    return false;
  }
}
VIS bool RE2::Apply(std::string_view t, const RE2 &re, Anchor a, std::string_view *consume, const std::vector<Arg> &args) {
  sim::Enter e;
  if (!re.impl_) return false;
  static const char kEmpty[] = "";
  const char *b = t.data() ? t.data() : kEmpty;
  boost::cmatch m;
  if (!Search(*(Re *)re.impl_, b, b + t.size(), &m, a)) return false;
  if ((int)args.size() > re.groups_) return false;
  for (size_t i = 0; i < args.size(); ++i) {
    const auto &s = m[i + 1];
    if (!args[i].Set(s.matched ? s.first : nullptr, s.matched ? s.second - s.first : 0)) return false;
  }
  if (consume) {
    const size_t end = m[0].second - b;
    consume->remove_prefix(end);
  }
  return true;
}
VIS bool RE2::Match(std::string_view text, size_t start, size_t end, Anchor a, std::string_view *sub, int n) const {
  sim::Enter e;
  if (!impl_ || start > end || end > text.size()) return false;
  boost::cmatch m;
  if (!Search(*(Re *)impl_, text.data() + start, text.data() + end, &m, a)) return false;
  for (int i = 0; i < n; ++i)
    sub[i] = i < (int)m.size() && m[i].matched ? std::string_view(m[i].first, m[i].second - m[i].first) : std::string_view();
  return true;
}
static std::string Rewrite(std::string_view rw, const boost::cmatch &m) {
  std::string r;
  for (size_t i = 0; i < rw.size(); ++i) {
    if (rw[i] == '\\' && i + 1 < rw.size()) {
      ++i;
      if (rw[i] >= '0' && rw[i] <= '9') { if (rw[i] - '0' < (int)m.size()) r += m[rw[i] - '0'].str(); }
      else r += rw[i];
    } else r += rw[i];
  }
  return r;
}
VIS bool RE2::Replace(std::string *s, const RE2 &re, std::string_view rw) {
  sim::Enter e;
  boost::cmatch m;
  if (!re.impl_ || !Search(*(Re *)re.impl_, s->data(), s->data() + s->size(), &m, UNANCHORED)) return false;
  s->replace(m[0].first - s->data(), m[0].second - m[0].first, Rewrite(rw, m));
  return true;
}
VIS int RE2::GlobalReplace(std::string *s, const RE2 &re, std::string_view rw) {
  sim::Enter e;
  if (!re.impl_) return 0;
  int n = 0;
  std::string out;
  const char *p = s->data(), *end = p + s->size();
  while (p <= end) {
    boost::cmatch m;
    if (!Search(*(Re *)re.impl_, p, end, &m, UNANCHORED)) break;
    out.append(p, m[0].first - p);
    out += Rewrite(rw, m);
    ++n;
    if (m[0].second == m[0].first) { if (m[0].first < end) out += *m[0].first; p = m[0].second + 1; } else p = m[0].second;
  }
  if (p < end) out.append(p, end - p);
  *s = out;
  return n;
}
VIS std::string RE2::QuoteMeta(std::string_view s) {
  std::string r;
  for (unsigned char c : s) {
    if (!(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '_' && !(c & 128)) {
      if (c == 0) { r += "\\x00"; continue; }
      r += '\\';
    }
    r += (char)c;
  }
  return r;
}
VIS RE2 *LazyRE2::get() const {
  if (!ptr_) ptr_ = new RE2(pattern_);
  return ptr_;
}
}  // namespace re2
