// Scenarios for scripts/run-clang-tidy-cached.cc (properties C01 to C06).
// Real: the whole linter program. Model: shell, clang-tidy, bazel, kernel.
#include "tidy.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <set>

#include "harness.h"
#include "shell.h"

using namespace sim;
namespace sim { extern std::function<int(const std::string &cmd, std::string *capture)> g_shell; }

namespace {
using StrMap = std::map<std::string, std::string>;

const char *const kChecks[] = {
  "modernize-use-override", "readability-braces", "bugprone-swapped-arguments", "cert-err58-cpp",
  "clang-analyzer-core.NullDereference", "modernize-use-auto,-warnings-as-errors", "readability-magic-numbers,cert-dcl16-c",
  "clang-diagnostic-error", "clang-diagnostic-c++20-extensions", "misc-unused_parameters",
};
const int kNumChecks = sizeof(kChecks) / sizeof(kChecks[0]);
const char *const kVersions[] = {"18.1.3", "17.0.6", "18.1.8", "9.0.1"};
const char *const kDirs[] = {"bant", "bant/util", "bant/frontend", "bant/tool"};
const char *const kSrcNames[] = {"foo.cc", "bar.cc", "main.cpp", "x.cxx"};
const char *const kHdrNames[] = {"foo.h", "util.h", "dep.pb.h", "a_b-c.hpp", "z.hxx", "t.inl"};

struct Checkout { std::string root, execroot; bool bazel = true; };

struct Lint;
Lint *L = nullptr;

struct RunRec {
  Process *proc = nullptr;
  Checkout *co = nullptr;
  std::vector<std::string> args;
  std::map<std::string, int> analysed;   // rel path -> times started
  std::set<std::string> failed;          // analyses that did not complete
  std::set<std::string> aborted_int;
  int64_t start = 0;
  int launches = 0;
};

bool IsHdr(const std::string &p) {
  for (const char *e : {".h", ".hpp", ".hxx", ".inl"}) {
    const size_t n = strlen(e);
    if (p.size() > n && p.compare(p.size() - n, n, e) == 0) return true;
  }
  return false;
}
bool IsSrc(const std::string &p) {
  for (const char *e : {".cc", ".cpp", ".cxx"}) {
    const size_t n = strlen(e);
    if (p.size() > n && p.compare(p.size() - n, n, e) == 0) return true;
  }
  return IsHdr(p);
}
std::string Base(const std::string &p) { return p.substr(p.rfind('/') + 1); }
std::string Dir(const std::string &p) { size_t s = p.rfind('/'); return s == std::string::npos ? "" : p.substr(0, s); }
std::vector<std::string> Lines(const std::string &c) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < c.size()) {
    size_t e = c.find('\n', i);
    if (e == std::string::npos) e = c.size();
    r.push_back(c.substr(i, e - i));
    i = e + 1;
  }
  return r;
}
std::string Normal(const std::string &p) {
  std::vector<std::string> out;
  size_t i = 0;
  while (i <= p.size()) {
    size_t e = p.find('/', i);
    if (e == std::string::npos) e = p.size();
    std::string c = p.substr(i, e - i);
    if (c == "..") { if (!out.empty()) out.pop_back(); else return ""; }
    else if (!c.empty() && c != ".") out.push_back(c);
    i = e + 1;
  }
  std::string r;
  for (auto &c : out) { if (!r.empty()) r += '/'; r += c; }
  return r;
}
bool IncludeOf(const std::string &line, std::string *inc) {
  size_t i = line.find_first_not_of(" \t");
  if (i == std::string::npos || line[i] != '#') return false;
  i = line.find_first_not_of(" \t", i + 1);
  if (i == std::string::npos || line.compare(i, 7, "include") != 0) return false;
  size_t a = line.find('"', i);
  if (a == std::string::npos) return false;
  size_t b = line.find('"', a + 1);
  if (b == std::string::npos) return false;
  *inc = line.substr(a + 1, b - a - 1);
  return true;
}

struct Lint {
  Ctx &c;
  Draws &W;
  std::vector<Checkout> cos;
  std::map<Process *, RunRec *> by_proc;
  std::vector<std::unique_ptr<RunRec>> runs;
  std::string version = kVersions[0];
  StrMap env;
  std::string cache_base;
  bool bazel = true;
  bool check_all = true;
  // Keys known to be analysed in completed runs: key -> (time, has findings)
  std::map<std::string, std::pair<int64_t, bool>> done_keys;
  int serial = 0;

  explicit Lint(Ctx &ctx) : c(ctx), W(ctx.W) { L = this; }

  // ------------------------------------------------------------ project files
  StrMap Files(const Checkout &co) {
    StrMap r;
    for (auto &[p, d] : S->fs.Snapshot(co.root + "/bant"))
      if (d[0] == 'F') r[p.substr(co.root.size() + 1)] = d.substr(1);
    return r;
  }
  std::vector<std::string> Interest(const StrMap &f) {
    std::vector<std::string> r;
    for (auto &[p, _] : f) if (IsSrc(p)) r.push_back(p);
    return r;
  }
  // Headers directly included, as the compiler would find them.
  std::vector<std::string> Direct(const StrMap &f, const std::string &rel) {
    std::vector<std::string> r;
    for (auto &l : Lines(f.at(rel))) {
      std::string inc;
      if (!IncludeOf(l, &inc)) continue;
      std::string p = Normal(Dir(rel) + "/" + inc);
      if (!f.count(p)) p = Normal(inc);
      if (p.empty() || !f.count(p) || !IsHdr(p)) continue;
      if (std::find(r.begin(), r.end(), p) == r.end()) r.push_back(p);
    }
    return r;
  }
  std::string Config(const Checkout &co) { std::string s; S->fs.ReadFile(co.root + "/.clang-tidy", &s); return s; }
  bool EnvOk(const Checkout &co) {
    std::string s;
    if (!S->fs.ReadFile(co.root + "/compile_commands.json", &s)) S->fs.ReadFile(co.root + "/compile_flags.txt", &s);
    return s.find("deps=complete") != std::string::npos;
  }
  std::string Spell(const Checkout &co, const std::string &rel, int k) {
    switch (k % 5) {
      case 0: return rel;
      case 1: return co.root + "/" + rel;
      case 2: return "./" + rel;
      case 3: return co.bazel ? co.execroot + "/" + rel : co.root + "/./" + rel;
      default: return co.bazel ? co.execroot + "/./" + rel : rel;
    }
  }
  // The analyser: what clang-tidy prints for a file. A function of the file,
  // the headers it includes, tool, arguments and configuration.
  std::string Analyse(const Checkout &co, const StrMap &f, const std::string &rel, const std::vector<std::string> &args,
                      bool raw, int *rc) {
    *rc = 0;
    auto it = f.find(rel);
    if (it == f.end()) { *rc = 1; return ""; }
    std::string only, out;
    for (auto &a : args) if (a.rfind("--checks=-*,", 0) == 0) only = a.substr(12);
    const std::string cfg = Config(co);
    int n = 0;
    auto emit = [&](const std::string &file, int ln, const std::string &sev, const std::string &msg, const std::string &check,
                    const std::string &code) {
      if (!only.empty() && check.rfind(only, 0) != 0 && sev != "error") return;
      if (cfg.find("-" + check + "'") != std::string::npos) return;
      const int k = raw ? (int)(Mix(HashStr(file + it->second), n) >> 9) & 0xff : 0;
      ++n;
      const std::string p = raw ? Spell(co, file, k) : file;
      out += p + ":" + std::to_string(ln) + ":3: " + sev + ": " + msg + " (" + version + ") [" + check + "]\n";
      out += "    " + std::to_string(ln) + " | " + code + "\n      |   ^\n";
      if (sev == "error") *rc = 1;
    };
    int ln = 0;
    for (auto &l : Lines(it->second)) {
      ++ln;
      if (l.rfind("BAD ", 0) == 0) {
        const std::string ch = kChecks[atoi(l.c_str() + 4) % kNumChecks];
        const int before = n;
        emit(rel, ln, ch.find("error") != std::string::npos ? "error" : "warning", "finding in file", ch, l + " // see ./x.h");
        if (n != before && l.find("note") != std::string::npos)
          out += (raw ? Spell(co, rel, (int)(HashStr(l + rel) >> 7) & 0xff) : rel) + ":1:1: note: declared here\n";
      } else if (l.rfind("NEEDENV", 0) == 0 && !EnvOk(co)) {
        emit(rel, ln, "error", "file not found", "clang-diagnostic-error", l);
      }
    }
    for (auto &h : Direct(f, rel)) {
      int hl = 0;
      for (auto &l : Lines(f.at(h))) {
        ++hl;
        if (l.rfind("USERS ", 0) == 0)
          emit(rel, 1, "warning", "because of " + h + " line " + std::to_string(hl), kChecks[atoi(l.c_str() + 6) % kNumChecks], "use");
        if (l.rfind("INHDR ", 0) == 0)
          emit(h, hl, "warning", "seen through " + Base(rel), kChecks[atoi(l.c_str() + 6) % kNumChecks], l);
      }
    }
    return out;
  }
  std::string Key(const Checkout &co, const StrMap &f, const std::string &rel, const std::vector<std::string> &args) {
    std::string k = version + "\1" + Config(co) + "\1";
    for (auto &a : args) k += a + "\2";
    k += rel + "\1" + f.at(rel) + "\1";
    std::set<std::string> inc;
    for (auto &l : Lines(f.at(rel))) { std::string i; if (l.find("include") != std::string::npos) { size_t a = l.find('"'), b = l.rfind('"'); if (a != b) inc.insert(Base(l.substr(a + 1, b - a - 1))); } }
    for (auto &[p, d] : f) if (IsHdr(p) && inc.count(Base(p))) k += p + "\3" + d + "\1";
    return k;
  }

  // ------------------------------------------------------------- programs
  // Ctrl-C: a signal to a run and all the processes it started so far.
  int int_procs = 0;        // processes up to this id got it
  int int_sig = 0;
  bool int_at_work = false;
  int Interrupt(RunRec *r, int sig) {
    int_procs = (int)S->procs.back()->id;
    int_sig = sig;
    auto it = r->proc->sig.find(sig);
    if (it != r->proc->sig.end() && it->second == SIG_IGN) int_procs = 0;  // inherited
    return Signal(r->proc, sig);
  }
  void MaybeInterrupted(RunRec *r, const std::string &rel) {
    if (tl_cur->proc->id > int_procs) return;
    if (r && !rel.empty()) { Enter e; r->failed.insert(rel); r->aborted_int.insert(rel); }
    throw ShDied{int_sig, true};
  }

  int Tidy(const std::vector<std::string> &argv, ShIo &io) {
    Process *sh = tl_cur->proc;
    RunRec *r = nullptr;
    for (Process *p = sh; p && !r; p = p->parent) { auto it = by_proc.find(p); if (it != by_proc.end()) r = it->second; }
    Yield(1);
    MaybeInterrupted(r, "");
    if (argv.size() > 1 && argv[1] == "--version") {
      if (FaultAt("tool", "version")) return 127;
      io.Write("Ubuntu LLVM version " + version + "\n  Optimized build.\n");
      return 0;
    }
    Checkout *co = nullptr;
    for (auto &x : cos) if (S->fs.Lookup(x.root) == sh->cwd) co = &x;
    if (!co || !r) return 1;
    std::vector<std::string> args, files;
    for (size_t i = 1; i < argv.size(); ++i) {
      if (argv[i][0] != '-') files.push_back(argv[i]);
      else if (argv[i] != "--quiet" && argv[i].rfind("--config-file=", 0) != 0 && argv[i].rfind("--extra-arg=", 0) != 0) args.push_back(argv[i]);
    }
    int rc = 0;
    for (auto &file : files) {
      std::string rel = file;
      if (rel.rfind(co->root + "/", 0) == 0) rel = rel.substr(co->root.size() + 1);
      rel = Normal(rel);
      { Enter e; r->analysed[rel]++; r->launches++; LogEvent("analyse", co->root + "/" + rel, "", r->proc->id, 0); }
      int code;
      { Enter e; code = FaultAt("analyse", co->root + "/" + rel); }
      if (code == kExit127) { Enter e; r->failed.insert(rel); return 127; }
      int one = 0;
      std::string text;
      { Enter e; text = Analyse(*co, Files(*co), rel, args, true, &one); }
      size_t stop = text.size();
      if (code == kKillChild || code == kKillInt) { stop = text.empty() ? 0 : HashStr(rel + text) % (text.size() + 1); }
      const size_t chunk = 1 + HashStr(rel) % 97;
      if (code == kStall && HashStr(rel) % 2) { Enter e; Stall(); }
      for (int k = 0; int_at_work && k < 3; ++k) { Yield(1); MaybeInterrupted(r, rel); }
      for (size_t i = 0; i < stop; i += chunk) {
        Yield(1);
        MaybeInterrupted(r, rel);
        { Enter e; AdvanceTime(20'000'000); }
        if (code == kStall) for (int k = 0; k < 40; ++k) { Yield(1); Enter e; AdvanceTime(50'000'000); }
        const int err = io.Write(text.substr(i, std::min(chunk, stop - i)));
        if (err) {  // LLVM: "IO failure on output stream", exit status 1
          Enter e;
          r->failed.insert(rel);
          return 1;
        }
      }
      if (stop == 0 && code == kStall) for (int k = 0; k < 40; ++k) { Yield(1); Enter e; AdvanceTime(50'000'000); }
      if (code == kKillChild || code == kKillInt) {
        { Enter e; r->failed.insert(rel); }
        throw ShDied{code == kKillInt ? SIGINT : SIGSEGV};
      }
      { Enter e; LogEvent("analysed", co->root + "/" + rel, "", r->proc->id, 0); }
      rc |= one;
    }
    return rc;
  }
  int Bazel(const std::vector<std::string> &argv, ShIo &io) {
    for (int k = 0; k < (int_at_work ? 3 : 1); ++k) { Yield(1); MaybeInterrupted(nullptr, ""); }
    { Enter e; if (int code = FaultAt("tool", "bazel"); code == kKillChild) throw ShDied{SIGSEGV}; }
    Checkout *co = nullptr;
    for (auto &x : cos) if (S->fs.Lookup(x.root) == tl_cur->proc->cwd) co = &x;
    if (argv.size() < 3 || argv[1] != "info" || argv[2] != "execution_root" || !co || !co->bazel) return 2;
    io.Write(co->execroot + "\n");
    return 0;
  }

  // ------------------------------------------------------------- generation
  std::string GenContent(const Checkout &co, const std::string &rel) {
    std::string s;
    const bool hdr = IsHdr(rel);
    const int n = W.Below(4);
    StrMap f = Files(co);
    std::vector<std::string> hs;
    for (auto &[p, _] : f) if (IsHdr(p)) hs.push_back(p);
    if (!hs.empty()) {
      int ni = W.Below(3);
      for (int i = 0; i < ni; ++i) {
        const std::string &h = hs[W.Below(hs.size())];
        switch (W.Below(4)) {
          case 0: case 1: s += "#include \"" + h + "\"\n"; break;
          case 2: s += "#include \"" + Base(h) + "\"\n"; break;
          default: s += " #  include \"" + h + "\"  // x\n"; break;
        }
      }
    }
    for (int i = 0; i < n; ++i) {
      switch (W.Below(hdr ? 5 : 4)) {
        case 0: s += "int x" + std::to_string(W.Below(3)) + ";\n"; break;
        case 1: s += "BAD " + std::to_string(W.Below(kNumChecks)) + (W.Chance(20) ? " note" : "") + "\n"; break;
        case 2: s += hdr ? "USERS " + std::to_string(W.Below(kNumChecks)) + "\n" : "BAD " + std::to_string(W.Below(kNumChecks)) + "\n"; break;
        case 3: s += "NEEDENV\n"; break;
        default: s += "INHDR " + std::to_string(W.Below(kNumChecks)) + "\n"; break;
      }
    }
    return s;
  }
  std::string GenName() {
    const std::string d = kDirs[W.Below(4)];
    return d + "/" + (W.Chance(50) ? kHdrNames[W.Below(6)] : kSrcNames[W.Below(4)]);
  }
  void SetupCheckout(const std::string &root, bool bazel_ok) {
    Checkout co;
    co.root = root;
    co.execroot = "/home/u/.cache/bazel" + root + "/execroot/_main";
    co.bazel = bazel_ok;
    S->fs.MkdirP(root + "/bant");
    S->fs.WriteFile(root + "/MODULE.bazel", "module(name = \"bant\")\n");
    S->fs.WriteFile(root + "/.clang-tidy", "Checks: '*'\n");
    if (W.Chance(20)) S->fs.WriteFile(root + "/compile_flags.txt", "-std=c++20\n");
    else S->fs.WriteFile(root + "/compile_commands.json", "[]\n");
    cos.push_back(co);
  }
  void Populate(Checkout &co, int n) {
    for (int i = 0; i < n; ++i) {
      const std::string rel = GenName();
      S->fs.WriteFile(co.root + "/" + rel, GenContent(co, rel));
    }
    if (W.Chance(30)) S->fs.WriteFile(co.root + "/bant/README.md", "BAD 1\n");
  }
  void Setup(int max_files) {
    S->fs.cfg.order = (DirOrder)W.Below(4);
    S->fs.cfg.order_seed = W.Below(1000);
    S->fs.MkdirP("/tmp");
    S->fs.MkdirP("/home/u");
    const int cachekind = W.Below(4);
    env = {{"PATH", "/usr/bin"}, {"HOME", "/home/u"}};
    if (cachekind == 0) { S->fs.MkdirP("/home/u/.cache"); cache_base = "/home/u/.cache"; }
    else if (cachekind == 1) { env["CACHE_DIR"] = "/cache/dir"; cache_base = "/cache/dir"; }
    else if (cachekind == 2) { env["TMPDIR"] = "/vtmp"; S->fs.MkdirP("/vtmp"); cache_base = "/vtmp"; }
    else { cache_base = "/tmp"; }
    if (W.Chance(20)) env["CLANG_TIDY"] = "/opt/llvm/bin/clang-tidy";
    static const char *const roots[] = {"/w/proj", "/w/c++", "/w/a.b/(x)"};
    const uint32_t ri = W.Below(8);
    const std::string root = roots[ri < 6 ? 0 : ri - 5];
    bazel = !W.Chance(30);
    SetupCheckout(root, bazel);
    Populate(cos[0], 1 + W.Below(max_files));
    S->now_ns += 1'000'000'000;
    g_shell = [](const std::string &cmd, std::string *cap) { return g_sh.Run(cmd, cap); };
    g_sh.progs["clang-tidy"] = [](const std::vector<std::string> &a, ShIo &io) { return L->Tidy(a, io); };
    g_sh.progs["bazel"] = [](const std::vector<std::string> &a, ShIo &io) { return L->Bazel(a, io); };
    g_sh.exec_last = W.Chance(50);
  }
  std::string edits;
  // Versions of a checkout one can go back to (as with version control).
  std::map<std::string, std::vector<StrMap>> versions;
  void Remember(const Checkout &co) { versions[co.root].push_back(Files(co)); }
  void Restore(Checkout &co) {
    auto &v = versions[co.root];
    if (v.empty()) return;
    const size_t k = W.Below(v.size());
    const StrMap want = v[k], have = Files(co);
    for (auto &[p, _] : have) if (!want.count(p)) S->fs.Remove(co.root + "/" + p);
    for (auto &[p, d] : want) { auto it = have.find(p); if (it == have.end() || it->second != d) S->fs.WriteFile(co.root + "/" + p, d); }
    edits += "restore version " + std::to_string(k) + "; ";
    S->now_ns += 5'000'000'000;
  }
  // One edit of a checkout.
  void Edit(Checkout &co, bool config_too = true, bool existing_only = false) {
    StrMap f = Files(co);
    std::vector<std::string> in = Interest(f), hs;
    for (auto &p : in) if (IsHdr(p)) hs.push_back(p);
    auto pick = [&](const std::vector<std::string> &v) { return v[W.Below(v.size())]; };
    auto path = [&](const std::string &r) { return co.root + "/" + r; };
    uint32_t op = W.Below(config_too ? 14 : 9);
    if (existing_only) { static const int kOps[] = {0, 0, 2, 2, 5, 8}; op = kOps[W.Below(6)]; }
    std::string what;
    switch (op) {
      case 0: case 1: if (!in.empty()) { auto p = pick(in); S->fs.WriteFile(path(p), GenContent(co, p)); what = "edit " + p; } break;
      case 2: case 3: if (!hs.empty()) { auto p = pick(hs); S->fs.WriteFile(path(p), GenContent(co, p)); what = "edit " + p; } break;
      case 4: { auto p = GenName(); S->fs.WriteFile(path(p), GenContent(co, p)); what = "add " + p; break; }
      case 5: if (in.size() > 1) { auto p = pick(in); S->fs.Remove(path(p)); what = "remove " + p; } break;
      case 6: if (in.size() > 1) {  // rename / move
        auto p = pick(in); auto q = std::string(kDirs[W.Below(4)]) + "/" + (W.Chance(60) ? Base(p) : Base(GenName()));
        if (q != p) { std::string d = f[p]; S->fs.Remove(path(p)); S->fs.WriteFile(path(q), d); what = "move " + p + " " + q; } } break;
      case 7: if (!in.empty()) {  // copy
        auto p = pick(in); auto q = std::string(kDirs[W.Below(4)]) + "/" + Base(p);
        if (q != p) { S->fs.WriteFile(path(q), f[p]); what = "copy " + p + " " + q; } } break;
      case 8: if (hs.size() > 1) {  // swap two headers, or make them the same
        auto p = pick(hs), q = pick(hs);
        if (W.Chance(50)) { S->fs.WriteFile(path(p), f[q]); S->fs.WriteFile(path(q), f[p]); what = "swap " + p + " " + q; }
        else { std::string d = GenContent(co, p); S->fs.WriteFile(path(p), d); S->fs.WriteFile(path(q), d); what = "same edit " + p + " " + q; } } break;
      case 9: { const int k = W.Below(kNumChecks + 1);
        S->fs.WriteFile(path(".clang-tidy"), k ? std::string("Checks: '*,-") + kChecks[k - 1] + "'\n" : "Checks: '*'\n"); what = "config"; break; }
      case 10: version = kVersions[W.Below(4)]; what = "version " + version; break;
      case 11: S->fs.WriteFile(path("MODULE.bazel"), "module(name = \"bant\") # " + std::to_string(++serial) + "\n"); what = "touch MODULE.bazel"; break;
      case 12: { std::string n = S->fs.Lookup(path("compile_commands.json")) ? "compile_commands.json" : "compile_flags.txt"; std::string s;
        S->fs.ReadFile(path(n), &s); S->fs.WriteFile(path(n), s + " "); what = "touch compdb"; break; }
      default: { std::string n = S->fs.Lookup(path("compile_commands.json")) ? "compile_commands.json" : "compile_flags.txt";
        S->fs.WriteFile(path(n), "[] deps=complete\n"); what = "complete compdb"; break; }
    }
    if (!what.empty()) edits += what + "; ";
    S->now_ns += 5'000'000'000;
  }
  std::vector<std::string> GenArgs() {
    switch (W.Below(8)) {
      case 6: return {"--checks=-*,modernize"};
      case 7: return {"--checks=-*,readability"};
      default: return {};
    }
  }

  // ------------------------------------------------------------- running
  RunRec *Start(Checkout &co, const std::vector<std::string> &args, int ncpus, uint64_t kill_at = 0, bool kill_children = true) {
    auto r = std::make_unique<RunRec>();
    r->co = &co;
    r->args = args;
    r->start = S->now_ns;
    SpawnArgs a;
    a.argv = {"run-clang-tidy-cached"};
    for (auto &x : args) a.argv.push_back(x);
    a.env = env;
    a.cwd = co.root;
    a.ncpus = ncpus;
    a.kill_at = kill_at;
    a.kill_children = kill_children;
    r->proc = Spawn(g_tidy, a);
    by_proc[r->proc] = r.get();
    runs.push_back(std::move(r));
    return runs.back().get();
  }
  RunRec *RunOnce(Checkout &co, const std::vector<std::string> &args, int ncpus) {
    RunRec *r = Start(co, args, ncpus);
    RunUntilDone({r->proc});
    S->now_ns += 2'000'000'000;
    return r;
  }
  void Hang(const char *where) {
    if (S->res.deadlock) c.Violate(c.prop, "deadlock", std::string("deadlock in ") + where + ": " + S->res.deadlock_text);
  }

  StrMap ParseDetails(const Checkout &co, const StrMap &f, bool *ok) {
    StrMap r;
    std::string d;
    *ok = S->fs.ReadFile(co.root + "/bant_clang-tidy.out", &d);
    std::string cur;
    for (auto &l : Lines(d)) {
      if (l.size() > 1 && l.back() == ':' && l.find(' ') == std::string::npos && IsSrc(l.substr(0, l.size() - 1))) {
        cur = l.substr(0, l.size() - 1);
        if (r.count(cur)) r[cur] += "<second block>\n";
        r[cur];
        continue;
      }
      r[cur] += l + "\n";
    }
    (void)f;
    return r;
  }
  std::map<std::string, int> Count(const StrMap &findings) {
    std::map<std::string, int> r;
    for (auto &[p, t] : findings)
      for (auto &l : Lines(t)) {
        size_t b = l.rfind(" [");
        if (l.empty() || l.back() != ']' || b == std::string::npos || l.find(": note:") != std::string::npos) continue;
        r[l.substr(b + 1)]++;
      }
    return r;
  }
  static std::vector<std::pair<int, std::string>> ParseSummary(const std::string &out) {
    std::vector<std::pair<int, std::string>> r;
    for (auto &l : Lines(out)) {
      size_t b = l.find('[');
      if (b == std::string::npos) continue;
      r.emplace_back(atoi(l.c_str()), l.substr(b));
    }
    return r;
  }
  StrMap Expected(const RunRec &r) {
    StrMap f = Files(*r.co), e;
    for (auto &p : Interest(f)) {
      int rc;
      std::string t = Analyse(*r.co, f, p, r.args, false, &rc);
      if (!t.empty()) e[p] = t;
    }
    return e;
  }
  std::string Diff(const StrMap &want, const StrMap &got) {
    for (auto &[p, t] : want) {
      auto it = got.find(p);
      if (it == got.end()) return "findings of " + p + " missing: " + Clip(t, 200);
      if (it->second != t) return "findings of " + p + " differ: expected <<" + Clip(t, 300) + ">> got <<" + Clip(it->second, 300) + ">>";
    }
    for (auto &[p, t] : got)
      if (!want.count(p)) return "findings reported for " + (p.empty() ? std::string("(no file)") : p) + " but there are none: " + Clip(t, 200);
    return "";
  }
  // A completed run without faults: report, summary and exit status.
  bool CheckReport(const RunRec &r, bool details = true, bool streams = true) {
    Process *p = r.proc;
    const std::string tag = "run " + std::to_string(p->id) + " in " + r.co->root + ": ";
    if (p->state != Process::kExited) {
      c.Violate(c.prop, "crash", tag + "linter ended abnormally: " + p->death + " " + Clip(p->err, 300));
      return false;
    }
    const StrMap want = Expected(r);
    if (details) {
      bool ok;
      StrMap got = ParseDetails(*r.co, Files(*r.co), &ok);
      if (!ok) c.Violate(c.prop, "no-details", tag + "no details file after the run; exit status " + std::to_string(p->exit_code));
      else if (std::string d = Diff(want, got); !d.empty()) c.Violate(c.prop, "wrong-findings", tag + d + " [edits: " + Clip(edits, 400) + "]");
    }
    if (streams) {
      const auto counts = Count(want);
      const bool success = p->exit_code == 0;
      if (success != want.empty())
        c.Violate(c.prop, "exit-status", tag + "exit status " + std::to_string(p->exit_code) + " but " + std::to_string(want.size()) + " files have findings");
      auto sum = ParseSummary(p->out);
      std::map<std::string, int> got;
      for (auto &[n, k] : sum) got[k] += n;
      if (got != counts || sum.size() != counts.size()) {
        std::string w, g;
        for (auto &[k, n] : counts) w += std::to_string(n) + k + " ";
        for (auto &[n, k] : sum) g += std::to_string(n) + k + " ";
        c.Violate(c.prop, "summary", tag + "summary should count " + w + "; printed " + g);
      }
      for (size_t i = 1; i < sum.size(); ++i)
        if (sum[i].first > sum[i - 1].first) c.Violate(c.prop, "summary-order", tag + "summary not ordered by decreasing count: " + Clip(p->out, 200));
      std::string sf;
      if (details) {
        if (!S->fs.ReadFile(r.co->root + "/bant_clang-tidy.summary", &sf) || ParseSummary(sf) != sum)
          c.Violate(c.prop, "summary-file", tag + "summary file disagrees with printed summary: " + Clip(sf, 200));
      }
    }
    c.nontrivial |= !want.empty();
    if (!want.empty()) c.Probe("reports_with_findings"); else c.Probe("reports_without_findings");
    return true;
  }
  int64_t Freshness(const Checkout &co) {
    InodeP a = S->fs.Lookup(co.root + "/MODULE.bazel"), b = S->fs.Lookup(co.root + "/compile_commands.json");
    if (!b) b = S->fs.Lookup(co.root + "/compile_flags.txt");
    return std::max(a->mtime_ns, b->mtime_ns);
  }
  // What was analysed: nothing twice, nothing already known. Call before Learn().
  void CheckWork(const RunRec &r) {
    StrMap f = Files(*r.co);
    const int64_t fresh = Freshness(*r.co);
    for (auto &[rel, n] : r.analysed) {
      if (!f.count(rel) || !IsSrc(rel)) { c.Violate(c.prop, "foreign-analysis", "analysed " + rel + " which is no source of the project"); continue; }
      if (n > 1) c.Violate(c.prop, "analysed-twice", rel + " analysed " + std::to_string(n) + " times in one run");
      auto it = done_keys.find(Key(*r.co, f, rel, r.args));
      if (it == done_keys.end()) continue;
      if (it->second.second && it->second.first < fresh) continue;
      c.Violate(c.prop, "redone", rel + " analysed again although neither it, its headers nor the configuration changed; edits: " + Clip(edits, 300));
    }
    for (auto &rel : Interest(f)) {
      auto it = done_keys.find(Key(*r.co, f, rel, r.args));
      if (it != done_keys.end() && it->second.second && it->second.first < fresh && !r.analysed.count(rel))
        c.Violate(c.prop, "not-revisited", rel + " has findings older than the build configuration, but was not analysed again");
      if (it != done_keys.end() && !r.analysed.count(rel)) c.Probe("cache_hits");
    }
    c.Probe("analyses", r.launches);
  }
  void Learn(const RunRec &r) {
    StrMap f = Files(*r.co);
    for (auto &[rel, n] : r.analysed) {
      if (!f.count(rel) || r.failed.count(rel)) continue;
      int rc;
      const bool has = !Analyse(*r.co, f, rel, r.args, false, &rc).empty();
      done_keys[Key(*r.co, f, rel, r.args)] = {r.start, has};
    }
  }
  void Sample() {
    std::string s;
    for (auto &co : cos) {
      s += co.root + ": ";
      for (auto &[p, d] : Files(co)) s += p + "{" + Clip(d, 60) + "} ";
    }
    c.sample = Clip("edits: " + edits + " | " + s, 1500);
    for (auto &ch : c.sample) if (ch == '\n') ch = '|';
    c.state_hash = Mix(HashStr(c.sample), HashStr(edits));
  }
};

int Cpus(Draws &W) { static const int n[] = {1, 2, 3, 4, 8}; return n[W.Below(5)]; }

// ------------------------------------------------------------------ scenarios
void C01(Ctx &c) {
  Lint l(c);
  l.Setup(7);
  RandomSchedule(c, false);
  int runs = 2 + c.W.Below(4);
  // Sometimes a second checkout shares the cache.
  if (c.W.Chance(15)) {
    l.SetupCheckout("/w2/proj", l.bazel);
    StrMap f = l.Files(l.cos[0]);
    for (auto &[p, d] : f) S->fs.WriteFile("/w2/proj/" + p, d);
  }
  const bool two = l.cos.size() > 1;
  std::vector<std::string> args = l.GenArgs();
  for (int i = 0; i < runs && c.violations.empty(); ++i) {
    Checkout &co = l.cos[two ? c.W.Below(2) : 0];
    if (i) {
      int ne = c.W.Below(4);
      for (int k = 0; k < ne; ++k) l.Edit(co, !two);
      if (c.W.Chance(25)) l.Restore(co);
      if (c.W.Chance(15)) args = l.GenArgs();
    }
    l.Remember(co);
    // Sometimes files change while the linter is running. What it reports then
    // is open, but later runs must not be affected.
    if (i + 1 < runs && c.W.Chance(25)) {
      const uint32_t nth = c.W.Below(20 + 20 * (uint32_t)l.Files(co).size());
      const int ne = 1 + c.W.Below(2);
      auto seen = std::make_shared<uint32_t>(0);
      l.edits += "(while running: ";
      S->on_event = [&l, &co, seen, nth, ne](const Event &) {
        if ((*seen)++ != nth) return;
        for (int k = 0; k < ne; ++k) l.Edit(co, false, true);
      };
      RunRec *r = l.RunOnce(co, args, Cpus(c.W));
      S->on_event = nullptr;
      l.edits += ") ";
      l.Hang("run");
      if (r->proc->state != Process::kExited) { c.Violate(c.prop, "crash", "linter ended abnormally: " + r->proc->death + " " + Clip(r->proc->err, 300)); break; }
      l.Remember(co);
      l.done_keys.clear();
      c.Probe("edited_while_running");
      continue;
    }
    RunRec *r = l.RunOnce(co, args, Cpus(c.W));
    l.Hang("run");
    if (!l.CheckReport(*r, true, false)) break;
    if (!two) l.CheckWork(*r);
    l.Learn(*r);
  }
  l.Sample();
}

void KillSetup(Lint &l, Ctx &c, RunRec *r) {
  // Half of the time die somewhere, else close to an operation on the cache.
  Process *p = r->proc;
  p->kill_children = !c.W.Chance(50);
  const int mode = c.W.Below(3);
  if (mode == 0) { p->kill_at = 1 + c.W.Below(60 + 60 * (uint32_t)l.Files(*r->co).size()); return; }
  const uint32_t nth = c.W.Below(12), delta = 1 + c.W.Below(4);
  auto cnt = std::make_shared<uint32_t>(0);
  const bool ren = mode == 2;
  S->on_event = [=](const Event &e) {
    if (e.path.find("/contents/") == std::string::npos && strcmp(e.kind, "analysed") != 0 && strcmp(e.kind, "analyse") != 0) return;
    if (ren && strcmp(e.kind, "rename") != 0 && strcmp(e.kind, "close") != 0) return;
    if (p->Done()) return;
    if ((*cnt)++ == nth) p->kill_at = p->sys_count + delta;
  };
}

void C02(Ctx &c) {
  Lint l(c);
  l.Setup(5);
  RandomSchedule(c, false);
  std::vector<std::string> args = l.GenArgs();
  if (c.W.Chance(40)) {
    RunRec *r = l.RunOnce(l.cos[0], args, Cpus(c.W));
    l.CheckReport(*r, true, false);
    int ne = 1 + c.W.Below(3);
    for (int k = 0; k < ne; ++k) l.Edit(l.cos[0]);
  }
  const int kills = 1 + c.W.Below(3);
  for (int i = 0; i < kills && ImagesLeft(g_tidy) > 2; ++i) {
    RunRec *r = l.Start(l.cos[0], args, Cpus(c.W));
    KillSetup(l, c, r);
    RunUntilDone({r->proc});
    S->on_event = nullptr;
    if (r->proc->state == Process::kKilled) c.Probe("killed_runs"), c.nontrivial = true;
    else c.Probe("kill_missed");
    bool orphans = false;
    for (auto &p : S->procs) orphans |= !p->Done();
    if (orphans) c.Probe("orphans_left");
    if (!c.W.Chance(60)) { WaitOrphans(); }
    S->now_ns += 1'000'000'000;
    int ne = c.W.Below(3);
    // Files do not change below a running analysis.
    if (ne) { WaitOrphans(); for (int k = 0; k < ne; ++k) l.Edit(l.cos[0]); }
  }
  RunRec *r = l.RunOnce(l.cos[0], args, Cpus(c.W));
  l.Hang("recovery run");
  l.CheckReport(*r);
  WaitOrphans();
  S->now_ns += 1'000'000'000;
  // Orphans must not have damaged the results either.
  RunRec *r2 = l.RunOnce(l.cos[0], args, Cpus(c.W));
  l.CheckReport(*r2);
  l.Sample();
}

void C03(Ctx &c) {
  Lint l(c);
  l.Setup(4);
  RandomSchedule(c, false);
  std::vector<std::string> args = l.GenArgs();
  if (c.W.Chance(30)) {
    RunRec *r = l.RunOnce(l.cos[0], args, Cpus(c.W));
    l.CheckReport(*r, true, false);
    int ne = 1 + c.W.Below(3);
    for (int k = 0; k < ne; ++k) l.Edit(l.cos[0]);
  }
  const int rounds = 1 + c.W.Below(2);
  for (int i = 0; i < rounds; ++i) {
    const int kind = c.W.Below(5);
    const uint32_t percent = 10 + c.W.Below(6) * 15;
    auto wrote_fail = std::make_shared<bool>(false);
    S->fs.bytes_free = -1;
    if (kind == 3) S->fs.bytes_free = c.W.Below(1200);
    S->policy = [=](const FaultSite &s) -> int {
      if (!S->frng.Chance(percent / 100.0)) return 0;
      const std::string k = s.kind;
      const bool in_cache = s.path.find("/contents/") != std::string::npos;
      if (k == "fork" && (kind == 0 || kind == 4) && s.path.find("--version") == std::string::npos)
        return S->frng.Below(2) ? EAGAIN : ENOMEM;
      if (k == "analyse" && (kind == 1 || kind == 4)) {
        static const int codes[] = {kKillChild, kKillChild, kExit127, kKillInt, kStall};
        return codes[S->frng.Below(5)];
      }
      if (k == "tool" && s.path == "bazel" && (kind == 1 || kind == 4)) return kKillChild;
      if (k == "thread") return kind == 4 && S->frng.Chance(0.3) ? EAGAIN : 0;
      if (in_cache && (kind == 2 || kind == 4)) {
        if (k == "write" || k == "close") {
          // closing an analyser's file: nobody looks at that result in reality either
          if (k == "close" && s.proc->name == "sh") return 0;
          return S->frng.Below(2) ? ENOSPC : EIO;
        }
        if (k == "open" && s.proc->name == "sh") return ENOSPC;
        if (k == "rename") return EIO;
      }
      return 0;
    };
    RunRec *r = l.Start(l.cos[0], args, Cpus(c.W));
    // Failures that concern a result of this run.
    auto unforked = std::make_shared<int>(0), iofail = std::make_shared<int>(0);
    const int pid = r->proc->id;
    S->on_event = [=](const Event &e) {
      if (e.proc == pid && e.ret == -1 && (!strcmp(e.kind, "system") || !strcmp(e.kind, "popen")) && e.path.find("bazel info") == std::string::npos) ++*unforked;
      if (e.ret == -1 && e.path.find("/contents/") != std::string::npos && (e.err == ENOSPC || e.err == EIO)) ++*iofail;
    };
    RunUntilDone({r->proc});
    S->on_event = nullptr;
    S->policy = nullptr;
    const bool failed = *unforked || *iofail || !r->failed.empty();
    if (S->res.deadlock) { l.Hang("faulty run"); break; }
    if (*unforked) c.Probe("analyser_not_started", *unforked);
    if (*iofail) c.Probe("result_not_written", *iofail);
    if (!r->failed.empty()) c.Probe("analysis_died", r->failed.size());
    if (failed) {
      c.nontrivial = true;
      if (r->proc->state == Process::kExited && r->proc->exit_code == 0) {
        std::string what;
        for (auto &x : r->failed) what += x + " ";
        c.Violate(c.prop, "success-reported", "exit status 0 although analyses failed: " + what + " not started: " + std::to_string(*unforked) +
                  " results not written: " + std::to_string(*iofail));
      }
    }
    S->fs.bytes_free = -1;
    WaitOrphans();
    S->now_ns += 1'000'000'000;
    int ne = c.W.Below(2);
    for (int k = 0; k < ne; ++k) l.Edit(l.cos[0]);
  }
  RunRec *r = l.RunOnce(l.cos[0], args, Cpus(c.W));
  l.Hang("recovery run");
  l.CheckReport(*r);
  l.Sample();
}

struct Snap { InodeP tree; int64_t now; };
InodeP CloneTree(const InodeP &n, const InodeP &parent) {
  auto r = std::make_shared<Inode>(*n);
  r->parent = parent ? parent : r;
  r->children.clear();
  for (auto &[k, ch] : n->children) r->children[k] = CloneTree(ch, r);
  return r;
}

StrMap CacheContent(const std::string &base) {
  StrMap r;
  for (auto &[p, d] : S->fs.Snapshot(base)) {
    if (p.find("/contents/") == std::string::npos || d[0] != 'F') continue;
    r[p] = d;
  }
  return r;
}

void C04(Ctx &c) {
  Lint l(c);
  l.Setup(6);
  S->sched.mode = SchedConfig::kSerial;
  SchedInit();
  std::vector<std::string> args = l.GenArgs();
  const bool cold = !c.W.Chance(40);
  if (!cold) {
    l.RunOnce(l.cos[0], args, 1);
    int ne = 1 + c.W.Below(3);
    for (int k = 0; k < ne; ++k) l.Edit(l.cos[0]);
  }
  InodeP before = CloneTree(S->fs.root, nullptr);
  const int64_t t0 = S->now_ns;
  RunRec *ref = l.RunOnce(l.cos[0], args, 1);
  if (ref->proc->state != Process::kExited) { c.Violate(c.prop, "crash", "single worker run died: " + ref->proc->death + " " + Clip(ref->proc->err, 200)); return; }
  bool ok1, ok2;
  const StrMap f = l.Files(l.cos[0]);
  const StrMap d1 = l.ParseDetails(l.cos[0], f, &ok1);
  const StrMap cache1 = CacheContent(l.cache_base);
  auto sum1 = Lint::ParseSummary(ref->proc->out);
  const int variants = 1 + c.W.Below(2);
  for (int v = 0; v < variants && c.violations.empty(); ++v) {
    S->fs.root = CloneTree(before, nullptr);
    S->now_ns = std::max(S->now_ns, t0);
    RandomSchedule(c, true);
    const bool slow = c.W.Chance(30);
    S->policy = [=](const FaultSite &s) -> int {
      if (slow && !strcmp(s.kind, "analyse") && S->frng.Chance(0.4)) return kStall;
      return 0;
    };
    RunRec *r = l.RunOnce(l.cos[0], args, 2 + c.W.Below(7));
    S->policy = nullptr;
    if (S->res.deadlock) { l.Hang("parallel run"); break; }
    for (auto &race : S->res.races) c.Violate(c.prop, "race", race);
    if (r->proc->state != Process::kExited) { c.Violate(c.prop, "crash", "parallel run died: " + r->proc->death + " " + Clip(r->proc->err, 300)); break; }
    if (r->launches > 1) c.nontrivial = true;
    const StrMap d2 = l.ParseDetails(l.cos[0], f, &ok2);
    if (ok1 != ok2 || d1 != d2) c.Violate(c.prop, "report-differs", "details depend on the schedule: " + l.Diff(d1, d2));
    auto sum2 = Lint::ParseSummary(r->proc->out);
    std::sort(sum1.begin(), sum1.end());
    std::sort(sum2.begin(), sum2.end());
    if (sum1 != sum2) c.Violate(c.prop, "summary-differs", "summary depends on the schedule: " + Clip(ref->proc->out, 200) + " / " + Clip(r->proc->out, 200));
    if (r->proc->exit_code != ref->proc->exit_code) c.Violate(c.prop, "exit-differs", "exit status depends on the schedule");
    const StrMap cache2 = CacheContent(l.cache_base);
    if (cache1 != cache2) {
      std::string d = l.Diff(cache1, cache2);
      c.Violate(c.prop, "cache-differs", "cache content depends on the schedule: " + d);
    }
    for (auto &[rel, n] : r->analysed)
      if (n != 1) c.Violate(c.prop, "analysed-twice", rel + " analysed " + std::to_string(n) + " times in one run");
    if (r->analysed != ref->analysed) {
      std::string a, b;
      for (auto &[rel, n] : ref->analysed) a += rel + " ";
      for (auto &[rel, n] : r->analysed) b += rel + " ";
      c.Violate(c.prop, "work-differs", "analysed with one worker: " + a + " with several: " + b);
    }
    if (r->proc->live_at_exit) c.Violate(c.prop, "worker-left", "worker still running at exit");
    if (cold)
      for (auto &rel : l.Interest(f))
        if (!r->analysed.count(rel)) c.Violate(c.prop, "not-analysed", rel + " was never analysed although nothing was cached");
    c.Probe("analyses", r->launches);
  }
  l.Sample();
}

void C05(Ctx &c) {
  Lint l(c);
  l.Setup(5);
  RandomSchedule(c, false);
  const int kind = c.W.Below(3);  // same checkout, two checkouts, both
  if (kind) {
    l.SetupCheckout("/w2/proj", l.bazel);
    StrMap f = l.Files(l.cos[0]);
    for (auto &[p, d] : f) S->fs.WriteFile("/w2/proj/" + p, d);
    int ne = c.W.Below(3);
    for (int k = 0; k < ne; ++k) l.Edit(l.cos[1], false);
    // What an analysis finds must not depend on which checkout did it.
    for (auto &co : l.cos) {
      std::string n = S->fs.Lookup(co.root + "/compile_commands.json") ? "compile_commands.json" : "compile_flags.txt";
      S->fs.WriteFile(co.root + "/" + n, "[] deps=complete\n");
    }
    S->now_ns += 1'000'000'000;
  }
  std::vector<std::string> args = l.GenArgs();
  if (c.W.Chance(30)) { l.RunOnce(l.cos[0], args, 2); int ne = c.W.Below(3); for (int k = 0; k < ne; ++k) l.Edit(l.cos[0], false); }
  const int n = 2 + c.W.Below(3);
  std::vector<RunRec *> rs;
  std::vector<Process *> ps;
  const bool slow = c.W.Chance(30);
  S->policy = [=](const FaultSite &s) -> int { return slow && !strcmp(s.kind, "analyse") && S->frng.Chance(0.3) ? kStall : 0; };
  for (int i = 0; i < n; ++i) {
    Checkout &co = l.cos[kind == 0 ? 0 : kind == 1 ? i % 2 : c.W.Below(2)];
    rs.push_back(l.Start(co, args, 1 + c.W.Below(4)));
    ps.push_back(rs.back()->proc);
  }
  if (c.W.Chance(35)) {  // one of them dies on the way
    RunRec *r = rs[c.W.Below(n)];
    r->proc->kill_at = 1 + c.W.Below(150);
    r->proc->kill_children = !c.W.Chance(50);
  }
  RunUntilDone(ps);
  WaitOrphans();
  S->policy = nullptr;
  l.Hang("concurrent runs");
  S->now_ns += 1'000'000'000;
  for (auto *r : rs) {
    if (r->proc->state == Process::kKilled) { c.Probe("killed_runs"); continue; }
    // The details file is the one of the last run; a killed one may have begun it.
    bool killed_here = false;
    for (auto *x : rs) killed_here |= x->co == r->co && x->proc->state == Process::kKilled;
    l.CheckReport(*r, !killed_here);
    c.Probe("concurrent_runs");
  }
  c.nontrivial = true;
  if (c.violations.empty() && !S->res.deadlock)
    for (auto &co : l.cos) {
      RunRec *r = nullptr;
      bool ran = false;
      for (auto *x : rs) ran |= x->co == &co && x->proc->state != Process::kKilled;
      r = l.RunOnce(co, args, 2);
      l.CheckReport(*r);
      if (!ran) continue;
      if (r->launches) c.Violate(c.prop, "incomplete-cache", "after all runs completed, " + r->analysed.begin()->first + " still needed analysis");
    }
  l.Sample();
}

void C06(Ctx &c) {
  Lint l(c);
  l.Setup(9);
  RandomSchedule(c, false);
  int runs = 1 + c.W.Below(3);
  std::vector<std::string> args = l.GenArgs();
  for (int i = 0; i < runs && c.violations.empty(); ++i) {
    if (i) { int ne = 1 + c.W.Below(4); for (int k = 0; k < ne; ++k) l.Edit(l.cos[0]); }
    RunRec *r = l.RunOnce(l.cos[0], args, Cpus(c.W));
    l.Hang("run");
    if (!l.CheckReport(*r)) break;
  }
  l.Sample();
}
// Ctrl-C while analyses are executed.
void C21(Ctx &c) {
  Lint l(c);
  l.Setup(6);
  l.int_at_work = true;
  RandomSchedule(c, false);
  Checkout &co = l.cos[0];
  const std::vector<std::string> args = l.GenArgs();
  if (c.W.Chance(30)) {
    RunRec *r = l.RunOnce(co, args, Cpus(c.W));
    if (!l.CheckReport(*r, true, false)) return;
    l.Learn(*r);
    const int ne = 1 + c.W.Below(3);
    for (int k = 0; k < ne; ++k) l.Edit(co);
  }
  const int rounds = 1 + c.W.Below(2);
  for (int i = 0; i < rounds && c.violations.empty(); ++i) {
    RunRec *r = l.Start(co, args, Cpus(c.W));
    const int sig = c.W.Chance(80) ? SIGINT : SIGQUIT;
    const uint32_t nth = c.W.Below(5 + 10 * (uint32_t)l.Files(co).size());
    uint32_t seen = 0;
    bool started = false, in_hook = false;
    int effect = -1, running = 0, begun = 0;
    std::set<int> spawned;      // processes of analyses about to begin
    const StrMap f = l.Files(co);
    S->on_event = [&](const Event &e) {
      if (in_hook) return;
      if (!strcmp(e.kind, "analyse")) {
        started = true;
        // The shell of it existed before the interrupt?
        if (effect >= 0 && tl_cur->proc->id > l.int_procs) ++begun;
      }
      if (!started || effect >= 0 || r->proc->Done()) return;
      if (seen++ < nth) return;
      in_hook = true;
      effect = l.Interrupt(r, sig);
      for (auto &[rel, n] : r->analysed) { (void)n; ++running; }
      in_hook = false;
    };
    const size_t ev0 = S->events.size();
    RunUntilDone({r->proc});
    S->on_event = nullptr;
    l.Hang("interrupted run");
    if (S->res.deadlock) return;
    WaitOrphans();
    S->now_ns += 1'000'000'000;
    (void)ev0;
    if (effect < 0) c.Probe("interrupt_missed");
    else if (effect == 2) c.Probe("ended_by_interrupt");
    else c.Probe("interrupt_handled");
    l.int_procs = 0;
    if (effect == 1 || effect == 0) {
      Process *p = r->proc;
      if (p->state != Process::kExited) { c.Violate(c.prop, "crash", "interrupted linter ended abnormally: " + p->death + " " + Clip(p->err, 300)); break; }
      // Each worker may be past the point of deciding to analyse one more.
      if (begun > p->ncpus) c.Violate(c.prop, "continues", std::to_string(begun) + " analyses begun after the interrupt with " + std::to_string(p->ncpus) + " workers");
      c.nontrivial = true;
      if (!r->aborted_int.empty()) c.Probe("aborted_analyses", r->aborted_int.size());
      // What is known at this point is reported.
      const StrMap want = l.Expected(*r);
      bool ok;
      const StrMap got = l.ParseDetails(co, f, &ok);
      int unknown = 0;
      StrMap known;
      for (auto &rel : l.Interest(f)) {
        const bool analysed = r->analysed.count(rel) && !r->failed.count(rel);
        auto it = l.done_keys.find(l.Key(co, f, rel, args));
        if (analysed || (it != l.done_keys.end() && !(it->second.second && it->second.first < l.Freshness(co)))) { if (auto w = want.find(rel); w != want.end()) known[rel] = w->second; }
        else { ++unknown; if (auto g = got.find(rel); g != got.end() && it != l.done_keys.end()) known[rel] = g->second; }
      }
      if (!ok) { c.Violate(c.prop, "no-report", "no details file after the interrupted run"); break; }
      if (std::string d = l.Diff(known, got); !d.empty()) c.Violate(c.prop, "wrong-findings", "interrupted run: " + d + " [edits: " + Clip(l.edits, 300) + "]");
      if (p->exit_code == 0 && (unknown || !want.empty()))
        c.Violate(c.prop, "success-reported", "interrupted run exits with success; " + std::to_string(unknown) + " sources without result");
      if (unknown) c.Probe("runs_cut_short");
      auto sum = Lint::ParseSummary(p->out);
      std::map<std::string, int> sg;
      for (auto &[n, k] : sum) sg[k] += n;
      if (c.violations.empty() && sg != l.Count(got)) c.Violate(c.prop, "summary", "summary of interrupted run does not count what is in the details: " + Clip(p->out, 200));
      l.Learn(*r);
    } else if (effect < 0) {
      l.CheckReport(*r);
      l.Learn(*r);
    } else {
      l.done_keys.clear();
    }
  }
  if (!c.violations.empty()) return;
  RunRec *r = l.RunOnce(co, args, Cpus(c.W));
  l.Hang("recovery run");
  if (l.CheckReport(*r)) l.CheckWork(*r);
  l.Sample();
}
// Sources, headers, configuration and cached results that can't be read.
void C23(Ctx &c) {
  Lint l(c);
  l.Setup(5);
  RandomSchedule(c, false);
  Checkout &co = l.cos[0];
  const std::vector<std::string> args = l.GenArgs();
  if (c.W.Chance(50)) {
    RunRec *r = l.RunOnce(co, args, Cpus(c.W));
    if (!l.CheckReport(*r, true, false)) return;
    l.Learn(*r);
    const int ne = c.W.Below(3);
    for (int k = 0; k < ne; ++k) l.Edit(co);
  }
  const int rounds = 1 + c.W.Below(2);
  for (int i = 0; i < rounds && c.violations.empty(); ++i) {
    // What is affected, for how long, and how.
    const StrMap f = l.Files(co);
    const std::vector<std::string> in = l.Interest(f);
    const int what = c.W.Below(6);   // 0, 1: one file; 2: any file; 3: configuration; 4: cached results; 5: looking around
    const std::string victim = what < 2 && !in.empty() ? co.root + "/" + in[c.W.Below(in.size())] : what == 3 ? co.root + "/.clang-tidy" : "";
    const int how = c.W.Below(4);    // 0: open fails, 1: first read, 2: second read, 3: any
    const bool always = c.W.Chance(50);
    const int from = c.W.Below(3), upto = from + 1 + c.W.Below(2);   // otherwise: these accesses
    const uint32_t pct = 10 + 20 * c.W.Below(5);
    RunRec *r = l.Start(co, args, Cpus(c.W));
    Process *lp = r->proc;
    auto opened = std::make_shared<int>(0), reads = std::make_shared<int>(0);
    auto errors = [] {
      uint64_t n = 0;
      for (auto &[k, v] : S->fault_counts) if (!k.ends_with(":short")) n += v;
      return n;
    };
    const uint64_t before = errors();
    S->policy = [=](const FaultSite &s) -> int {
      if (s.proc != lp) return 0;
      const std::string k = s.kind;
      static const int errs[] = {EIO, EACCES, EMFILE, ENFILE, ESTALE, ENOMEM};
      if (what == 5) {
        if (s.path.rfind(co.root + "/bant", 0) != 0 && s.path.find("/contents") == std::string::npos) return 0;
        if (k != "stat" && k != "opendir" && k != "readdir") return 0;
        if (!S->frng.Chance(pct / 400.0)) return 0;
        return errs[S->frng.Below(6)];
      }
      if (k != "open" && k != "read") return 0;
      const bool result = s.path.find("/contents/") != std::string::npos && s.path.find(".tmp") == std::string::npos;
      const bool source = s.path.rfind(co.root + "/bant/", 0) == 0;
      if (what == 4 ? !result : what == 2 ? !source : victim.empty() || s.path != victim) return 0;
      if (what == 2 || what == 4) {
        if (!S->frng.Chance(pct / 100.0)) return 0;
        if (k == "read" && S->frng.Chance(0.5)) return kShortHalf;
        if ((k == "open" && (how == 0 || how == 3)) || (k == "read" && how != 0)) { return k == "open" ? errs[S->frng.Below(6)] : EIO; }
        return 0;
      }
      if (k == "open") { ++*opened; *reads = 0; }
      if (!always && (*opened <= from || *opened > upto)) return 0;
      if (k == "open") { if (how != 0) return 0; return errs[S->frng.Below(6)]; }
      ++*reads;
      if (how == 2) { if (*reads == 1) return kShortHalf; }
      else if (how == 0) return 0;
      else if (how == 3 && S->frng.Chance(0.5)) return kShortHalf;
      return EIO;
    };
    RunUntilDone({lp});
    S->policy = nullptr;
    l.Hang("run");
    if (S->res.deadlock) break;
    WaitOrphans();
    S->now_ns += 1'000'000'000;
    if (errors() == before) {
      c.Probe("fault_not_reached");
      if (!l.CheckReport(*r)) break;
      l.Learn(*r);
    } else {
      c.nontrivial = true;
      static const char *const names[] = {"source_unreadable", "source_unreadable", "some_sources_unreadable", "configuration_unreadable", "results_unreadable", "directory_unreadable"};
      c.Probe(names[what]);
      const StrMap want = l.Expected(*r);
      if (lp->state != Process::kExited) {
        c.Probe("gave_up");
        if (what != 5) { c.Violate(c.prop, "crash", std::string(names[what]) + ": linter ended abnormally: " + lp->death + " " + Clip(lp->err, 300)); break; }
      } else {
        if (lp->exit_code == 0 && !want.empty()) { c.Violate(c.prop, "success-reported", std::string(names[what]) + " " + victim + ": exit status 0, but " + std::to_string(want.size()) + " files have findings; " + Clip(lp->err, 300)); break; }
        bool ok;
        const StrMap got = l.ParseDetails(co, f, &ok);
        if (lp->err.find("---- Summary") != std::string::npos || lp->exit_code == 0) {
          for (auto &[rel, t] : got) {
            auto w = want.find(rel);
            // A result to be redone for a newer build configuration may still be there.
            auto d = l.done_keys.find(l.Key(co, f, rel, args));
            if (d != l.done_keys.end() && d->second.second && d->second.first < l.Freshness(co)) continue;
            if (w == want.end() || w->second != t) { c.Violate(c.prop, "wrong-findings", std::string(names[what]) + " " + victim + ": findings reported for " + rel + " are not those it has: " + Clip(t, 150)); break; }
          }
        }
        if (!c.violations.empty()) break;
        if (lp->exit_code == 0) c.Probe("success_nevertheless");
      }
    }
    // Later, the files may really be the way they appeared.
    if (c.W.Chance(60) && !victim.empty()) {
      std::string d;
      S->fs.ReadFile(victim, &d);
      d = how == 2 || c.W.Chance(20) ? d.substr(0, d.size() / 2) : "";
      S->fs.WriteFile(victim, d);
      l.edits += "cut " + victim + " to " + std::to_string(d.size()) + "; ";
      S->now_ns += 5'000'000'000;
    } else if (c.W.Chance(30)) {
      l.Edit(co);
    }
    RunRec *r2 = l.RunOnce(co, args, Cpus(c.W));
    l.Hang("recovery run");
    if (!l.CheckReport(*r2)) break;
    l.Learn(*r2);
  }
  l.Sample();
}
}  // namespace

void AddTidyScenarios(std::vector<PropScenario> *v) {
  v->push_back({"C01", C01, true, false});
  v->push_back({"C02", C02, true, false});
  v->push_back({"C03", C03, true, false});
  v->push_back({"C04", C04, true, false});
  v->push_back({"C05", C05, true, false});
  v->push_back({"C06", C06, true, false});
  v->push_back({"C21", C21, true, false});
  v->push_back({"C23", C23, true, false});
}
