// Scenarios for bant itself: prewarming, determinism, faults, output, descriptors.
#include <errno.h>
#include <string.h>

#include <algorithm>

#include "bantworld.h"
#include "tidy.h"

using namespace sim;
using namespace bw;

namespace bw {
void Serial() { S->sched.mode = SchedConfig::kSerial; SchedInit(); }
void Calm() {
  S->policy = nullptr;
  S->env_fault = nullptr;
  S->on_event = nullptr;
  S->fs.cfg = FsConfig();
  S->fs.bytes_free = -1;
  S->hash_seed = 0;
  S->layout_seed = 0;
  Serial();
}
bool Over(Ctx &c) { return !c.violations.empty() || S->res.deadlock || S->res.step_limit; }
std::string DiffLines(const std::string &a, const std::string &b) {
  const Strs x = SplitLines(a), y = SplitLines(b);
  for (size_t i = 0; i < std::max(x.size(), y.size()); ++i) {
    const std::string p = i < x.size() ? x[i] : "<end>", q = i < y.size() ? y[i] : "<end>";
    if (p != q) return "line " + std::to_string(i + 1) + ": '" + Clip(p, 200) + "' vs '" + Clip(q, 200) + "'";
  }
  return a == b ? "equal" : "differs in line ends";
}
// Compares the visible result of two runs.
bool SameResult(Ctx &c, const Result &ref, const Result &r, const std::string &cls, const std::string &what) {
  if (Over(c)) return false;
  if (ref.out != r.out) { c.Violate(c.prop, cls, what + ": output of " + r.cmdline + " differs: " + DiffLines(ref.out, r.out) + " stderr: " + Clip(r.err, 200)); return false; }
  if (ref.code != r.code) { c.Violate(c.prop, cls + "-exit", what + ": exit status of " + r.cmdline + " is " + std::to_string(r.code) + " instead of " + std::to_string(ref.code) + " " + Clip(r.err, 200)); return false; }
  return true;
}
bool IsMain(const Event &e) { return e.tid > 0 && S->threads[e.tid - 1]->is_main; }
}  // namespace bw

namespace {
const std::string kCacheDir = "/home/u/.cache/bant";

Strs CacheFiles() {
  Strs r;
  InodeP d = S->fs.Lookup(kCacheDir);
  if (d && d->type == NodeType::kDir) for (auto &[n, _] : d->children) r.push_back(kCacheDir + "/" + n);
  return r;
}
bool InCacheDir(const std::string &p) { return p.rfind(kCacheDir + "/", 0) == 0; }
int OneOf(std::initializer_list<int> l, uint32_t i) { return *(l.begin() + i % l.size()); }

void Hostile(FsConfig &f, Ctx &c) {
  f.order = (DirOrder)c.W.Below(4);
  f.order_seed = c.W.Below(1000);
  f.dtype_unknown_percent = OneOf({0, 100, 50, 20}, c.W.Below(4));
  f.ino_mode = (FsConfig::InoMode)c.W.Below(6);
}

// ------------------------------------------------------------------ C07
std::string JunkLines(World &w) {
  Draws &W = w.W;
  std::string s;
  const int n = W.Below(30);
  for (int i = 0; i < n; ++i) {
    switch (W.Below(9)) {
      case 0: s += "F" + w.root + "/nope\n"; break;
      case 1: s += "D.\n"; break;
      case 2: s += "Fa/BUILD\n"; break;
      case 3: s += "X???\n"; break;
      case 4: s += "\n"; break;
      case 5: s += std::string("D/\0x\n", 5); break;
      case 6: s += "F" + std::string(W.Below(5000), 'y') + "\n"; break;
      case 7: s += "D" + w.ob + "/external\n"; break;
      default: s += "F\n"; break;
    }
  }
  if (W.Chance(30)) s += "Dno-newline-at-end";
  return s;
}

void WorkerFaults(Ctx &c, bool cache_writes) {
  const uint32_t pct = OneOf({0, 5, 30, 80}, c.W.Below(4));
  const bool stall = c.W.Chance(40), spurious = c.W.Chance(40);
  const bool no_write = cache_writes && c.W.Chance(30), no_read = cache_writes && c.W.Chance(15);
  const uint32_t nothreads = c.W.Chance(20) ? OneOf({100, 50, 5}, c.W.Below(3)) : 0;   // limit of threads reached
  S->policy = [=](const FaultSite &s) -> int {
    const std::string k = s.kind;
    if (k == "cond") return spurious && S->frng.Chance(0.2) ? kSpurious : 0;
    if (k == "thread") return nothreads && S->frng.Chance(nothreads / 100.0) ? EAGAIN : 0;
    if (InCacheDir(s.path)) {
      if (k == "write" || k == "close") return no_write && S->frng.Chance(0.5) ? (S->frng.Below(2) ? ENOSPC : EIO) : 0;
      if (k == "open") return (no_write || no_read) && S->frng.Chance(0.5) ? EACCES : 0;
      if (k == "read") return no_read && S->frng.Chance(0.5) ? EIO : S->frng.Chance(0.2) ? (int)kShort1 : 0;
      return 0;
    }
    if (tl_cur && tl_cur->is_main) return 0;
    if (k == "opendir" || k == "access" || k == "readdir") {
      if (stall && S->frng.Chance(0.2)) return kStall;
      if (!S->frng.Chance(pct / 100.0)) return 0;
      static const int e[] = {EMFILE, EIO, ENOENT, EACCES, ENFILE, ENOMEM};
      return e[S->frng.Below(6)];
    }
    return 0;
  };
}

void C07(Ctx &c) {
  World w(c);
  Gen g;
  g.bad = c.W.Chance(20);
  g.odd = c.W.Chance(20);
  g.decoys = true;
  w.Generate(g);
  w.Materialize();
  S->fs.Remove(kCacheDir);
  Calm();
  const int ncmd = 1 + c.W.Below(2);
  std::vector<Cmd> cmds;
  std::vector<Result> ref;
  for (int i = 0; i < ncmd; ++i) {
    cmds.push_back(GenCmd(w, {}));
    ref.push_back(RunBant(w, cmds[i].args));
    if (Over(c)) return;
  }
  S->fs.MkdirP(kCacheDir);
  Strs name(ncmd);
  for (int i = 0; i < ncmd; ++i) {
    S->fs.Remove(kCacheDir);
    S->fs.MkdirP(kCacheDir);
    Result r = RunBant(w, cmds[i].args);
    if (!SameResult(c, ref[i], r, "first-run", "with an empty cache directory")) return;
    for (auto &f : CacheFiles()) name[i] = f;
  }
  std::string current;
  if (!name[0].empty()) S->fs.ReadFile(name[0], &current);
  for (int v = 0; v < 4 && !Over(c) && ImagesLeft(g_bant) >= 3; ++v) {
    S->fs.Remove(kCacheDir);
    S->fs.MkdirP(kCacheDir);
    const std::string &file = name[0];
    std::string what = "with the current prewarm cache";
    std::string content = current;
    const uint32_t kind = c.W.Below(13);
    RunOpt o;
    switch (kind) {
      case 0: case 1: break;
      case 2: content = JunkLines(w); what = "with an arbitrary prewarm cache"; break;
      case 3: content = current.substr(0, c.W.Below(current.size() + 1)); what = "with a truncated prewarm cache"; break;
      case 4: {
        for (int i = 0; i < 8 && !content.empty(); ++i) content[c.W.Below(content.size())] = (char)c.W.Below(256);
        what = "with a damaged prewarm cache";
        break;
      }
      case 5: content = JunkLines(w) + current + JunkLines(w); what = "with a stale prewarm cache"; break;
      case 6: { std::string x; const int n = 1 + c.W.Below(40); for (int i = 0; i < n; ++i) x += current; content = x; what = "with a long prewarm cache"; break; }
      case 7: content.clear(); what = "with an empty prewarm cache"; break;
      case 8:  // cache "file" is a directory
        content.clear();
        if (!file.empty()) S->fs.MkdirP(file + "/x");
        what = "with a directory in place of the prewarm cache";
        break;
      case 9:
        S->fs.Remove(kCacheDir);
        if (c.W.Chance(50)) S->fs.WriteFile(kCacheDir, "a file");
        else S->fs.Symlink(c.W.Chance(50) ? "bant" : "nowhere", kCacheDir);
        content.clear();
        what = "with the prewarm directory being something else";
        break;
      case 10: {
        const int mode = c.W.Below(3);
        S->fs.Remove(kCacheDir);
        S->fs.MkdirP(kCacheDir);
        if (!file.empty()) { S->fs.WriteFile(file, current); S->fs.Lookup(file)->mode = mode == 0 ? 0 : mode == 1 ? 0400 : 0200; }
        if (c.W.Chance(30)) S->fs.Lookup(kCacheDir)->mode = 0500;
        what = "with permissions missing on the prewarm cache";
        break;
      }
      case 11: o.home = false; what = "without HOME"; break;
      case 12: {  // looking at the directory itself fails
        const int e = OneOf({EACCES, EIO, ENOTDIR, ELOOP, ENAMETOOLONG}, c.W.Below(5));
        S->env_fault = [=](const FaultSite &s) { return s.path == kCacheDir && !strcmp(s.kind, "stat") ? e : 0; };
        what = "with a prewarm directory that can't be examined";
        break;
      }
    }
    if (kind <= 7 && !file.empty()) S->fs.WriteFile(file, content);
    c.Probe("cache_variant_" + std::to_string(kind));
    RandomSchedule(c, c.W.Chance(40));
    WorkerFaults(c, true);
    if (c.W.Chance(20)) S->fs.bytes_free = c.W.Below(400);
    const int nproc = c.W.Chance(30) ? 2 + c.W.Below(2) : 1;
    std::vector<Process *> ps;
    std::vector<int> which;
    for (int i = 0; i < nproc; ++i) {
      which.push_back(i == 0 ? 0 : c.W.Below(ncmd));
      ps.push_back(StartBant(w, cmds[which.back()].args, o));
    }
    RunUntilDone(ps);
    if (S->res.deadlock) { c.Violate(c.prop, "deadlock", what + ": " + S->res.deadlock_text); return; }
    if (S->res.step_limit) return;
    for (auto &r : S->res.races) c.Violate(c.prop, "race", what + ": " + r);
    for (int i = 0; i < nproc; ++i) {
      Result r = Finish(w, ps[i], cmds[which[i]].args, o);
      if (!r.exited) { c.Violate(c.prop, "crash", what + ": " + r.cmdline + " ended abnormally: " + ps[i]->death + " " + Clip(ps[i]->err, 300)); return; }
      if (!SameResult(c, ref[which[i]], r, "output-differs", what + (nproc > 1 ? " and several instances" : ""))) return;
      if (!r.out.empty()) c.nontrivial = true;
    }
    if (nproc > 1) c.Probe("concurrent_instances");
    Calm();
    S->now_ns += 1'000'000'000;
  }
}

// ------------------------------------------------------------------ C08
void C08(Ctx &c) {
  World w(c);
  Gen g;
  g.max_pkgs = 3;
  w.Generate(g);
  w.Materialize();
  Calm();
  S->fs.MkdirP(kCacheDir);
  Cmd cmd;
  switch (c.W.Below(6)) {
    case 0: case 1: cmd = GenCmd(w, {}); break;
    case 2: cmd.args = {"list-packages", "//no/such/..."}; break;
    case 3: cmd.args = {"print"}; break;
    case 4: cmd.args = {"no-such-command"}; break;
    case 5: cmd.args = {"list-targets", "//a:b:c"}; break;
  }
  Result prime = RunBant(w, cmd.args);
  if (Over(c)) return;
  Strs files = CacheFiles();
  if (files.empty()) { c.Probe("no_cache_file"); return; }
  const std::string file = files[0];
  std::string cur;
  S->fs.ReadFile(file, &cur);
  for (int v = 0; v < 3 && !Over(c) && ImagesLeft(g_bant) >= 2; ++v) {
    std::string content;
    const int n = OneOf({3, 0, 1, 31, 33, 200, 1000, 3000}, c.W.Below(8));
    const Strs lines = SplitLines(cur);
    for (int i = 0; i < n; ++i) {
      switch (c.W.Below(3)) {
        case 0: content += lines.empty() ? "D.\n" : lines[i % lines.size()] + "\n"; break;
        case 1: content += "Fa/none" + std::to_string(i) + "\n"; break;
        default: content += "D" + w.root + "\n"; break;
      }
    }
    S->fs.WriteFile(file, content);
    RandomSchedule(c, c.W.Chance(60));
    WorkerFaults(c, false);
    bool joined = false;
    std::map<int, std::set<std::string>> after;
    size_t worst = 0;
    auto access = [](const Event &e) { return !strcmp(e.kind, "opendir") || !strcmp(e.kind, "access") || !strcmp(e.kind, "stat") || !strcmp(e.kind, "open"); };
    S->on_event = [&](const Event &e) {
      if (IsMain(e)) { if (!strcmp(e.kind, "join")) joined = true; return; }
      if (!joined || e.tid < 0) return;
      if (access(e)) { after[e.tid].insert(e.path2); worst = std::max(worst, after[e.tid].size()); }
    };
    const size_t e0 = S->events.size();
    Result r = RunBant(w, cmd.args);
    S->on_event = nullptr;
    if (S->res.step_limit) return;
    for (auto &race : S->res.races) c.Violate(c.prop, "race", race);
    if (Over(c)) return;
    if (r.p->live_at_exit) { c.Violate(c.prop, "worker-left", r.cmdline + ": " + std::to_string(r.p->live_at_exit) + " prewarm threads still alive when the process ended"); return; }
    if (worst > 2) { c.Violate(c.prop, "work-after-shutdown", r.cmdline + ": a prewarm thread began " + std::to_string(worst) + " further accesses after shutdown had begun (" + std::to_string(n) + " entries)"); return; }
    int workers = 0, items = 0;
    for (size_t i = e0; i < S->events.size(); ++i) {
      if (!strcmp(S->events[i].kind, "thread-create")) ++workers;
      if (!IsMain(S->events[i]) && access(S->events[i])) ++items;
    }
    c.Probe("workers", workers);
    c.Probe("items_prewarmed", items);
    if (items < n) c.Probe("shut_down_early");
    if (workers && n) c.nontrivial = true;
    Calm();
  }
}

// ------------------------------------------------------------------ C09
void C09(Ctx &c) {
  World w(c);
  Gen g;
  g.max_pkgs = c.W.Chance(20) ? 9 : 5;
  g.odd = c.W.Chance(20);
  g.bad = c.W.Chance(30);
  w.Generate(g);
  w.Materialize();
  Calm();
  S->fs.Remove(kCacheDir);
  S->fs.MkdirP(kCacheDir);
  CmdGen cg;
  cg.formats = false;
  Cmd cmd = GenCmd(w, cg);
  Strs base;
  for (auto &a : cmd.args) if (a != "-v" && a != "-q") base.push_back(a);
  Strs prev;
  bool have_prev = false;
  for (int i = 0; i < 4 && !Over(c) && ImagesLeft(g_bant) >= 2; ++i) {
    // Vary what must not matter.
    Strs args;
    RunOpt o;
    if (i) {
      const int n = c.W.Below(3);
      for (int k = 0; k < n; ++k) {
        static const char *const f[] = {"-v", "-q", "-vv", "-qv", "-vq", "-vvv", "-qq"};
        switch (c.W.Below(5)) {
          case 0: case 1: args.push_back(f[c.W.Below(7)]); break;
          case 2: args.push_back("-f"); args.push_back(c.W.Chance(50) ? "json" : "csv"); break;
          case 3: args.push_back(c.W.Chance(50) ? "-fjson" : "-fs"); break;
          case 4:
            if (c.W.Chance(30)) args.push_back("-o/tmp/out-glued");
            else { args.push_back("-o"); args.push_back("/tmp/out" + std::to_string(c.W.Below(3))); }
            break;
        }
      }
    }
    for (auto &a : base) args.push_back(a);
    RandomSchedule(c, c.W.Chance(30));
    // Everything can be read, but arrives in pieces; prewarm workers may be slow.
    const bool shorts = c.W.Chance(30), stall = c.W.Chance(30), main_stall = have_prev && c.W.Chance(25);
    S->policy = [=](const FaultSite &s) -> int {
      if (main_stall) {
        if (!tl_cur || !tl_cur->is_main || InCacheDir(s.path) || s.path.rfind("/tmp/out", 0) == 0) return 0;
        return (!strcmp(s.kind, "open") || !strcmp(s.kind, "opendir") || !strcmp(s.kind, "read")) && S->frng.Chance(0.15) ? (int)kStall : 0;
      }
      if (shorts && !strcmp(s.kind, "read") && S->frng.Chance(0.3)) return kShortHalf;
      if (shorts && !strcmp(s.kind, "write") && S->frng.Chance(0.3)) return kShortHalf;
      if (stall && tl_cur && !tl_cur->is_main && S->frng.Chance(0.2) && (!strcmp(s.kind, "access") || !strcmp(s.kind, "opendir"))) return kStall;
      return 0;
    };
    const bool unreadable = c.W.Chance(15);
    if (unreadable) {  // some file can't be opened
      Strs fs;
      for (auto &p : w.pkgs) fs.push_back(w.BuildPath(p));
      for (auto &[p, _] : w.files) fs.push_back(p);
      InodeP n = S->fs.Lookup(fs[c.W.Below(fs.size())]);
      S->env_fault = [n](const FaultSite &s) -> int { return n && !strcmp(s.kind, "open") && S->fs.Lookup(s.path) == n ? EACCES : 0; };
    }
    Result r = RunBant(w, args, o);
    if (Over(c)) return;
    S->env_fault = nullptr;
    // What was read, in order.
    Strs order;
    std::map<std::string, bool> must;   // line -> has to be there
    std::set<std::string> opened;
    std::map<std::string, Strs> by_canon;
    int live_workers = 0;
    bool began_exit = false, workers_done_before_exit = true, cache_opened = false;
    std::map<std::string, int> warmed, how_often;
    const std::set<std::string> in_prev(prev.begin(), prev.end());
    for (size_t k = r.ev0; k < S->events.size(); ++k) {
      const Event &e = S->events[k];
      const std::string kind = e.kind;
      if (kind == "thread-create") ++live_workers;
      if (kind == "thread-exit") --live_workers;
      if (kind == "open" && InCacheDir(e.path) && IsMain(e)) cache_opened = true;
      // While the main program was stalled, the others went on as far as they could.
      if (kind == "stalled" && IsMain(e) && main_stall && cache_opened) {
        c.Probe("main_stalled");
        for (auto &l : prev)
          if (!warmed.count(l)) { c.Violate(c.prop, "prewarm-stuck", Show(args) + ": '" + l + "' was recorded, but not prewarmed although there was plenty of time"); return; }
      }
      if (kind == "exit-begin" && IsMain(e)) { began_exit = true; if (live_workers) workers_done_before_exit = false; }
      if (InCacheDir(e.path)) continue;
      if (!IsMain(e)) {
        // Whatever is done to bring it into memory.
        if (kind == "access" || kind == "stat" || kind == "open" || kind == "opendir") {
          std::string l = (kind == "opendir" ? "D" : "F") + e.path2;
          if (kind != "opendir" && in_prev.count("D" + e.path2) && !in_prev.count(l)) l = "D" + e.path2;
          if (kind == "opendir" && in_prev.count("F" + e.path2) && !in_prev.count(l)) l = "F" + e.path2;
          warmed[l] = std::max(warmed[l], ++how_often[kind + l]);
        }
        continue;
      }
      if (kind == "open" && e.ret >= 0) {
        if (e.path2.rfind("/tmp/out", 0) == 0) continue;
        const std::string l = "F" + e.path2;
        if (opened.insert(l).second) order.push_back(l);
        InodeP n = S->fs.Lookup(e.path);
        if (n && n->type == NodeType::kFile && n->data.empty()) must[l] = true;
        by_canon[e.path] = {l};
      } else if (kind == "read" && e.ret >= 0) {
        for (auto &l : by_canon[e.path]) must[l] = true;
      } else if (kind == "opendir" && e.ret >= 0) {
        if (e.path2 == "bazel-out/../../../external") continue;  // glob(3)
        const std::string l = "D" + e.path2;
        if (opened.insert(l).second) order.push_back(l);
        must[l] = true;
      }
    }
    Strs files = CacheFiles();
    if (files.size() != 1) {
      std::string names;
      for (auto &f : files) names += f + " ";
      c.Violate(c.prop, "cache-files", Show(args) + " as a variation of " + Show(base) + " uses another cache file: " + names);
      return;
    }
    std::string text;
    S->fs.ReadFile(files[0], &text);
    if (!text.empty() && text.back() != '\n') c.Violate(c.prop, "incomplete", Show(args) + ": cache file ends in an incomplete line: " + Clip(text.substr(text.rfind('\n') == std::string::npos ? 0 : text.rfind('\n')), 100));
    const Strs lines = SplitLines(text);
    std::set<std::string> seen;
    size_t pos = 0;
    for (auto &l : lines) {
      if (!seen.insert(l).second) { c.Violate(c.prop, "duplicate", Show(args) + ": '" + l + "' is recorded twice"); return; }
      if (!opened.count(l)) { c.Violate(c.prop, "not-accessed", Show(args) + ": recorded '" + l + "' was not accessed"); return; }
      while (pos < order.size() && order[pos] != l) ++pos;
      if (pos >= order.size()) { c.Violate(c.prop, "order", Show(args) + ": '" + l + "' is not recorded in order of first access"); return; }
    }
    for (auto &l : order)
      if (must.count(l) && !seen.count(l)) { c.Violate(c.prop, "missing", Show(args) + ": '" + l + "' was accessed but is not recorded"); return; }
    if (have_prev) {
      std::set<std::string> ps(prev.begin(), prev.end());
      for (auto &[l, n] : warmed) {
        if (!ps.count(l)) { c.Violate(c.prop, "prewarms-other", Show(args) + ": prewarmed '" + l + "', which the run before did not record"); return; }
        if (n > 1) { c.Violate(c.prop, "prewarms-twice", Show(args) + ": prewarmed '" + l + "' " + std::to_string(n) + " times"); return; }
      }
      if (began_exit && workers_done_before_exit) {
        c.Probe("prewarm_ran_to_end");
        for (auto &l : prev)
          if (!warmed.count(l)) { c.Violate(c.prop, "not-prewarmed", Show(args) + ": '" + l + "' was recorded but not prewarmed although prewarming ran to its end"); return; }
      } else c.Probe("prewarm_cut_short");
      if (!warmed.empty()) c.nontrivial = true;
    }
    c.Probe("lines_recorded", lines.size());
    prev = lines;
    have_prev = true;
    Calm();
  }
}

// ------------------------------------------------------------------ C10
void C10(Ctx &c) {
  World w(c);
  Gen g;
  g.bad = c.W.Chance(30);
  g.odd = c.W.Chance(50);
  g.max_pkgs = c.W.Chance(30) ? 9 : 4;
  g.decoys = true;
  w.Generate(g);
  w.Materialize();
  Calm();
  const int ncmd = 1 + c.W.Below(2);
  for (int k = 0; k < ncmd && !Over(c); ++k) {
    Cmd cmd = GenCmd(w, {});
    Calm();
    Result ref = RunBant(w, cmd.args);
    if (!ref.out.empty()) c.nontrivial = true;
    for (int v = 0; v < 4 && !Over(c) && ImagesLeft(g_bant) >= 1; ++v) {
      Hostile(S->fs.cfg, c);
      S->hash_seed = c.W.Below(1 << 20);
      S->layout_seed = c.W.Chance(60) ? 1 + c.W.Below(1 << 20) : 0;
      if (c.W.Chance(30)) S->now_ns += (int64_t)c.W.Below(1000000) * 1'000'000'000;
      const int chunk = c.W.Below(3);
      S->policy = [=](const FaultSite &s) -> int {
        if (chunk && !strcmp(s.kind, "read") && S->frng.Chance(0.3 * chunk)) return OneOf({kShort1, kShortHalf, kShortButOne}, S->frng.Below(3));
        return 0;
      };
      Result r = RunBant(w, cmd.args);
      S->policy = nullptr;
      static const char *const on[] = {"sorted", "reversed", "creation", "scattered"};
      SameResult(c, ref, r, "order-dependent", std::string("with ") + on[(int)S->fs.cfg.order] + " directory order, inode mode " + std::to_string((int)S->fs.cfg.ino_mode) +
                 ", entry types unknown " + std::to_string(S->fs.cfg.dtype_unknown_percent) + "%");
    }
  }
}

// ------------------------------------------------------------------ C11
const char *const kListing[] = {"list-packages", "list-targets", "print", "depends-on", "has-dependents", "lib-headers", "aliased-by", "genrule-outputs", "workspace"};
void C11(Ctx &c) {
  World w(c);
  Gen g;
  g.max_pkgs = 7;
  g.odd = false;
  g.links = c.W.Chance(30);
  w.Generate(g);
  const int ncmd = 1 + c.W.Below(3);
  const int nbad = 1 + c.W.Below(3);
  std::set<size_t> bad;
  for (int i = 0; i < nbad; ++i) bad.insert(c.W.Below(w.pkgs.size()));
  for (int k = 0; k < ncmd && !Over(c) && ImagesLeft(g_bant) >= 2; ++k) {
    Cmd cmd;
    cmd.name = kListing[c.W.Below(9)];
    if (c.W.Chance(50)) cmd.args.push_back(c.W.Chance(70) ? "-r" : "-r1");
    if (c.W.Chance(30)) cmd.args.push_back("-e");
    if (c.W.Chance(20)) { cmd.args.push_back("-f"); cmd.args.push_back("csv"); }
    if (c.W.Chance(20)) cmd.args.push_back("-q");
    cmd.args.push_back(cmd.name);
    cmd.args.push_back(c.W.Chance(60) ? "//..." : GenPattern(w, true));
    Calm();
    w.Materialize();
    // Reference: a workspace where these packages are not there, or where they
    // are there and empty (then only the listing of packages tells them apart).
    const bool emptied = c.W.Chance(50);
    for (auto b : bad) {
      S->fs.Remove(w.BuildPath(w.pkgs[b]));
      if (emptied) S->fs.WriteFile(w.BuildPath(w.pkgs[b]), "");
    }
    Result ref = RunBant(w, cmd.args);
    if (Over(c)) return;
    w.Materialize();
    std::map<Inode *, std::pair<int, int>> how;
    std::set<std::string> canon;
    for (auto b : bad) {
      InodeP n = S->fs.Lookup(w.BuildPath(w.pkgs[b]));
      how[n.get()] = {(int)c.W.Below(5), OneOf({EACCES, EIO, ENOENT, EMFILE, ELOOP, ESTALE}, c.W.Below(6))};
      canon.insert(w.BuildPath(w.pkgs[b]));
    }
    S->env_fault = [&](const FaultSite &s) -> int {
      const std::string kd = s.kind;
      if (kd != "open" && kd != "read" && kd != "fstat" && kd != "access") return 0;
      InodeP n = S->fs.Lookup(s.path);
      auto it = how.find(n.get());
      if (it == how.end()) return 0;
      switch (it->second.first) {
        case 0: return kd == "open" ? it->second.second : 0;
        case 1: return kd == "read" ? EIO : 0;
        case 2: return kd == "fstat" ? EIO : 0;
        case 3: return kd == "read" ? (int)kErrHalf : 0;
        default: return kd == "open" || kd == "access" ? EACCES : 0;
      }
    };
    if (c.W.Chance(30)) { S->fs.cfg.order = (DirOrder)c.W.Below(4); S->fs.cfg.order_seed = c.W.Below(100); }
    std::set<std::string> tried;
    S->on_event = [&](const Event &e) {
      if (strcmp(e.kind, "open") != 0) return;
      InodeP n = S->fs.Lookup(AbsPath(S->procs[e.proc - 1].get(), e.path2));
      if (n && how.count(n.get())) tried.insert(e.path2);
    };
    Result r = RunBant(w, cmd.args);
    S->on_event = nullptr;
    S->env_fault = nullptr;
    if (Over(c)) return;
    std::string names;
    for (auto &t : tried) names += t + " ";
    if (!tried.empty()) { c.nontrivial = true; c.Probe("faulted_files_attempted", tried.size()); }
    if (emptied && cmd.name == "list-packages") {
      auto others = [&](const std::string &out) {
        std::string res;
        for (auto &l : SplitLines(out)) {
          std::string t;
          for (char ch : l) if (ch != ' ' || t.empty() || t.back() != ' ') t += ch;
          bool skip = false;
          for (auto b : bad) {
            const std::string d = w.ShownDir(w.pkgs[b]), f = (d.empty() ? "" : d + "/") + w.pkgs[b].file;
            if (t.rfind(f + " ", 0) == 0 || t.rfind("\"" + f + "\"", 0) == 0 || t.rfind("./" + f + " ", 0) == 0 || t.rfind("\"./" + f + "\"", 0) == 0) skip = true;
          }
          if (!skip) res += t + "\n";
        }
        return res;
      };
      ref.out = others(ref.out);
      r.out = others(r.out);
    }
    if (ref.out != r.out) {
      c.Violate(c.prop, "other-packages", r.cmdline + " with unreadable " + names + (emptied ? "differs from a workspace where these files are empty: " : "differs from a workspace without these files: ") + DiffLines(ref.out, r.out));
      return;
    }
    for (auto &t : tried)
      if (r.err.find(t) == std::string::npos) { c.Violate(c.prop, "not-reported", r.cmdline + ": '" + t + "' could not be read but is not mentioned on the error stream: " + Clip(r.err, 300)); return; }
  }
}

// ------------------------------------------------------------------ C12
void C12(Ctx &c) {
  World w(c);
  Gen g;
  g.bad = c.W.Chance(20);
  w.Generate(g);
  const int ncmd = 1 + c.W.Below(2);
  for (int k = 0; k < ncmd && !Over(c) && ImagesLeft(g_bant) >= 6; ++k) {
    Cmd cmd = GenCmd(w, {});
    Calm();
    w.Materialize();
    Result ref = RunBant(w, cmd.args);
    if (Over(c)) return;
    // Pieces of any size, and files which grow after they were opened.
    const int chunk = 1 + c.W.Below(3);
    const bool grow = c.W.Chance(30);
    S->policy = [=](const FaultSite &s) -> int {
      if (strcmp(s.kind, "read") != 0) return 0;
      if (grow && s.path.find("BUILD") != std::string::npos && S->frng.Chance(0.2)) return kGrow;
      return S->frng.Chance(0.33 * chunk) ? OneOf({kShort1, kShortHalf, kShortButOne}, S->frng.Below(3)) : 0;
    };
    Result r = RunBant(w, cmd.args);
    S->policy = nullptr;
    if (!SameResult(c, ref, r, "pieces", "with reads delivered in pieces")) return;
    // A BUILD file replaced by another version between any two system calls.
    for (int v = 0; v < 2 && !Over(c) && ImagesLeft(g_bant) >= 4 && c.W.Chance(50); ++v) {
      Strs bf;
      for (auto &p : w.pkgs) bf.push_back(w.BuildPath(p));
      if (S->fs.Lookup(w.root + "/MODULE.bazel")) bf.push_back(w.root + "/MODULE.bazel");
      const std::string f = bf[c.W.Below(bf.size())];
      w.Materialize();
      std::string old, next;
      if (!S->fs.ReadFile(f, &old)) continue;
      switch (c.W.Below(4)) {
        case 0: next = "# nothing here\n"; break;
        case 1: next = old + "\ncc_library(name = \"new_version\", hdrs = [\"new_version.h\"])\n"; break;
        case 2: next = "cc_library(name = \"new_version\", hdrs = [\"new_version.h\"])\n"; break;
        case 3: next = old + std::string(1 + c.W.Below(5000), '\n') + "\ncc_library(name = \"new_version\")\n"; break;
      }
      auto replace = [=] { S->fs.Remove(f); S->fs.WriteFile(f, next); };
      replace();
      Result with_next = RunBant(w, cmd.args);
      w.Materialize();
      Result with_old = RunBant(w, cmd.args);
      if (Over(c)) return;
      auto touches = std::make_shared<uint32_t>(c.W.Below(5));
      auto done = std::make_shared<bool>(false);
      const InodeP node = S->fs.Lookup(f);
      S->env_fault = [=](const FaultSite &s) -> int {
        if (*done || S->fs.Lookup(s.path) != node || (*touches)--) return 0;
        *done = true;
        replace();
        return 0;
      };
      Result x = RunBant(w, cmd.args);
      S->env_fault = nullptr;
      if (Over(c)) return;
      w.Materialize();
      if (!*done) continue;
      c.Probe("replaced");
      auto same = [&](const Result &a) { return a.out == x.out && a.code == x.code; };
      if (with_next.out != with_old.out || with_next.code != with_old.code) c.nontrivial = true, c.Probe("replaced_matters");
      if (!same(with_old) && !same(with_next)) {
        c.Violate(c.prop, "replaced", x.cmdline + ": " + f + " was replaced while bant was working; the output is neither that of the old version: " + DiffLines(with_old.out, x.out) + " nor that of the new one: " + DiffLines(with_next.out, x.out) + " stderr: " + Clip(x.err, 200));
        return;
      }
    }
    // A file that can't be read to its end.
    Strs fs;
    for (auto &p : w.pkgs) fs.push_back(w.BuildPath(p));
    for (auto &[p, d] : w.files) if (d.size() >= 2) fs.push_back(p);
    for (const char *n : {"/MODULE.bazel", "/WORKSPACE"}) if (S->fs.Lookup(w.root + n)) fs.push_back(w.root + n);
    for (int v = 0; v < 2 && !Over(c) && ImagesLeft(g_bant) >= 2; ++v) {
      std::set<std::string> bad;
      const int nb = 1 + c.W.Below(2);
      for (int i = 0; i < nb; ++i) bad.insert(fs[c.W.Below(fs.size())]);
      auto with = [&](const char *kind, int code) {
        w.Materialize();
        std::set<Inode *> nodes;
        for (auto &b : bad) if (InodeP n = S->fs.Lookup(b)) nodes.insert(n.get());
        S->env_fault = [=](const FaultSite &s) -> int {
          if (strcmp(s.kind, kind) != 0) return 0;
          InodeP n = S->fs.Lookup(s.path);
          return n && nodes.count(n.get()) ? code : 0;
        };
        Result x = RunBant(w, cmd.args);
        S->env_fault = nullptr;
        return x;
      };
      Result un = with("open", EACCES);
      if (Over(c)) return;
      const int code = c.W.Chance(50) ? kErrHalf : kEofHalf;
      Result half = with("read", code);
      std::string names;
      for (auto &b : bad) names += b + " ";
      if (un.out != ref.out || un.code != ref.code) c.nontrivial = true, c.Probe("file_mattered");
      if (!SameResult(c, un, half, "partial", std::string(code == kErrHalf ? "reading fails" : "the file ends") + " half way through " + names + "(reference: file can't be opened)")) return;
    }
  }
}

// ------------------------------------------------------------------ C13
std::string Damage(Ctx &c, const std::string &d) {
  std::string s = d;
  switch (c.W.Below(7)) {
    case 0: s = d.substr(0, c.W.Below(d.size() + 1)); break;                     // torn
    case 1: if (!s.empty()) s[c.W.Below(s.size())] ^= 1 << c.W.Below(8); break;  // bit flip
    case 2: if (!s.empty()) { const size_t a = c.W.Below(s.size()); s = s.substr(0, a) + std::string(c.W.Below(600), '\0'); } break;  // lost blocks
    case 3: {  // a part is missing
      const size_t a = c.W.Below(d.size() + 1), b = c.W.Below(40);
      s = d.substr(0, a) + (a + b < d.size() ? d.substr(a + b) : "");
      break;
    }
    case 4: {  // something else got in
      static const char *const in[] = {",", ",,", "[", "]", "(", ")", "{", "}", ":", "\"", "'", "\"\"\"", "=", "+", "for", "if", "in", "else", "lambda", "*", "%", ".", "-", "not",
                                       "[,]", "None", "\\", "#", "glob([", "select({", "select({\"//conditions:default\":", "x = ", "1", "name = ", "\xff\xfe", "visibility = [x,],", "r\"", "f\"", "|", "//"};
      const size_t a = c.W.Below(d.size() + 1);
      s = d.substr(0, a) + in[c.W.Below(sizeof in / sizeof *in)] + d.substr(a);
      break;
    }
    case 5: for (int i = 0; i < 6 && !s.empty(); ++i) s[c.W.Below(s.size())] = (char)c.W.Below(256); break;
    case 6: s.clear(); break;
  }
  return s;
}
void Chaos(Ctx &c, bool strong) {
  const double p = strong ? 0.25 : 0.03;
  const uint32_t mask = c.W.Below(256);
  const uint32_t nothreads = c.W.Chance(25) ? 1 + c.W.Below(2) : 0;   // the limit of threads is reached
  S->policy = [=](const FaultSite &s) -> int {
    const std::string k = s.kind;
    if (k == "thread") return nothreads && S->frng.Chance(nothreads == 1 ? 1.0 : 0.1) ? EAGAIN : 0;
    if (k == "cond") return S->frng.Chance(0.05) ? kSpurious : 0;
    if (!S->frng.Chance(p)) return 0;
    static const int er[] = {EACCES, EIO, ENOENT, EMFILE, ENFILE, ELOOP, ENOTDIR, ENOMEM, ESTALE};
    const int e = er[S->frng.Below(9)];
    if (k == "open" && mask & 1) return S->frng.Chance(0.2) ? (int)kVanish : e;
    if (k == "read" && mask & 2) { static const int r[] = {EIO, kEof, kShort1, kShortHalf, kGrow, EISDIR}; return r[S->frng.Below(6)]; }
    if ((k == "stat" || k == "access") && mask & 4) return S->frng.Chance(0.2) && k == "stat" ? (int)kVanish : e;
    if (k == "opendir" && mask & 8) return e;
    if (k == "readdir" && mask & 16) return S->frng.Below(2) ? EIO : ENOENT;
    if (k == "fstat" && mask & 32) return EIO;
    if (k == "write" && mask & 64) { static const int r[] = {EIO, ENOSPC, kShort1, kShortHalf, EPIPE}; return r[S->frng.Below(5)]; }
    if (k == "close" && mask & 64) return EIO;
    if ((k == "glob" || k == "getcwd" || k == "chdir" || k == "realpath") && mask & 128) return k == "glob" ? (S->frng.Below(2) ? ENOMEM : EIO) : e;
    return 0;
  };
}
void C13(Ctx &c) {
  World w(c);
  Gen g;
  g.bad = c.W.Chance(50);
  g.odd = c.W.Chance(60);
  g.decoys = true;
  w.Generate(g);
  w.Materialize();
  Calm();
  if (c.W.Chance(50)) S->fs.MkdirP(kCacheDir);
  // Damaged files.
  const int nd = c.W.Below(4);
  Strs fs;
  for (auto &p : w.pkgs) { fs.push_back(w.BuildPath(p)); fs.push_back(w.BuildPath(p)); }
  for (auto &[p, _] : w.files) fs.push_back(p);
  for (const char *n : {"/MODULE.bazel", "/WORKSPACE"}) if (S->fs.Lookup(w.root + n)) fs.push_back(w.root + n);
  for (int i = 0; i < nd; ++i) {
    const std::string f = fs[c.W.Below(fs.size())];
    std::string d;
    if (!S->fs.ReadFile(f, &d)) continue;
    const int times = 1 + c.W.Below(2);
    for (int k = 0; k < times; ++k) d = Damage(c, d);
    S->fs.WriteFile(f, d);
    c.Probe("damaged_files");
  }
  // Odd things in the tree.
  const int no = c.W.Below(3);
  for (int i = 0; i < no; ++i) {
    const Pkg &p = w.pkgs[c.W.Below(w.pkgs.size())];
    const std::string d = w.PkgDir(p);
    switch (c.W.Below(7)) {
      case 0: S->fs.Symlink(".", d + "/loop" + std::to_string(i)); break;
      case 1: S->fs.Symlink("..", d + "/up" + std::to_string(i)); break;
      case 2: S->fs.Remove(d + "/" + p.file); S->fs.MkdirP(d + "/" + p.file); break;      // BUILD is a directory
      case 3: S->fs.Remove(d + "/" + p.file); S->fs.Symlink(p.file, d + "/" + p.file); break;  // link to itself
      case 4: if (d != w.root) S->fs.Remove(d); break;
      case 5: S->fs.Remove(w.root + "/bazel-out"); S->fs.Symlink("bazel-out", w.root + "/bazel-out"); break;
      case 6: if (!d.empty() && d != w.root) S->fs.Lookup(d) && (S->fs.Lookup(d)->mode = 0); break;
    }
  }
  const int ncmd = 1 + c.W.Below(4);
  Cmd cmd;
  for (int k = 0; k < ncmd && !Over(c) && ImagesLeft(g_bant) >= 1; ++k) {
    if (k == 0 || !c.W.Chance(35)) cmd = GenCmd(w, {});   // or the same again, what it needs is known
    RunOpt o;
    Hostile(S->fs.cfg, c);
    S->hash_seed = c.W.Below(1 << 20);
    const int f = c.W.Below(4);
    if (S->fs.Lookup(kCacheDir)) RandomSchedule(c, false);
    if (f) Chaos(c, f == 3);
    if (c.W.Chance(20)) o.outfile = OneOf({0, 1, 2}, c.W.Below(3)) == 0 ? "/tmp/out" : "no/dir/out";
    if (c.W.Chance(10)) S->fs.bytes_free = c.W.Below(2000);
    if (c.W.Chance(10)) o.max_fds = 4 + c.W.Below(8);
    if (c.W.Chance(8)) o.cwd = "/tmp";
    if (c.W.Chance(8)) { cmd.args.insert(cmd.args.begin(), {"-C", c.W.Chance(50) ? w.root : std::string("/no/such")}); }
    if (c.W.Chance(4) && w.root != "/") {  // working directory is removed
      o.cwd = "/w/gone";
      S->fs.MkdirP("/w/gone");
    }
    const size_t before = S->faults.size();
    Result r;
    if (o.cwd == "/w/gone") {
      Process *p = StartBant(w, cmd.args, o);
      S->fs.Remove("/w/gone");
      RunUntilDone({p});
      r = Finish(w, p, cmd.args, o);
      if (!Over(c) && !r.exited) c.Violate(c.prop, "crash", r.cmdline + " in a removed directory ended abnormally: " + p->death + " " + Clip(p->err, 300));
    } else {
      r = RunBant(w, cmd.args, o);
    }
    if (Over(c)) return;
    if (r.code < 0 || r.code > 3) c.Violate(c.prop, "exit-status", r.cmdline + ": undefined exit status " + std::to_string(r.code));
    if (nd || no || S->faults.size() != before) c.nontrivial = true;
    Calm();
  }
}

// ------------------------------------------------------------------ C14
void C14(Ctx &c) {
  World w(c);
  Gen g;
  g.max_pkgs = c.W.Chance(30) ? 9 : 4;
  w.Generate(g);
  if (c.W.Chance(25)) {  // enough output for several buffers
    Pkg &p = w.pkgs[0];
    const int n = 20 + c.W.Below(300);
    for (int i = 0; i < n; ++i) {
      Tgt x;
      x.rule = "cc_library";
      x.name = "bulk_library_number_" + std::to_string(i);
      x.hdrs = {"bulk/header/number/" + std::to_string(i) + ".h"};
      p.t.push_back(x);
    }
  }
  w.Materialize();
  Calm();
  const int ncmd = 1 + c.W.Below(2);
  for (int k = 0; k < ncmd && !Over(c); ++k) {
    Cmd cmd = GenCmd(w, {});
    if (c.W.Chance(30)) { static const char *const n[] = {"list-targets", "list-packages", "lib-headers"}; cmd.args = {n[c.W.Below(3)], "//..."}; }
    Calm();
    Result ref = RunBant(w, cmd.args);
    if (!ref.out.empty()) c.nontrivial = true;
    for (int v = 0; v < 4 && !Over(c) && ImagesLeft(g_bant) >= 1; ++v) {
      RunOpt o;
      const bool file = c.W.Chance(60);
      bool deliverable = true;
      if (file) {
        o.outfile = "/tmp/o/out";
        S->fs.Remove("/tmp/o");
        S->fs.MkdirP("/tmp/o");
        if (c.W.Chance(30)) S->fs.WriteFile("/tmp/o/out", std::string(c.W.Below(20000), 'x'));
        else switch (c.W.Below(10)) {   // Not a plain file that can be created.
          case 0: S->fs.MkdirP("/tmp/o/out"); deliverable = false; break;
          case 1: o.outfile = "/tmp/o/none/out"; deliverable = false; break;
          case 2: S->fs.Symlink("elsewhere", "/tmp/o/out"); break;
          case 3: S->fs.MkdirP("/tmp/o/dir"); S->fs.Symlink("dir", "/tmp/o/out"); deliverable = false; break;
          case 4: S->fs.Symlink("out", "/tmp/o/out"); deliverable = false; break;
          case 5: S->fs.WriteFile("/tmp/o/out", "old"); S->fs.Lookup("/tmp/o")->mode = 0555; break;
        }
      }
      const int kind = c.W.Below(7);
      const uint32_t nth = c.W.Below(3);
      auto count = std::make_shared<uint32_t>(0);
      const int err = OneOf({ENOSPC, EIO, EPIPE, EDQUOT, EBADF}, c.W.Below(5));
      auto ours = [=](const std::string &p) { return file ? p.rfind("/tmp/o/", 0) == 0 : p == "<stdout>"; };
      if (kind == 3 && file) S->fs.bytes_free = c.W.Chance(50) ? c.W.Below(ref.out.size() + 2) : c.W.Below(40);
      S->policy = [=](const FaultSite &s) -> int {
        if (!ours(s.path)) return 0;
        const std::string kd = s.kind;
        if (kd == "write") {
          if (kind == 0) return S->frng.Chance(0.5) ? err : 0;
          if (kind == 1) return (*count)++ == nth ? err : 0;
          if (kind == 4) return S->frng.Chance(0.5) ? OneOf({kShort1, kShortHalf, kShortButOne}, S->frng.Below(3)) : 0;
        }
        if (kd == "close" && kind == 2) return err == EPIPE || err == EBADF ? EIO : err;
        // However the output gets to its place.
        if ((kind == 5 || kind == 6) && (kd == "rename" || kd == "fsync" || kd == "mkdir" || kd == "symlink")) return S->frng.Chance(0.8) ? OneOf({EIO, ENOSPC, EACCES, EBUSY, EXDEV}, nth + err) : 0;
        if (kind == 6 && kd == "open") return S->frng.Chance(0.5) ? OneOf({EACCES, ENOSPC, EMFILE, EROFS}, nth + err) : 0;
        return 0;
      };
      size_t nerr = 0, nclose = 0;
      S->on_event = [&](const Event &e) {
        if (e.ret < 0 && (ours(e.path) || ours(e.path2))) ++nerr;
        if (e.ret < 0 && ours(e.path) && !strcmp(e.kind, "close")) ++nclose;
      };
      if (c.W.Chance(15)) S->fs.MkdirP(kCacheDir); else S->fs.Remove(kCacheDir);
      Result r = RunBant(w, cmd.args, o);
      S->on_event = nullptr;
      const int64_t left = S->fs.bytes_free;
      Calm();
      if (Over(c)) return;
      const std::string got = file ? r.file : r.out;
      const bool claims = r.code == 0 || r.code == 3;
      if (nerr) c.Probe("output_errors", nerr);
      if (claims && got != ref.out) {
        c.Violate(c.prop, "incomplete-output", r.cmdline + (file ? " -o FILE" : "") + " ended with status " + std::to_string(r.code) + " but its output is not complete (" + std::to_string(got.size()) + " of " +
                  std::to_string(ref.out.size()) + " bytes; " + std::to_string(nerr) + " failed writes, " + std::to_string(left) + " bytes free)");
        return;
      }
      if (claims && nclose && kind == 2) {
        c.Violate(c.prop, "close-error-ignored", r.cmdline + " -o FILE ended with status " + std::to_string(r.code) + " although closing the output file reported an error");
        return;
      }
      if (deliverable && !nerr && left != 0 && r.code != ref.code) {
        c.Violate(c.prop, "spurious-failure", r.cmdline + " ended with status " + std::to_string(r.code) + " instead of " + std::to_string(ref.code) + " although all output was delivered " + Clip(r.err, 200));
        return;
      }
    }
  }
}

// ------------------------------------------------------------------ C15
void C15(Ctx &c) {
  World w(c);
  Gen g;
  g.bad = c.W.Chance(30);
  g.odd = c.W.Chance(40);
  w.Generate(g);
  w.Materialize();
  Calm();
  const int ncmd = 1 + c.W.Below(4);
  for (int k = 0; k < ncmd && !Over(c) && ImagesLeft(g_bant) >= 1; ++k) {
    Cmd cmd = GenCmd(w, {});
    if (c.W.Chance(20)) cmd.args.insert(cmd.args.begin(), {"-C", w.root});
    RunOpt o;
    const int cache = c.W.Below(4);   // none, present, with content, no home
    S->fs.Remove(kCacheDir);
    if (cache == 1 || cache == 2) S->fs.MkdirP(kCacheDir);
    if (cache == 3) o.home = false;
    if (c.W.Chance(30)) S->fs.WriteFile("/home/u/.cache/other", "x");
    if (c.W.Chance(30)) {  // directories of that name which are not the user's
      for (const std::string &d : {w.root, std::string("/tmp"), std::string("")})
        if (c.W.Chance(60)) S->fs.MkdirP(d + (c.W.Chance(80) ? "/.cache/bant" : "/bant"));
    }
    const int of = c.W.Below(5);
    if (of == 1) o.outfile = "/tmp/out";
    if (of == 2) o.outfile = "out.txt";
    if (of == 3) o.outfile = "a/none/out.txt";
    std::string outpath;
    if (!o.outfile.empty()) outpath = o.outfile[0] == '/' ? o.outfile : w.root + "/" + o.outfile;
    Hostile(S->fs.cfg, c);
    RandomSchedule(c, false);
    if (c.W.Chance(60)) {
      Chaos(c, c.W.Chance(40));
      auto inner = S->policy;   // nothing disappears by itself here
      S->policy = [inner](const FaultSite &s) -> int { const int e = inner(s); return e == kVanish || e == kEof || e == kGrow ? 0 : e; };
    }
    const auto before = S->fs.Snapshot("/");
    std::set<std::string> cache_before;
    for (auto &f : CacheFiles()) cache_before.insert(f);
    InodeP cd = S->fs.Lookup(kCacheDir);
    std::vector<std::string> mut;
    S->on_event = [&](const Event &e) {
      static const char *const m[] = {"open-write", "create", "truncate", "write", "rename", "unlink", "mkdir", "symlink", "rmdir", "chmod", "utime", "link", "ftruncate"};
      if (e.ret < 0) return;
      for (auto *x : m)
        if (!strcmp(e.kind, x) && e.path[0] == '/' && e.path != outpath && !(cd && InCacheDir(e.path))) mut.push_back(e.kind + std::string(" ") + e.path);
    };
    const uint64_t d0 = S->fs.Digest("/", true);
    Result r = RunBant(w, cmd.args, o);
    S->on_event = nullptr;
    Calm();
    if (Over(c)) return;
    const auto after = S->fs.Snapshot("/");
    if (!mut.empty()) { c.Violate(c.prop, "modifies", r.cmdline + ": " + mut[0]); return; }
    std::set<std::string> touched_cache;
    for (auto &[p, d] : after) {
      if (p == outpath) continue;
      auto it = before.find(p);
      if (it != before.end() && it->second == d) continue;
      if (cd && InCacheDir(p)) { touched_cache.insert(p); continue; }
      c.Violate(c.prop, "changed", r.cmdline + ": " + p + (it == before.end() ? " was created" : " was changed"));
      return;
    }
    for (auto &[p, d] : before)
      if (!after.count(p) && p != outpath) { c.Violate(c.prop, "removed", r.cmdline + ": " + p + " is gone"); return; }
    if (touched_cache.size() > 1) { c.Violate(c.prop, "cache-files", r.cmdline + ": changed several files in the cache directory: " + *touched_cache.begin() + " " + *touched_cache.rbegin()); return; }
    if (outpath.empty() && touched_cache.empty() && !cd && d0 != S->fs.Digest("/", true)) { c.Violate(c.prop, "metadata", r.cmdline + ": permissions or times changed"); return; }
    c.nontrivial = true;
    S->now_ns += 1'000'000'000;
  }
}

// ------------------------------------------------------------------ C20
void C20(Ctx &c) {
  World w(c);
  Gen g;
  g.bad = c.W.Chance(20);
  g.max_pkgs = 5;
  g.decoys = true;
  w.Generate(g);
  if (c.W.Chance(40)) {  // many packages, directories and files
    const int n = 20 + c.W.Below(60);
    Tgt prev;
    for (int i = 0; i < n; ++i) {
      Pkg p;
      p.path = "many/p" + std::to_string(i) + (c.W.Chance(30) ? "/deep/er" : "");
      Tgt x;
      x.rule = "cc_library";
      x.name = "lib" + std::to_string(i);
      x.hdrs = {x.name + ".h"};
      x.srcs = {x.name + ".cc"};
      if (c.W.Chance(20)) x.glob_srcs = {"**/*.cc"};
      if (i) x.deps = {"//" + w.pkgs.back().path + ":" + w.pkgs.back().t[0].name};
      p.t.push_back(x);
      w.files[w.root + "/" + p.path + "/" + x.name + ".h"] = "#pragma once\n";
      w.files[w.root + "/" + p.path + "/" + x.name + ".cc"] = "#include \"" + p.path + "/" + x.name + ".h\"\n";
      w.pkgs.push_back(p);
    }
    c.Probe("large_workspaces");
  }
  w.Materialize();
  Calm();
  const int ncmd = 1 + c.W.Below(2);
  for (int k = 0; k < ncmd && !Over(c); ++k) {
    Cmd cmd = GenCmd(w, {});
    if (c.W.Chance(40)) cmd.args = {c.W.Chance(50) ? "dwyu" : "compilation-db", "//..."};
    for (int warm = 0; warm < 2 && !Over(c) && ImagesLeft(g_bant) >= 4; ++warm) {
      Calm();
      S->fs.Remove(kCacheDir);
      if (warm) S->fs.MkdirP(kCacheDir);
      Result ref = RunBant(w, cmd.args);
      if (Over(c)) return;
      const int bound = warm ? 48 : 12;
      auto check = [&](const Result &r, const std::string &what) {
        if (r.p->peak_fds > bound) { c.Violate(c.prop, "unbounded", r.cmdline + what + ": " + std::to_string(r.p->peak_fds) + " descriptors open at the same time"); return; }
        if (!r.p->fds_at_exit.empty()) c.Violate(c.prop, "leak", r.cmdline + what + ": descriptor of " + r.p->fds_at_exit[0] + " never closed (" + std::to_string(r.p->fds_at_exit.size()) + " in all)");
      };
      check(ref, "");
      c.Probe(warm ? "peak_with_prewarm" : "peak_without_prewarm", ref.p->peak_fds);
      if (ref.p->sys_count > 30) c.nontrivial = true;
      if (Over(c)) return;
      // With few descriptors.
      RunOpt o;
      o.max_fds = (warm ? 42 : 8) + c.W.Below(3);
      RandomSchedule(c, false);
      Result low = RunBant(w, cmd.args, o);
      if (!SameResult(c, ref, low, "few-descriptors", "with at most " + std::to_string(o.max_fds) + " descriptors")) return;
      check(low, " with few descriptors");
      // With errors.
      RandomSchedule(c, false);
      if (c.W.Chance(50)) { S->fs.cfg.order = (DirOrder)c.W.Below(4); S->fs.cfg.dtype_unknown_percent = c.W.Below(101); }
      Chaos(c, c.W.Chance(40));
      RunOpt o2;
      if (c.W.Chance(30)) o2.outfile = "/tmp/out";
      if (c.W.Chance(20)) o2.max_fds = 4 + c.W.Below(10);
      Result f = RunBant(w, cmd.args, o2);
      if (Over(c)) return;
      check(f, " with failing system calls");
      w.Materialize();
    }
  }
}
// ------------------------------------------------------------------ C22
void C22(Ctx &c) {
  World w(c);
  Draws &W = c.W;
  Gen g;
  g.bad = W.Chance(20);
  g.odd = W.Chance(20);
  g.max_pkgs = 4;
  g.decoys = true;
  w.Generate(g);
  w.Materialize();
  // Another workspace, and other ways to name the first one.
  const std::string other = "/w/other";
  S->fs.WriteFile(other + "/MODULE.bazel", "module(name = \"other\")\n");
  S->fs.WriteFile(other + "/BUILD", "cc_library(\n    name = \"decoy\",\n    srcs = [\"a.cc\"],\n    hdrs = [\"a.h\"],\n    deps = [\"//other:none\", \":decoy\"],\n)\n");
  S->fs.WriteFile(other + "/a.cc", "#include \"a.h\"\n");
  S->fs.WriteFile(other + "/sub/BUILD", "cc_library(name = \"decoy2\")\n");
  S->fs.Remove("/w/link");
  S->fs.Symlink(w.root, "/w/link");
  S->fs.Remove("/w/locked");
  S->fs.MkdirP("/w/locked/deep")->mode = 0755;
  S->fs.Lookup("/w/locked")->mode = 0;
  S->fs.WriteFile("/w/file", "x");
  Calm();
  const std::string leaf = w.root.substr(3);
  Cmd cmd = GenCmd(w, {});
  Strs base;
  for (auto &a : cmd.args) if (a != "-v" && a != "-q") base.push_back(a);
  S->fs.Remove("/home/u/.cache/bant");
  const bool warm = W.Chance(40);
  if (warm) S->fs.MkdirP("/home/u/.cache/bant");
  Result ref = RunBant(w, base);
  if (Over(c)) return;
  if (!ref.out.empty()) c.nontrivial = true;
  for (int v = 0; v < 5 && !Over(c) && ImagesLeft(g_bant) >= 1; ++v) {
    RunOpt o;
    static const char *const starts[] = {"/w/other", "/", "/w", "/w/other/sub", "/tmp"};
    const bool at_root = W.Chance(15);
    o.cwd = at_root ? w.root : starts[W.Below(5)];
    const std::string up = o.cwd == "/" ? "." : o.cwd == "/w/other/sub" ? "../../.." : o.cwd == "/tmp" || o.cwd == "/w" ? ".." : "../..";
    Strs go;   // the -C options
    auto add = [&](const std::string &d) {
      if (W.Chance(30)) go.push_back("-C" + d); else { go.push_back("-C"); go.push_back(d); }
    };
    if (!at_root || W.Chance(50)) switch (W.Below(9)) {
      case 0: add(w.root); break;
      case 1: add(w.root + "/"); break;
      case 2: add("/w/link"); break;
      case 3: add(W.Chance(50) ? "/w" : "/w/other/.."); add(leaf); break;
      case 4: add("/w/other"); add("../link"); break;
      case 5: if (at_root) add("."); else add((up == "." ? "" : up + "/") + "w/" + leaf); break;
      case 6: add("/w/other"); add(w.root); break;
      case 7: add("/w/./" + leaf + "/."); break;
      case 8: add("/w/link/.."); add("./" + leaf); break;
    }
    // Whether it can get there.
    int fail = 0;
    if (W.Chance(30)) {
      fail = 1 + W.Below(6);
      Strs bad;
      switch (fail) {
        case 1: bad = {"-C", "/w/no/such"}; break;
        case 2: bad = {"-C", "/w/file"}; break;
        case 3: bad = {"-C", W.Chance(50) ? "/w/locked/deep" : "/w/locked"}; break;
        case 4: bad = {"-C", ""}; break;
        case 5: bad = {"-C", "no-such-dir"}; break;
        case 6: break;   // the system call fails
      }
      if (fail == 6) {
        if (go.empty()) add(w.root);
        int n = 0;
        for (auto &a : go) if (a.rfind("-C", 0) == 0) ++n;
        const int e = OneOf({ENOENT, EACCES, EIO, ELOOP, ENOTDIR, ENOMEM}, W.Below(6)), which = W.Below(n);
        auto count = std::make_shared<int>(0);
        S->env_fault = [=](const FaultSite &s) -> int { return !strcmp(s.kind, "chdir") && (*count)++ == which ? e : 0; };
      } else if (W.Chance(50)) {
        go.insert(go.begin(), bad.begin(), bad.end());
      } else {
        go.insert(go.end(), bad.begin(), bad.end());
      }
    }
    // What is said besides, and where the output goes.
    Strs extra;
    if (W.Chance(40)) { static const char *const f[] = {"-q", "-v", "-vv", "-qv", "-vq", "-vvv"}; extra.push_back(f[W.Below(6)]); }
    if (W.Chance(30)) o.home = false;
    bool file = W.Chance(40);
    std::string outfile = file ? "/tmp/o" + std::to_string(v) : "";
    S->fs.Remove("/tmp/o" + std::to_string(v));
    const std::string before = "old content\n";
    if (file && W.Chance(40)) S->fs.WriteFile(outfile, before);
    if (file) { if (W.Chance(30)) extra.push_back("-o" + outfile); else { extra.push_back("-o"); extra.push_back(outfile); } }
    else if (W.Chance(15)) { extra.push_back("-o"); extra.push_back("-"); }
    Strs args;
    switch (W.Below(4)) {
      case 0: args = go; args.insert(args.end(), extra.begin(), extra.end()); args.insert(args.end(), base.begin(), base.end()); break;
      case 1: args = extra; args.insert(args.end(), go.begin(), go.end()); args.insert(args.end(), base.begin(), base.end()); break;
      case 2: args = extra; args.insert(args.end(), base.begin(), base.end()); args.insert(args.end(), go.begin(), go.end()); break;
      case 3: args = go; args.insert(args.end(), base.begin(), base.end()); args.insert(args.end(), extra.begin(), extra.end()); break;
    }
    RandomSchedule(c, W.Chance(30));
    const bool shorts = W.Chance(30), stall = W.Chance(30);
    S->policy = [=](const FaultSite &s) -> int {
      if (shorts && (!strcmp(s.kind, "read") || !strcmp(s.kind, "write")) && S->frng.Chance(0.3)) return kShortHalf;
      if (stall && tl_cur && !tl_cur->is_main && S->frng.Chance(0.2) && (!strcmp(s.kind, "access") || !strcmp(s.kind, "opendir"))) return kStall;
      return 0;
    };
    std::string looked;
    S->on_event = [&](const Event &e) {
      const std::string p = e.path;
      if (!strcmp(e.kind, "open") && looked.empty() && (p.rfind("/w/", 0) == 0 || p.rfind(w.ob, 0) == 0)) looked = p;
    };
    Result r = RunBant(w, args, o);
    S->on_event = nullptr;
    S->env_fault = nullptr;
    S->policy = nullptr;
    if (Over(c)) return;
    std::string got = r.out;
    if (file) { got.clear(); S->fs.ReadFile(outfile, &got); }
    const std::string where = "started in " + o.cwd + ", ";
    if (fail) {
      c.Probe("directory_not_entered");
      if (r.code == 0) { c.Violate(c.prop, "success-elsewhere", where + r.cmdline + " ends with success although it could not change the directory"); return; }
      if (!r.out.empty() || (file && !got.empty() && got != before)) { c.Violate(c.prop, "output-elsewhere", where + r.cmdline + " prints " + Clip(r.out + got, 200) + " although it could not change the directory"); return; }
      if (!looked.empty()) { c.Violate(c.prop, "looked-elsewhere", where + r.cmdline + " opened " + looked + " although it could not change the directory"); return; }
      continue;
    }
    c.Probe(go.empty() ? "started_there" : "changed_directory");
    if (file) c.Probe("output_to_file");
    if (file && !r.out.empty()) { c.Violate(c.prop, "also-stdout", where + r.cmdline + " prints to standard output, too: " + Clip(r.out, 200)); return; }
    if (got != ref.out) { c.Violate(c.prop, "differs", where + "output of " + r.cmdline + " differs from that of " + ref.cmdline + " in the directory: " + DiffLines(ref.out, got) + " stderr: " + Clip(r.err, 200)); return; }
    if (r.code != ref.code) { c.Violate(c.prop, "exit-differs", where + r.cmdline + " ends with status " + std::to_string(r.code) + " instead of " + std::to_string(ref.code)); return; }
  }
}
}  // namespace

void AddBantScenarios2(std::vector<PropScenario> *v);
void AddBantScenarios(std::vector<PropScenario> *v) {
  v->push_back({"C07", C07, false, true});
  v->push_back({"C08", C08, false, true});
  v->push_back({"C09", C09, false, true});
  v->push_back({"C10", C10, false, true});
  v->push_back({"C11", C11, false, true});
  v->push_back({"C12", C12, false, true});
  v->push_back({"C13", C13, false, true});
  v->push_back({"C14", C14, false, true});
  v->push_back({"C15", C15, false, true});
  v->push_back({"C20", C20, false, true});
  v->push_back({"C22", C22, false, true});
  AddBantScenarios2(v);
}
