// Scenarios for bant: dependency graph, discovery, dependency clean-up.
#include <errno.h>
#include <string.h>

#include <algorithm>

#include "bantworld.h"
#include "tidy.h"

using namespace sim;
using namespace bw;

namespace {
int OneOf(std::initializer_list<int> l, uint32_t i) { return *(l.begin() + i % l.size()); }
void Hostile(FsConfig &f, Ctx &c) {
  f.order = (DirOrder)c.W.Below(4);
  f.order_seed = c.W.Below(1000);
  f.dtype_unknown_percent = OneOf({0, 100, 50, 20}, c.W.Below(4));
  f.ino_mode = (FsConfig::InoMode)c.W.Below(6);
}
using Rows = std::vector<Strs>;
// bant -f csv: every cell is quoted.
Rows Csv(const std::string &out) {
  Rows r;
  bool first = true;
  for (auto &l : SplitLines(out)) {
    if (first) { first = false; continue; }
    Strs row;
    std::string cell;
    bool in = false;
    for (size_t i = 0; i < l.size(); ++i) {
      if (l[i] == '"') {
        if (in && i + 1 < l.size() && l[i + 1] == '"') { cell += '"'; ++i; } else in = !in;
      } else if (l[i] == ',' && !in) { row.push_back(cell); cell.clear(); } else cell += l[i];
    }
    row.push_back(cell);
    r.push_back(row);
  }
  return r;
}
std::string PkgName(const std::string &proj, const std::string &path) { return proj + "//" + path; }

struct Pat {
  enum Kind { kRec, kAll, kExact } kind = kRec;
  std::string proj, path, name, text;
  bool MatchPkg(const std::string &pr, const std::string &pa) const {
    if (pr != proj) return false;
    if (kind != kRec) return pa == path;
    return path.empty() || pa == path || pa.rfind(path + "/", 0) == 0;
  }
  bool Match(const Label &l) const { return MatchPkg(l.proj, l.path) && (kind != kExact || l.name == name); }
};
Pat GenPat(World &w, bool ext) {
  Draws &W = w.W;
  Pat p;
  std::vector<const Pkg *> cand;
  for (auto &k : w.pkgs) if (k.proj.empty() || ext) cand.push_back(&k);
  const uint32_t kind = W.Below(10);
  if (kind < 3 || cand.empty()) { p.text = "//..."; return p; }
  const Pkg &k = *cand[W.Below(cand.size())];
  p.proj = k.proj;
  p.path = k.path;
  if (kind < 6) {
    if (!p.path.empty() && W.Chance(30)) p.path = p.path.substr(0, p.path.find('/'));
    p.text = p.proj + "//" + p.path + (p.path.empty() ? "..." : "/...");
  } else if (kind == 6 || k.t.empty()) {
    p.kind = Pat::kAll;
    p.text = p.proj + "//" + p.path + ":all";
  } else {
    p.kind = Pat::kExact;
    p.name = k.t[W.Below(k.t.size())].name;
    p.text = p.proj + "//" + p.path + ":" + p.name;
  }
  return p;
}

// ------------------------------------------------------------------ C18
void C18(Ctx &c) {
  World w(c);
  Draws &W = c.W;
  Gen g;
  g.max_pkgs = c.thorough && W.Chance(30) ? 9 : 6;
  g.links = W.Chance(25);
  g.styles = W.Chance(30);
  g.decoys = true;
  w.Generate(g);
  // A richer graph: cycles, aliases of aliases, targets and packages that do not exist.
  std::vector<Label> all;
  for (auto &p : w.pkgs) for (auto &x : p.t) all.push_back({p.proj, p.path, x.name});
  const uint32_t extra = W.Below(4);
  for (auto &p : w.pkgs)
    for (auto &x : p.t) {
      if (x.rule == "genrule" || x.rule == "filegroup") continue;
      for (auto &d : x.deps) if (d.rfind("@//", 0) == 0) d.erase(0, 1);
      for (uint32_t i = W.Below(extra + 1); i > 0; --i) {
        Label l = all[W.Below(all.size())];
        if (W.Chance(8)) l.name = "missing";
        if (W.Chance(5)) l.path = "no/such";
        if (W.Chance(3)) l.proj = "@nowhere";
        if (!p.proj.empty() && l.proj.empty()) l.proj = p.proj;
        const std::string s = l.proj == p.proj && l.path == p.path && W.Chance(60) ? ":" + l.name : l.proj + "//" + l.path + ":" + l.name;
        if (x.rule == "alias") x.actual = s; else x.deps.push_back(s);
      }
    }
  c.sample = w.Describe();
  c.state_hash = HashStr(w.Describe());
  std::set<std::pair<std::string, std::string>> bad;   // packages whose BUILD file can't be read
  const bool faults = W.Chance(35);
  if (faults) for (int i = 1 + W.Below(3); i > 0; --i) { auto &p = w.pkgs[W.Below(w.pkgs.size())]; bad.insert({p.proj, p.path}); }
  const int how = W.Below(3);
  std::set<std::string> badfiles;
  for (auto &p : w.pkgs) if (bad.count({p.proj, p.path})) badfiles.insert(w.BuildPath(p));

  // The true relation.
  std::map<Label, std::set<Label>> dep;
  std::map<std::pair<std::string, std::string>, const Pkg *> pkg;
  for (auto &p : w.pkgs) {
    if (bad.count({p.proj, p.path})) continue;
    pkg[{p.proj, p.path}] = &p;
    for (auto &x : p.t) {
      auto &d = dep[Label{p.proj, p.path, x.name}];
      Label l;
      for (auto &s : x.deps) if (ParseLabel(s, p.proj, p.path, &l)) d.insert(l);
      if (!x.actual.empty() && ParseLabel(x.actual, p.proj, p.path, &l)) d.insert(l);
    }
  }
  const int ncmd = 2 + W.Below(3);
  for (int k = 0; k < ncmd && !Over(c) && ImagesLeft(g_bant); ++k) {
    Pat pat = GenPat(w, true);
    const int mode = W.Below(4);   // 0, 1: depends-on, 2: has-dependents, 3: list-packages
    static const char *const rs[] = {"", "-r0", "-r1", "-r2", "-r3", "-r"};
    const int ri = W.Chance(40) ? 5 : W.Below(6);
    int depth = ri == 0 ? 0 : ri == 5 ? 1 << 20 : ri - 1;
    Strs args = {"-f", "csv"};
    if (g.styles || W.Chance(20)) args.push_back("-e");
    if (ri) args.push_back(rs[ri]);
    args.push_back(mode == 2 ? "has-dependents" : mode == 3 ? "list-packages" : "depends-on");
    args.push_back(pat.text);
    Calm();
    w.Materialize();
    Hostile(S->fs.cfg, c);
    S->hash_seed = W.Chance(50) ? W.Below(1000) : 0;
    if (faults)
      S->env_fault = [&](const FaultSite &s) -> int {
        const std::string kd = s.kind;
        if (kd != "open" && kd != "access" && kd != "read") return 0;
        if (kd == "read" ? how != 2 : how == 2 || (kd == "access" && how == 1)) return 0;
        InodeP n = S->fs.Lookup(s.path);
        for (auto &b : badfiles) if (n && n == S->fs.Lookup(b)) return kd == "read" ? EIO : EACCES;
        return 0;
      };
    std::map<std::string, int> opened;
    S->on_event = [&](const Event &e) {
      if (e.ret >= 0 && !strcmp(e.kind, "open")) ++opened[e.path];
    };
    Result r = RunBant(w, args);
    S->on_event = nullptr;
    S->env_fault = nullptr;
    if (Over(c)) return;
    // Model.
    const bool rev = mode == 2;
    Pat start = pat;
    if (rev) { start = Pat(); if (depth == 0) depth = 1 << 20; }
    std::set<std::pair<std::string, std::string>> seen_pkg;
    std::set<Label> level, expanded;
    for (auto &[k2, p] : pkg) {
      if (!start.MatchPkg(p->proj, p->path)) continue;
      seen_pkg.insert(k2);
      for (auto &x : p->t) { Label l{p->proj, p->path, x.name}; if (start.Match(l)) level.insert(l); }
    }
    for (int d = 0; d <= depth && !level.empty(); ++d) {
      std::set<Label> next;
      for (auto &l : level) {
        if (pkg.count({l.proj, l.path})) seen_pkg.insert({l.proj, l.path});
        if (!dep.count(l)) continue;
        expanded.insert(l);
      }
      for (auto &l : level) if (dep.count(l)) for (auto &n : dep[l]) if (!expanded.count(n)) next.insert(n);
      level = next;
    }
    std::set<std::string> want, got;
    if (mode == 3) {
      for (auto &[pr, pa] : seen_pkg) want.insert(PkgName(pr, pa));
      for (auto &row : Csv(r.out)) if (row.size() == 2) got.insert(row[1]);
    } else {
      // Without recursion only what the pattern asks for is shown.
      for (auto &l : expanded)
        for (auto &d : dep[l]) {
          if (rev) { if (pat.Match(d)) want.insert(d.Bant() + " <- " + l.Bant()); }
          else if (depth > 0 || pat.Match(l)) want.insert(l.Bant() + " -> " + d.Bant());
        }
      for (auto &row : Csv(r.out)) if (row.size() == 2) got.insert(row[0] + (rev ? " <- " : " -> ") + row[1]);
    }
    if (!want.empty()) c.nontrivial = true;
    c.Probe(mode == 3 ? "packages_compared" : rev ? "reverse_pairs_compared" : "pairs_compared", want.size());
    if (r.code != 0) { c.Violate(c.prop, "exit", r.cmdline + " ended with status " + std::to_string(r.code) + " " + Clip(r.err, 200)); return; }
    for (auto &x : want) if (!got.count(x)) { c.Violate(c.prop, mode == 3 ? "package-missing" : rev ? "dependent-missing" : "missing", r.cmdline + " does not report " + x + " " + Clip(r.err, 200)); return; }
    for (auto &x : got) if (!want.count(x)) { c.Violate(c.prop, mode == 3 ? "package-unreachable" : rev ? "dependent-wrong" : "unreachable", r.cmdline + " reports " + x + " which is not reachable"); return; }
    for (auto &[f, n] : opened)
      if (n > 1 && (f.ends_with("/BUILD") || f.ends_with("/BUILD.bazel")) && !badfiles.count(f)) { c.Violate(c.prop, "opened-again", r.cmdline + " opened " + f + " " + std::to_string(n) + " times"); return; }
  }
}

// ------------------------------------------------------------------ C19
struct Tree {
  Ctx &c;
  Draws &W;
  std::string root = "/w/proj";
  std::vector<std::string> dirs;   // absolute physical paths
  explicit Tree(Ctx &x) : c(x), W(x.W) {}
  std::string Name(int depth) {
    static const char *const n[] = {"a", "b", "lib", "zz", "0", ".github", ".x", "a.b", "with space", "BUILD", "_tmp", ".cache", ".git", "..c", "BUILD.bazel", "bazel-x", "external", "-dash", "lib2", "A"};
    return n[W.Below(depth > 3 ? 4 : W.Chance(60) ? 5 : 20)];
  }
  void Build(const std::string &dir) {
    S->fs.MkdirP(dir);
    const std::string txt = "cc_library(name = \"x\")\n";
    const uint32_t k = W.Below(20);
    auto put = [&](const std::string &n, uint32_t kind) {
      const std::string f = dir + "/" + n;
      if (S->fs.Lookup(f, false)) return;
      if (kind < 12) S->fs.WriteFile(f, txt);
      else if (kind < 15) { S->fs.WriteFile("/w/shared/" + std::to_string(dirs.size()), txt); S->fs.Symlink("/w/shared/" + std::to_string(dirs.size()), f); }
      else if (kind < 16) S->fs.Symlink("nowhere", f);
      else if (kind < 17) S->fs.Symlink(".", f);
      else S->fs.MkdirP(f), dirs.push_back(f);
    };
    if (k < 8) put("BUILD", W.Below(18));
    else if (k < 12) put("BUILD.bazel", W.Below(18));
    else if (k < 14) { put("BUILD", W.Below(18)); put("BUILD.bazel", W.Below(18)); }
    else if (k < 15) { S->fs.WriteFile(dir + "/build", txt); S->fs.WriteFile(dir + "/BUILD.bak", txt); S->fs.WriteFile(dir + "/xBUILD", txt); }
    if (W.Chance(25)) S->fs.WriteFile(dir + "/x.h", "");
  }
};
// Packages below a directory: visible path -> BUILD inode(s).
void Discover(const InodeP &dir, const std::string &rel, bool recursive, const std::set<Inode *> &hidden, bool below, std::map<std::string, std::vector<std::string>> *must, std::set<std::string> *may, int depth) {
  if (depth > 40) return;
  if (hidden.count(dir.get())) below = true;
  for (const char *n : {"BUILD", "BUILD.bazel"}) {
    auto it = dir->children.find(n);
    if (it == dir->children.end()) continue;
    if (it->second->type == NodeType::kDir) continue;
    if (below) may->insert(rel); else (*must)[rel].push_back(n);
  }
  if (!recursive) return;
  for (auto &[n, ch] : dir->children) {
    if (ch->type != NodeType::kDir) continue;
    if (n == "_tmp" || n == ".cache" || n == ".git") continue;
    Discover(ch, rel.empty() ? n : rel + "/" + n, true, hidden, below, must, may, depth + 1);
  }
}
void C19(Ctx &c) {
  World w(c);
  Draws &W = c.W;
  Gen g;
  g.max_pkgs = 1;
  w.Generate(g);
  w.links.clear();
  if (W.Chance(60)) w.pkgs.erase(std::remove_if(w.pkgs.begin(), w.pkgs.end(), [](const Pkg &p) { return p.proj.empty(); }), w.pkgs.end());
  w.Materialize();
  Calm();
  Tree t(c);
  t.root = w.root;
  const std::string ext = w.exts.empty() ? "" : w.ExtDir(w.exts[0]);
  t.dirs.push_back(w.root);
  if (W.Chance(50)) t.Build(w.root);
  if (!ext.empty()) t.dirs.push_back(ext);
  t.dirs.push_back("/w/other");
  S->fs.MkdirP("/w/other");
  const int nd = 2 + W.Below(c.thorough ? 40 : 18);
  for (int i = 0; i < nd; ++i) {
    const std::string &parent = t.dirs[W.Chance(40) ? t.dirs.size() - 1 : W.Below(t.dirs.size())];
    const int depth = std::count(parent.begin(), parent.end(), '/');
    const std::string d = parent + "/" + t.Name(depth - 2);
    if (S->fs.Lookup(d, false)) continue;
    if (W.Chance(22)) {  // another file system is mounted here
      InodeP n = S->fs.MkdirP(d);
      n->dev = 5 + i;  // own device, inode numbers as on other devices
      S->fs.dev_next[n->dev] = W.Below(4);
      n->dev_ino = ++S->fs.dev_next[n->dev];
    }
    t.dirs.push_back(d);
    t.Build(d);
  }
  // Links, also as places to start from.
  Strs starts = {""};
  auto rel = [&](const std::string &d) { return d.size() > w.root.size() ? d.substr(w.root.size() + 1) : ""; };
  const int nl = W.Below(6);
  for (int i = 0; i < nl; ++i) {
    const std::string parent = t.dirs[W.Below(t.dirs.size())];
    static const char *const ln[] = {"0l", "link", "zl", "A0", ".l", "m"};
    const std::string l = parent + "/" + ln[W.Below(6)];
    if (S->fs.Lookup(l, false) || !S->fs.Lookup(parent)) continue;
    std::string tg = t.dirs[W.Below(t.dirs.size())];
    switch (W.Below(6)) { case 0: tg = "."; break; case 1: tg = ".."; break; case 2: tg = "/w"; break; case 3: tg = "/w/other"; break; default: break; }
    S->fs.Symlink(tg, l);
    if (l.rfind(w.root + "/", 0) == 0 && S->fs.Lookup(l) && S->fs.Lookup(l)->type == NodeType::kDir) starts.push_back(rel(l));
  }
  for (auto &d : t.dirs) if (d.rfind(w.root + "/", 0) == 0) starts.push_back(rel(d));
  uint64_t h = 0;
  for (auto &[p, v] : S->fs.Snapshot("/w")) h = HashStr(p + v) ^ (h * 31);
  c.state_hash = h;
  c.sample = "tree:";
  for (auto &[p, v] : S->fs.Snapshot(w.root)) c.sample += " " + p.substr(std::min(p.size(), w.root.size())) + (v.rfind("L", 0) == 0 ? "->" : "");
  c.sample = Clip(c.sample, 1500);
  const int nrun = 2 + W.Below(4);
  for (int k = 0; k < nrun && !Over(c) && ImagesLeft(g_bant); ++k) {
    Calm();
    Hostile(S->fs.cfg, c);
    S->hash_seed = W.Below(2) ? W.Below(1000) : 0;
    std::string proj, start = W.Chance(40) ? "" : starts[W.Below(starts.size())];
    InodeP sd = S->fs.Lookup(w.root + (start.empty() ? "" : "/" + start));
    if (!ext.empty() && W.Chance(25)) { proj = "@" + w.exts[0].name; start = ""; sd = S->fs.Lookup(ext); }
    if (!sd || sd->type != NodeType::kDir) continue;
    const bool recursive = W.Chance(80);
    if (start.find(' ') != std::string::npos || start.find("..") != std::string::npos) continue;
    std::string pattern = proj + "//" + start + (recursive ? (start.empty() ? "..." : "/...") : ":all");
    // Faults on some directories and BUILD files.
    std::set<Inode *> hidden;
    std::set<Inode *> unread;
    std::map<Inode *, int> how;
    const bool faults = W.Chance(50);
    if (faults)
      for (int i = 1 + W.Below(3); i > 0; --i) {
        InodeP n = S->fs.Lookup(t.dirs[W.Below(t.dirs.size())]);
        if (!n || n == S->fs.Lookup(w.root)) continue;
        hidden.insert(n.get());
        how[n.get()] = W.Below(3);
      }
    const int err = OneOf({EACCES, EIO, EMFILE, ENOMEM, ESTALE}, W.Below(5));
    bool hit = false;
    if (faults)
      S->env_fault = [&](const FaultSite &s) -> int {
        const std::string kd = s.kind;
        if (kd != "opendir" && kd != "readdir" && kd != "stat") return 0;
        InodeP n = S->fs.Lookup(s.path);
        auto it = n ? how.find(n.get()) : how.end();
        if (it == how.end()) return 0;
        if (it->second == 0 ? kd == "opendir" : it->second == 1 ? kd == "readdir" : kd == "stat") { hit = true; return err; }
        return 0;
      };
    Result r = RunBant(w, {"-f", "csv", "list-packages", pattern});
    S->env_fault = nullptr;
    if (Over(c)) return;
    if (hit) c.Probe("discovery_with_faults");
    std::map<std::string, std::vector<std::string>> must;
    std::set<std::string> may;
    Discover(sd, start, recursive, hidden, false, &must, &may, 0);
    // Only what can be opened as a file is a package.
    std::map<std::string, InodeP> want;
    const std::string base = proj.empty() ? w.root : ext;
    std::set<std::string> maybe_all;
    for (auto &[p, names] : must) {
      for (auto &n : names) {
        InodeP f = S->fs.Lookup(base + "/" + (p.empty() ? "" : p + "/") + n);
        if (!f) continue;
        if (f->type == NodeType::kDir) continue;
        if (!want.count(p)) want[p] = f;
      }
    }
    std::map<std::string, int> got;
    for (auto &row : Csv(r.out)) {
      if (row.size() != 2) continue;
      ++got[row[1]];
      InodeP f = S->fs.Lookup(row[0][0] == '/' ? row[0] : w.root + "/" + row[0]);
      const std::string pre = proj + "//";
      std::string p = row[1].rfind(pre, 0) == 0 ? row[1].substr(pre.size()) : "?";
      InodeP e1 = S->fs.Lookup(base + "/" + (p.empty() ? "" : p + "/") + "BUILD"), e2 = S->fs.Lookup(base + "/" + (p.empty() ? "" : p + "/") + "BUILD.bazel");
      if (!f || (f != e1 && f != e2)) { c.Violate(c.prop, "wrong-file", r.cmdline + " reports package '" + row[1] + "' with file '" + row[0] + "'"); return; }
      if (!want.count(p) && !may.count(p)) { c.Violate(c.prop, "not-a-package", r.cmdline + " reports '" + row[1] + "' (" + row[0] + ") which is not below the start directory"); return; }
    }
    for (auto &[p, f] : want) {
      const int n = got[proj + "//" + p];
      if (n != 1) { c.Violate(c.prop, n ? "repeated" : "hidden", r.cmdline + " reports package '" + proj + "//" + p + "' " + std::to_string(n) + " times " + Clip(r.err, 300)); return; }
    }
    c.Probe("packages_found", want.size());
    if (want.size() > 1) c.nontrivial = true;
    if (r.code != 0) { c.Violate(c.prop, "exit", r.cmdline + " ended with status " + std::to_string(r.code)); return; }
  }
}
// ------------------------------------------------------------------ dependency clean-up
// What provides which header, and who includes what, as the generated workspace has it.
struct Facts {
  World &w;
  std::map<std::string, std::set<Label>> sure, all;   // header -> libraries; `all` also has the doubtful ones
  std::map<Label, std::pair<const Pkg *, const Tgt *>> tgt;
  explicit Facts(World &x) : w(x) {
    std::map<Label, std::set<Label>> alias;
    for (auto &p : w.pkgs)
      for (auto &x : p.t) {
        const Label self{p.proj, p.path, x.name};
        tgt[self] = {&p, &x};
        Label a;
        if (x.rule == "alias" && ParseLabel(x.actual, p.proj, p.path, &a)) alias[a].insert(self);
      }
    for (auto &p : w.pkgs)
      for (auto &x : p.t) {
        const Label self{p.proj, p.path, x.name};
        auto put = [&](const std::string &h, bool s) {
          if (s) sure[h].insert(self);
          all[h].insert(self);
          if (auto it = alias.find(self); it != alias.end()) {
            all[h].insert(it->second.begin(), it->second.end());
            if (s && it->second.size()) sure[h].insert(it->second.begin(), it->second.end());
          }
        };
        if (x.rule == "cc_library") {
          for (auto &h : x.hdrs) put(Qual(p, h), true);
          for (auto &h : x.textual) put(Qual(p, h), true);
          for (auto &g : x.glob_hdrs) for (auto &h : Expand(p, g)) put(Qual(p, h), h.find('/') == std::string::npos);
        } else if (x.rule == "cc_proto_library") {
          for (auto &d : x.deps)
            for (auto &y : p.t)
              if (y.rule == "proto_library" && d == ":" + y.name)
                for (auto &f : y.srcs) for (const char *e : {".pb.h", ".proto.h"}) { const std::string h = Qual(p, f.substr(0, f.rfind('.')) + e); sure[h].insert(self); all[h].insert(self); }
        }
      }
  }
  static std::string Qual(const Pkg &p, const std::string &f) { return p.path.empty() ? f : p.path + "/" + f; }
  Strs Expand(const Pkg &p, const std::string &glob) const {
    Strs r;
    const bool rec = glob.rfind("**/", 0) == 0;
    std::string pre = rec ? glob.substr(3) : glob;
    const size_t st = pre.find('*');
    const std::string suf = pre.substr(st + 1);
    pre = pre.substr(0, st);
    const std::string dir = w.PkgDir(p) + "/";
    for (auto &[f, _] : w.files) {
      if (f.rfind(dir, 0) != 0) continue;
      const std::string rel = f.substr(dir.size());
      const std::string base = rel.substr(rel.rfind('/') == std::string::npos ? 0 : rel.rfind('/') + 1);
      if (!rec && rel != base) continue;
      if (base.size() >= pre.size() + suf.size() && base.rfind(pre, 0) == 0 && base.ends_with(suf)) r.push_back(rel);
    }
    return r;
  }
  Strs Own(const Pkg &p, const Tgt &x) const {
    Strs s = x.srcs;
    s.insert(s.end(), x.hdrs.begin(), x.hdrs.end());
    for (auto &g : x.glob_srcs) for (auto &f : Expand(p, g)) s.push_back(f);
    for (auto &g : x.glob_hdrs) for (auto &f : Expand(p, g)) s.push_back(f);
    return s;
  }
  // Headers a target includes which are not its own.
  std::set<std::string> Includes(const Pkg &p, const Tgt &x) const {
    std::set<std::string> r;
    const Strs own = Own(p, x);
    for (auto &s : own) {
      auto it = w.files.find(w.PkgDir(p) + "/" + s);
      if (it == w.files.end()) continue;
      for (auto &l : SplitLines(it->second)) {
        if (l.rfind("#include \"", 0) != 0) continue;
        const std::string inc = l.substr(10, l.size() - 11);
        bool mine = false;
        for (auto &o : own) mine |= o == inc || Qual(p, o) == inc;
        if (!mine) r.insert(inc);
      }
    }
    return r;
  }
  // The header an include means: relative to the workspace, or else one in the same directory.
  std::string Resolve(const Pkg &p, const std::string &inc) const {
    if (all.count(inc) || inc.find('/') != std::string::npos || !sure.count(Qual(p, inc))) return inc;
    return Qual(p, inc);
  }
  const Tgt *Actual(const Label &l) const {
    Label at = l;
    for (int i = 0; i < 20; ++i) {
      auto it = tgt.find(at);
      if (it == tgt.end()) return nullptr;
      if (it->second.second->rule != "alias") return it->second.second;
      const Label was = at;
      if (!ParseLabel(it->second.second->actual, was.proj, was.path, &at)) return nullptr;
    }
    return nullptr;
  }
  // Does the entry of a visibility list in package q let package p see it? -1: it is something else.
  static int SeenFor(const std::string &v, const Pkg &q, const Pkg &p) {
    Label pat;
    if (!ParseLabel(v, q.proj, q.path, &pat)) return -1;
    if (pat.name == "__pkg__") return pat.proj == p.proj && pat.path == p.path;
    if (pat.name == "__subpackages__") return pat.proj == p.proj && (pat.path.empty() || pat.path == p.path || p.path.rfind(pat.path + "/", 0) == 0);
    return -1;
  }
  // What bazel would certainly refuse or warn about.
  std::string Refused(const Pkg &p, const Tgt &x, const Label &l) const {
    auto it = tgt.find(l);
    if (it == tgt.end()) return "";
    auto [q, y] = it->second;
    if (!y->deprecation.empty()) return "is deprecated";
    if (const Tgt *z = l.proj.empty() ? Actual(l) : y; z && z->testonly && !x.testonly && x.rule != "cc_test") return "is for tests only";
    if (q == &p) return "";
    const Strs &vis = y->visibility.empty() ? q->default_vis : y->visibility;
    if (vis.empty()) return "";
    for (auto &v : vis) {
      if (v == "//visibility:private") continue;
      const int seen = SeenFor(v, *q, p);
      if (seen == 0) continue;
      return "";   // public, or a group we do not know
    }
    return "can not be seen from there";
  }
  // A dependency nothing in the target asks for, as everybody can see.
  bool Superfluous(const Pkg &p, const Tgt &x, const Label &l) const {
    const Tgt *y = Actual(l);
    if (!l.proj.empty() || !y || y->rule != "cc_library" || y->alwayslink || y->hdrs.empty() || !y->glob_hdrs.empty()) return false;
    for (auto &g : x.glob_hdrs) if (g.rfind("**", 0) == 0) return false;   // also has what is found in sub-packages
    for (auto &s : Own(p, x)) if (!w.files.count(w.PkgDir(p) + "/" + s)) return false;
    for (auto &inc : Includes(p, x)) {
      const std::string h = Resolve(p, inc);
      if (!sure.count(h) || all.at(h).count(l)) return false;
      bool local = false;   // packages of other projects are only looked at if something depends on them
      for (auto &t : sure.at(h)) local |= t.proj.empty();
      if (!local) return false;
      for (auto &t : all.at(h)) if (Actual(t) == y) return false;
    }
    return true;
  }
  static std::set<Label> Deps(const Pkg &p, const Strs &deps) {
    std::set<Label> r;
    Label l;
    for (auto &d : deps) if (ParseLabel(d, p.proj, p.path, &l)) r.insert(l);
    return r;
  }
  // A library the target may use for sure: visible, not deprecated, test-only only for tests.
  bool Usable(const Pkg &p, const Tgt &x, const Label &l) const {
    auto it = tgt.find(l);
    if (it == tgt.end()) return false;
    auto [q, y] = it->second;
    if (!y->deprecation.empty()) return false;
    if (y->testonly && !x.testonly && x.rule != "cc_test") return false;
    if (q == &p) return true;
    const Strs &vis = y->visibility.empty() ? q->default_vis : y->visibility;
    if (vis.empty()) return true;
    for (auto &v : vis) if (v == "//visibility:public" || SeenFor(v, *q, p) == 1) return true;
    return false;
  }
};
bool Touch(const std::set<Label> &a, const std::set<Label> &b) {
  for (auto &x : a) if (b.count(x)) return true;
  return false;
}
struct Edit {
  enum Op { kRemove, kAdd, kReplace } op;
  Label target;
  std::string a, b, text;
  auto Key() const { return std::make_tuple((int)op, target, a, b); }
};
// The edit script; false if a line is not one.
bool ParseScript(const std::string &out, std::vector<Edit> *edits, std::string *badline) {
  for (auto &l : SplitLines(out)) {
    Edit e;
    e.text = l;
    *badline = l;
    const std::string pre = "buildozer '";
    if (l.rfind(pre, 0) != 0) return false;
    const size_t q = l.find('\'', pre.size());
    if (q == std::string::npos || l.compare(q, 2, "' ") != 0) return false;
    std::string cmd = l.substr(pre.size(), q - pre.size()), t = l.substr(q + 2);
    if (t.empty() || t.find(' ') != std::string::npos || !ParseLabel(t, "", "", &e.target)) return false;
    Strs part(1);
    for (char ch : cmd) { if (ch == ' ') part.emplace_back(); else part.back() += ch; }
    if (part.size() < 3 || part[1] != "deps") return false;
    for (auto &x : part) if (x.empty()) return false;
    if (part[0] == "remove" && part.size() == 3) e.op = Edit::kRemove;
    else if (part[0] == "add" && part.size() == 3) e.op = Edit::kAdd;
    else if (part[0] == "replace" && part.size() == 4) e.op = Edit::kReplace, e.b = part[3];
    else return false;
    e.a = part[2];
    edits->push_back(e);
  }
  return true;
}
// What buildozer does to the list of dependencies; labels are compared by meaning.
void ApplyTo(const Pkg &p, Strs *deps, const Edit &e) {
  auto same = [&](const std::string &x, const std::string &y) {
    Label a, b;
    return ParseLabel(x, p.proj, p.path, &a) && ParseLabel(y, p.proj, p.path, &b) && a == b;
  };
  if (e.op == Edit::kRemove) { std::erase_if(*deps, [&](const std::string &d) { return same(d, e.a); }); return; }
  if (e.op == Edit::kAdd) { for (auto &d : *deps) if (same(d, e.a)) return; deps->push_back(e.a); return; }
  Strs r;
  for (auto &d : *deps) {
    const std::string n = d == e.a ? e.b : d;
    if (std::find(r.begin(), r.end(), n) == r.end()) r.push_back(n);
  }
  *deps = r;
}
bool Apply(World &w, const Edit &e) {
  for (auto &p : w.pkgs) {
    if (p.proj != e.target.proj || p.path != e.target.path) continue;
    for (auto &x : p.t) if (x.name == e.target.name) {
      ApplyTo(p, &x.deps, e);
      if (e.op == Edit::kReplace && x.keep.erase(e.a)) x.keep.insert(e.b);   // the comment stays
      w.WriteBuild(p);
      return true;
    }
  }
  return false;
}
void Muddle(World &w) {   // superfluous, duplicate and oddly spelled dependencies
  Draws &W = w.W;
  std::vector<Label> libs;
  for (auto &p : w.pkgs) for (auto &x : p.t) if (x.rule == "cc_library" || x.rule == "alias" || x.rule == "cc_proto_library") libs.push_back({p.proj, p.path, x.name});
  for (auto &p : w.pkgs)
    for (auto &x : p.t) {
      if (x.rule != "cc_library" && x.rule != "cc_binary" && x.rule != "cc_test") continue;
      for (auto &d : x.deps) if (d.rfind("@//", 0) == 0) d.erase(0, 1);
      if (!p.proj.empty()) continue;
      for (uint32_t i = W.Below(4); i > 1 && !libs.empty(); --i) {
        const Label &l = libs[W.Below(libs.size())];
        if (l == Label{p.proj, p.path, x.name}) continue;
        std::string s = l.proj + "//" + l.path + ":" + l.name;
        bool kept = false;   // removing one spelling removes them all
        Label m;
        for (auto &k : x.keep) kept |= ParseLabel(k, p.proj, p.path, &m) && m == l;
        if (kept) continue;
        if (l.proj == p.proj && l.path == p.path && W.Chance(60)) s = W.Chance(50) ? ":" + l.name : l.name;
        bool dup = false;
        for (auto &k : x.deps) dup |= ParseLabel(k, p.proj, p.path, &m) && m == l;
        if (std::find(x.deps.begin(), x.deps.end(), s) == x.deps.end()) x.deps.push_back(s);
        if (!dup && W.Chance(8)) x.keep.insert(s);
      }
    }
  // Headers with several providers.
  for (auto &p : w.pkgs) {
    std::vector<Tgt *> l;
    for (auto &x : p.t) if (x.rule == "cc_library") l.push_back(&x);
    if (l.size() < 2) continue;
    for (uint32_t i = W.Below(5); i > 2; --i) {
      Tgt *from = l[W.Below(l.size())], *to = l[W.Below(l.size())];
      if (from == to || from->hdrs.empty()) continue;
      const std::string h = from->hdrs[W.Below(from->hdrs.size())];
      if (std::find(to->hdrs.begin(), to->hdrs.end(), h) == to->hdrs.end()) to->hdrs.push_back(h);
    }
  }
}
// No edit script may take away the last library that provides an included header.
std::string Uncovered(const Facts &f, const Pkg &p, const Tgt &x, const Strs &before, const Strs &after) {
  std::set<Label> b = Facts::Deps(p, before);
  const std::set<Label> a = Facts::Deps(p, after);
  std::erase_if(b, [&](const Label &l) { return !f.Usable(p, x, l); });   // does not build as it is
  for (auto &inc : f.Includes(p, x)) {
    const std::string h = f.Resolve(p, inc);
    auto s = f.sure.find(h);
    if (s == f.sure.end() || !Touch(s->second, b)) continue;
    if (!Touch(f.all.at(h), a)) return inc;
  }
  return "";
}

// ------------------------------------------------------------------ C16
void C16(Ctx &c) {
  World w(c);
  Draws &W = c.W;
  Gen g;
  g.styles = false;
  g.links = false;
  g.max_pkgs = c.thorough ? 7 : 5;
  g.decoys = true;
  w.Generate(g);
  Muddle(w);
  // Outdated output of rules that once generated what is a source now.
  if (w.has_out)
    for (auto &p : w.pkgs)
      if (p.proj.empty())
        for (auto &x : p.t)
          for (auto &s : x.srcs)
            if (W.Chance(10)) w.files[w.root + "/bazel-bin/" + Facts::Qual(p, s)] = "// nothing\n";
  StrMap stale;
  for (auto it = w.files.begin(); it != w.files.end();)
    if (it->first.rfind(w.root + "/bazel-bin/", 0) == 0) { stale[w.ob + "/execroot/_main/bazel-out/k8-fastbuild/bin/" + it->first.substr(w.root.size() + 11)] = it->second; it = w.files.erase(it); }
    else ++it;
  const Facts facts(w);
  c.sample = w.Describe();
  c.state_hash = HashStr(w.Describe());
  auto setup = [&] { Calm(); w.Materialize(); for (auto &[f, d] : stale) S->fs.WriteFile(f, d); };
  setup();
  const Pat pat = GenPat(w, false);
  Strs args;
  if (W.Chance(20)) args.push_back("-k");
  if (W.Chance(15)) args.push_back("-v");
  args.push_back("dwyu");
  args.push_back(pat.text);
  const Result ref = RunBant(w, args);
  if (Over(c)) return;
  std::vector<Edit> re;
  std::string badline;
  if (!ParseScript(ref.out, &re, &badline)) { c.Violate(c.prop, "malformed", ref.cmdline + " prints '" + badline + "'"); return; }
  std::set<decltype(Edit().Key())> in_ref;
  for (auto &e : re) in_ref.insert(e.Key());
  // Sources that do not exist: none of the runs can know what they include.
  auto source = [&](const Pkg &p, const std::string &s) {
    InodeP n = S->fs.Lookup(w.PkgDir(p) + "/" + s);
    return n ? n : S->fs.Lookup(w.root + "/bazel-bin/" + Facts::Qual(p, s));
  };
  auto unmade = [&](const Pkg &p, const Tgt &x) -> std::string {
    for (auto &s : facts.Own(p, x))
      if (!source(p, s)) return s;
    return "";
  };
  auto nothing_from_unmade = [&](const Result &r, const std::vector<Edit> &edits, const std::string &what) {
    for (auto &e : edits) {
      if (e.op != Edit::kRemove) continue;
      auto it = facts.tgt.find(e.target);
      if (it == facts.tgt.end()) continue;
      const std::string s = unmade(*it->second.first, *it->second.second);
      if (s.empty()) continue;
      c.Violate(c.prop, "source-missing", r.cmdline + what + " suggests '" + e.text + "' although the source " + s + " of that target cannot be read");
      return false;
    }
    return true;
  };
  for (auto &p : w.pkgs) for (auto &x : p.t) if (!unmade(p, x).empty()) { c.Probe("unmade_sources"); if (x.deps.size()) c.nontrivial = true; }
  if (!nothing_from_unmade(ref, re, "")) return;
  // Everything that can be read.
  Strs can;
  for (auto &[f, d] : w.files) if (f.ends_with(".h") || f.ends_with(".cc")) can.push_back(f);
  Strs builds;
  for (auto &p : w.pkgs) builds.push_back(w.BuildPath(p));
  builds.push_back(w.root + "/MODULE.bazel");
  for (int k = 0; k < 7 && !Over(c) && ImagesLeft(g_bant); ++k) {
    setup();
    Hostile(S->fs.cfg, c);
    std::set<Inode *> bad;
    std::set<std::string> badnames;
    const bool both = W.Chance(30), src = both || W.Chance(50);
    if (src && !can.empty()) for (int i = 1 + W.Below(W.Chance(30) ? can.size() : 3); i > 0; --i) badnames.insert(can[W.Below(can.size())]);
    if (both || !src) for (int i = 1 + W.Below(3); i > 0; --i) badnames.insert(builds[W.Below(builds.size())]);
    for (auto &f : badnames) if (auto n = S->fs.Lookup(f)) bad.insert(n.get());
    const uint32_t how = W.Below(4);
    const int err = OneOf({EACCES, EMFILE, EIO, ENOMEM, ENFILE, ESTALE}, W.Below(6));
    bool hit = false;
    std::set<std::string> hits;
    S->env_fault = [&](const FaultSite &s) -> int {
      static const char *const kinds[] = {"open", "open", "fstat", "read"};
      if (strcmp(s.kind, kinds[how]) && !(how == 1 && !strcmp(s.kind, "access"))) return 0;
      InodeP n = S->fs.Lookup(s.path);
      if (!n || !bad.count(n.get())) return 0;
      hit = true;
      hits.insert(s.path);
      return how == 3 ? EIO : err;
    };
    Result r = RunBant(w, args);
    S->env_fault = nullptr;
    if (Over(c)) return;
    if (!hit) continue;
    std::vector<Edit> fe;
    if (!ParseScript(r.out, &fe, &badline)) { c.Violate(c.prop, "malformed", r.cmdline + " prints '" + badline + "'"); return; }
    c.Probe("faulted_runs");
    if (!re.empty()) c.nontrivial = true;
    std::string what = " with";
    for (auto &f : hits) what += " " + f.substr(f.rfind("/proj") == std::string::npos ? 0 : f.rfind("/proj") + 5);
    what += " unreadable";
    if (!nothing_from_unmade(r, fe, what)) return;
    std::set<Label> new_rm;
    for (auto &e : fe) {
      if (e.op != Edit::kRemove) continue;
      c.Probe("removals_under_faults");
      if (in_ref.count(e.Key())) continue;
      c.Probe("extra_removals");
      auto it = facts.tgt.find(e.target);
      if (it == facts.tgt.end()) { c.Violate(c.prop, "no-target", r.cmdline + what + " suggests '" + e.text + "' for a target that does not exist"); return; }
      auto [p, x] = it->second;
      for (auto &s : facts.Own(*p, *x))
        if (auto n = source(*p, s); n && bad.count(n.get())) { c.Violate(c.prop, "source-unreadable", r.cmdline + what + " suggests '" + e.text + "', which it does not when everything is readable"); return; }
      Label l;
      if (ParseLabel(e.a, p->proj, p->path, &l))
        if (auto d = facts.tgt.find(l); d != facts.tgt.end() && d->second.second->alwayslink) { c.Violate(c.prop, "alwayslink", r.cmdline + what + " suggests '" + e.text + "' although that is always to be linked"); return; }
      new_rm.insert(e.target);
    }
    for (auto &t : new_rm) {
      auto [p, x] = facts.tgt.at(t);
      Strs with = x->deps, without = x->deps;
      for (auto &e : re) if (e.target == t) ApplyTo(*p, &without, e);
      for (auto &e : fe) if (e.target == t) ApplyTo(*p, &with, e);
      const std::string inc = Uncovered(facts, *p, *x, x->deps, with);
      if (!inc.empty() && Uncovered(facts, *p, *x, x->deps, without).empty()) {
        std::string script;
        for (auto &e : fe) if (e.target == t) script += e.text + "; ";
        c.Violate(c.prop, "unsafe-removal", r.cmdline + what + " suggests edits that leave #include \"" + inc + "\" of " + t.Full() + " without a library, unlike when everything is readable: " + script);
        return;
      }
    }
  }
}

// ------------------------------------------------------------------ C17
struct Loop {
  World &w;
  Ctx &c;
  const Facts &f;
  bool ignore_keep = false;
  bool check(const Result &r, std::vector<Edit> *edits, const char *cmd) {
    std::string bad;
    if (Over(c)) return false;
    if (!ParseScript(r.out, edits, &bad)) { c.Violate(c.prop, "malformed", r.cmdline + " prints '" + bad + "'"); return false; }
    if (r.code != (edits->empty() ? 0 : 3)) { c.Violate(c.prop, "exit", r.cmdline + " suggests " + std::to_string(edits->size()) + " edits and ends with status " + std::to_string(r.code) + " " + Clip(r.err, 200)); return false; }
    std::map<Label, Strs> after;
    for (auto &e : *edits) {
      auto it = f.tgt.find(e.target);
      if (it == f.tgt.end()) { c.Violate(c.prop, "no-target", r.cmdline + " suggests '" + e.text + "' for a target that does not exist"); return false; }
      auto [p, x] = it->second;
      const bool has = std::find(x->deps.begin(), x->deps.end(), e.a) != x->deps.end();
      Label l;
      const bool ok = ParseLabel(e.a, p->proj, p->path, &l);
      if (e.op == Edit::kAdd ? (!ok || Facts::Deps(*p, x->deps).count(l)) : !has) { c.Violate(c.prop, "bad-edit", r.cmdline + " suggests '" + e.text + "' while the dependencies are " + Join(x->deps)); return false; }
      if (e.op == Edit::kAdd)
        if (const std::string why = f.Refused(*p, *x, l); !why.empty()) { c.Violate(c.prop, "unusable", r.cmdline + " suggests '" + e.text + "' although " + l.Full() + " " + why); return false; }
      if (e.op == Edit::kRemove && !ignore_keep && x->keep.count(e.a)) { c.Violate(c.prop, "kept", r.cmdline + " suggests '" + e.text + "' although it is marked to be kept"); return false; }
      if ((e.op == Edit::kReplace) != !strcmp(cmd, "canonicalize")) { c.Violate(c.prop, "bad-edit", r.cmdline + " suggests '" + e.text + "'"); return false; }
      if (e.op == Edit::kReplace) {
        Label m;
        if (!ok || !ParseLabel(e.b, p->proj, p->path, &m) || l != m) { c.Violate(c.prop, "other-target", r.cmdline + " suggests '" + e.text + "' which changes the meaning"); return false; }
      }
      auto &d = after.try_emplace(e.target, x->deps).first->second;
      ApplyTo(*p, &d, e);
    }
    for (auto &[t, d] : after) {
      auto [p, x] = f.tgt.at(t);
      const std::string inc = Uncovered(f, *p, *x, x->deps, d);
      if (!inc.empty()) {
        std::string script;
        for (auto &e : *edits) if (e.target == t) script += e.text + "; ";
        c.Violate(c.prop, "uncovers", r.cmdline + " suggests edits that leave #include \"" + inc + "\" of " + t.Full() + " without a library: " + script + " dependencies were " + Join(x->deps));
        return false;
      }
    }
    return true;
  }
  static std::string Join(const Strs &l) { std::string r; for (auto &x : l) r += x + " "; return r; }
};
std::map<Label, std::set<Label>> DepSets(const World &w) {
  std::map<Label, std::set<Label>> r;
  for (auto &p : w.pkgs) for (auto &x : p.t) r[{p.proj, p.path, x.name}] = Facts::Deps(p, x.deps);
  return r;
}
void C17(Ctx &c) {
  World w(c);
  Draws &W = c.W;
  Gen g;
  g.styles = false;
  g.links = false;
  g.ext = W.Chance(40);
  g.max_pkgs = c.thorough && W.Chance(40) ? 8 : 5;
  g.decoys = true;
  w.Generate(g);
  Muddle(w);
  const Facts f(w);
  Loop loop{w, c, f};
  c.sample = w.Describe();
  c.state_hash = HashStr(w.Describe());
  Calm();
  w.Materialize();
  Hostile(S->fs.cfg, c);
  auto at_start = w.pkgs;
  auto restore = [&] { for (size_t i = 0; i < w.pkgs.size(); ++i) for (size_t j = 0; j < w.pkgs[i].t.size(); ++j) w.pkgs[i].t[j].deps = at_start[i].t[j].deps, w.pkgs[i].t[j].keep = at_start[i].t[j].keep; w.Materialize(); };
  Strs args;
  if (W.Chance(15)) args.push_back("-v");
  if (W.Chance(12)) { args.push_back("-k"); loop.ignore_keep = true; }
  const bool canon_first = W.Chance(30);
  auto run = [&](const char *cmd, const RunOpt &o = {}) { Strs a = args; a.push_back(cmd); a.push_back("//..."); Result r = RunBant(w, a, o); if (!o.outfile.empty()) r.out = r.file; return r; };
  auto canonicalize = [&]() -> bool {
    for (int round = 0;; ++round) {
      Result r = run("canonicalize");
      std::vector<Edit> e;
      const auto before = DepSets(w);
      if (!loop.check(r, &e, "canonicalize")) return false;
      if (e.empty()) return true;
      c.Probe("canonicalize_edits", e.size());
      if (round == 1) { c.Violate(c.prop, "no-convergence", r.cmdline + " still suggests '" + e[0].text + "' after its edits were applied"); return false; }
      for (auto &x : e) Apply(w, x);
      if (DepSets(w) != before) { c.Violate(c.prop, "other-target", r.cmdline + ": the edits change which targets are meant"); return false; }
    }
  };
  // Until nothing is suggested any more; every round is complete.
  auto settle = [&](const char *how) -> bool {
    for (int round = 0;; ++round) {
      Result r = run("dwyu");
      std::vector<Edit> e;
      if (!loop.check(r, &e, "dwyu")) return false;
      if (e.empty()) break;
      c.nontrivial = true;
      c.Probe("dwyu_edits", e.size());
      if (round == (g.ext ? 4 : 1)) { c.Violate(c.prop, "no-convergence", r.cmdline + " still suggests '" + e[0].text + "' in round " + std::to_string(round + 1) + how); return false; }
      for (auto &x : e) Apply(w, x);
    }
    // What is included is covered.
    for (auto &p : w.pkgs) {
      if (!p.proj.empty()) continue;
      for (auto &x : p.t) {
        if (x.rule != "cc_library" && x.rule != "cc_binary" && x.rule != "cc_test") continue;
        const std::set<Label> d = Facts::Deps(p, x.deps);
        for (auto &inc : f.Includes(p, x)) {
          const std::string h = f.Resolve(p, inc);
          auto s = f.sure.find(h);
          if (s == f.sure.end() || Touch(f.all.at(h), d)) continue;
          if (h != inc) c.Probe("relative_includes");
          std::set<Label> cand;
          for (auto &l : f.all.at(h)) if (f.tgt.at(l).second->deprecation.empty()) cand.insert(l);
          if (cand.size() != 1 || !s->second.count(*cand.begin()) || !cand.begin()->proj.empty() || !f.Usable(p, x, *cand.begin())) continue;
          c.Violate(c.prop, "not-covered", "no more edits are suggested although #include \"" + inc + "\" of //" + p.path + ":" + x.name + " is only provided by " + cand.begin()->Full() + " and the dependencies are " + Loop::Join(x.deps));
          return false;
        }
        for (auto &dep : x.deps) {
          Label l;
          if (!ParseLabel(dep, p.proj, p.path, &l) || (!loop.ignore_keep && x.keep.count(dep)) || !f.Superfluous(p, x, l)) continue;
          c.Violate(c.prop, "superfluous", "no more edits are suggested although nothing in //" + p.path + ":" + x.name + " includes a header of '" + dep + "'");
          return false;
        }
      }
    }
    return true;
  };
  if (canon_first && !canonicalize()) return;
  if (!settle(" of uninterrupted edits")) return;
  const auto final1 = DepSets(w);
  // The same with interruptions.
  restore();
  const int cuts = 1 + W.Below(4);
  std::string story;
  for (int i = 0; i < cuts; ++i) {
    if (ImagesLeft(g_bant) < 6) break;
    std::vector<Edit> e;
    std::string bad;
    const uint32_t kind = W.Below(10);
    if (kind < 2) {   // label canonicalisation in between
      Result r = run("canonicalize");
      if (!loop.check(r, &e, "canonicalize")) return;
    } else if (kind < 6) {
      Result r = run("dwyu");
      if (!loop.check(r, &e, "dwyu")) return;
    } else {          // the tool is killed while it writes the script to a file
      RunOpt o;
      o.outfile = "/tmp/script.sh";
      S->fs.Remove(o.outfile);
      Strs a = args;
      a.push_back("dwyu");
      a.push_back("//...");
      const size_t e0 = S->events.size();
      Process *p = StartBant(w, a, o);
      p->kill_at = 1 + W.Below(W.Chance(50) ? 400 : 80);
      RunUntilDone({p});
      Result r = Finish(w, p, a, o);
      r.ev0 = e0;
      if (p->state == Process::kKilled) c.Probe("killed_while_writing"); else if (!p->Done()) return;
      // Only complete lines are commands.
      const size_t nl = r.file.rfind('\n');
      const std::string whole = nl == std::string::npos ? "" : r.file.substr(0, nl + 1);
      if (!ParseScript(whole, &e, &bad)) { c.Violate(c.prop, "malformed", r.cmdline + " wrote '" + bad + "'"); return; }
      if (!e.empty() && whole.size() < r.file.size()) c.Probe("torn_script");
    }
    const size_t n = e.empty() ? 0 : W.Below(e.size() + 1);
    for (size_t j = 0; j < n; ++j) if (!Apply(w, e[j])) { c.Violate(c.prop, "no-target", "'" + e[j].text + "' is for a target that does not exist"); return; }
    if (n && n < e.size()) c.Probe("interrupted_rounds");
    story += " " + std::to_string(n) + "/" + std::to_string(e.size());
  }
  if (!settle(" after interruptions")) return;
  if (g.ext && !w.exts.empty()) return;
  if (DepSets(w) != final1) {
    for (auto &[t, d] : DepSets(w)) {
      const auto &o = final1.at(t);
      if (o == d) continue;
      std::string a, b;
      for (auto &l : o) a += l.Full() + " ";
      for (auto &l : d) b += l.Full() + " ";
      c.Violate(c.prop, "history", "the dependencies of " + t.Full() + " end up as " + a + "without and as " + b + "with interruptions (applied:" + story + ")");
      return;
    }
  }
}

// ------------------------------------------------------------------ C24
// Reads any of the table formats; lists in the last column are spread over several rows.
bool ReadTable(const std::string &out, const std::string &format, const Strs &header, Rows *rows, std::string *err) {
  if (format == "csv") {
    const Strs l = SplitLines(out);
    std::string want;
    for (auto &h : header) want += (want.empty() ? "\"" : ",\"") + h + "\"";
    if (l.empty() || l[0] != want) { *err = "bad header line"; return false; }
    *rows = Csv(out);
    return true;
  }
  if (format == "json") {
    for (auto &l : SplitLines(out)) {
      size_t i = 0;
      auto str = [&](std::string *s) {
        if (i >= l.size() || l[i] != '"') return false;
        for (++i; i < l.size() && l[i] != '"'; ++i) *s += l[i];
        return i++ < l.size();
      };
      auto lit = [&](const char *t) { const size_t n = strlen(t); if (l.compare(i, n, t)) return false; i += n; return true; };
      Strs row;
      bool ok = lit("{"), list = false;
      Strs last;
      for (size_t k = 0; ok && k < header.size(); ++k) {
        std::string h, v;
        ok = (k == 0 || lit(", ")) && str(&h) && h == header[k] && lit(": ");
        if (ok && k + 1 == header.size() && i < l.size() && l[i] == '[') {
          list = true;
          ++i;
          while (ok && !lit("]")) { v.clear(); ok = (last.empty() || lit(", ")) && str(&v); last.push_back(v); }
        } else if (ok) { ok = str(&v); row.push_back(v); }
      }
      if (!ok || !lit("}") || i != l.size()) { *err = "bad line " + l; return false; }
      if (!list) rows->push_back(row);
      for (auto &v : last) { Strs r = row; r.push_back(v); rows->push_back(r); }
    }
    return true;
  }
  if (format == "s-expr" || format == "plist") {
    // tokens: ( ) "string" :keyword
    Strs tok;
    for (size_t i = 0; i < out.size();) {
      const char ch = out[i];
      if (ch == ' ' || ch == '\n') { ++i; continue; }
      if (ch == '(' || ch == ')') { tok.push_back(std::string(1, ch)); ++i; continue; }
      size_t e = i + 1;
      if (ch == '"') { while (e < out.size() && out[e] != '"') ++e; tok.push_back(out.substr(i, e - i)); i = e + 1; }
      else { while (e < out.size() && !strchr(" \n()\"", out[e])) ++e; tok.push_back(out.substr(i, e - i)); i = e; }
    }
    size_t i = 0;
    auto lit = [&](const std::string &t) { if (i >= tok.size() || tok[i] != t) return false; ++i; return true; };
    auto str = [&](std::string *s) { if (i >= tok.size() || tok[i][0] != '"') return false; *s = tok[i++].substr(1); return true; };
    bool ok = lit("(");
    while (ok && !lit(")")) {
      Strs row, last;
      bool list = false;
      ok = lit("(");
      for (size_t k = 0; ok && k < header.size(); ++k) {
        std::string v;
        if (format == "plist") ok = lit(":" + header[k]);
        if (ok && k + 1 == header.size() && lit("(")) {
          list = true;
          while (ok && !lit(")")) { v.clear(); ok = str(&v); last.push_back(v); }
        } else if (ok) { ok = str(&v); row.push_back(v); }
      }
      ok = ok && lit(")");
      if (!list) rows->push_back(row);
      for (auto &v : last) { Strs r = row; r.push_back(v); rows->push_back(r); }
    }
    if (!ok || i != tok.size()) { *err = "bad expression near token " + std::to_string(i); return false; }
    return true;
  }
  for (auto &l : SplitLines(out)) {
    Strs row;
    std::string cell;
    for (char ch : l + " ") {
      if (ch != ' ') { cell += ch; continue; }
      if (!cell.empty()) row.push_back(cell);
      cell.clear();
    }
    if (row.size() != header.size()) { *err = "bad line " + l; return false; }
    rows->push_back(row);
  }
  return true;
}
// Pattern with '*' in the name.
bool GlobMatch(const std::string &g, const std::string &s, size_t i = 0, size_t k = 0) {
  if (i == g.size()) return k == s.size();
  if (g[i] == '*') { for (size_t e = k; e <= s.size(); ++e) if (GlobMatch(g, s, i + 1, e)) return true; return false; }
  return k < s.size() && g[i] == s[k] && GlobMatch(g, s, i + 1, k + 1);
}
// Identifiers and string literals, the latter with a leading quote; stops behind the call that starts at `pos`.
Strs Tokens(const std::string &t, size_t pos = 0, bool one_call = false) {
  Strs r;
  int depth = 0;
  for (size_t i = pos; i < t.size();) {
    const char ch = t[i];
    if (ch == '#') { while (i < t.size() && t[i] != '\n') ++i; continue; }
    if (ch == '"') { const size_t e = std::min(t.find('"', i + 1), t.size()); r.push_back(t.substr(i, e - i)); i = e + 1; continue; }
    if (isalpha((unsigned char)ch) || ch == '_') { size_t e = i; while (e < t.size() && (isalnum((unsigned char)t[e]) || t[e] == '_')) ++e; r.push_back(t.substr(i, e - i)); i = e; continue; }
    if (ch == '(') ++depth;
    if (ch == ')' && --depth == 0 && one_call) break;
    ++i;
  }
  return r;
}
void C24(Ctx &c) {
  World w(c);
  Draws &W = c.W;
  Gen g;
  g.max_pkgs = c.thorough && W.Chance(30) ? 9 : 6;
  g.links = W.Chance(25);
  g.styles = W.Chance(30);
  g.globs = W.Chance(30);
  w.Generate(g);
  if (W.Chance(12)) {
    Pkg p;
    p.path = W.Chance(70) ? "absl/strings" : W.Chance(50) ? "absl/strings2" : "third/absl/strings";
    Tgt a, b;
    a.rule = b.rule = "cc_library";
    a.name = "string_view";
    a.hdrs = {"string_view.h"};
    b.name = "strings";
    b.hdrs = {"str_cat.h"};
    if (W.Chance(80)) b.hdrs.push_back("string_view.h");
    if (W.Chance(80)) b.textual = {"string_view.h"};
    p.t = {a, b};
    if (W.Chance(50)) std::swap(p.t[0], p.t[1]);
    w.pkgs.push_back(p);
  }
  std::vector<Label> all;
  for (auto &p : w.pkgs) for (auto &x : p.t) all.push_back({p.proj, p.path, x.name});
  for (auto &p : w.pkgs) {
    std::set<std::string> names;
    for (auto &x : p.t) names.insert(x.name);
    auto name = [&](std::string n) { while (!names.insert(n).second) n += "_"; return n; };
    for (auto &x : p.t) {
      if (x.rule == "alias" && W.Chance(30)) {
        const Label &l = all[W.Below(all.size())];
        if (p.proj.empty() || l.proj == p.proj) x.actual = l.proj == p.proj && l.path == p.path && W.Chance(70) ? ":" + l.name : l.proj + "//" + l.path + ":" + l.name;
      }
      if (x.rule == "genrule" && W.Chance(30)) x.outs.push_back((W.Chance(30) ? ":" : "") + x.name + "/second.inc");
      if (x.rule != "cc_library") continue;
      if (W.Chance(15)) x.hdrs.push_back("include/inner/" + x.name + "_i.h");
      if (W.Chance(10)) x.textual.push_back(x.name + ".inc");
      if (W.Chance(8)) x.incprefix = W.Chance(50) ? "pre/fix" : "pre";
      if (W.Chance(12)) {
        static const char *const st[] = {"", "/include", "/include/inner", "/inc"};
        x.strip = p.path + st[W.Below(4)];
        if (x.strip[0] == '/') x.strip.erase(0, 1);
        if (W.Chance(40)) x.strip = "/" + x.strip;
        if (W.Chance(30)) x.strip += "/";
        if (x.strip == "/" || x.strip == "//") x.strip.clear();
      }
      if (W.Chance(12)) {
        const std::string q = p.path.empty() ? "" : p.path + "/";
        for (const char *i : {"include", "include/inner/", "nothing"}) if (W.Chance(50)) x.includes.push_back(q + i);
      }
      if (W.Chance(8)) for (auto &h : x.hdrs) if (W.Chance(50)) h = ":" + h;
      if (W.Chance(5)) { x.rule = "grpc_cc_library"; if (W.Chance(60)) { x.public_hdrs = x.hdrs; x.hdrs.clear(); x.style = 0; } }
    }
    if (W.Chance(20)) {   // names that only look like each other
      Tgt y;
      y.rule = "cc_test";
      static const char *const n[] = {"core.pb", "core_pb", "a+b", "aab", "foo-bar", "foo/bar", "core.pb2", "lib(x)", "$1"};
      for (int i = 1 + W.Below(3); i > 0; --i) { y.name = name(n[W.Below(9)]); y.srcs = {"t.cc"}; p.t.push_back(y); }
    }
    if (W.Chance(12)) {
      Tgt y, z;
      y.rule = "proto_library";
      y.name = name("svc_proto");
      y.srcs = {W.Chance(50) ? "svc.v1.proto" : ":svc.proto", "other.txt"};
      z.rule = W.Chance(60) ? "cc_grpc_library" : "cc_proto_library";
      z.name = name("svc_cc");
      (z.rule == "cc_grpc_library" ? z.srcs : z.deps) = Strs{W.Chance(60) ? ":" + y.name : p.proj + "//" + p.path + ":" + y.name};
      if (W.Chance(50)) { p.t.push_back(y); p.t.push_back(z); } else { p.t.push_back(z); p.t.push_back(y); }
    }
    static const char *const odd[] = {"exports_files([\"x.txt\"])\n", "(A, B) = (1, 2)\n", "X = {\"a\": 1, \"b\": [1, 2][0]}\n", "\"\"\"doc string\nname = \"no\"\n\"\"\"\n",
                                      "Y = \"a\" if True else \"b\"\n", "Z = not -5\n", "# cc_library(name = \"commented\")\n", "load(\"@ext//:defs.bzl\", \"thing\")\n", "load(\"@dep_two//a:b.bzl\", \"x\")\n", "licenses([\"notice\"])\n"};
    if (W.Chance(25)) (W.Chance(50) ? p.prologue : p.epilogue) += odd[W.Below(10)];
    for (auto &x : p.t) for (auto &d : x.deps) if (d.rfind("@//", 0) == 0) d.erase(0, 1);
  }
  c.sample = w.Describe();
  c.state_hash = HashStr(w.Describe());
  using PK = std::pair<std::string, std::string>;
  std::set<PK> bad;
  const bool faults = W.Chance(40);
  if (faults) for (int i = 1 + W.Below(3); i > 0; --i) { auto &p = w.pkgs[W.Below(w.pkgs.size())]; bad.insert({p.proj, p.path}); }
  const int how = W.Below(3), chunk = W.Below(3);
  std::set<std::string> badfiles;
  for (auto &p : w.pkgs) if (bad.count({p.proj, p.path})) badfiles.insert(w.BuildPath(p));
  std::map<Label, std::set<Label>> dep;
  std::map<PK, const Pkg *> pkg;
  for (auto &p : w.pkgs) {
    if (bad.count({p.proj, p.path})) continue;
    pkg[{p.proj, p.path}] = &p;
    for (auto &x : p.t) {
      auto &d = dep[Label{p.proj, p.path, x.name}];
      Label l;
      for (auto &s : x.deps) if (ParseLabel(s, p.proj, p.path, &l)) d.insert(l);
      if (!x.actual.empty() && ParseLabel(x.actual, p.proj, p.path, &l)) d.insert(l);
    }
  }
  const Facts facts(w);
  static const char *const kAll[] = {"parse", "print", "list-packages", "list-targets", "workspace", "lib-headers", "aliased-by", "genrule-outputs", "depends-on", "has-dependents", "dwyu", "compilation-db", "compile-flags", "canonicalize"};
  static const char *const kCmd[] = {"list-targets", "lib-headers", "genrule-outputs", "aliased-by", "list-packages", "workspace", "print"};
  static const Strs kHeader[] = {{"file-location", "rule", "target"}, {"header", "providing-rule"}, {"generated-file", "providing-rule"}, {"actual", "aliased-by"}, {"bazel-file", "package"}, {"project", "version", "directory"}};
  const int ncmd = 3 + W.Below(4);
  for (int k = 0; k < ncmd && !Over(c) && ImagesLeft(g_bant); ++k) {
    Pat pat = GenPat(w, true);
    bool glob = false, none = false;
    if (W.Chance(12)) { pat = Pat(); pat.text = ""; none = true; }
    else if (W.Chance(25)) {   // '*' in the name
      glob = true;
      const Pkg &p = w.pkgs[W.Below(w.pkgs.size())];
      pat = Pat();
      pat.kind = Pat::kAll;
      pat.proj = p.proj;
      pat.path = p.path;
      std::string n = p.t.empty() ? "foo" : p.t[W.Below(p.t.size())].name;
      const size_t a = W.Below(n.size() + 1), b = a + W.Below(n.size() - a + 1);
      n = n.substr(0, a) + "*" + n.substr(b);
      if (W.Chance(20)) n = "*" + n;
      if (n == "*" || n == "**") n = "*o*";
      pat.name = n;
      pat.text = pat.proj + "//" + pat.path + ":" + n;
    } else if (pat.kind == Pat::kRec && pat.proj.empty() && W.Chance(30)) pat.text = pat.path.empty() ? "..." : pat.path + "/...";
    else if (pat.kind == Pat::kAll && W.Chance(40)) pat.text = pat.proj + "//" + pat.path + (W.Chance(50) ? ":*" : ":__pkg__");
    else if (pat.kind == Pat::kExact && W.Chance(50)) pat.text = Label{pat.proj, pat.path, pat.name}.Bant();
    auto match = [&](const Label &l) { return pat.Match(l) && (!glob || GlobMatch(pat.name, l.name)); };
    const int mode = none ? W.Below(6) : W.Below(7);
    static const char *const rs[] = {"", "-r0", "-r1", "-r2", "-r"};
    const int ri = W.Chance(55) ? 0 : W.Below(5);
    const bool follow = mode != 3 && mode != 5 && mode != 6;
    const int depth = ri == 0 || !follow ? 0 : ri == 4 ? 1 << 20 : ri - 1;
    const bool wide = ri >= 2;   // whatever is found on the way is shown
    static const char *const fm[] = {"native", "csv", "json", "s-expr", "plist"};
    const std::string format = fm[W.Below(5)];
    std::string name = kCmd[mode];
    if (W.Chance(25)) {
      for (size_t n = 1; n < name.size(); ++n) {
        int m = 0;
        for (auto *q : kAll) m += std::string(q).rfind(name.substr(0, n), 0) == 0;
        if (m == 1) { name.resize(n + W.Below(name.size() - n)); break; }
      }
    }
    Strs args;
    if (format != "native" || W.Chance(20)) args = {"-f", format};
    std::string grep;
    bool icase = false, dots = false;
    if (mode == 6 && W.Chance(50)) {
      const Pkg &p = w.pkgs[W.Below(w.pkgs.size())];
      if (!p.t.empty()) {
        const Strs tk = Tokens(p.Text());
        for (char ch : tk[W.Below(tk.size())]) if (isalpha((unsigned char)ch)) grep += ch; else if (!grep.empty()) break;
      }
      if (grep.empty()) grep = "foo";
      const size_t a = W.Below(grep.size());
      grep = grep.substr(a, 1 + W.Below(grep.size() - a));
      icase = W.Chance(30);
      if (icase) for (auto &ch : grep) if (W.Chance(50)) ch = toupper(ch);
      dots = W.Chance(20);   // also matches nothing
      args.push_back("-g");
      args.push_back(dots ? (W.Chance(50) ? ".*" : grep.substr(0, 1) + "*") : grep);
      if (icase) args.push_back("-i");
    }
    if (mode != 6 && (g.styles || g.globs || W.Chance(20))) args.push_back("-e");
    if (ri) args.push_back(rs[ri]);
    if (W.Chance(15)) args.push_back(W.Chance(50) ? "-q" : "-v");
    args.push_back(name);
    if (!none) args.push_back(pat.text);
    RunOpt o;
    if (W.Chance(15)) o.outfile = "/tmp/listing";
    Calm();
    w.Materialize();
    Hostile(S->fs.cfg, c);
    S->hash_seed = W.Chance(50) ? W.Below(1000) : 0;
    if (faults)
      S->env_fault = [&](const FaultSite &s) -> int {
        const std::string kd = s.kind;
        if (kd != "open" && kd != "access" && kd != "read") return 0;
        if (kd == "read" ? how != 2 : how == 2 || (kd == "access" && how == 1)) return 0;
        InodeP n = S->fs.Lookup(s.path);
        for (auto &b : badfiles) if (n && n == S->fs.Lookup(b)) return kd == "read" ? EIO : EACCES;
        return 0;
      };
    if (chunk) S->policy = [=](const FaultSite &s) -> int {
      if (strcmp(s.kind, "read") && strcmp(s.kind, "write")) return 0;
      return S->frng.Chance(0.3 * chunk) ? OneOf({kShort1, kShortHalf, kShortButOne}, S->frng.Below(3)) : 0;
    };
    Result r = RunBant(w, args, o);
    S->policy = nullptr;
    S->env_fault = nullptr;
    if (Over(c)) return;
    const std::string &out = o.outfile.empty() ? r.out : r.file;
    if (r.code != 0) { c.Violate(c.prop, "exit", r.cmdline + " ended with status " + std::to_string(r.code) + " " + Clip(r.err, 200)); return; }
    Rows rows;
    std::string err;
    if (mode != 6 && !ReadTable(out, format, kHeader[mode], &rows, &err)) { c.Violate(c.prop, "format", r.cmdline + ": malformed output: " + err + ": " + Clip(out, 300)); return; }
    // Which packages are known.
    std::set<PK> seen;
    std::set<Label> level, expanded;
    for (auto &[k2, p] : pkg) {
      if (!none && !pat.MatchPkg(p->proj, p->path)) continue;
      if (none && !p->proj.empty()) continue;
      seen.insert(k2);
      for (auto &x : p->t) { Label l{p->proj, p->path, x.name}; if (none || match(l)) level.insert(l); }
    }
    if (follow && ri)
      for (int d = 0; d <= depth && !level.empty(); ++d) {
        for (auto &l : level) {
          if (pkg.count({l.proj, l.path})) seen.insert({l.proj, l.path});
          if (dep.count(l)) expanded.insert(l);
        }
        std::set<Label> next;
        for (auto &l : level) if (dep.count(l)) for (auto &n : dep[l]) if (!expanded.count(n)) next.insert(n);
        level = next;
      }
    auto shown = [&](const Label &l) { return none || wide || match(l); };
    std::map<Label, std::set<Label>> alias;
    for (auto &k2 : seen)
      for (auto &x : pkg[k2]->t) {
        Label l;
        if (x.rule == "alias" && ParseLabel(x.actual, k2.first, k2.second, &l)) alias[l].insert(Label{k2.first, k2.second, x.name});
      }
    std::multiset<std::string> want, got;
    std::set<std::string> may;
    auto file_of = [&](const std::string &f) { InodeP n = S->fs.Lookup(f[0] == '/' ? f : w.root + "/" + f); return n ? std::to_string(n->ino) : f; };
    auto plain = [](const std::string &h) { return h[0] == ':' ? h.substr(1) : h; };
    switch (mode) {
      case 0:
        for (auto &k2 : seen)
          for (auto &x : pkg[k2]->t) {
            const Label l{k2.first, k2.second, x.name};
            if (shown(l)) want.insert(file_of(w.BuildPath(*pkg[k2])) + " " + x.rule + " " + l.Bant());
          }
        for (auto &row : rows) {
          const std::string &loc = row[0];
          const size_t co = loc.find(':');
          const std::string f = loc.substr(0, co);
          got.insert(file_of(f) + " " + row[1] + " " + row[2]);
          int line = 0, c1 = 0, c2 = 0;
          const int n = co == std::string::npos ? 0 : sscanf(loc.c_str() + co, ":%d:%d-%d:", &line, &c1, &c2);
          std::string text;
          S->fs.ReadFile(f[0] == '/' ? f : w.root + "/" + f, &text);
          const Strs tl = SplitLines(text);
          if (n == 2) c2 = c1;
          const std::string tn = row[2].substr(row[2].find_last_of(":/@") == std::string::npos ? 0 : row[2].find_last_of(":/@") + 1);
          bool ok = n >= 2 && line >= 1 && line <= (int)tl.size() && c1 >= 1 && c2 >= c1 && c2 <= (int)tl[line - 1].size();
          if (ok) {
            const std::string at = tl[line - 1].substr(c1 - 1, c2 - c1 + 1), before = tl[line - 1].substr(0, c1 - 1);
            ok = at.ends_with(tn) && before.ends_with("name = \"");
          }
          if (!ok) { c.Violate(c.prop, "location", r.cmdline + " reports " + row[2] + " at " + loc + " where it is not"); return; }
          c.Probe("locations_compared");
        }
        break;
      case 1:
        for (auto &k2 : seen) {
          const Pkg &p = *pkg[k2];
          auto qual = [&](const std::string &h) { return p.path.empty() ? h : p.path + "/" + h; };
          for (auto &x : p.t) {
            const Label l{k2.first, k2.second, x.name};
            auto put = [&](const std::string &h, bool sure) {
              auto one = [&](const Label &q, bool s) {
                if (!shown(q)) return;
                const std::string e = h + " " + q.Bant();
                if (s) { if (!want.count(e)) want.insert(e); } else may.insert(e);
              };
              one(l, sure);
              if (auto it = alias.find(l); it != alias.end()) for (auto &a : it->second) one(a, sure && x.rule != "cc_proto_library" && x.rule != "cc_grpc_library");
            };
            if (x.rule == "cc_library" || x.rule == "grpc_cc_library") {
              Strs hs = x.hdrs;
              for (auto &q : x.glob_hdrs) for (auto &h : facts.Expand(p, q)) hs.push_back(h);
              const bool both = std::count(x.hdrs.begin(), x.hdrs.end(), "string_view.h") && std::count(x.textual.begin(), x.textual.end(), "string_view.h");
              for (auto &h : x.textual) hs.push_back(h);
              for (auto &h : x.public_hdrs) hs.push_back(h);
              for (auto &h0 : hs) {
                const std::string h = plain(h0);
                if (both && h == "string_view.h" && p.path.ends_with("absl/strings")) continue;
                const bool sub = !x.glob_hdrs.empty() && h.find('/') != std::string::npos && h.rfind("include/", 0) != 0;   // may belong to a package below
                if (!x.incprefix.empty()) { put(x.incprefix + "/" + h, !sub); continue; }
                std::string q = qual(h), st = plain(x.strip);
                while (!st.empty() && st[0] == '/') st.erase(0, 1);
                while (!st.empty() && st.back() == '/') st.pop_back();
                put(!st.empty() && q.rfind(st + "/", 0) == 0 ? q.substr(st.size() + 1) : q, !sub);
                for (auto i : x.includes) {
                  if (!i.ends_with('/')) i += "/";
                  if (q.rfind(i, 0) == 0) put(q.substr(i.size()), !sub);
                }
              }
            } else if (x.rule == "cc_proto_library" || x.rule == "cc_grpc_library") {
              const bool grpc = x.rule == "cc_grpc_library";
              for (auto &d : grpc ? x.srcs : x.deps) {
                Label q;
                if (!ParseLabel(d, p.proj, p.path, &q) || q.proj != p.proj || q.path != p.path) continue;
                for (auto &y : p.t)
                  if (y.rule == "proto_library" && y.name == q.name)
                    for (auto &f : y.srcs)
                      if (f.ends_with(".proto")) for (const char *e : {".pb.h", ".proto.h"}) put(qual(plain(f).substr(0, plain(f).rfind('.')) + (grpc ? ".grpc" : "") + e), true);
              }
            }
          }
        }
        for (auto &row : rows) got.insert(row[0] + " " + row[1]);
        break;
      case 2: {
        std::map<std::string, std::set<Label>> by;
        for (auto &k2 : seen)
          for (auto &x : pkg[k2]->t)
            if (x.rule == "genrule") for (auto &f : x.outs) by[(k2.second.empty() ? "" : k2.second + "/") + plain(f)].insert(Label{k2.first, k2.second, x.name});
        for (auto &[f, ls] : by) for (auto &l : ls) if (shown(l)) { if (ls.size() == 1) want.insert(f + " " + l.Bant()); else may.insert(f + " " + l.Bant()); }
        for (auto &row : rows) got.insert(row[0] + " " + row[1]);
        break;
      }
      case 3:
        for (auto &[l, as] : alias) if (shown(l)) for (auto &a : as) want.insert(l.Bant() + " " + a.Bant());
        for (auto &row : rows) got.insert(row[0] + " " + row[1]);
        break;
      case 4:
        for (auto &k2 : seen) want.insert(file_of(w.BuildPath(*pkg[k2])) + " " + PkgName(k2.first, k2.second));
        for (auto &row : rows) got.insert(file_of(row[0]) + " " + row[1]);
        break;
      case 5: {
        std::set<std::string> refs;
        if (none) for (auto &e : w.exts) refs.insert("@" + e.name);
        else
          for (auto &k2 : seen) {
            const Pkg &p = *pkg[k2];
            Strs l;
            const std::string text = p.prologue + p.epilogue;
            for (size_t i = text.find("load(\"@"); i != std::string::npos; i = text.find("load(\"@", i + 1)) l.push_back(text.substr(i + 6, text.find('"', i + 6) - i - 6));
            for (auto &x : p.t) {
              if (!shown(Label{p.proj, p.path, x.name}) || (wide && !match(Label{p.proj, p.path, x.name}))) continue;
              for (auto &d : x.deps) l.push_back(d);
              if (!x.actual.empty()) l.push_back(x.actual);
            }
            for (auto &s : l) { Label q; if (s.rfind("@", 0) == 0 && s.rfind("@//", 0) != 0 && ParseLabel(s, p.proj, p.path, &q) && q.proj != p.proj) refs.insert(q.proj); }
          }
        for (auto &e : w.exts) if (refs.count("@" + e.name)) want.insert(e.name + " " + file_of(w.ExtDir(e)));
        for (auto &row : rows) got.insert(row[0] + " " + file_of(row[2]));
        break;
      }
      case 6: {
        std::map<std::string, Strs> body;
        for (auto &k2 : seen) {
          const Pkg &p = *pkg[k2];
          const std::string text = p.Text();
          for (auto &x : p.t) {
            const Label l{k2.first, k2.second, x.name};
            if (!match(l)) continue;
            const size_t at = text.find(x.rule + "(\n    name = \"" + x.name + "\",\n");
            const Strs tk = Tokens(text, at, true);
            if (!grep.empty() && !dots) {
              bool found = false;
              for (auto &t : tk) {
                const std::string v = t[0] == '"' ? t.substr(1) : t;
                found |= (icase ? strcasestr(v.c_str(), grep.c_str()) : strstr(v.c_str(), grep.c_str())) != nullptr;
              }
              if (!found) continue;
            }
            std::string vis;
            for (auto &v : x.visibility.empty() ? p.default_vis : x.visibility) vis += " " + v;
            const std::string e = file_of(w.BuildPath(p)) + ":" + std::to_string(1 + std::count(text.begin(), text.begin() + at, '\n')) + " " + l.Bant() + (vis.empty() ? "" : " (visibility:" + vis + ")");
            want.insert(e);
            body[e] = tk;
          }
        }
        const Strs l = SplitLines(out);
        for (size_t i = 0; i < l.size();) {
          const std::string h = l[i++];
          std::string text;
          while (i < l.size() && l[i].rfind("# ", 0) != 0) text += l[i++] + "\n";
          const size_t sp = h.find(": ", 2), co = h.find(':');
          if (h.rfind("# ", 0) != 0 || co == std::string::npos) { c.Violate(c.prop, "format", r.cmdline + ": no header: " + h); return; }
          if (sp == std::string::npos || h.compare(sp + 2, 12, "(visibility:") == 0 || (h.size() > sp + 2 && h[sp + 2] == '(')) {
            if (pat.kind != Pat::kRec) { c.Violate(c.prop, "wrong-print", r.cmdline + " prints what has no name: " + h); return; }
            continue;
          }
          const std::string e = file_of(h.substr(2, co - 2)) + ":" + std::to_string(atoi(h.c_str() + co + 1)) + " " + h.substr(sp + 2);
          got.insert(e);
          if (body.count(e) && Tokens(text) != body[e]) { c.Violate(c.prop, "print-content", r.cmdline + " prints something different for " + h + ": " + Clip(text, 300)); return; }
          c.Probe("rules_compared");
        }
        break;
      }
    }
    if (!want.empty()) c.nontrivial = true;
    c.Probe("rows_compared", want.size());
    if (glob) c.Probe("glob_patterns");
    if (!bad.empty()) c.Probe("with_unreadable_packages");
    for (auto &x : want) if (got.count(x) < want.count(x)) { c.Violate(c.prop, std::string("missing-") + kCmd[mode], r.cmdline + " does not report " + x + " " + Clip(r.err, 200)); return; }
    std::set<std::string> rec;   // libraries with '**': also has what is found in sub-packages or through symbolic links
    if (mode == 1)
      for (auto &k2 : seen)
        for (auto &x : pkg[k2]->t) {
          bool any = false;
          for (auto &q : x.glob_hdrs) any |= q.rfind("**", 0) == 0;
          const Label l{k2.first, k2.second, x.name};
          if (!any) continue;
          rec.insert(l.Bant());
          for (auto &a : alias[l]) rec.insert(a.Bant());
        }
    for (auto &x : got) if (got.count(x) > std::max(want.count(x), may.count(x)) && !rec.count(x.substr(x.find(' ') + 1))) { c.Violate(c.prop, std::string("wrong-") + kCmd[mode], r.cmdline + " reports " + x + (want.count(x) ? " too often" : " which is not the case")); return; }
  }
}
// ------------------------------------------------------------------ C25
// Strict reader of what a JSON compilation database can contain.
struct Json {
  char kind = 0;                                   // s a o
  std::string s;
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;
};
bool ReadJson(const std::string &t, size_t *i, Json *j) {
  auto ws = [&] { while (*i < t.size() && strchr(" \n\r\t", t[*i])) ++*i; };
  auto is = [&](char ch) { ws(); if (*i >= t.size() || t[*i] != ch) return false; ++*i; return true; };
  ws();
  if (*i >= t.size()) return false;
  if (t[*i] == '"') {
    j->kind = 's';
    for (++*i; *i < t.size() && t[*i] != '"'; ++*i) {
      if ((unsigned char)t[*i] < 0x20) return false;
      if (t[*i] == '\\' && (++*i >= t.size() || !strchr("\"\\/", t[*i]))) return false;
      j->s += t[*i];
    }
    return is('"');
  }
  if (is('[')) {
    j->kind = 'a';
    if (is(']')) return true;
    do { j->a.emplace_back(); if (!ReadJson(t, i, &j->a.back())) return false; } while (is(','));
    return is(']');
  }
  if (is('{')) {
    j->kind = 'o';
    if (is('}')) return true;
    do {
      Json k, v;
      if (!ReadJson(t, i, &k) || k.kind != 's' || !is(':') || !ReadJson(t, i, &v)) return false;
      j->o.emplace_back(k.s, v);
    } while (is(','));
    return is('}');
  }
  return false;
}
void C25(Ctx &c) {
  World w(c);
  Draws &W = c.W;
  Gen g;
  g.max_pkgs = c.thorough && W.Chance(30) ? 9 : 6;
  g.links = false;
  g.styles = W.Chance(30);
  g.globs = W.Chance(40);
  w.Generate(g);
  for (auto &p : w.pkgs)
    for (auto &x : p.t) {
      if (x.rule != "cc_library" && x.rule != "cc_binary" && x.rule != "cc_test" && x.rule != "proto_library") continue;
      if (W.Chance(25)) {
        static const char *const inc[] = {"include", "include/inner", ".", "inc/", "gen"};
        for (int i = 1 + W.Below(2); i > 0; --i) x.includes.push_back(inc[W.Below(5)]);
      }
      if (x.rule == "cc_library" && W.Chance(12)) x.incprefix = W.Chance(50) ? "pre/fix" : "pre";
      if (x.rule == "cc_library" && W.Chance(20)) x.hdrs.push_back("include/inner/" + x.name + "_i.h");
      if (W.Chance(15)) x.srcs.push_back((W.Chance(30) ? ":" : "") + x.name + "_2" + (x.rule == "proto_library" ? ".proto" : ".cc"));
      if (W.Chance(10) && !p.t.empty() && !p.t[0].srcs.empty()) x.srcs.push_back(p.t[0].srcs[0]);   // in several targets
      for (auto &d : x.deps) if (d.rfind("@//", 0) == 0) d.erase(0, 1);
      if (p.proj.empty() && !w.exts.empty() && W.Chance(10)) x.deps.push_back("@" + w.exts[W.Below(w.exts.size())].name + "//no/such:lib");
      if (p.proj.empty() && W.Chance(8)) x.deps.insert(x.deps.begin() + W.Below(x.deps.size() + 1), W.Chance(50) ? "@nowhere//:x" : "//no/such:thing");
      std::set<std::string> once;
      for (auto *v : {&x.srcs, &x.deps}) { Strs u; for (auto &s : *v) if (once.insert(s).second) u.push_back(s); *v = u; }
    }
  // Options for the compiler.
  std::set<std::string> opt, mayopt;
  w.files.erase(w.root + "/.bazelrc");
  if (W.Chance(60)) {
    static const char *const lines[] = {"build --cxxopt=-std=c++20\n", "build --cxxopt=-Wall --host_cxxopt=-Wall\n", "test --cxxopt='-DONLY=1'\n", "build --host_cxxopt \"-fno-rtti\"\n", "build --cxxopt = -Wextra\n",
                                        "build --copt=-bad\n", "build --cxxopt=/std:c++20\n", "# a comment\n", "build --define absl=1\n", "build --cxxopt=-Wno-foo\tbuild\n", "\n", "build --cxxopt=-Wlast"};
    static const char *const is[] = {"-std=c++20", "-Wall", "-DONLY=1", "-fno-rtti", "-Wextra", "", "", "", "-DGTEST_HAS_ABSL=1", "-Wno-foo", "", "-Wlast"};
    std::string t;
    for (int i = W.Below(6); i > 0; --i) { const int k = W.Below(11); t += lines[k]; if (*is[k]) opt.insert(is[k]); }
    if (W.Chance(20)) { t += lines[11]; opt.insert(is[11]); }
    if (W.Chance(20)) t += "\n" + std::string(5000 + W.Below(3000), '#') + "\n";
    if (W.Chance(30)) { t += "\nbuild --cxxopt=-Wvery-last\n"; opt.insert("-Wvery-last"); }
    w.files[w.root + "/.bazelrc"] = t;
  }
  c.sample = w.Describe();
  c.state_hash = HashStr(w.Describe());
  using PK = std::pair<std::string, std::string>;
  std::set<PK> bad;
  const bool faults = W.Chance(40), badrc = W.Chance(8);
  if (faults) for (int i = 1 + W.Below(3); i > 0; --i) { auto &p = w.pkgs[W.Below(w.pkgs.size())]; bad.insert({p.proj, p.path}); }
  if (badrc) { mayopt = opt; opt.clear(); }
  const int how = W.Below(3), chunk = W.Below(3);
  std::set<std::string> badfiles;
  for (auto &p : w.pkgs) if (bad.count({p.proj, p.path})) badfiles.insert(w.BuildPath(p));
  if (badrc) badfiles.insert(w.root + "/.bazelrc");
  std::map<PK, const Pkg *> pkg;
  for (auto &p : w.pkgs) if (!bad.count({p.proj, p.path})) pkg[{p.proj, p.path}] = &p;
  const Facts facts(w);
  for (int k = 0; k < 4 && !Over(c) && ImagesLeft(g_bant); ++k) {
    const bool db = W.Chance(60), none = W.Chance(12);
    Pat pat = GenPat(w, true);
    if (none) { pat = Pat(); pat.text = ""; }
    Strs args;
    RunOpt o;
    if (W.Chance(20)) { o.cwd = "/w"; args = {"-C", w.root}; }
    if (W.Chance(15)) args.push_back(W.Chance(50) ? "-q" : "-v");
    if (W.Chance(15)) args.push_back("-r");
    if (W.Chance(15)) args.push_back("-e");
    const std::string name = db ? "compilation-db" : "compile-flags";
    args.push_back(W.Chance(25) ? name.substr(0, 7 + W.Below(5)) : name);
    if (!none) args.push_back(pat.text);
    if (W.Chance(15)) o.outfile = "/tmp/compile_commands.json";
    Calm();
    w.Materialize();
    for (const char *d : {"include", "include/inner", "inc", "gen"}) for (auto &p : w.pkgs) if (HashStr(d + p.path) % 2) S->fs.MkdirP(w.PkgDir(p) + "/" + d);
    Hostile(S->fs.cfg, c);
    S->hash_seed = W.Chance(50) ? W.Below(1000) : 0;
    if (!badfiles.empty())
      S->env_fault = [&](const FaultSite &s) -> int {
        const std::string kd = s.kind;
        if (kd != "open" && kd != "access" && kd != "read") return 0;
        if (kd == "read" ? how != 2 : how == 2 || (kd == "access" && how == 1)) return 0;
        InodeP n = S->fs.Lookup(s.path);
        for (auto &b : badfiles) if (n && n == S->fs.Lookup(b)) return kd == "read" ? EIO : EACCES;
        return 0;
      };
    if (chunk) S->policy = [=](const FaultSite &s) -> int {
      if (strcmp(s.kind, "read") && strcmp(s.kind, "write")) return 0;
      return S->frng.Chance(0.3 * chunk) ? OneOf({kShort1, kShortHalf, kShortButOne}, S->frng.Below(3)) : 0;
    };
    Result r = RunBant(w, args, o);
    S->policy = nullptr;
    S->env_fault = nullptr;
    if (Over(c)) return;
    const std::string &out = o.outfile.empty() ? r.out : r.file;
    if (r.code != 0) { c.Violate(c.prop, "exit", r.cmdline + " ended with status " + std::to_string(r.code) + " " + Clip(r.err, 200)); return; }
    // Names of files and directories, however they are written.
    auto clean = [&](const std::string &f) {
      Strs part;
      std::string cur;
      for (char ch : f + "/") { if (ch != '/') { cur += ch; continue; } if (!cur.empty() && cur != ".") part.push_back(cur); cur.clear(); }
      std::string t = f[0] == '/' ? "" : w.root;
      for (auto &s : part) t += "/" + s;
      std::string rest;
      for (std::string d = t; d.size() > 1; d.erase(d.rfind('/'))) {
        if (InodeP n = S->fs.Lookup(d)) return std::to_string(n->ino) + rest;
        rest = d.substr(d.rfind('/')) + rest;
      }
      return t;
    };
    // What the pattern needs.
    std::set<PK> seen;
    std::set<Label> todo, done;
    for (auto &[k2, p] : pkg) {
      if (none ? !p->proj.empty() : !pat.MatchPkg(p->proj, p->path)) continue;
      seen.insert(k2);
      for (auto &x : p->t) { Label l{p->proj, p->path, x.name}; if (none || pat.Match(l)) todo.insert(l); }
    }
    const std::set<Label> asked = todo;
    std::set<std::string> want, may, wantfile, mayfile;
    bool links = false;
    std::map<std::string, std::string> shown;
    while (!todo.empty()) {
      const Label l = *todo.begin();
      todo.erase(todo.begin());
      if (!done.insert(l).second || !pkg.count({l.proj, l.path})) continue;
      seen.insert({l.proj, l.path});
      for (auto &x : pkg[{l.proj, l.path}]->t)
        if (x.name == l.name) {
          Label q;
          for (auto &s : x.deps) if (ParseLabel(s, l.proj, l.path, &q)) todo.insert(q);
          if (!x.actual.empty() && ParseLabel(x.actual, l.proj, l.path, &q)) todo.insert(q);
        }
    }
    auto add = [&](std::set<std::string> *to, const std::string &d) { const std::string e = clean(d); shown[e] = d; to->insert(e); };
    for (const char *d : {".", "bazel-bin"}) add(&want, d);
    for (auto &k2 : seen) {
      const Pkg &p = *pkg[k2];
      const std::string rel = p.path.empty() ? "" : p.path + "/", dir = w.PkgDir(p) + "/";
      const Ext *own = p.proj.empty() ? nullptr : w.FindExt(p.proj);
      for (auto &x : p.t) {
        const Label l{p.proj, p.path, x.name};
        const bool cc = x.rule == "cc_library" || x.rule == "cc_binary" || x.rule == "cc_test";
        if (!cc && x.rule != "proto_library") continue;
        auto *to = done.count(l) ? &want : &may;
        for (auto &i : x.includes) add(to, dir + i);
        if (!x.incprefix.empty()) {
          const std::string tail = rel + "_virtual_includes/" + x.name;
          if (p.proj.empty()) add(to, "bazel-bin/" + tail);
          else { add(to, "bazel-bin/external/" + p.proj.substr(1) + "/" + tail); if (own) add(&may, "bazel-bin/external/" + own->dir + "/" + tail); }
        }
        for (auto &s : x.deps) {
          Label q;
          if (!ParseLabel(s, p.proj, p.path, &q) || q.proj.empty() || (q.proj == p.proj && s[0] != '@')) continue;
          const Ext *e = w.FindExt(q.proj);
          if (!e) continue;
          add(to, w.ExtDir(*e));
          add(to, "bazel-bin/external/" + e->name);
          add(&may, "bazel-bin/external/" + e->dir);
        }
        if (own) { add(&may, w.ExtDir(*own)); add(&may, "bazel-bin/external/" + own->name); add(&may, "bazel-bin/external/" + own->dir); }
        if (!cc || !(none || asked.count(l)) || !db) continue;
        for (auto *v : {&x.srcs, &x.hdrs}) for (auto &f : *v) add(&wantfile, dir + (f[0] == ':' ? f.substr(1) : f));
        for (auto *v : {&x.glob_srcs, &x.glob_hdrs})
          for (auto &q : *v) {
            links |= q.rfind("**", 0) == 0;
            for (auto &f : facts.Expand(p, q)) add(f.find('/') == std::string::npos ? &wantfile : &mayfile, dir + f);
          }
      }
    }
    if (want.size() > 2 || !wantfile.empty()) c.nontrivial = true;
    if (!bad.empty()) c.Probe("with_unreadable_packages");
    auto same_flags = [&](const Strs &dirs, const Strs &options, const std::string &for_what) {
      std::set<std::string> got, go(options.begin(), options.end());
      for (auto &d : dirs) { const std::string e = clean(d); shown.insert({e, d}); got.insert(e); }
      for (auto &e : want) if (!got.count(e)) { c.Violate(c.prop, "missing-include-directory", r.cmdline + " does not tell about " + shown[e] + for_what + " " + Clip(r.err, 200)); return false; }
      for (auto &e : got) if (!want.count(e) && !may.count(e)) { c.Violate(c.prop, "wrong-include-directory", r.cmdline + " has include directory " + shown[e] + for_what + ", which nothing mentions"); return false; }
      for (auto &e : opt) if (!go.count(e)) { c.Violate(c.prop, "missing-option", r.cmdline + " does not have option " + e + for_what); return false; }
      for (auto &e : go) if (!opt.count(e) && !mayopt.count(e)) { c.Violate(c.prop, "wrong-option", r.cmdline + " has option " + e + for_what); return false; }
      c.Probe("flags_compared", want.size() + opt.size());
      return true;
    };
    if (!db) {
      Strs dirs, options;
      for (auto &l : SplitLines(out)) if (l.rfind("-I", 0) == 0) dirs.push_back(l.substr(2)); else options.push_back(l);
      if (!same_flags(dirs, options, "")) return;
      continue;
    }
    Json j;
    size_t at = 0;
    const bool ok = ReadJson(out, &at, &j) && j.kind == 'a';
    if (!ok || out.find_first_not_of(" \n", at) != std::string::npos) { c.Violate(c.prop, "format", r.cmdline + " does not write a JSON array: near " + Clip(out.substr(std::min(at, out.size())), 100)); return; }
    std::map<std::string, int> got;
    for (auto &e : j.a) {
      std::string file, dir;
      Strs a;
      for (auto &[key, v] : e.o) { if (key == "file") file = v.s; if (key == "directory") dir = v.s; if (key == "arguments") for (auto &x : v.a) a.push_back(x.s); }
      if (e.kind != 'o' || file.empty() || a.size() < 3) { c.Violate(c.prop, "format", r.cmdline + " has an incomplete entry for '" + file + "'"); return; }
      if (clean(dir) != clean(w.root) || dir[0] != '/') { c.Violate(c.prop, "directory", r.cmdline + " says that commands start in " + dir); return; }
      shown.insert({clean(file), file});
      ++got[clean(file)];
      Strs dirs, options;
      std::string input;
      static const std::set<std::string> def = {"-xc++", "-U_FORTIFY_SOURCE", "-O2", "-DNDEBUG"};
      for (size_t i = 1; i < a.size(); ++i) {
        if ((a[i] == "-iquote" || a[i] == "-I" || a[i] == "-c") && i + 1 < a.size()) { (a[i] == "-c" ? input = a[i + 1] : dirs.emplace_back(a[i + 1])); ++i; }
        else if (!def.count(a[i])) options.push_back(a[i]);
      }
      if (input != file) { c.Violate(c.prop, "input", r.cmdline + " compiles " + input + " for " + file); return; }
      if (!same_flags(dirs, options, " for " + file)) return;
    }
    c.Probe("entries_compared", wantfile.size());
    for (auto &f : wantfile) if (!got.count(f)) { c.Violate(c.prop, "missing-entry", r.cmdline + " has no entry for " + shown[f] + " " + Clip(r.err, 200)); return; }
    for (auto &[f, n] : got) {
      bool ok = n == 1 && (wantfile.count(f) || mayfile.count(f));
      if (links && shown[f].ends_with(".h")) ok = true;   // found in other packages or through symbolic links
      if (!ok) { c.Violate(c.prop, "wrong-entry", r.cmdline + " has " + std::to_string(n) + (n == 1 ? " unjustified entry for " : " entries for ") + shown[f]); return; }
    }
  }
}
// ------------------------------------------------------------------ C26
void C26(Ctx &c) {
  World w(c);
  Draws &W = c.W;
  Gen g;
  g.max_pkgs = c.thorough && W.Chance(30) ? 9 : 6;
  g.links = g.styles = false;
  g.globs = W.Chance(20);
  w.Generate(g);
  // Names that are also found elsewhere.
  for (auto &p : w.pkgs) {
    std::set<std::string> names;
    for (auto &x : p.t) names.insert(x.name);
    Strs more;
    const std::string last = p.path.substr(p.path.rfind('/') == std::string::npos ? 0 : p.path.rfind('/') + 1);
    if (W.Chance(30) && !last.empty()) more.push_back(last);
    if (W.Chance(30) && !p.proj.empty()) more.push_back(p.proj.substr(1));
    if (W.Chance(25)) more.push_back(W.Chance(50) ? "sub/thing" : "a/b");
    if (W.Chance(15)) more.push_back(W.Chance(50) ? "a" : "v1.2-x+y");
    for (auto &n : more) {
      if (!names.insert(n).second) continue;
      Tgt y;
      static const char *const rules[] = {"cc_library", "cc_library", "py_library", "my_rule"};
      y.rule = rules[W.Below(4)];
      y.name = n;
      if (y.rule == "cc_library") y.hdrs = {"h" + std::to_string(names.size()) + ".h"};
      p.t.push_back(y);
    }
  }
  std::vector<Label> all;
  for (auto &p : w.pkgs) for (auto &x : p.t) all.push_back({p.proj, p.path, x.name});
  auto last_of = [](const std::string &p) { return p.substr(p.rfind('/') == std::string::npos ? 0 : p.rfind('/') + 1); };
  for (auto &p : w.pkgs)
    for (auto &x : p.t) {
      static const std::set<std::string> without = {"alias", "genrule", "filegroup", "proto_library", "cc_proto_library"};
      if (without.count(x.rule)) continue;
      for (int i = W.Below(5); i > 0; --i) {
        Label l = all[W.Below(all.size())];
        if (W.Chance(40)) for (auto &q : all) if (q.proj == p.proj && q.path == p.path && W.Chance(40)) l = q;
        if (W.Chance(6)) l = {"", "not/there", W.Chance(50) ? "there" : "x"};
        if (W.Chance(4)) l = {"@nowhere", "", W.Chance(50) ? "nowhere" : "x"};
        Strs forms;
        const bool main = l.proj.empty(), unnamed = main && l.path.empty(), own = l.proj == p.proj, compact = !l.path.empty() && last_of(l.path) == l.name;
        for (std::string pre : {std::string(), l.proj, std::string("@")}) {
          if (pre.empty() ? !own : pre == "@" && !main) continue;
          forms.push_back(pre + "//" + l.path + ":" + l.name);
          if (compact) forms.push_back(pre + "//" + l.path);
        }
        if (!main && l.path.empty() && l.name == l.proj.substr(1)) forms.push_back(l.proj);
        if (own && l.path == p.path) { forms.push_back(":" + l.name); forms.push_back(":" + l.name); forms.push_back(l.name); }
        (void)unnamed;
        const std::string d = forms[W.Below(forms.size())];
        if (std::find(x.deps.begin(), x.deps.end(), d) == x.deps.end()) x.deps.push_back(d);
      }
      if (W.Chance(8)) x.deps.insert(x.deps.begin() + W.Below(x.deps.size() + 1), "a:b:c");
    }
  c.sample = w.Describe();
  c.state_hash = HashStr(w.Describe());
  using PK = std::pair<std::string, std::string>;
  std::set<PK> bad;
  const bool faults = W.Chance(30);
  if (faults) for (int i = 1 + W.Below(3); i > 0; --i) { auto &p = w.pkgs[W.Below(w.pkgs.size())]; bad.insert({p.proj, p.path}); }
  const int how = W.Below(3), chunk = W.Below(3);
  std::set<std::string> badfiles;
  for (auto &p : w.pkgs) if (bad.count({p.proj, p.path})) badfiles.insert(w.BuildPath(p));
  std::map<Label, std::pair<const Pkg *, const Tgt *>> tgt;
  for (auto &p : w.pkgs) if (!bad.count({p.proj, p.path})) for (auto &x : p.t) tgt[{p.proj, p.path, x.name}] = {&p, &x};
  for (int k = 0; k < 4 && !Over(c) && ImagesLeft(g_bant); ++k) {
    const bool graph = W.Chance(35);
    Pat pat = GenPat(w, true);
    Strs args;
    RunOpt o;
    if (W.Chance(15)) args.push_back(W.Chance(50) ? "-q" : "-v");
    if (W.Chance(15)) args.push_back("-e");
    if (graph) { args.push_back("-f"); args.push_back("csv"); args.push_back("depends-on"); }
    else args.push_back(W.Chance(25) ? "canon" : "canonicalize");
    args.push_back(pat.text);
    if (W.Chance(15)) o.outfile = "/tmp/edits.sh";
    Calm();
    w.Materialize();
    Hostile(S->fs.cfg, c);
    S->hash_seed = W.Chance(50) ? W.Below(1000) : 0;
    if (!badfiles.empty())
      S->env_fault = [&](const FaultSite &s) -> int {
        const std::string kd = s.kind;
        if (kd != "open" && kd != "access" && kd != "read") return 0;
        if (kd == "read" ? how != 2 : how == 2 || (kd == "access" && how == 1)) return 0;
        InodeP n = S->fs.Lookup(s.path);
        for (auto &b : badfiles) if (n && n == S->fs.Lookup(b)) return kd == "read" ? EIO : EACCES;
        return 0;
      };
    if (chunk) S->policy = [=](const FaultSite &s) -> int {
      if (strcmp(s.kind, "read") && strcmp(s.kind, "write")) return 0;
      return S->frng.Chance(0.3 * chunk) ? OneOf({kShort1, kShortHalf, kShortButOne}, S->frng.Below(3)) : 0;
    };
    Result r = RunBant(w, args, o);
    S->policy = nullptr;
    S->env_fault = nullptr;
    if (Over(c)) return;
    const std::string &out = o.outfile.empty() ? r.out : r.file;
    if (graph) {
      if (r.code != 0) { c.Violate(c.prop, "exit", r.cmdline + " ended with status " + std::to_string(r.code) + " " + Clip(r.err, 200)); return; }
      std::set<std::string> want, got;
      for (auto &[l, px] : tgt) {
        Label q;
        if (!pat.Match(l)) continue;
        for (auto &d : px.second->deps) if (d != "a:b:c" && ParseLabel(d, l.proj, l.path, &q) && q != l) want.insert(l.Bant() + " " + q.Bant());
      }
      for (auto &row : Csv(out)) if (row.size() == 2 && row[0] != row[1]) got.insert(row[0] + " " + row[1]);
      // Packages of external projects are labelled by what they are called in the main one.
      for (auto &e : want) if (!got.count(e)) { c.Violate(c.prop, "other-dependency", r.cmdline + " does not list " + e + ": " + Clip(out, 300)); return; }
      c.Probe("dependencies_compared", want.size());
      continue;
    }
    std::vector<Edit> edits;
    std::string badline;
    if (!ParseScript(out, &edits, &badline)) { c.Violate(c.prop, "malformed", r.cmdline + " prints '" + badline + "'"); return; }
    if (r.code != (edits.empty() ? 0 : 3)) { c.Violate(c.prop, "exit", r.cmdline + " suggests " + std::to_string(edits.size()) + " edits and ends with status " + std::to_string(r.code) + " " + Clip(r.err, 200)); return; }
    std::map<std::pair<Label, std::string>, std::string> to;
    for (auto &e : edits) {
      auto it = tgt.find(e.target);
      if (it == tgt.end() || !pat.Match(e.target)) { c.Violate(c.prop, "wrong-target", r.cmdline + " suggests '" + e.text + "' for a target that is not asked for"); return; }
      auto &[p, x] = it->second;
      Label a, b;
      if (e.op != Edit::kReplace || std::find(x->deps.begin(), x->deps.end(), e.a) == x->deps.end()) { c.Violate(c.prop, "bad-edit", r.cmdline + " suggests '" + e.text + "' where the dependencies are " + Loop::Join(x->deps)); return; }
      if (e.a == e.b || !ParseLabel(e.a, p->proj, p->path, &a) || !ParseLabel(e.b, p->proj, p->path, &b) || a != b) { c.Violate(c.prop, "other-target", r.cmdline + " suggests '" + e.text + "', which is not the same"); return; }
      if (!to.insert({{e.target, e.a}, e.b}).second) { c.Violate(c.prop, "twice", r.cmdline + " suggests '" + e.text + "' twice"); return; }
    }
    for (auto &[l, px] : tgt) {
      if (!pat.Match(l)) continue;
      for (auto &d : px.second->deps) {
        Label q;
        if (d == "a:b:c" || !ParseLabel(d, l.proj, l.path, &q)) { if (to.count({l, d})) { c.Violate(c.prop, "bad-edit", r.cmdline + " makes " + to[{l, d}] + " out of " + d); return; } continue; }
        // The documented short forms.
        std::string best;
        if (q.proj == l.proj && q.path == l.path) best = ":" + q.name;
        else if (!q.path.empty()) best = q.proj + "//" + q.path + (last_of(q.path) == q.name ? "" : ":" + q.name);
        else best = !q.proj.empty() && q.name == q.proj.substr(1) ? q.proj : q.proj + "//:" + q.name;
        auto it = to.find({l, d});
        const std::string is = it == to.end() ? d : it->second;
        if (q.proj.empty() && !l.proj.empty()) best = "@" + best;
        if (is == best || (!l.proj.empty() && q.proj == l.proj && q.proj + is == best)) { c.Probe(it == to.end() ? "already_short" : "labels_renamed"); if (it != to.end()) c.nontrivial = true; continue; }
        c.Violate(c.prop, "not-canonical", r.cmdline + " leaves " + is + " for " + d + " in " + l.Full() + " " + Clip(r.err, 200));
        return;
      }
    }
  }
}
}  // namespace

void AddBantScenarios2(std::vector<PropScenario> *v) {
  v->push_back({"C16", C16, false, true});
  v->push_back({"C17", C17, false, true});
  v->push_back({"C18", C18, false, true});
  v->push_back({"C19", C19, false, true});
  v->push_back({"C24", C24, false, true});
  v->push_back({"C25", C25, false, true});
  v->push_back({"C26", C26, false, true});
}
