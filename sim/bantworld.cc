#include "bantworld.h"

#include <string.h>

#include <algorithm>

using namespace sim;
namespace bw {

Strs SplitLines(const std::string &c) {
  Strs r;
  size_t i = 0;
  while (i < c.size()) {
    size_t e = c.find('\n', i);
    if (e == std::string::npos) e = c.size();
    r.push_back(c.substr(i, e - i));
    i = e + 1;
  }
  return r;
}
std::string Label::Bant() const {
  std::string last = path.empty() ? (proj.empty() ? "" : proj.substr(1)) : path.substr(path.rfind('/') + 1);
  if (!last.empty() && last == name) return path.empty() ? proj : proj + "//" + path;
  return proj + "//" + path + ":" + name;
}
// Bazel's label syntax, as far as the generator uses it.
bool ParseLabel(const std::string &s, const std::string &proj, const std::string &path, Label *out) {
  std::string l = s;
  out->proj = proj;
  out->path = path;
  if (l.empty()) return false;
  if (l[0] == ':') { out->name = l.substr(1); return !out->name.empty(); }
  if (l[0] == '@') {
    size_t e = l.find("//");
    if (e == std::string::npos) { out->proj = l; out->path = ""; out->name = l.substr(1); return l.size() > 1; }
    out->proj = l.substr(0, e);
    if (out->proj == "@") out->proj = "";
    l = l.substr(e);
  }
  if (l.rfind("//", 0) != 0) { out->name = l; return true; }
  l = l.substr(2);
  size_t col = l.find(':');
  if (col == std::string::npos) {
    out->path = l;
    out->name = l.substr(l.rfind('/') == std::string::npos ? 0 : l.rfind('/') + 1);
  } else {
    out->path = l.substr(0, col);
    out->name = l.substr(col + 1);
  }
  return !out->name.empty();
}

// ------------------------------------------------------------------- text
static std::string Q(const std::string &s) { return "\"" + s + "\""; }
static std::string ListText(const Strs &l, const std::set<std::string> *keep = nullptr, const std::string &ind = "    ") {
  if (l.empty()) return "[]";
  if (l.size() == 1 && !(keep && keep->count(l[0]))) return "[" + Q(l[0]) + "]";
  std::string r = "[\n";
  for (auto &e : l) r += ind + "    " + Q(e) + "," + (keep && keep->count(e) ? "  # keep" : "") + "\n";
  return r + ind + "]";
}
static std::string Attr(const std::string &n, const std::string &v) { return "    " + n + " = " + v + ",\n"; }
std::string Pkg::Text() const {
  std::string r;
  r += prologue;
  if (!default_vis.empty()) r += "package(default_visibility = " + ListText(default_vis) + ")\n\n";
  int serial = 0;
  for (auto &x : t) {
    std::string pre;
    auto list = [&](const char *attr, const Strs &l, const Strs &globs, const std::set<std::string> *keep) -> std::string {
      std::string base;
      const int st = globs.empty() ? x.style : 0;
      if (st == 1 && l.size() >= 2) {  // concatenation
        base = ListText(Strs(l.begin(), l.begin() + 1), keep) + " + " + ListText(Strs(l.begin() + 1, l.end()), keep);
      } else if (st == 2 && !l.empty()) {  // variable
        const std::string v = "_VAR_" + std::to_string(serial++) + "_" + attr;
        pre += v + " = " + ListText(l, keep, "") + "\n\n";
        base = v;
      } else if (st == 3 && !l.empty()) {  // select
        base = "select({\n        \"//config:never\": [\"nope\"],\n        \"//conditions:default\": " + ListText(l, keep, "        ") + ",\n    })";
      } else if (st == 4 && l.size() >= 2) {
        base = ListText(Strs(l.begin(), l.begin() + 1), keep) + " + select({\"//conditions:default\": " +
               ListText(Strs(l.begin() + 1, l.end()), keep) + "})";
      } else {
        base = ListText(l, keep);
      }
      if (!globs.empty()) base = (l.empty() ? "" : base + " + ") + "glob(" + ListText(globs) + ")";
      return base;
    };
    std::string b = x.rule + "(\n";
    b += Attr("name", Q(x.name));
    if (!x.srcs.empty() || !x.glob_srcs.empty()) b += Attr("srcs", list("SRCS", x.srcs, x.glob_srcs, nullptr));
    if (!x.hdrs.empty() || !x.glob_hdrs.empty()) b += Attr("hdrs", list("HDRS", x.hdrs, x.glob_hdrs, nullptr));
    if (!x.textual.empty()) b += Attr("textual_hdrs", ListText(x.textual));
    if (!x.public_hdrs.empty()) b += Attr("public_hdrs", ListText(x.public_hdrs));
    if (!x.outs.empty()) b += Attr("outs", ListText(x.outs)) + Attr("cmd", "\"gen > $@\"");
    if (!x.includes.empty()) b += Attr("includes", ListText(x.includes));
    if (!x.strip.empty()) b += Attr("strip_include_prefix", Q(x.strip));
    if (!x.incprefix.empty()) b += Attr("include_prefix", Q(x.incprefix));
    if (x.alwayslink) b += Attr("alwayslink", x.style & 1 ? "1" : "True");
    if (x.testonly) b += Attr("testonly", x.style & 1 ? "1" : "True");
    if (!x.visibility.empty()) b += Attr("visibility", ListText(x.visibility));
    if (!x.deprecation.empty()) b += Attr("deprecation", Q(x.deprecation));
    if (!x.actual.empty()) b += Attr("actual", Q(x.actual));
    if (!x.deps.empty()) b += Attr("deps", list("DEPS", x.deps, {}, &x.keep));
    b += ")\n\n";
    r += pre + b;
  }
  return r + epilogue;
}

// ------------------------------------------------------------------- world
const Ext *World::FindExt(const std::string &proj) const {
  for (auto &e : exts) if ("@" + e.name == proj) return &e;
  return nullptr;
}
std::string World::PkgDir(const Pkg &p) const {
  std::string d = root;
  if (!p.proj.empty()) d = ExtDir(*FindExt(p.proj));
  return p.path.empty() ? d : d + "/" + p.path;
}
std::string World::ShownDir(const Pkg &p) const {
  std::string d;
  if (!p.proj.empty()) d = "bazel-out/../../../external/" + FindExt(p.proj)->dir;
  if (!p.path.empty()) d += (d.empty() ? "" : "/") + p.path;
  return d;
}
void World::WriteBuild(const Pkg &p) { S->fs.WriteFile(BuildPath(p), p.Text()); }

void World::Materialize() {
  S->fs.Remove(root);
  S->fs.Remove(ob);
  S->fs.MkdirP(root);
  S->fs.MkdirP("/tmp");
  S->fs.MkdirP("/home/u");
  for (auto &[d, dev] : devs) {
    InodeP n = S->fs.MkdirP(d);
    n->dev = dev;
    n->dev_ino = ++S->fs.dev_next[dev];
  }
  std::string mod, ws;
  mod = "module(name = \"proj\", version = \"1.0\")\n\n";
  for (auto &e : exts) {
    if (!e.in_module) continue;
    if (e.archive && workspace) ws += "http_archive(\n    name = \"" + e.name + "\",\n    urls = [\"https://x/y.tar.gz\"],\n)\n\n";
    else if (e.module_name.empty()) mod += "bazel_dep(name = \"" + e.name + "\", version = \"" + e.version + "\")\n";
    else mod += "bazel_dep(name = \"" + e.module_name + "\", version = \"" + e.version + "\", repo_name = \"" + e.name + "\")\n";
  }
  if (module) S->fs.WriteFile(root + "/MODULE.bazel", mod);
  if (workspace) S->fs.WriteFile(root + "/WORKSPACE", "# workspace\n" + ws);
  if (has_out) {
    const std::string ex = ob + "/execroot/_main";
    S->fs.MkdirP(ex + "/bazel-out/k8-fastbuild/bin");
    S->fs.MkdirP(ex + "/bazel-out/k8-fastbuild/testlogs");
    S->fs.MkdirP(ob + "/external");
    S->fs.Symlink(ex + "/bazel-out", root + "/bazel-out");
    S->fs.Symlink(ex + "/bazel-out/k8-fastbuild/bin", root + "/bazel-bin");
    S->fs.Symlink(ex, root + "/bazel-proj");
    S->fs.Symlink(ob + "/external", ex + "/external");
    for (auto &e : exts) {
      S->fs.MkdirP(ExtDir(e));
      for (auto &[n, kind] : e.decoys) {
        const std::string d = ob + "/external/" + n;
        if (kind == 0) { S->fs.WriteFile(d, "no directory"); continue; }
        S->fs.WriteFile(d + "/BUILD", "cc_library(name = \"wrong\")\n");
        if (kind == 1) S->fs.Lookup(d)->mode = 0;
      }
    }
  }
  for (auto &d : dirs) S->fs.MkdirP(d);
  for (auto &[p, d] : files) S->fs.WriteFile(p, d);
  for (auto &p : pkgs) WriteBuild(p);
  for (auto &[p, t] : links) if (!S->fs.Lookup(p, false)) S->fs.Symlink(t, p);
}

static const char *const kPaths[] = {"", "a", "lib", "a/b", "lib/util", "tool", "x", "a/b/c/d", "lib2"};
static const char *const kNames[] = {"foo", "bar", "util", "core", "api"};

void World::Generate(const Gen &g) {
  if (W.Chance(15)) root = "/w/my.proj-1";
  workspace = W.Chance(25);
  has_out = g.ext ? !W.Chance(10) : W.Chance(60);
  if (g.ext && has_out) {
    const int n = W.Below(3);
    static const char *const en[] = {"ext", "dep_two"};
    for (int i = 0; i < n; ++i) {
      Ext e;
      e.name = en[i];
      e.version = i ? "2.1" : "1.0.3";
      static const char *const suf[] = {"~1.0.3", "", "~override", "~9.9"};
      const int k = W.Below(4);
      e.dir = e.name + (k == 0 ? "~" + e.version : suf[k]);
      e.in_module = !W.Chance(20);
      e.archive = W.Chance(30);
      if (g.decoys && !e.archive && W.Chance(40)) {  // where to find it is not that obvious
        std::string m = e.name;
        if (e.in_module && W.Chance(40)) { e.module_name = m = e.name + "_mod"; e.dir = m + e.dir.substr(e.name.size()); }
        static const char *const cand[] = {"~v", "", "~override"};
        const int mine = k;   // k == 3: some other version
        for (int j = 0; j < 3; ++j) {
          if (j == mine || W.Chance(50)) continue;
          const std::string n = m + (j == 0 ? "~" + e.version : cand[j]);
          if (j > mine) e.decoys.push_back({n, e.in_module ? 2 * (int)W.Below(2) : 0});
          else if (k != 3 || j == 1) e.decoys.push_back({n, e.in_module ? (int)W.Below(2) : 0});
        }
        if (W.Chance(50)) e.decoys.push_back({"@" + e.dir + ".marker", 0});
        if (W.Chance(50)) e.decoys.push_back({m + "2~" + e.version, 2});
        if (W.Chance(30)) e.decoys.push_back({m + "_extra", 2});
      }
      exts.push_back(e);
    }
  }
  // Packages.
  const int np = 1 + W.Below(g.max_pkgs);
  std::set<std::string> have;
  auto add_pkg = [&](const std::string &proj, const std::string &path) {
    if (!have.insert(proj + "//" + path).second) return;
    Pkg p;
    p.proj = proj;
    p.path = path;
    if (W.Chance(25)) p.file = "BUILD.bazel";
    if (W.Chance(25)) p.default_vis = {W.Chance(70) ? "//visibility:public" : "//visibility:private"};
    if (W.Chance(30)) p.prologue = "load(\"@rules_cc//cc:defs.bzl\", \"cc_library\")\n\n";
    pkgs.push_back(p);
  };
  for (int i = 0; i < np; ++i) add_pkg("", kPaths[i == 0 ? W.Below(2) : W.Below(9)]);
  for (auto &e : exts) {
    add_pkg("@" + e.name, W.Chance(60) ? "" : "sub");
    if (W.Chance(30)) add_pkg("@" + e.name, "sub/deep");
  }
  // Libraries first, so that the rest can refer to them.
  struct Hdr { std::string inc; Label lib; };
  std::vector<Hdr> hdrs;
  std::vector<Label> libs;
  for (auto &p : pkgs) {
    const int nt = 1 + W.Below(g.max_tgts);
    std::set<std::string> names;
    const std::string dir = PkgDir(p);
    auto qual = [&](const std::string &f) { return p.path.empty() ? f : p.path + "/" + f; };
    for (int i = 0; i < nt; ++i) {
      Tgt x;
      std::string last = p.path.empty() ? (p.proj.empty() ? "main" : p.proj.substr(1)) : p.path.substr(p.path.rfind('/') + 1);
      x.name = i == 0 && W.Chance(40) ? last : kNames[W.Below(5)];
      if (!names.insert(x.name).second) continue;
      if (g.styles && W.Chance(30)) x.style = 1 + W.Below(4);
      const uint32_t kind = W.Below(g.special ? 12 : g.alias ? 9 : 8);
      const std::string h = x.name + ".h", cc = x.name + ".cc";
      const Label self{p.proj, p.path, x.name};
      if (kind <= 7) {
        x.rule = "cc_library";
        x.hdrs = {h};
        if (W.Chance(60)) x.srcs = {cc};
        if (W.Chance(15)) { x.hdrs.push_back(x.name + "_extra.h"); }
        if (g.globs && W.Chance(15)) { x.hdrs.clear(); x.glob_hdrs = {W.Chance(50) ? x.name + "*.h" : "**/" + x.name + "*.h"}; }
        if (W.Chance(8)) x.hdrs.clear(), x.glob_hdrs.clear();
        if (W.Chance(8)) x.alwayslink = true;
        if (W.Chance(6)) x.testonly = true;
        if (W.Chance(8)) x.visibility = {W.Chance(50) ? "//visibility:private" : "//a:__subpackages__"};
        if (!x.visibility.empty() && W.Chance(40)) {
          static const char *const vis[] = {"//a:__pkg__", "//visibility:public", "//lib:__subpackages__", "//:__subpackages__", "//:__pkg__", "//a/...", ":__pkg__"};
          if (W.Chance(50)) x.visibility.push_back(vis[W.Below(7)]); else x.visibility = {vis[W.Below(7)]};
        }
        if (g.odd && W.Chance(10)) x.includes = {"include"};
        if (g.odd && W.Chance(10) && !p.path.empty()) x.strip = p.path;
        if (g.odd && W.Chance(8)) x.incprefix = "pre/fix";
        std::string content = "#pragma once\n";
        files[dir + "/" + h] = content;
        if (x.hdrs.size() > 1 || !x.glob_hdrs.empty()) files[dir + "/" + x.name + "_extra.h"] = content;
        for (auto &hh : x.hdrs) hdrs.push_back({qual(hh), self});
        if (!x.glob_hdrs.empty()) hdrs.push_back({qual(h), self});
        if (g.alt && i && W.Chance(10) && !p.t.empty() && p.t[0].rule == "cc_library" && !p.t[0].hdrs.empty()) {
          x.hdrs.push_back(p.t[0].hdrs[0]);
          hdrs.push_back({qual(p.t[0].hdrs[0]), self});
        }
        libs.push_back(self);
      } else if (kind == 8) {
        x.rule = "alias";
        x.actual = ":" + x.name + "_impl";
        if (!libs.empty()) {
          const Label &l = libs[W.Below(libs.size())];
          if (l.proj == p.proj || p.proj.empty()) {
            x.actual = l.proj == p.proj && l.path == p.path ? ":" + l.name : (l.proj == p.proj ? "" : l.proj) + "//" + l.path + ":" + l.name;
            if (W.Chance(15)) x.deprecation = "do not use";
          }
        }
        libs.push_back(self);
      } else if (kind == 9) {
        x.rule = "genrule";
        x.outs = {x.name + "_gen.h"};
        hdrs.push_back({qual(x.name + "_gen.h"), self});
      } else if (kind == 10) {
        Tgt y;
        y.rule = "proto_library";
        y.name = x.name + "_proto";
        y.srcs = {x.name + ".proto"};
        p.t.push_back(y);
        x.rule = "cc_proto_library";
        x.deps = {":" + y.name};
        hdrs.push_back({qual(x.name + ".pb.h"), self});
        libs.push_back(self);
      } else {
        x.rule = "filegroup";
        x.srcs = {"data.txt"};
      }
      p.t.push_back(x);
    }
    // Things which are built from libraries.
    if (W.Chance(50)) {
      Tgt x;
      x.rule = W.Chance(50) ? "cc_binary" : "cc_test";
      x.name = x.rule == "cc_binary" ? "prog" : "prog_test";
      x.srcs = {x.name + ".cc"};
      if (g.globs && W.Chance(15)) { x.glob_srcs = {x.name + "*.cc"}; x.srcs.clear(); }
      p.t.push_back(x);
    }
  }
  // Dependencies and sources.
  for (auto &p : pkgs) {
    const std::string dir = PkgDir(p);
    for (auto &x : p.t) {
      if (x.rule != "cc_library" && x.rule != "cc_binary" && x.rule != "cc_test") continue;
      auto spell = [&](const Label &l) -> std::string {
        if (l.proj == p.proj && l.path == p.path)
          return W.Chance(70) ? ":" + l.name : W.Chance(50) ? l.name : "//" + l.path + ":" + l.name;
        std::string pre = l.proj == p.proj ? (l.proj.empty() && W.Chance(5) ? "@" : "") : l.proj;
        std::string last = l.path.substr(l.path.rfind('/') == std::string::npos ? 0 : l.path.rfind('/') + 1);
        if (!l.path.empty() && last == l.name && W.Chance(60)) return pre + "//" + l.path;
        if (l.path.empty() && !l.proj.empty() && pre == l.proj && l.name == l.proj.substr(1) && W.Chance(50)) return l.proj;
        return pre + "//" + l.path + ":" + l.name;
      };
      auto usable = [&](const Label &l) { return p.proj.empty() || l.proj == p.proj; };
      const int nd = W.Below(4);
      std::set<Label> seen;
      for (int i = 0; i < nd && !libs.empty(); ++i) {
        const Label &l = libs[W.Below(libs.size())];
        if (!usable(l) || l == Label{p.proj, p.path, x.name} || !seen.insert(l).second) continue;
        x.deps.push_back(spell(l));
        if (W.Chance(8)) x.keep.insert(x.deps.back());
      }
      if (g.bad && W.Chance(20)) {
        static const char *const bad[] = {"//no/such:thing", "@nowhere//:x", ":missing", "//a:b:c", "//lib", "@ext//none:x"};
        x.deps.push_back(bad[W.Below(6)]);
      }
      Strs all = x.srcs;
      for (auto &h : x.hdrs) all.push_back(h);
      if (!x.glob_srcs.empty()) all.push_back(x.name + ".cc");
      for (auto &s : all) {
        std::string content = "// " + s + "\n";
        if (s.size() > 3 && s.substr(s.size() - 3) == ".cc" && !x.hdrs.empty())
          content += "#include \"" + (p.path.empty() ? "" : p.path + "/") + x.hdrs[0] + "\"\n";
        content += "#include <vector>\n";
        const int ni = W.Below(4);
        for (int i = 0; i < ni && !hdrs.empty(); ++i) {
          const Hdr &h = hdrs[W.Below(hdrs.size())];
          if (!usable(h.lib)) continue;
          switch (W.Below(12)) {
            case 10: content += "#include \"" + h.inc.substr(h.inc.rfind('/') == std::string::npos ? 0 : h.inc.rfind('/') + 1) + "\"\n"; break;
            case 11: content += "//#include \"" + h.inc + "\"\n"; break;
            default: content += "#include \"" + h.inc + "\"\n"; break;
          }
        }
        if (g.bad && W.Chance(10)) content += "#include \"no/such/header.h\"\n";
        if (g.bad && W.Chance(10)) { files.erase(dir + "/" + s); continue; }
        if (W.Chance(50)) content += "int x() { return 1; }\n";
        files[dir + "/" + s] = content;
      }
    }
  }
  // Sources that a rule generates; it may not have run so far.
  if (g.special)
    for (auto &p : pkgs) {
      if (!p.proj.empty() || !W.Chance(25)) continue;
      std::vector<Tgt *> l;
      for (auto &x : p.t) if ((x.rule == "cc_library" || x.rule == "cc_binary" || x.rule == "cc_test") && x.glob_srcs.empty()) l.push_back(&x);
      if (l.empty()) continue;
      Tgt *to = l[W.Below(l.size())];
      const std::string f = "made_" + to->name + ".cc", q = p.path.empty() ? f : p.path + "/" + f;
      to->srcs.push_back(f);
      Tgt y;
      y.rule = "genrule";
      y.name = "make_" + to->name;
      y.outs = {f};
      std::string content = "// made\n";
      for (int i = W.Below(3); i > 0 && !hdrs.empty(); --i) {
        const Hdr &h = hdrs[W.Below(hdrs.size())];
        if (h.lib.proj.empty()) content += "#include \"" + h.inc + "\"\n";
      }
      if (has_out && W.Chance(40)) files[ob + "/execroot/_main/bazel-out/k8-fastbuild/bin/" + q] = content;
      p.t.push_back(y);
    }
  if (W.Chance(20)) files[root + "/.bazelrc"] = "build --cxxopt=-std=c++20\nbuild:asan --copt -g\nbuild --cxxopt=-Wall --define absl=1\n";
  if (g.links && W.Chance(25)) {
    static const char *const tg[] = {"/w", ".", "a", "..", "nowhere", "lib", "self", "a/b"};
    static const char *const at[] = {"0", "zz", "a/link", "lib/up", "self", "m"};
    const int n = 1 + W.Below(3);
    for (int i = 0; i < n; ++i) {
      const std::string l = at[W.Below(6)];
      std::string t = tg[W.Below(8)];
      const std::string parent = l.find('/') == std::string::npos ? root : root + "/" + l.substr(0, l.find('/'));
      bool exists = parent == root;
      for (auto &p : pkgs) if (p.proj.empty() && root + "/" + p.path == parent) exists = true;
      if (!exists) continue;
      bool taken = false;
      for (auto &p : pkgs) if (p.proj.empty() && (p.path == l || p.path.rfind(l + "/", 0) == 0)) taken = true;
      for (auto &[q, _] : links) if (q == root + "/" + l) taken = true;
      if (taken) continue;
      if (t == "/w") t = "/w";
      links.emplace_back(root + "/" + l, t);
    }
  }
  // The reason for BUILD.bazel: a directory that is called BUILD.
  for (auto &p : pkgs) if (p.file == "BUILD.bazel" && W.Chance(25)) dirs.push_back(PkgDir(p) + "/BUILD");
  if (W.Chance(20)) dirs.push_back(root + "/empty/dir");
  if (W.Chance(20)) files[root + "/_tmp/x/BUILD"] = "cc_library(name = \"hidden\")\n";
  if (W.Chance(10)) files[root + "/.git/BUILD"] = "cc_library(name = \"hidden\")\n";
  if (g.odd) {
    static const char *const odd[] = {
      "[cc_test(name = \"gen_%s\" % n, srcs = [n + \".cc\"]) for n in [\"p\", \"q\"]]\n",
      "exports_files([\"x.txt\"])\n", "(A, B) = (1, 2)\n", "foo.bar(name = \"method\")\n", "X = {\"a\": 1, \"b\": [1, 2][0]}\n",
      "\"\"\"doc string\nwith # comment\n\"\"\"\n", "Y = \"a\" if True else \"b\"\n", "Z = not -5\n", "cc_library(name = NAME_UNDEFINED)\n",
      "cc_library(\n    name = \"lc\",\n    srcs = [\"%s.cc\" % x for x in [\"a\"]],\n)\n", "N = 2000000\n",
    };
    for (auto &p : pkgs) if (W.Chance(30)) (W.Chance(50) ? p.prologue : p.epilogue) += odd[W.Below(11)];
    if (W.Chance(10) && !pkgs.empty()) {  // both names in one package
      const Pkg &p = pkgs[W.Below(pkgs.size())];
      files[PkgDir(p) + "/" + (p.file == "BUILD" ? "BUILD.bazel" : "BUILD")] = "cc_library(name = \"twin\", hdrs = [\"twin.h\"])\n";
    }
    if (W.Chance(10)) devs[root + "/lib"] = 7;
  }
  // Files that are larger than a page or two.
  if (W.Chance(15)) {
    auto filler = [&](const char *cmt) {
      static const size_t size[] = {4200, 9000, 9000, 40000};
      const size_t n = size[W.Below(4)] + W.Below(500);
      std::string f;
      while (f.size() < n) f += std::string(cmt) + " Nothing of interest can be found in this line of filler text.\n";
      return f;
    };
    for (auto &p : pkgs) if (W.Chance(25)) p.prologue = filler("#") + p.prologue;
    int left = 4;
    for (auto &[f, d] : files) {
      if (left == 0 || !W.Chance(20)) continue;
      --left;
      const bool cpp = f.ends_with(".cc") || f.ends_with(".h");
      d = W.Chance(60) ? filler(cpp ? "//" : "#") + d : d + filler(cpp ? "//" : "#");
    }
  }
  if (c.sample.empty()) c.sample = Describe();
  c.state_hash = HashStr(Describe());
}
std::string World::Describe() const {
  std::string s = "root " + root + (workspace ? " ws" : "") + (has_out ? "" : " no-bazel-out");
  for (auto &p : pkgs) {
    s += " | " + p.proj + "//" + p.path + "/" + p.file + ":";
    for (auto &x : p.t) {
      s += " " + x.rule + "(" + x.name;
      for (auto &h : x.hdrs) s += " " + h;
      for (auto &h : x.glob_hdrs) s += " glob:" + h;
      if (!x.actual.empty()) s += " actual=" + x.actual;
      if (!x.deps.empty()) { s += " deps="; for (auto &d : x.deps) s += d + ","; }
      if (x.alwayslink) s += " alwayslink";
      s += ")";
    }
  }
  for (auto &[l, t] : links) s += " | " + l + "->" + t;
  return Clip(s, 1800);
}

// ------------------------------------------------------------------- commands
std::string Show(const Strs &args) {
  std::string s = "bant";
  for (auto &a : args) s += " " + a;
  return s;
}
std::string GenPattern(World &w, bool ext) {
  Draws &W = w.W;
  Strs paths;
  for (auto &p : w.pkgs) if (p.proj.empty()) paths.push_back(p.path);
  const std::string pp = paths.empty() ? "a" : paths[W.Below(paths.size())];
  switch (W.Below(ext && !w.exts.empty() ? 12 : 10)) {
    case 0: case 1: case 2: return "//...";
    case 3: return pp.empty() ? "//..." : "//" + pp + "/...";
    case 4: return "//" + pp + ":all";
    case 5: case 6: {
      Strs t;
      for (auto &p : w.pkgs) if (p.proj.empty()) for (auto &x : p.t) t.push_back("//" + p.path + ":" + x.name);
      return t.empty() ? "//a:a" : t[W.Below(t.size())];
    }
    case 7: return "//" + pp + ":*" + std::string(1, "aorl"[W.Below(4)]) + "*";
    case 8: return "...";
    case 9: return "//no/such/...";
    case 10: return "@" + w.exts[W.Below(w.exts.size())].name + "//...";
    default: return "@" + w.exts[W.Below(w.exts.size())].name + "//:all";
  }
}
Cmd GenCmd(World &w, const CmdGen &g) {
  Draws &W = w.W;
  Cmd c;
  Strs names;
  if (g.facts) for (const char *n : {"list-packages", "list-targets", "depends-on", "lib-headers", "has-dependents", "aliased-by", "genrule-outputs", "workspace"}) names.push_back(n);
  if (g.print) for (const char *n : {"print", "parse"}) names.push_back(n);
  if (g.edits) for (const char *n : {"dwyu", "dwyu", "canonicalize"}) names.push_back(n);
  if (g.tools) for (const char *n : {"compilation-db", "compile-flags"}) names.push_back(n);
  c.name = names[W.Below(names.size())];
  const bool need = c.name == "dwyu" || c.name == "canonicalize" || c.name == "print";
  std::string pat = need || !W.Chance(30) ? GenPattern(w, g.ext) : "";
  if (W.Chance(30)) {
    static const char *const r[] = {"-r", "-r1", "-r2", "-r0", "-r5"};
    c.args.push_back(r[W.Below(5)]);
    c.recursive = c.args.back() != "-r0";
  }
  if (c.name == "print" && W.Chance(40)) c.args.push_back("-e");
  if (c.name == "print" && W.Chance(15)) { c.args.push_back("-g"); c.args.push_back(W.Chance(50) ? "foo" : "lib.*h"); }
  if (c.name == "parse" && W.Chance(40)) c.args.push_back("-p");
  if (c.name == "dwyu" && W.Chance(30)) c.args.push_back("-k");
  if (g.formats && W.Chance(30)) {
    static const char *const f[] = {"json", "csv", "s-expr", "plist", "graphviz", "native"};
    c.args.push_back("-f");
    c.args.push_back(f[W.Below(6)]);
  }
  if (W.Chance(15)) c.args.push_back("-v");
  if (W.Chance(10)) c.args.push_back("-q");
  if (c.name != "print" && W.Chance(5)) c.args.push_back("-e");
  c.args.push_back(c.name);
  if (!pat.empty()) c.args.push_back(pat);
  return c;
}

// ------------------------------------------------------------------- running
Process *StartBant(World &w, const Strs &args, const RunOpt &o) {
  SpawnArgs a;
  a.argv = {"bant"};
  if (!o.outfile.empty()) { a.argv.push_back("-o"); a.argv.push_back(o.outfile); }
  for (auto &x : args) a.argv.push_back(x);
  a.env = {{"PATH", "/usr/bin"}};
  if (o.home) a.env["HOME"] = "/home/u";
  a.cwd = o.cwd.empty() ? w.root : o.cwd;
  a.max_fds = o.max_fds;
  return Spawn(g_bant, a);
}
Result Finish(World &w, Process *p, const Strs &args, const RunOpt &o) {
  Result r;
  r.p = p;
  r.out = p->out;
  r.err = p->err;
  r.exited = p->state == Process::kExited;
  r.code = p->exit_code;
  r.cmdline = Show(args);
  r.ev1 = S->events.size();
  if (!o.outfile.empty()) {
    std::string f = o.outfile[0] == '/' ? o.outfile : (o.cwd.empty() ? w.root : o.cwd) + "/" + o.outfile;
    S->fs.ReadFile(f, &r.file);
  }
  return r;
}
Result RunBant(World &w, const Strs &args, const RunOpt &o) {
  const size_t e0 = S->events.size();
  Process *p = StartBant(w, args, o);
  const bool ok = RunUntilDone({p});
  Result r = Finish(w, p, args, o);
  r.ev0 = e0;
  if (!ok || !r.exited) {
    Ctx &c = w.c;
    if (S->res.deadlock) c.Violate(c.prop, "deadlock", r.cmdline + ": " + S->res.deadlock_text);
    else if (p->Done() && p->state != Process::kKilled) c.Violate(c.prop, "crash", r.cmdline + " ended abnormally: " + p->death + " " + Clip(p->err, 300));
  }
  S->now_ns += 1'000'000'000;
  return r;
}
}  // namespace bw
