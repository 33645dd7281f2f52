// Simulated Bazel workspaces for the bant scenarios.
#pragma once
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "harness.h"

namespace bw {
using Strs = std::vector<std::string>;
using StrMap = std::map<std::string, std::string>;

// A label as our own model understands it.
struct Label {
  std::string proj, path, name;  // proj: "" or "@ext"
  auto operator<=>(const Label &) const = default;
  std::string Full() const { return proj + "//" + path + ":" + name; }
  std::string Bant() const;  // as bant prints it
};
bool ParseLabel(const std::string &s, const std::string &proj, const std::string &path, Label *out);

struct Tgt {
  std::string rule, name;
  Strs srcs, hdrs, deps;
  std::string actual;
  bool alwayslink = false, testonly = false, no_hdrs_attr = false;
  Strs outs, includes, visibility, textual, public_hdrs;
  std::string strip, incprefix, deprecation;
  std::set<std::string> keep;      // deps with a "# keep" comment
  Strs glob_hdrs, glob_srcs;       // glob patterns instead of / besides lists
  int style = 0;                   // how attributes are written down
};
struct Pkg {
  std::string proj, path;
  std::string file = "BUILD";      // or BUILD.bazel
  std::string prologue, epilogue;  // verbatim text
  Strs default_vis;
  std::vector<Tgt> t;
  std::string Text() const;
};
struct Ext {
  std::string name, version, dir;   // name: as referred to in labels
  bool in_module = true, archive = false;
  std::string module_name;          // if different from name
  // Other things in the directory of external projects: file, unreadable or other directory
  std::vector<std::pair<std::string, int>> decoys;
};

struct Gen {
  int max_pkgs = 5, max_tgts = 4;
  bool ext = true, globs = true, styles = true, alias = true, special = true;  // special: proto, genrule, tests
  bool odd = false;        // unusual statements, both BUILD files, symlinks in the tree
  bool links = true;       // symbolic links inside the workspace
  bool bad = false;        // unresolvable deps, missing sources
  bool alt = true;         // several libraries providing one header
  bool decoys = false;     // other things among the external projects
};

struct World {
  Ctx &c;
  sim::Draws &W;
  std::string root = "/w/proj";
  std::string ob = "/home/u/.cache/bazel/_bazel_u/0af9";  // output base
  std::vector<Pkg> pkgs;
  std::vector<Ext> exts;
  StrMap files;                                   // absolute path -> content
  std::vector<std::pair<std::string, std::string>> links;  // path -> target
  Strs dirs;                                      // further (empty) directories
  bool has_out = true, module = true, workspace = false;
  std::map<std::string, uint64_t> devs;           // directory -> device number
  explicit World(Ctx &ctx) : c(ctx), W(ctx.W) {}

  std::string ExtDir(const Ext &e) const { return ob + "/external/" + e.dir; }
  std::string PkgDir(const Pkg &p) const;         // absolute physical
  std::string BuildPath(const Pkg &p) const { return PkgDir(p) + "/" + p.file; }
  std::string ShownDir(const Pkg &p) const;       // relative, as bant names it from the root
  const Ext *FindExt(const std::string &proj) const;
  void Generate(const Gen &g);
  void Materialize();                             // write everything to a fresh file system
  void WriteBuild(const Pkg &p);
  std::string Describe() const;
};

struct Result {
  sim::Process *p = nullptr;
  std::string out, err, file;   // file: content of the -o file
  int code = -1;
  bool exited = false;
  std::string cmdline;
  size_t ev0 = 0, ev1 = 0;      // events of the run
};
struct RunOpt {
  std::string cwd;              // default: root
  int max_fds = 1024;
  bool home = true;
  std::string outfile;          // -o
};
Result RunBant(World &w, const Strs &args, const RunOpt &o = {});
sim::Process *StartBant(World &w, const Strs &args, const RunOpt &o = {});
Result Finish(World &w, sim::Process *p, const Strs &args, const RunOpt &o = {});
std::string Show(const Strs &args);

struct Cmd { Strs args; std::string name; bool recursive = false; };
struct CmdGen { bool print = true, edits = true, tools = true, facts = true; bool formats = true, ext = true; };
Cmd GenCmd(World &w, const CmdGen &g);
std::string GenPattern(World &w, bool ext);
Strs SplitLines(const std::string &s);
// bant.cc
void Serial();
void Calm();
bool Over(Ctx &c);
std::string DiffLines(const std::string &a, const std::string &b);
bool SameResult(Ctx &c, const Result &ref, const Result &r, const std::string &cls, const std::string &what);
bool IsMain(const sim::Event &e);
}  // namespace bw
