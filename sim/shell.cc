#include "shell.h"

#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;
ShellModel g_sh;

int ShIo::Write(const std::string &s) {
  if (out_null) return 0;
  if (out_fd < 0) {
    if (capture) *capture += s;
    else tl_cur->proc->out += s;
    return 0;
  }
  size_t done = 0;
  while (done < s.size()) {
    const ssize_t r = ::write(out_fd, s.data() + done, s.size() - done);
    if (r < 0) return errno;
    done += r;
  }
  return 0;
}

namespace {
struct Tok { std::string s; bool op = false; };
bool Lex(const std::string &c, std::vector<Tok> *out) {
  size_t i = 0;
  std::string w;
  bool have = false;
  auto flush = [&] { if (have) out->push_back({w, false}); w.clear(); have = false; };
  while (i < c.size()) {
    const char ch = c[i];
    if (ch == ' ' || ch == '\t' || ch == '\n') { flush(); ++i; continue; }
    if (ch == '\'') {
      size_t e = c.find('\'', i + 1);
      if (e == std::string::npos) return false;
      w += c.substr(i + 1, e - i - 1); have = true; i = e + 1; continue;
    }
    if (ch == '"') {
      ++i; have = true;
      while (i < c.size() && c[i] != '"') { if (c[i] == '\\' && i + 1 < c.size()) ++i; w += c[i++]; }
      if (i >= c.size()) return false;
      ++i; continue;
    }
    if (ch == '\\' && i + 1 < c.size()) { w += c[i + 1]; have = true; i += 2; continue; }
    if (ch == '>' || ch == '<') {
      std::string op;
      if (have && w.find_first_not_of("0123456789") == std::string::npos) { op = w; w.clear(); have = false; }
      else flush();
      op += ch; ++i;
      if (i < c.size() && (c[i] == '>' || c[i] == '|')) { if (c[i] == '>') op += '>'; ++i; }
      if (i < c.size() && c[i] == '&') { op += '&'; ++i; }
      out->push_back({op, true});
      continue;
    }
    if (ch == ';' || ch == '&' || ch == '|' || ch == '(' || ch == ')' || ch == '{' || ch == '}') {
      if ((ch == '{' || ch == '}') && have) { w += ch; ++i; continue; }
      flush();
      std::string op(1, ch); ++i;
      if (i < c.size() && c[i] == ch && (ch == '&' || ch == '|')) { op += ch; ++i; }
      out->push_back({op, true});
      continue;
    }
    w += ch; have = true; ++i;
  }
  flush();
  return true;
}

struct Sh {
  std::vector<Tok> t;
  size_t p = 0;
  std::string *capture;
  bool done = false;
  int last = 0;
  std::map<std::string, std::string> vars;

  bool IsOp(const char *s) { return p < t.size() && t[p].op && t[p].s == s; }
  int List(ShIo io, bool exec) {
    int rc = Pipe(io, exec);
    while (p < t.size() && !done) {
      if (IsOp(";")) { ++p; if (p >= t.size() || IsOp(")") || IsOp("}")) break; rc = Pipe(io, exec); }
      else if (IsOp("&&")) { ++p; const int r = Pipe(io, exec && rc == 0); if (rc == 0) rc = r; }
      else if (IsOp("||")) { ++p; const int r = Pipe(io, exec && rc != 0); if (rc != 0) rc = r; }
      else break;
      last = rc;
    }
    return rc;
  }
  int Pipe(ShIo io, bool exec) {
    bool neg = false;
    if (p < t.size() && !t[p].op && t[p].s == "!") { neg = true; ++p; }
    int rc;
    for (;;) {  // the status is that of the last command
      const size_t start = p;
      Cmd(io, false);
      const bool piped = IsOp("|");
      p = start;
      if (!piped) { rc = Cmd(io, exec); break; }
      std::string between;
      ShIo left = io;
      left.capture = &between;
      left.out_fd = -1;
      left.out_null = false;
      Cmd(left, exec);
      ++p;
      io.in = between;
    }
    if (!exec) return rc;
    return neg ? !rc : rc;
  }
  int Cmd(ShIo io, bool exec) {
    std::vector<std::string> argv;
    int opened = -1, rc = 0;
    bool group = false;
    if (IsOp("(") || IsOp("{")) {
      ++p;
      rc = List(io, exec);
      if (IsOp(")") || IsOp("}")) ++p;
      group = true;
    }
    bool redir_failed = false;
    while (p < t.size()) {
      if (!t[p].op) {
        // leading assignments
        const std::string &w = t[p].s;
        size_t eq = w.find('=');
        if (argv.empty() && eq != std::string::npos && eq > 0 && w.find('/') > eq) { ++p; continue; }
        std::string v = w;
        if (v == "$?") v = std::to_string(last);
        argv.push_back(v);
        ++p;
        continue;
      }
      std::string op = t[p].s;
      if (op.find('>') == std::string::npos && op.find('<') == std::string::npos) break;
      ++p;
      if (p >= t.size() || t[p].op) break;
      const std::string target = t[p].s;
      ++p;
      if (!exec || redir_failed) continue;
      int fd = op[0] == '2' ? 2 : op[0] == '<' || op[0] == '0' ? 0 : 1;
      if (op[0] == '&') fd = 1;
      if (fd == 0) continue;
      if (op.size() && op.back() == '&') { if (fd == 2) io.err_null = io.out_null; continue; }
      if (fd == 2) { io.err_null = true; continue; }
      if (target == "/dev/null") { io.out_null = true; continue; }
      const bool app = op.find(">>") != std::string::npos;
      int f = ::open(target.c_str(), O_WRONLY | O_CREAT | (app ? O_APPEND : O_TRUNC), 0666);
      if (f < 0) { redir_failed = true; rc = 2; continue; }
      if (opened >= 0) ::close(opened);
      opened = f;
      io.out_fd = f;
      io.out_null = false;
    }
    if (!exec) return 0;
    if (redir_failed) { if (opened >= 0) ::close(opened); return 2; }
    if (group) return rc;
    if (argv.empty()) { if (opened >= 0) ::close(opened); return 0; }
    const bool is_last = p >= t.size();
    rc = Builtin(argv, io, is_last);
    if (opened >= 0) ::close(opened);
    last = rc;
    return rc;
  }
  int Builtin(std::vector<std::string> &a, ShIo &io, bool is_last) {
    std::string n = a[0];
    if (n == "exec" || n == "command" || n == "env" || n == "nice" || n == "nohup") {
      a.erase(a.begin());
      while (!a.empty() && (a[0].find('=') != std::string::npos || (a[0].size() && a[0][0] == '-'))) a.erase(a.begin());
      if (a.empty()) return 0;
      return Builtin(a, io, is_last || n == "exec");
    }
    if (n == ":" || n == "true") return 0;
    if (n == "false") return 1;
    if (n == "cd") return a.size() > 1 && ::chdir(a[1].c_str()) != 0;
    if (n == "exit") { done = true; return a.size() > 1 ? atoi(a[1].c_str()) & 255 : last; }
    if (n == "echo" || n == "printf") {
      std::string s;
      for (size_t i = 1; i < a.size(); ++i) { if (i > 1) s += ' '; s += a[i]; }
      return io.Write(n == "echo" ? s + "\n" : s) ? 1 : 0;
    }
    if (n == "mv" || n == "rm" || n == "touch" || n == "mkdir" || n == "test" || n == "[" || n == "cat" || n == "sync") {
      std::vector<std::string> f;
      std::string opts;
      for (size_t i = 1; i < a.size(); ++i) { if (a[i][0] == '-') opts += a[i]; else if (a[i] != "]") f.push_back(a[i]); }
      if (n == "mv") return f.size() < 2 || ::rename(f[0].c_str(), f[1].c_str()) != 0;
      if (n == "rm") { int rc = 0; for (auto &x : f) if (::unlink(x.c_str()) != 0) rc = 1; return opts.find('f') != std::string::npos ? 0 : rc; }
      if (n == "mkdir") { int rc = 0; for (auto &x : f) if (::mkdir(x.c_str(), 0777) != 0) rc = 1; return rc; }
      if (n == "touch") { for (auto &x : f) { int fd = ::open(x.c_str(), O_WRONLY | O_CREAT, 0666); if (fd < 0) return 1; ::close(fd); } return 0; }
      if (n == "test" || n == "[") {
        struct stat st;
        if (f.empty() || ::stat(f[0].c_str(), &st) != 0) return 1;
        if (opts.find('s') != std::string::npos) return st.st_size == 0;
        if (opts.find('d') != std::string::npos) return !S_ISDIR(st.st_mode);
        return 0;
      }
      if (n == "cat") {
        if (f.empty()) return io.Write(io.in) ? 1 : 0;
        for (auto &x : f) {
          int fd = ::open(x.c_str(), O_RDONLY);
          if (fd < 0) return 1;
          char b[512];
          ssize_t r;
          while ((r = ::read(fd, b, sizeof b)) > 0) if (io.Write(std::string(b, r))) { ::close(fd); return 1; }
          ::close(fd);
        }
        return 0;
      }
      return 0;
    }
    if (n == "tee" || n == "sed" || n == "tr" || n == "uniq") {  // filters; edits of sed are not modelled
      int rc = 0;
      for (size_t i = 1; n == "tee" && i < a.size(); ++i) {
        if (a[i][0] == '-') continue;
        const int fd = ::open(a[i].c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
        if (fd < 0) { rc = 1; continue; }
        ShIo o = io;
        o.out_fd = fd;
        o.out_null = false;
        if (o.Write(io.in)) rc = 1;
        ::close(fd);
      }
      return io.Write(io.in) ? 1 : rc;
    }
    if (n == "grep" || n == "egrep" || n == "head" || n == "tail") {
      std::string opts, pat, out;
      size_t limit = 10, i = 1;
      for (; i < a.size() && a[i].size() && a[i][0] == '-'; ++i) {
        opts += a[i];
        if ((a[i] == "-n" || a[i] == "-c") && n != "grep" && i + 1 < a.size()) limit = atoi(a[++i].c_str());
        else if (n[0] != 'g' && isdigit(a[i][1])) limit = atoi(a[i].c_str() + 1);
      }
      if (i < a.size()) pat = a[i];
      std::vector<std::string> lines, sel;
      for (size_t b = 0; b < io.in.size();) {
        size_t e = io.in.find('\n', b);
        if (e == std::string::npos) e = io.in.size() - 1;
        lines.push_back(io.in.substr(b, e - b + 1));
        b = e + 1;
      }
      if (n == "head") for (size_t k = 0; k < lines.size() && k < limit; ++k) sel.push_back(lines[k]);
      else if (n == "tail") for (size_t k = lines.size() > limit ? lines.size() - limit : 0; k < lines.size(); ++k) sel.push_back(lines[k]);
      else {
        bool dollar = pat.size() && pat.back() == '$', caret = pat.size() && pat[0] == '^';
        std::string core = pat.substr(caret, pat.size() - caret - (dollar && pat.size() > (size_t)caret));
        for (auto &l : lines) {
          std::string x = l.substr(0, l.size() - (l.back() == '\n'));
          const size_t at = x.find(core);
          bool m = at != std::string::npos;
          if (m && caret) m = x.rfind(core, 0) == 0;
          if (m && dollar) m = x.size() >= core.size() && x.compare(x.size() - core.size(), core.size(), core) == 0 && (!caret || x == core);
          if (m != (opts.find('v') != std::string::npos)) sel.push_back(l);
        }
      }
      for (auto &l : sel) out += l;
      if (opts.find('q') == std::string::npos && io.Write(out)) return 2;
      return n[0] == 'h' || n[0] == 't' ? 0 : sel.empty();
    }
    const std::string base = n.substr(n.rfind('/') + 1);
    auto it = g_sh.progs.find(base);
    if (it == g_sh.progs.end()) return 127;
    try {
      return it->second(a, io);
    } catch (const ShDied &d) {
      if ((is_last && g_sh.exec_last) || d.group) {
        tl_cur->depth++;
        ExitCurrentProcess(d.sig, true, "died from signal");
      }
      return 128 + d.sig;
    }
  }
};
}  // namespace

int ShellModel::Run(const std::string &cmd, std::string *capture) {
  Sh sh;
  sh.capture = capture;
  if (!Lex(cmd, &sh.t)) return 2;
  ShIo io;
  io.capture = capture;
  if (sh.t.empty()) return 0;
  return sh.List(io, true) & 255;
}
