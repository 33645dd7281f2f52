// Definitions of libc entry points. They are exported from the executable and
// hence preempt libc's for the code under test and for libstdc++. On threads
// which are not simulated they forward to libc.
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <glob.h>
#include <limits.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstring>
#include <cxxabi.h>
#include <string>

#include "core.h"

#define EXPORT extern "C" __attribute__((visibility("default")))
#define REAL(name) ((decltype(&::name))RealSym(#name))
static void *RealSym(const char *n) {
  void *p = dlsym(RTLD_NEXT, n);
  if (!p) { abort(); }
  return p;
}
#define FWD(name, ...)                                            \
  do {                                                            \
    if (!InSim()) {                                               \
      static auto real = REAL(name);                              \
      return real(__VA_ARGS__);                                   \
    }                                                             \
  } while (0)

namespace sim {
Thread *SimThreadCreate(void *(*start)(void *), void *arg);
[[noreturn]] void DoExit(int code);
void RegisterEarlyAtExit(void *base, ExitRec r);
bool FlushStdout(Process *p);
}  // namespace sim
using namespace sim;

static inline bool InSim() { return tl_cur && tl_cur->depth == 0; }
static inline Process *P() { return tl_cur->proc; }

// System call prologue: a scheduling point, simulated time passes.
struct Sys {
  Sys() {
    Yield(1);
    tl_cur->depth++;
    AdvanceTime(3000);
  }
  ~Sys() { tl_cur->depth--; }
};
static int Err(int e) { errno = e; return -1; }

// ------------------------------------------------------------ path resolution
struct Res {
  InodeP parent, node;
  std::string last, canon;
  int err = 0;
};
static std::string CanonOf(const InodeP &dir) {
  std::string r;
  InodeP cur = dir;
  while (cur != S->fs.root) {
    InodeP par = cur->parent.lock();
    if (!par) return "<gone>";
    std::string name = "?";
    for (auto &[n, c] : par->children) if (c == cur) { name = n; break; }
    r = "/" + name + r;
    cur = par;
  }
  return r.empty() ? "/" : r;
}
static Res Resolve(InodeP base, const char *path, bool follow) {
  Res r;
  if (!path) { r.err = EFAULT; return r; }
  std::string p(path);
  if (p.empty()) { r.err = ENOENT; return r; }
  if (p.size() >= PATH_MAX) { r.err = ENAMETOOLONG; return r; }
  InodeP cur = p[0] == '/' ? S->fs.root : base;
  if (!cur) { r.err = ENOENT; return r; }
  std::vector<std::string> todo;
  auto push = [&](const std::string &s) {
    size_t e = s.size();
    while (e > 0) {
      size_t b = s.rfind('/', e - 1);
      const size_t st = b == std::string::npos ? 0 : b + 1;
      if (e > st) todo.push_back(s.substr(st, e - st));
      if (b == std::string::npos) break;
      e = b;
    }
  };
  const bool trailing = p.back() == '/';
  push(p);
  int links = 0;
  if (todo.empty()) { r.node = cur; r.parent = cur; r.canon = "/"; return r; }
  while (!todo.empty()) {
    std::string c = todo.back();
    todo.pop_back();
    if (c.size() > 255) { r.err = ENAMETOOLONG; return r; }
    if (cur->type != NodeType::kDir) { r.err = ENOTDIR; return r; }
    if (!(cur->mode & 0100)) { r.err = EACCES; return r; }
    if (c == ".") { r.parent = cur; r.node = cur; r.last = "."; continue; }
    if (c == "..") {
      cur = cur->parent.lock();
      if (!cur) { r.err = ENOENT; return r; }
      r.parent = cur; r.node = cur; r.last = "..";
      continue;
    }
    auto it = cur->children.find(c);
    if (it == cur->children.end()) {
      if (todo.empty()) { r.parent = cur; r.node = nullptr; r.last = c; r.err = ENOENT; r.canon = CanonOf(cur) + (cur == S->fs.root ? "" : "/") + c; }
      else r.err = ENOENT;
      return r;
    }
    InodeP n = it->second;
    if (n->type == NodeType::kSymlink && (follow || !todo.empty() || trailing)) {
      if (++links > 40) { r.err = ELOOP; return r; }
      push(n->data);
      if (!n->data.empty() && n->data[0] == '/') cur = S->fs.root;
      if (todo.empty()) { r.node = cur; r.parent = cur; }
      continue;
    }
    r.parent = cur;
    r.node = n;
    r.last = c;
    cur = n;
  }
  if (trailing && r.node && r.node->type != NodeType::kDir) { r.err = ENOTDIR; r.node = nullptr; return r; }
  if (r.node) {
    if (r.node->type == NodeType::kDir) r.canon = CanonOf(r.node);
    else r.canon = CanonOf(r.parent) + (r.parent == S->fs.root ? "" : "/") + r.last;
  }
  return r;
}
static InodeP BaseFor(int dirfd) {
  if (dirfd == AT_FDCWD) return P()->cwd;
  auto it = P()->fds.find(dirfd);
  if (it == P()->fds.end()) return nullptr;
  return it->second.node;
}
namespace sim {
std::string AbsPath(Process *p, const std::string &path) {
  if (!path.empty() && path[0] == '/') return path;
  std::string c = CanonOf(p->cwd);
  return (c == "/" ? "/" : c + "/") + path;
}
}  // namespace sim

static int AllocFd(Process *p) {
  int fd = 3;
  for (int i = 0; i < 3; ++i) if (!p->fds.count(i)) { fd = i; goto found; }
  while (p->fds.count(fd)) ++fd;
found:
  if (fd >= p->max_fds) return -1;
  return fd;
}
static void NotePeak(Process *p) { if ((int)p->fds.size() > p->peak_fds) p->peak_fds = p->fds.size(); }

static void TouchDir(const InodeP &d) { d->mtime_ns = S->now_ns; }
static void Unlink(const InodeP &dir, const std::string &name) {
  auto it = dir->children.find(name);
  if (it == dir->children.end()) return;
  it->second->nlink--;
  dir->children.erase(it);
  auto &o = dir->order;
  o.erase(std::remove(o.begin(), o.end(), name), o.end());
  TouchDir(dir);
}
static void Link(const InodeP &dir, const std::string &name, const InodeP &n) {
  dir->children[name] = n;
  dir->order.push_back(name);
  n->parent = dir;
  TouchDir(dir);
}

// ------------------------------------------------------------------- open
static int DoOpen(int dirfd, const char *path, int flags, mode_t mode, const char *kind = "open") {
  Sys sys;
  Process *p = P();
  const std::string raw = path ? path : "";
  std::string fpath = AbsPath(p, raw);
  if (int f = FaultAt(kind, fpath)) {
    if (f == kVanish) {
      Res r = Resolve(BaseFor(dirfd), path, true);
      if (r.node && r.node->type == NodeType::kFile) Unlink(r.parent, r.last);
    } else if (f == kStall) {
      Stall();
    } else if (f < 1000) {
      LogEvent(kind, fpath, raw, -1, f);
      return Err(f);
    }
  }
  Res r = Resolve(BaseFor(dirfd), path, !(flags & O_NOFOLLOW));
  int e = r.err;
  if (!e && r.node && (flags & O_CREAT) && (flags & O_EXCL)) e = EEXIST;
  if (e == ENOENT && r.parent && !r.node && (flags & O_CREAT)) {
    if (!(r.parent->mode & 0200)) e = EACCES;
    else if (S->fs.bytes_free == 0) e = ENOSPC;
    else {
      r.node = S->fs.NewNode(NodeType::kFile, r.parent->dev);
      r.node->mode = mode & 0777;
      Link(r.parent, r.last, r.node);
      LogEvent("create", r.canon, raw, 0, 0);
      e = 0;
    }
  }
  const int acc = flags & O_ACCMODE;
  if (!e) {
    if (r.node->type == NodeType::kSymlink) e = ELOOP;
    else if (r.node->type == NodeType::kDir && acc != O_RDONLY) e = EISDIR;
    else if ((flags & O_DIRECTORY) && r.node->type != NodeType::kDir) e = ENOTDIR;
    else if (acc != O_WRONLY && !(r.node->mode & 0400)) e = EACCES;
    else if (acc != O_RDONLY && !(r.node->mode & 0200)) e = EACCES;
  }
  int fd = -1;
  if (!e) {
    fd = AllocFd(p);
    if (fd < 0) e = EMFILE;
  }
  if (e) {
    LogEvent(kind, r.canon.empty() ? fpath : r.canon, raw, -1, e);
    return Err(e);
  }
  if ((flags & O_TRUNC) && acc != O_RDONLY && r.node->type == NodeType::kFile) {
    if (S->fs.bytes_free >= 0) S->fs.bytes_free += r.node->data.size();
    r.node->data.clear();
    r.node->mtime_ns = S->now_ns;
    LogEvent("truncate", r.canon, raw, 0, 0);
  }
  OpenFile f;
  f.node = r.node;
  f.flags = flags;
  f.path = r.canon;
  f.opened_size = r.node->data.size();
  f.dir = r.node->type == NodeType::kDir;
  p->fds[fd] = f;
  NotePeak(p);
  LogEvent(kind, r.canon, raw, fd, acc == O_RDONLY ? 0 : 0);
  if (acc != O_RDONLY) LogEvent("open-write", r.canon, raw, fd, 0);
  return fd;
}

EXPORT int open(const char *path, int flags, ...) {
  mode_t mode = 0666;
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (!InSim()) {
    static auto real = (int (*)(const char *, int, ...))RealSym("open");
    return real(path, flags, mode);
  }
  return DoOpen(AT_FDCWD, path, flags, mode & ~022);
}
EXPORT int open64(const char *path, int flags, ...) {
  mode_t mode = 0666;
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  return open(path, flags, mode);
}
EXPORT int openat(int dirfd, const char *path, int flags, ...) {
  mode_t mode = 0666;
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  if (!InSim()) {
    static auto real = (int (*)(int, const char *, int, ...))RealSym("openat");
    return real(dirfd, path, flags, mode);
  }
  return DoOpen(dirfd, path, flags, mode & ~022, (flags & O_DIRECTORY) ? "opendir" : "open");
}
EXPORT int __openat_2(int dirfd, const char *path, int flags) { return openat(dirfd, path, flags); }
EXPORT int __open_2(const char *path, int flags) { return open(path, flags); }
EXPORT int openat64(int dirfd, const char *path, int flags, ...) {
  mode_t mode = 0666;
  if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
  return openat(dirfd, path, flags, mode);
}
EXPORT int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static OpenFile *GetFd(int fd) {
  auto it = P()->fds.find(fd);
  return it == P()->fds.end() ? nullptr : &it->second;
}

static int DoClose(int fd) {
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f) { LogEvent("close", "", "", -1, EBADF); return Err(EBADF); }
  const std::string path = f->path;
  const bool wr = (f->flags & O_ACCMODE) != O_RDONLY;
  P()->fds.erase(fd);
  if (int e = wr ? FaultAt("close", path) : 0; e && e < 1000) {
    LogEvent("close", path, "", -1, e);
    return Err(e);
  }
  LogEvent("close", path, "", fd, 0);
  return 0;
}
EXPORT int close(int fd) { FWD(close, fd); return DoClose(fd); }

// ------------------------------------------------------------------- read
static ssize_t DoReadAt(OpenFile *f, char *buf, size_t n, int64_t off) {
  if (!f) return Err(EBADF);
  if (f->std_stream) return 0;
  if (f->dir) { LogEvent("read", f->path, "", -1, EISDIR); return Err(EISDIR); }
  if ((f->flags & O_ACCMODE) == O_WRONLY) return Err(EBADF);
  const std::string &d = f->node->data;
  size_t avail = off < (int64_t)d.size() ? d.size() - off : 0;
  size_t got = std::min(n, avail);
  if (int c = FaultAt("read", f->path)) {
    switch (c) {
      case kShort1: got = std::min<size_t>(got, 1); break;
      case kShortHalf: if (got > 1) got = got / 2; break;
      case kShortButOne: if (got > 1) got = got - 1; break;
      case kEof:
        if (f->node->data.size() > (size_t)off) f->node->data.resize(off);
        LogEvent("ext-truncate", f->path, "", off, 0);
        got = 0;
        break;
      case kEofHalf: got = off < (int64_t)d.size() / 2 ? std::min<size_t>(got, d.size() / 2 - off) : 0; break;
      case kErrHalf:
        if (off >= (int64_t)d.size() / 2) { LogEvent("read", f->path, "", -1, EIO); return Err(EIO); }
        got = std::min<size_t>(got, d.size() / 2 - off);
        break;
      case kGrow: f->node->data += "\nexternally_appended(name = \"grown\")\n"; break;
      case kStall: {
        Stall();
        const size_t now = d.size();
        got = std::min(n, off < (int64_t)now ? now - off : 0);
        break;
      }
      default:
        if (c < 1000) { LogEvent("read", f->path, "", -1, c); return Err(c); }
    }
  }
  memcpy(buf, f->node->data.data() + off, got);
  LogEvent("read", f->path, "", got, 0);
  return got;
}
EXPORT ssize_t read(int fd, void *buf, size_t n) {
  FWD(read, fd, buf, n);
  Sys sys;
  OpenFile *f = GetFd(fd);
  const ssize_t r = DoReadAt(f, (char *)buf, n, f ? f->offset : 0);
  if (r > 0) f->offset += r;
  return r;
}
EXPORT ssize_t __read_chk(int fd, void *buf, size_t n, size_t) { return read(fd, buf, n); }
EXPORT ssize_t pread(int fd, void *buf, size_t n, off_t off) {
  FWD(pread, fd, buf, n, off);
  Sys sys;
  return DoReadAt(GetFd(fd), (char *)buf, n, off);
}
EXPORT ssize_t pread64(int fd, void *buf, size_t n, off64_t off) { return pread(fd, buf, n, off); }
EXPORT ssize_t readv(int fd, const struct iovec *iov, int cnt) {
  FWD(readv, fd, iov, cnt);
  ssize_t t = 0;
  for (int i = 0; i < cnt; ++i) {
    if (!iov[i].iov_len) continue;
    const ssize_t r = read(fd, iov[i].iov_base, iov[i].iov_len);
    if (r < 0) return t ? t : -1;
    t += r;
    if ((size_t)r < iov[i].iov_len) break;
  }
  return t;
}

// ------------------------------------------------------------------- write
static ssize_t DoWriteAt(OpenFile *f, const char *buf, size_t n, int64_t off) {
  if (!f) return Err(EBADF);
  if (f->std_stream == 3) { if ((f->flags & O_ACCMODE) == O_RDONLY) return Err(EBADF); return n; }
  size_t put = n;
  if (f->std_stream == 2) {
    if (int c = FaultAt("write", f->path); c && c < 1000) { return Err(c); }
    P()->err.append(buf, n);
    return n;
  }
  if (f->dir || (f->flags & O_ACCMODE) == O_RDONLY) return Err(EBADF);
  if (int c = FaultAt("write", f->path)) {
    switch (c) {
      case kShort1: put = std::min<size_t>(put, 1); break;
      case kShortHalf: if (put > 1) put = put / 2; break;
      case kShortButOne: if (put > 1) put = put - 1; break;
      case kStall: AdvanceTime(2'000'000'000); break;
      default:
        if (c < 1000) { LogEvent("write", f->path, "", -1, c); return Err(c); }
    }
  }
  if (f->std_stream == 1) {
    P()->out.append(buf, put);
    LogEvent("write", f->path, "", put, 0);
    return put;
  }
  std::string &d = f->node->data;
  if (f->flags & O_APPEND) off = d.size();
  const int64_t grow = std::max<int64_t>(0, off + (int64_t)put - (int64_t)d.size());
  if (S->fs.bytes_free >= 0 && grow > 0) {
    if (grow > S->fs.bytes_free) {
      const int64_t lack = grow - S->fs.bytes_free;
      if ((int64_t)put <= lack) {
        S->fault_counts["write:ENOSPC(disk full)"]++;
        LogEvent("write", f->path, "", -1, ENOSPC);
        return Err(ENOSPC);
      }
      put -= lack;
      S->fault_counts["write:short(disk full)"]++;
    }
    S->fs.bytes_free -= std::min<int64_t>(grow, S->fs.bytes_free);
  }
  if ((int64_t)d.size() < off + (int64_t)put) d.resize(off + put);
  memcpy(d.data() + off, buf, put);
  f->node->mtime_ns = S->now_ns;
  LogEvent("write", f->path, "", put, 0);
  return put;
}
EXPORT ssize_t write(int fd, const void *buf, size_t n) {
  FWD(write, fd, buf, n);
  Sys sys;
  OpenFile *f = GetFd(fd);
  const ssize_t r = DoWriteAt(f, (const char *)buf, n, f ? f->offset : 0);
  if (r > 0 && f && f->node) f->offset = (f->flags & O_APPEND) ? (int64_t)f->node->data.size() : f->offset + r;
  return r;
}
EXPORT ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) {
  FWD(pwrite, fd, buf, n, off);
  Sys sys;
  return DoWriteAt(GetFd(fd), (const char *)buf, n, off);
}
EXPORT ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  FWD(writev, fd, iov, cnt);
  std::string all;
  { Enter e; for (int i = 0; i < cnt; ++i) all.append((const char *)iov[i].iov_base, iov[i].iov_len); }
  return write(fd, all.data(), all.size());
}
EXPORT off_t lseek(int fd, off_t off, int wh) {
  FWD(lseek, fd, off, wh);
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f) return Err(EBADF);
  if (f->std_stream) return Err(ESPIPE);
  int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? f->offset : (int64_t)f->node->data.size();
  if (base + off < 0) return Err(EINVAL);
  return f->offset = base + off;
}
EXPORT off64_t lseek64(int fd, off64_t off, int wh) { return lseek(fd, off, wh); }
EXPORT int fsync(int fd) {
  FWD(fsync, fd);
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f) return Err(EBADF);
  if (int c = FaultAt("fsync", f->path); c && c < 1000) return Err(c);
  return 0;
}
EXPORT int fdatasync(int fd) { FWD(fdatasync, fd); return fsync(fd); }
EXPORT int ftruncate(int fd, off_t len) {
  FWD(ftruncate, fd, len);
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f || !f->node) return Err(EBADF);
  f->node->data.resize(len);
  f->node->mtime_ns = S->now_ns;
  LogEvent("truncate", f->path, "", len, 0);
  return 0;
}
EXPORT int truncate(const char *path, off_t len) {
  FWD(truncate, path, len);
  Sys sys;
  Res r = Resolve(P()->cwd, path, true);
  if (r.err) return Err(r.err);
  r.node->data.resize(len);
  r.node->mtime_ns = S->now_ns;
  LogEvent("truncate", r.canon, path, len, 0);
  return 0;
}
EXPORT int dup(int fd) {
  FWD(dup, fd);
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f) return Err(EBADF);
  int n = AllocFd(P());
  if (n < 0) return Err(EMFILE);
  OpenFile copy = *f;
  P()->fds[n] = copy;
  NotePeak(P());
  return n;
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  if (!InSim()) { static auto real = (int (*)(int, int, ...))RealSym("fcntl"); return real(fd, cmd, arg); }
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f) return Err(EBADF);
  switch (cmd) {
    case F_GETFL: return f->flags;
    case F_SETFL: case F_SETFD: return 0;
    case F_GETFD: return FD_CLOEXEC;
    case F_DUPFD: case F_DUPFD_CLOEXEC: { int n = AllocFd(P()); if (n < 0) return Err(EMFILE); OpenFile c = *f; P()->fds[n] = c; NotePeak(P()); return n; }
    case F_SETLK: case F_SETLKW: case F_GETLK: return 0;
    default: return Err(EINVAL);
  }
}
EXPORT int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
EXPORT int flock(int fd, int op) {
  if (!InSim()) { static auto real = (int (*)(int, int))RealSym("flock"); return real(fd, op); }
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f || !f->node) return Err(EBADF);
  // Exclusive locks only; released on unlock/close/death.
  Inode *n = f->node.get();
  if (op & 8 /*LOCK_UN*/) { f->std_stream = 0; f->opened_size = f->opened_size & ~(1ll << 62); WakeAll(n); return 0; }
  for (;;) {
    bool held = false;
    for (auto &pp : S->procs) if (!pp->Done()) for (auto &[k, o] : pp->fds)
      if (&o != f && o.node.get() == n && (o.opened_size & (1ll << 62))) held = true;
    if (!held) break;
    if (op & 4) return Err(EWOULDBLOCK);
    S->now_ns += 1000;
    tl_cur->wake_ns = S->now_ns + 1'000'000;
    BlockOn(n);
    f = GetFd(fd);
    if (!f) return Err(EBADF);
  }
  f->opened_size |= 1ll << 62;
  return 0;
}
EXPORT ssize_t sendfile(int out, int in, off_t *off, size_t n) {
  if (!InSim()) { static auto real = (ssize_t(*)(int, int, off_t *, size_t))RealSym("sendfile"); return real(out, in, off, n); }
  return Err(EINVAL);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
  if (!InSim()) { static auto real = (int (*)(int, unsigned long, ...))RealSym("ioctl"); return real(fd, req, arg); }
  return Err(ENOTTY);
}
EXPORT int poll(struct pollfd *f, nfds_t n, int t) {
  FWD(poll, f, n, t);
  for (nfds_t i = 0; i < n; ++i) f[i].revents = f[i].events;
  return n;
}
EXPORT int isatty(int fd) {
  FWD(isatty, fd);
  Enter e;
  OpenFile *f = GetFd(fd);
  if (!f) return errno = EBADF, 0;
  if (P()->tty && (f->std_stream == 1 || f->std_stream == 2)) return 1;
  return errno = ENOTTY, 0;
}

// ------------------------------------------------------------------- stat
static void FillStat(const InodeP &n, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_dev = n->dev;
  st->st_ino = S->fs.ShownIno(*n);
  st->st_mode = (n->mode & 0777) | (n->type == NodeType::kDir ? S_IFDIR : n->type == NodeType::kSymlink ? S_IFLNK : S_IFREG);
  st->st_nlink = n->nlink;
  st->st_size = n->type == NodeType::kDir ? 4096 : n->data.size();
  st->st_blksize = 4096;
  st->st_blocks = (st->st_size + 511) / 512;
  st->st_mtim.tv_sec = n->mtime_ns / 1000000000;
  st->st_mtim.tv_nsec = n->mtime_ns % 1000000000;
  st->st_ctim = st->st_mtim;
  st->st_atim = st->st_mtim;
}
static int DoStat(int dirfd, const char *path, struct stat *st, bool follow, int flags = 0) {
  Sys sys;
  std::string raw = path ? path : "";
  const std::string fpath = AbsPath(P(), raw);
  if (int c = FaultAt("stat", fpath)) {
    if (c == kVanish) {
      Res r = Resolve(BaseFor(dirfd), path, false);
      if (r.node && r.node->type == NodeType::kFile) Unlink(r.parent, r.last);
    } else if (c < 1000) { LogEvent("stat", fpath, raw, -1, c); return Err(c); }
  }
  if ((flags & AT_EMPTY_PATH) && raw.empty()) {
    OpenFile *f = GetFd(dirfd);
    if (!f || !f->node) return Err(EBADF);
    FillStat(f->node, st);
    return 0;
  }
  Res r = Resolve(BaseFor(dirfd), path, follow);
  if (r.err) { LogEvent("stat", fpath, raw, -1, r.err); return Err(r.err); }
  FillStat(r.node, st);
  LogEvent("stat", r.canon, raw, 0, 0);
  return 0;
}
EXPORT int stat(const char *p, struct stat *st) { FWD(stat, p, st); return DoStat(AT_FDCWD, p, st, true); }
EXPORT int lstat(const char *p, struct stat *st) { FWD(lstat, p, st); return DoStat(AT_FDCWD, p, st, false); }
EXPORT int stat64(const char *p, struct stat64 *st) { FWD(stat64, p, st); return DoStat(AT_FDCWD, p, (struct stat *)st, true); }
EXPORT int lstat64(const char *p, struct stat64 *st) { FWD(lstat64, p, st); return DoStat(AT_FDCWD, p, (struct stat *)st, false); }
EXPORT int fstatat(int d, const char *p, struct stat *st, int fl) { FWD(fstatat, d, p, st, fl); return DoStat(d, p, st, !(fl & AT_SYMLINK_NOFOLLOW), fl); }
EXPORT int fstatat64(int d, const char *p, struct stat64 *st, int fl) { FWD(fstatat64, d, p, st, fl); return DoStat(d, p, (struct stat *)st, !(fl & AT_SYMLINK_NOFOLLOW), fl); }
EXPORT int fstat(int fd, struct stat *st) {
  FWD(fstat, fd, st);
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f) return Err(EBADF);
  if (int c = FaultAt("fstat", f->path)) {
    if (c < 1000) { LogEvent("fstat", f->path, "", -1, c); return Err(c); }
  }
  if (f->std_stream) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; st->st_blksize = 4096; return 0; }
  FillStat(f->node, st);
  LogEvent("fstat", f->path, "", st->st_size, 0);
  return 0;
}
EXPORT int fstat64(int fd, struct stat64 *st) { FWD(fstat64, fd, st); return fstat(fd, (struct stat *)st); }
EXPORT int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
  FWD(statx, d, p, fl, mask, sx);
  struct stat st;
  if (DoStat(d, p, &st, !(fl & AT_SYMLINK_NOFOLLOW), fl) != 0) return -1;
  memset(sx, 0, sizeof *sx);
  sx->stx_mask = 0x7ff; sx->stx_mode = st.st_mode; sx->stx_ino = st.st_ino; sx->stx_size = st.st_size; sx->stx_nlink = st.st_nlink;
  sx->stx_mtime.tv_sec = st.st_mtim.tv_sec; sx->stx_mtime.tv_nsec = st.st_mtim.tv_nsec;
  sx->stx_dev_minor = st.st_dev;
  return 0;
}
EXPORT int faccessat(int d, const char *path, int mode, int) {
  if (!InSim()) { static auto real = (int (*)(int, const char *, int, int))RealSym("faccessat"); return real(d, path, mode, 0); }
  Sys sys;
  const std::string raw = path ? path : "";
  const std::string fpath = AbsPath(P(), raw);
  if (int c = FaultAt("access", fpath)) {
    if (c == kStall) Stall();
    else if (c < 1000) { LogEvent("access", fpath, raw, -1, c); return Err(c); }
  }
  Res r = Resolve(BaseFor(d), path, true);
  int e = r.err;
  if (!e && (mode & R_OK) && !(r.node->mode & 0400)) e = EACCES;
  if (!e && (mode & W_OK) && !(r.node->mode & 0200)) e = EACCES;
  if (!e && (mode & X_OK) && !(r.node->mode & 0100)) e = EACCES;
  LogEvent("access", r.canon.empty() ? fpath : r.canon, raw, e ? -1 : 0, e);
  return e ? Err(e) : 0;
}
EXPORT int access(const char *path, int mode) { FWD(access, path, mode); return faccessat(AT_FDCWD, path, mode, 0); }
EXPORT int euidaccess(const char *path, int mode) { FWD(euidaccess, path, mode); return faccessat(AT_FDCWD, path, mode, 0); }

// -------------------------------------------------------------- directories
static bool IsSimDir(void *d) { return d && ((DirStream *)d)->magic == 0x51D1; }
static DIR *MakeDir(int fd) {
  auto *ds = new DirStream;
  ds->fd = fd;
  OpenFile *f = GetFd(fd);
  ds->node = f->node;
  for (const auto &n : S->fs.ListDir(*ds->node)) {
    if (n == ".") ds->entries.emplace_back(n, ds->node);
    else if (n == "..") ds->entries.emplace_back(n, ds->node->parent.lock());
    else ds->entries.emplace_back(n, ds->node->children[n]);
  }
  return (DIR *)ds;
}
EXPORT DIR *opendir(const char *path) {
  FWD(opendir, path);
  const int fd = DoOpen(AT_FDCWD, path, O_RDONLY | O_DIRECTORY, 0, "opendir");
  if (fd < 0) return nullptr;
  Enter e;
  return MakeDir(fd);
}
EXPORT DIR *fdopendir(int fd) {
  FWD(fdopendir, fd);
  Enter e;
  OpenFile *f = GetFd(fd);
  if (!f) { errno = EBADF; return nullptr; }
  if (!f->dir) { errno = ENOTDIR; return nullptr; }
  return MakeDir(fd);
}
EXPORT struct dirent *readdir(DIR *d) {
  FWD(readdir, d);
  if (!IsSimDir(d)) abort();
  auto *ds = (DirStream *)d;
  // Entries come in batches from the kernel: the first call and then every
  // eighth one are system calls.
  if (ds->pos % 8 == 0) {
    Sys sys;
    OpenFile *f = GetFd(ds->fd);
    const std::string path = f ? f->path : "?";
    const int c = FaultAt("readdir", path);
    if (c == kStall) Stall();
    if (c && c < 1000) {
      LogEvent("readdir", path, "", -1, c);
      errno = c;
      return nullptr;
    }
    LogEvent("readdir", path, "", ds->pos, 0);
  }
  Enter en;
  for (;;) {
    if (ds->pos >= ds->entries.size()) return nullptr;
    auto &[name, node] = ds->entries[ds->pos++];
    if (!node) continue;
    struct dirent *e = (struct dirent *)ds->ent;
    memset(e, 0, sizeof ds->ent);
    e->d_ino = S->fs.ShownIno(*node);
    e->d_off = ds->pos;
    e->d_reclen = sizeof(struct dirent);
    e->d_type = node->type == NodeType::kDir ? DT_DIR : node->type == NodeType::kSymlink ? DT_LNK : DT_REG;
    const int pct = S->fs.cfg.dtype_unknown_percent;
    if (pct && (int)(Mix(S->fs.cfg.order_seed + 5, HashStr(name) ^ ds->node->ino) % 100) < pct) e->d_type = DT_UNKNOWN;
    snprintf(e->d_name, sizeof ds->ent - offsetof(struct dirent, d_name), "%s", name.c_str());
    return e;
  }
}
EXPORT struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
EXPORT int closedir(DIR *d) {
  FWD(closedir, d);
  if (!IsSimDir(d)) abort();
  auto *ds = (DirStream *)d;
  const int fd = ds->fd;
  { Enter e; ds->magic = 0; delete ds; }
  return DoClose(fd);
}
EXPORT int dirfd(DIR *d) { FWD(dirfd, d); return ((DirStream *)d)->fd; }
EXPORT void rewinddir(DIR *d) {
  if (!InSim()) { static auto real = (void (*)(DIR *))RealSym("rewinddir"); real(d); return; }
  ((DirStream *)d)->pos = 0;
}
EXPORT int scandir(const char *path, struct dirent ***out, int (*filter)(const struct dirent *),
                   int (*cmp)(const struct dirent **, const struct dirent **)) {
  if (!InSim()) { static auto real = (decltype(&scandir))RealSym("scandir"); return real(path, out, filter, cmp); }
  DIR *d = opendir(path);
  if (!d) return -1;
  std::vector<struct dirent *> v;
  while (struct dirent *e = readdir(d)) {
    if (filter && !filter(e)) continue;
    auto *c = (struct dirent *)malloc(sizeof(struct dirent));
    memcpy(c, e, sizeof *c);
    v.push_back(c);
  }
  closedir(d);
  if (cmp) std::sort(v.begin(), v.end(), [&](const struct dirent *a, const struct dirent *b) { return cmp(&a, &b) < 0; });
  *out = (struct dirent **)malloc(sizeof(void *) * (v.size() + 1));
  for (size_t i = 0; i < v.size(); ++i) (*out)[i] = v[i];
  return v.size();
}

// glob(3): libc's, on top of our directory functions.
EXPORT int glob(const char *pat, int flags, int (*ef)(const char *, int), glob_t *g) {
  if (!InSim()) { static auto real = (int (*)(const char *, int, int (*)(const char *, int), glob_t *))RealSym("glob"); return real(pat, flags, ef, g); }
  if (int c = [&] { Sys s; return FaultAt("glob", pat); }(); c) {
    memset(g, 0, sizeof *g);
    return c == ENOMEM ? GLOB_NOSPACE : c == EIO ? GLOB_ABORTED : GLOB_NOMATCH;
  }
  g->gl_opendir = [](const char *p) -> void * { return opendir(p); };
  g->gl_readdir = [](void *d) { return readdir((DIR *)d); };
  g->gl_closedir = [](void *d) { closedir((DIR *)d); };
  g->gl_stat = [](const char *__restrict p, struct stat *__restrict s) { return stat(p, s); };
  g->gl_lstat = [](const char *__restrict p, struct stat *__restrict s) { return lstat(p, s); };
  static auto real = (int (*)(const char *, int, int (*)(const char *, int), glob_t *))RealSym("glob");
  return real(pat, flags | GLOB_ALTDIRFUNC, ef, g);
}
EXPORT int glob64(const char *pat, int flags, int (*ef)(const char *, int), glob64_t *g) { return glob(pat, flags, ef, (glob_t *)g); }

// -------------------------------------------------------- namespace changes
static int Simple(const char *kind, const std::string &path, const char *p2, int e) {
  LogEvent(kind, path, p2 ? p2 : "", e ? -1 : 0, e);
  return e ? Err(e) : 0;
}
static int DoRename(int d1, const char *a, int d2, const char *b) {
  Sys sys;
  const std::string fa = AbsPath(P(), a), fb = AbsPath(P(), b);
  if (int c = FaultAt("rename", fb); c && c < 1000) return Simple("rename", fa, fb.c_str(), c);
  Res ra = Resolve(BaseFor(d1), a, false), rb = Resolve(BaseFor(d2), b, false);
  int e = ra.err ? ra.err : (rb.err && !(rb.err == ENOENT && rb.parent && !rb.node)) ? rb.err : 0;
  if (!e && !ra.node) e = ENOENT;
  if (!e && (!(ra.parent->mode & 0200) || !(rb.parent->mode & 0200))) e = EACCES;
  if (!e && ra.parent->dev != rb.parent->dev) e = EXDEV;
  if (!e && rb.node) {
    if (rb.node->type == NodeType::kDir && ra.node->type != NodeType::kDir) e = EISDIR;
    else if (rb.node->type != NodeType::kDir && ra.node->type == NodeType::kDir) e = ENOTDIR;
    else if (rb.node->type == NodeType::kDir && !rb.node->children.empty()) e = ENOTEMPTY;
  }
  if (!e && ra.node != rb.node) {
    if (rb.node) Unlink(rb.parent, rb.last);
    Unlink(ra.parent, ra.last);
    ra.node->nlink++;
    Link(rb.parent, rb.last, ra.node);
  }
  return Simple("rename", ra.canon.empty() ? fa : ra.canon, (rb.canon.empty() ? fb : rb.canon).c_str(), e);
}
EXPORT int rename(const char *a, const char *b) { FWD(rename, a, b); return DoRename(AT_FDCWD, a, AT_FDCWD, b); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { FWD(renameat, d1, a, d2, b); return DoRename(d1, a, d2, b); }
static int DoUnlink(int d, const char *a, int mode /*0 file,1 dir,2 any*/) {
  Sys sys;
  const std::string fa = AbsPath(P(), a);
  if (int c = FaultAt("unlink", fa); c && c < 1000) return Simple("unlink", fa, a, c);
  Res r = Resolve(BaseFor(d), a, false);
  int e = r.err;
  if (!e && !(r.parent->mode & 0200)) e = EACCES;
  if (!e) {
    const bool isdir = r.node->type == NodeType::kDir;
    if (mode == 0 && isdir) e = EISDIR;
    else if (mode == 1 && !isdir) e = ENOTDIR;
    else if (isdir && !r.node->children.empty()) e = ENOTEMPTY;
    else if (isdir && (r.node == S->fs.root || r.last == "." || r.last == "..")) e = EBUSY;
  }
  if (!e) {
    if (S->fs.bytes_free >= 0) S->fs.bytes_free += r.node->data.size();
    Unlink(r.parent, r.last);
  }
  return Simple("unlink", r.canon.empty() ? fa : r.canon, a, e);
}
EXPORT int unlink(const char *a) { FWD(unlink, a); return DoUnlink(AT_FDCWD, a, 0); }
EXPORT int rmdir(const char *a) { FWD(rmdir, a); return DoUnlink(AT_FDCWD, a, 1); }
EXPORT int remove(const char *a) { FWD(remove, a); return DoUnlink(AT_FDCWD, a, 2); }
EXPORT int unlinkat(int d, const char *a, int fl) { FWD(unlinkat, d, a, fl); return DoUnlink(d, a, (fl & AT_REMOVEDIR) ? 1 : 0); }
static int DoMkdir(int d, const char *a, mode_t mode) {
  Sys sys;
  const std::string fa = AbsPath(P(), a);
  if (int c = FaultAt("mkdir", fa); c && c < 1000) return Simple("mkdir", fa, a, c);
  Res r = Resolve(BaseFor(d), a, true);
  int e = r.err;
  if (!e && r.node) e = EEXIST;
  if (e == ENOENT && r.parent && !r.node) {
    e = 0;
    if (!(r.parent->mode & 0200)) e = EACCES;
    else {
      InodeP n = S->fs.NewNode(NodeType::kDir, r.parent->dev);
      n->mode = mode & ~022 & 0777;
      Link(r.parent, r.last, n);
    }
  }
  return Simple("mkdir", r.canon.empty() ? fa : r.canon, a, e);
}
EXPORT int mkdir(const char *a, mode_t m) { FWD(mkdir, a, m); return DoMkdir(AT_FDCWD, a, m); }
EXPORT int mkdirat(int d, const char *a, mode_t m) { FWD(mkdirat, d, a, m); return DoMkdir(d, a, m); }
EXPORT int symlink(const char *target, const char *a) {
  FWD(symlink, target, a);
  Sys sys;
  const std::string fa = AbsPath(P(), a);
  if (int c = FaultAt("symlink", fa); c && c < 1000) return Simple("symlink", fa, target, c);
  Res r = Resolve(P()->cwd, a, false);
  int e = r.err;
  if (!e) e = EEXIST;
  if (e == ENOENT && r.parent && !r.node) {
    e = 0;
    InodeP n = S->fs.NewNode(NodeType::kSymlink, r.parent->dev);
    n->data = target;
    Link(r.parent, r.last, n);
  }
  return Simple("symlink", r.canon.empty() ? fa : r.canon, target, e);
}
EXPORT int link(const char *a, const char *b) {
  FWD(link, a, b);
  Sys sys;
  Res ra = Resolve(P()->cwd, a, false), rb = Resolve(P()->cwd, b, false);
  int e = ra.err ? ra.err : !rb.err ? EEXIST : (rb.err == ENOENT && rb.parent) ? 0 : rb.err;
  if (!e && ra.node->type == NodeType::kDir) e = EPERM;
  if (!e) { ra.node->nlink++; Link(rb.parent, rb.last, ra.node); }
  return Simple("link", rb.canon, a, e);
}
EXPORT ssize_t readlink(const char *a, char *buf, size_t n) {
  FWD(readlink, a, buf, n);
  Sys sys;
  Res r = Resolve(P()->cwd, a, false);
  if (r.err) return Err(r.err);
  if (r.node->type != NodeType::kSymlink) return Err(EINVAL);
  n = std::min(n, r.node->data.size());
  memcpy(buf, r.node->data.data(), n);
  return n;
}
EXPORT int chmod(const char *a, mode_t m) {
  FWD(chmod, a, m);
  Sys sys;
  Res r = Resolve(P()->cwd, a, true);
  if (!r.err) r.node->mode = m & 0777;
  return Simple("chmod", r.canon, a, r.err);
}
EXPORT int fchmodat(int d, const char *a, mode_t m, int fl) { FWD(fchmodat, d, a, m, fl); return chmod(a, m); }
EXPORT int fchmod(int fd, mode_t m) {
  FWD(fchmod, fd, m);
  Sys sys;
  OpenFile *f = GetFd(fd);
  if (!f || !f->node) return Err(EBADF);
  f->node->mode = m & 0777;
  return Simple("chmod", f->path, "", 0);
}
EXPORT int utimensat(int d, const char *a, const struct timespec t[2], int fl) {
  FWD(utimensat, d, a, t, fl);
  Sys sys;
  Res r = Resolve(BaseFor(d), a, true);
  if (!r.err) r.node->mtime_ns = t ? t[1].tv_sec * 1000000000ll + t[1].tv_nsec : S->now_ns;
  return Simple("utimens", r.canon, a, r.err);
}
EXPORT int mkstemp(char *tmpl) {
  FWD(mkstemp, tmpl);
  size_t n = strlen(tmpl);
  if (n < 6) return Err(EINVAL);
  for (int i = 0; i < 100; ++i) {
    { Enter e; snprintf(tmpl + n - 6, 7, "%06x", (unsigned)(Mix(S->now_ns, S->steps + i) & 0xffffff)); }
    int fd = open(tmpl, O_RDWR | O_CREAT | O_EXCL, 0600);
    if (fd >= 0 || errno != EEXIST) return fd;
  }
  return Err(EEXIST);
}
EXPORT int statvfs(const char *p, struct statvfs *v) {
  if (!InSim()) { static auto real = (int (*)(const char *, struct statvfs *))RealSym("statvfs"); return real(p, v); }
  memset(v, 0, sizeof *v);
  v->f_bsize = v->f_frsize = 4096;
  v->f_bavail = v->f_bfree = S->fs.bytes_free < 0 ? 1 << 20 : S->fs.bytes_free / 4096;
  return 0;
}

EXPORT char *getcwd(char *buf, size_t n) {
  FWD(getcwd, buf, n);
  Sys sys;
  if (int c = FaultAt("getcwd", "."); c && c < 1000) { errno = c; return nullptr; }
  std::string c = CanonOf(P()->cwd);
  if (c == "<gone>") { errno = ENOENT; return nullptr; }
  if (buf && n < c.size() + 1) { errno = ERANGE; return nullptr; }
  if (!buf) { tl_cur->depth--; buf = (char *)malloc(std::max<size_t>(n, c.size() + 1)); tl_cur->depth++; }
  memcpy(buf, c.c_str(), c.size() + 1);
  return buf;
}
EXPORT int chdir(const char *a) {
  FWD(chdir, a);
  Sys sys;
  if (int c = FaultAt("chdir", AbsPath(P(), a)); c && c < 1000) return Err(c);
  Res r = Resolve(P()->cwd, a, true);
  int e = r.err;
  if (!e && r.node->type != NodeType::kDir) e = ENOTDIR;
  if (!e && !(r.node->mode & 0100)) e = EACCES;
  if (!e) P()->cwd = r.node;
  return Simple("chdir", r.canon, a, e);
}
EXPORT char *realpath(const char *a, char *out) {
  FWD(realpath, a, out);
  Sys sys;
  if (int c = FaultAt("realpath", AbsPath(P(), a ? a : "")); c && c < 1000) { errno = c; return nullptr; }
  Res r = Resolve(P()->cwd, a, true);
  if (r.err) { errno = r.err; return nullptr; }
  if (!out) { tl_cur->depth--; out = (char *)malloc(PATH_MAX); tl_cur->depth++; }
  strcpy(out, r.canon.c_str());
  return out;
}
EXPORT char *__realpath_chk(const char *a, char *out, size_t) { return realpath(a, out); }
EXPORT char *canonicalize_file_name(const char *a) { return realpath(a, nullptr); }
EXPORT mode_t umask(mode_t m) { FWD(umask, m); return 022; }

// ------------------------------------------------------------------- stdio
struct FileCookie { int fd; Process *p; std::string *mem; size_t pos; Process *child; };
static std::map<FILE *, FileCookie *> g_files;

static ssize_t CkRead(void *c, char *buf, size_t n) {
  auto *k = (FileCookie *)c;
  if (k->mem) {
    size_t got = std::min(n, k->mem->size() - k->pos);
    memcpy(buf, k->mem->data() + k->pos, got);
    k->pos += got;
    return got;
  }
  return read(k->fd, buf, n);
}
static ssize_t CkWrite(void *c, const char *buf, size_t n) {
  auto *k = (FileCookie *)c;
  size_t done = 0;
  while (done < n) {
    const ssize_t r = write(k->fd, buf + done, n - done);
    if (r < 0) return done ? (ssize_t)done : 0;
    done += r;
  }
  return done;
}
static int CkSeek(void *c, off64_t *off, int wh) {
  auto *k = (FileCookie *)c;
  if (k->mem) return -1;
  const off_t r = lseek(k->fd, *off, wh);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int CkClose(void *c) {
  auto *k = (FileCookie *)c;
  int r = 0;
  if (k->fd >= 0) r = close(k->fd);
  Enter e;
  delete k->mem;
  delete k;
  return r;
}
static FILE *MakeFile(int fd, const char *mode, std::string *mem = nullptr) {
  Enter e;
  auto *k = new FileCookie{fd, P(), mem, 0, nullptr};
  cookie_io_functions_t io{CkRead, CkWrite, CkSeek, CkClose};
  std::string m;
  for (const char *p = mode; *p && *p != ','; ++p) if (strchr("rwa+b", *p)) m += *p;
  FILE *f = fopencookie(k, m.c_str(), io);
  g_files[f] = k;
  P()->files.insert(f);
  return f;
}
EXPORT FILE *fopen(const char *path, const char *mode) {
  if (!InSim()) { static auto real = (FILE * (*)(const char *, const char *)) RealSym("fopen"); return real(path, mode); }
  int fl = 0;
  const bool plus = strchr(mode, '+');
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  if (strchr(mode, 'x')) fl |= O_EXCL;
  const int fd = open(path, fl, 0666);
  if (fd < 0) return nullptr;
  return MakeFile(fd, mode);
}
EXPORT FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
EXPORT FILE *fdopen(int fd, const char *mode) {
  FWD(fdopen, fd, mode);
  return MakeFile(fd, mode);
}
EXPORT int fclose(FILE *f) {
  if (!InSim()) { static auto real = (int (*)(FILE *))RealSym("fclose"); return real(f); }
  { Enter e; g_files.erase(f); P()->files.erase(f); }
  static auto real = (int (*)(FILE *))RealSym("fclose");
  return real(f);
}
EXPORT int fileno(FILE *f) noexcept {
  static auto real = (int (*)(FILE *))RealSym("fileno");
  if (!InSim()) return real(f);
  if (f == stdout) return 1;
  if (f == stderr) return 2;
  auto it = g_files.find(f);
  if (it != g_files.end()) return it->second->fd;
  return real(f);
}
EXPORT int fflush(FILE *f) {
  static auto real = (int (*)(FILE *))RealSym("fflush");
  if (!InSim()) return real(f);
  bool ok = true;
  if (f == stdout || !f) ok = FlushStdout(P());
  if (f == stdout || f == stderr) return ok ? 0 : EOF;
  if (!f) {
    std::vector<FILE *> v;
    { Enter e; for (void *x : P()->files) v.push_back((FILE *)x); }
    for (FILE *x : v) if (real(x) != 0) ok = false;
    return ok ? 0 : EOF;
  }
  return real(f);
}
namespace sim {
bool FlushStdout(Process *p) {
  if (p->stdout_buf.empty()) return true;
  std::string b;
  { Enter e; b.swap(p->stdout_buf); }
  size_t done = 0;
  while (done < b.size()) {
    const ssize_t r = ::write(1, b.data() + done, b.size() - done);
    if (r < 0) { p->stdout_error = true; return false; }
    done += r;
  }
  return true;
}
void FlushFiles(Process *p) {
  static auto real = (int (*)(FILE *))RealSym("fflush");
  std::vector<FILE *> v;
  { Enter e; for (void *x : p->files) v.push_back((FILE *)x); }
  for (FILE *x : v) real(x);
}
bool StdWrite(int which, const char *s, size_t n) {
  Process *p = P();
  if (which == 2) {
    if (tl_cur->depth) { p->err.append(s, n); return true; }
    size_t done = 0;
    while (done < n) {
      const ssize_t r = ::write(2, s + done, n - done);
      if (r < 0) return false;
      done += r;
    }
    return true;
  }
  { Enter e; p->stdout_buf.append(s, n); }
  if (p->stdout_buf.size() >= 4096 || p->tty) return FlushStdout(p);
  return true;
}
}  // namespace sim

// ------------------------------------------------------------- subprocesses
namespace sim { std::function<int(const std::string &cmd, std::string *capture)> g_shell; }
static Process *StartShell(const std::string &cmd, std::string *capture) {
  SpawnArgs a;
  a.argv = {"sh"};
  a.env = P()->env;
  a.cwd = "";
  a.ncpus = P()->ncpus;
  a.kill_children = P()->kill_children;
  return SpawnFn("sh", a, [cmd, capture]() { return g_shell ? g_shell(cmd, capture) : 127; }, P());
}
EXPORT int system(const char *cmd) {
  FWD(system, cmd);
  if (!cmd) return 1;
  Process *c;
  {
    Sys sys;
    if (int f = FaultAt("fork", cmd); f && f < 1000) {
      LogEvent("system", cmd, "", -1, f);
      return Err(f);
    }
    c = StartShell(cmd, nullptr);
    P()->in_system++;
    LogEvent("system", cmd, "", c->id, 0);
    while (!c->Done()) BlockOn(c);
    P()->in_system--;
    LogEvent("system-done", cmd, c->death, c->exit_code, c->state == Process::kExited ? 0 : 1);
  }
  Yield(1);
  return c->state == Process::kExited ? (c->exit_code << 8) : (c->exit_code & 0x7f);
}
EXPORT FILE *popen(const char *cmd, const char *mode) {
  FWD(popen, cmd, mode);
  auto *mem = new std::string;
  Process *c;
  {
    Sys sys;
    if (int f = FaultAt("fork", cmd); f && f < 1000) {
      LogEvent("popen", cmd, "", -1, f);
      errno = f;
      return nullptr;
    }
    c = StartShell(cmd, mem);
    LogEvent("popen", cmd, "", c->id, 0);
    while (!c->Done()) BlockOn(c);
    if (AllocFd(P()) < 0) { errno = EMFILE; return nullptr; }
  }
  FILE *f = MakeFile(-1, "r", mem);
  Enter e;
  g_files[f]->child = c;
  return f;
}
EXPORT int pclose(FILE *f) {
  FWD(pclose, f);
  Process *c = nullptr;
  { Enter e; auto it = g_files.find(f); if (it != g_files.end()) c = it->second->child; }
  fclose(f);
  if (!c) return Err(ECHILD);
  return c->state == Process::kExited ? (c->exit_code << 8) : (c->exit_code & 0x7f);
}
EXPORT pid_t getpid(void) {
  if (!InSim()) { static auto real = (pid_t(*)())RealSym("getpid"); return real(); }
  return 1000 + P()->id;
}
EXPORT pid_t getppid(void) {
  if (!InSim()) { static auto real = (pid_t(*)())RealSym("getppid"); return real(); }
  return P()->parent ? 1000 + P()->parent->id : 1;
}
EXPORT pid_t gettid(void) {
  if (!InSim()) { static auto real = (pid_t(*)())RealSym("gettid"); return real(); }
  return 5000 + tl_cur->id;
}
EXPORT uid_t getuid(void) { if (!InSim()) { static auto real = (uid_t(*)())RealSym("getuid"); return real(); } return 1000; }
EXPORT uid_t geteuid(void) { if (!InSim()) { static auto real = (uid_t(*)())RealSym("geteuid"); return real(); } return 1000; }
EXPORT int gethostname(char *n, size_t l) { if (!InSim()) { static auto real = (int (*)(char *, size_t))RealSym("gethostname"); return real(n, l); } snprintf(n, l, "simhost"); return 0; }
EXPORT char *getenv(const char *n) {
  if (!InSim()) { static auto real = (char *(*)(const char *))RealSym("getenv"); return real(n); }
  Enter e;
  auto it = P()->env.find(n);
  return it == P()->env.end() ? nullptr : it->second.data();
}
EXPORT char *secure_getenv(const char *n) { return getenv(n); }
EXPORT int setenv(const char *n, const char *v, int ov) {
  FWD(setenv, n, v, ov);
  Enter e;
  if (ov || !P()->env.count(n)) P()->env[n] = v;
  return 0;
}
EXPORT void exit(int code) {
  if (!InSim()) { static auto real = (void (*)(int))RealSym("exit"); real(code); __builtin_unreachable(); }
  DoExit(code);
}
EXPORT void _exit(int code) {
  if (!InSim()) { static auto real = (void (*)(int))RealSym("_exit"); real(code); __builtin_unreachable(); }
  tl_cur->depth++;
  ExitCurrentProcess(code, false, "_exit");
}
EXPORT void _Exit(int code) { _exit(code); }
EXPORT void quick_exit(int code) { _exit(code); }
EXPORT void abort(void) {
  if (!InSim()) { static auto real = (void (*)())RealSym("abort"); real(); __builtin_unreachable(); }
  tl_cur->depth++;
  ExitCurrentProcess(6, true, "abort");
}
EXPORT void __assert_fail(const char *a, const char *f, unsigned l, const char *fn) noexcept {
  if (!InSim()) { static auto real = (void (*)(const char *, const char *, unsigned, const char *))RealSym("__assert_fail"); real(a, f, l, fn); __builtin_unreachable(); }
  tl_cur->depth++;
  ExitCurrentProcess(6, true, std::string("assertion ") + a);
}
EXPORT int __cxa_atexit(void (*fn)(void *), void *arg, void *dso) noexcept {
  static auto real = (int (*)(void (*)(void *), void *, void *))RealSym("__cxa_atexit");
  if (tl_cur && tl_cur->depth > 0) return real(fn, arg, dso);  // a static of the simulator
  if (tl_cur && tl_cur->proc->so_base) {
    Enter e;
    tl_cur->proc->atexit.push_back({fn, arg});
    return 0;
  }
  Dl_info di;
  if (dso && dladdr(dso, &di) && di.dli_fname && strstr(di.dli_fname, "/img-")) {
    RegisterEarlyAtExit(di.dli_fbase, {fn, arg});
    return 0;
  }
  return real(fn, arg, dso);
}
EXPORT int atexit(void (*fn)(void)) noexcept {
  if (InSim()) { Enter e; tl_cur->proc->atexit.push_back({(void (*)(void *))fn, nullptr}); return 0; }
  return __cxa_atexit((void (*)(void *))fn, nullptr, nullptr);
}
EXPORT int raise(int sig) noexcept {
  if (!InSim()) { static auto real = (int (*)(int))RealSym("raise"); return real(sig); }
  tl_cur->depth++;
  ExitCurrentProcess(sig, true, "raise");
}
EXPORT int kill(pid_t p, int sig) noexcept {
  if (!InSim()) { static auto real = (int (*)(pid_t, int))RealSym("kill"); return real(p, sig); }
  if (p == getpid()) return raise(sig);
  return Err(EPERM);
}
EXPORT sighandler_t signal(int s, sighandler_t h) noexcept {
  if (!InSim()) { static auto real = (sighandler_t(*)(int, sighandler_t))RealSym("signal"); return real(s, h); }
  Enter e;
  sighandler_t &cur = P()->sig[s];
  const sighandler_t old = cur;
  cur = h;
  return old;
}
EXPORT int sigaction(int s, const struct sigaction *a, struct sigaction *o) noexcept {
  if (!InSim()) { static auto real = (int (*)(int, const struct sigaction *, struct sigaction *))RealSym("sigaction"); return real(s, a, o); }
  Enter e;
  sighandler_t &cur = P()->sig[s];
  if (o) { memset(o, 0, sizeof *o); o->sa_handler = cur; }
  if (a) cur = a->sa_handler;
  return 0;
}
EXPORT pid_t fork(void) { if (!InSim()) { static auto real = (pid_t(*)())RealSym("fork"); return real(); } return Err(ENOSYS); }
EXPORT pid_t vfork(void) { return fork(); }
EXPORT int get_nprocs(void) noexcept { if (!InSim()) { static auto real = (int (*)())RealSym("get_nprocs"); return real(); } return P()->ncpus; }
EXPORT int get_nprocs_conf(void) noexcept { return get_nprocs(); }
EXPORT long sysconf(int n) noexcept {
  if (!InSim()) { static auto real = (long (*)(int))RealSym("sysconf"); return real(n); }
  if (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF) return P()->ncpus;
  if (n == _SC_OPEN_MAX) return P()->max_fds;
  static auto real = (long (*)(int))RealSym("sysconf");
  return real(n);
}
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) noexcept {
  if (!InSim()) { static auto real = (int (*)(pid_t, size_t, cpu_set_t *))RealSym("sched_getaffinity"); return real(pid, sz, set); }
  CPU_ZERO_S(sz, set);
  for (int i = 0; i < P()->ncpus; ++i) CPU_SET_S(i, sz, set);
  return 0;
}
EXPORT int getrlimit(__rlimit_resource_t r, struct rlimit *l) noexcept {
  if (!InSim()) { static auto real = (int (*)(int, struct rlimit *))RealSym("getrlimit"); return real(r, l); }
  l->rlim_cur = l->rlim_max = r == RLIMIT_NOFILE ? P()->max_fds : RLIM_INFINITY;
  return 0;
}

// ------------------------------------------------------------------- clocks
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (!InSim()) { static auto real = (int (*)(clockid_t, struct timespec *))RealSym("clock_gettime"); return real(id, ts); }
  S->now_ns += 137;
  const int64_t t = id == CLOCK_REALTIME ? S->now_ns : S->now_ns - 1'600'000'000'000'000'000;
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
EXPORT time_t time(time_t *t) noexcept {
  if (!InSim()) { static auto real = (time_t(*)(time_t *))RealSym("time"); return real(t); }
  const time_t r = S->now_ns / 1000000000;
  if (t) *t = r;
  return r;
}
EXPORT int gettimeofday(struct timeval *tv, void *) noexcept {
  if (!InSim()) { static auto real = (int (*)(struct timeval *, void *))RealSym("gettimeofday"); return real(tv, nullptr); }
  tv->tv_sec = S->now_ns / 1000000000;
  tv->tv_usec = S->now_ns / 1000 % 1000000;
  return 0;
}
static int SleepUntil(int64_t t) {
  Yield(2);
  Enter e;
  tl_cur->wake_ns = t;
  BlockOn(&tl_cur->wake_ns);
  return 0;
}
EXPORT int nanosleep(const struct timespec *a, struct timespec *b) {
  FWD(nanosleep, a, b);
  return SleepUntil(S->now_ns + a->tv_sec * 1000000000ll + a->tv_nsec);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  FWD(clock_nanosleep, c, fl, a, b);
  int64_t t = a->tv_sec * 1000000000ll + a->tv_nsec;
  if (!(fl & TIMER_ABSTIME)) t += S->now_ns;
  else if (c != CLOCK_REALTIME) t += 1'600'000'000'000'000'000;
  return SleepUntil(t);
}
EXPORT int usleep(useconds_t u) { FWD(usleep, u); return SleepUntil(S->now_ns + u * 1000ll); }
EXPORT unsigned sleep(unsigned s) { FWD(sleep, s); SleepUntil(S->now_ns + s * 1000000000ll); return 0; }
EXPORT int sched_yield(void) noexcept {
  if (!InSim()) { static auto real = (int (*)())RealSym("sched_yield"); return real(); }
  // A polite spin: others get a turn after a while.
  Yield(2);
  return SleepUntil(S->now_ns + 10000);
}
EXPORT ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!InSim()) { static auto real = (ssize_t(*)(void *, size_t, unsigned))RealSym("getrandom"); return real(b, n, fl); }
  for (size_t i = 0; i < n; ++i) ((char *)b)[i] = (char)Mix(S->now_ns, i);
  return n;
}
EXPORT int getentropy(void *b, size_t n) { if (!InSim()) { static auto real = (int (*)(void *, size_t))RealSym("getentropy"); return real(b, n); } getrandom(b, n, 0); return 0; }
EXPORT uint32_t arc4random(void) noexcept { if (!InSim()) { static auto real = (uint32_t(*)())RealSym("arc4random"); return real(); } return (uint32_t)Mix(S->now_ns, S->steps); }

// ------------------------------------------------------------------- threads
static std::map<unsigned long, Thread *> *g_by_real = nullptr;
static Thread *ByReal(pthread_t t) {
  for (auto &x : S->threads) if (x->real == t) return x.get();
  return nullptr;
}
EXPORT int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))RealSym("pthread_create"); return real(out, attr, fn, arg); }
  Thread *t;
  {
    Sys sys;
    if (int c = FaultAt("thread", "create"); c && c < 1000) return c;
    t = SimThreadCreate(fn, arg);
    LogEvent("thread-create", "", "", t->id, 0);
    *out = t->real;
  }
  Yield(2);
  return 0;
}
EXPORT int pthread_join(pthread_t th, void **ret) {
  FWD(pthread_join, th, ret);
  Yield(2);
  Enter e;
  Thread *t = ByReal(th);
  if (!t) return ESRCH;
  if (t == tl_cur) return EDEADLK;
  LogEvent("join", "", "", t->id, 0);
  while (t->state != Thread::kDone) BlockOn(t);
  RaceAcquire(t);
  if (ret) *ret = t->retval;
  return 0;
}
EXPORT int pthread_detach(pthread_t th) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_t))RealSym("pthread_detach"); return real(th); }
  return 0;
}

struct Mtx { Thread *owner = nullptr; int count = 0; };
static std::map<const void *, Mtx> g_mtx;
static int MutexType(pthread_mutex_t *m) { return m->__data.__kind & 3; }
static int LockImpl(pthread_mutex_t *m, bool try_only, int64_t until = -1) {
  Enter e;
  for (;;) {
    Mtx &x = g_mtx[m];
    if (!x.owner || x.owner->state == Thread::kDone) {
      x.owner = tl_cur;
      x.count = 1;
      RaceAcquire(m);
      return 0;
    }
    if (x.owner == tl_cur) {
      if (MutexType(m) == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
      if (try_only) return EBUSY;
      if (MutexType(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
      // self deadlock: block forever
      BlockOn(m);
      continue;
    }
    if (try_only) return EBUSY;
    if (until >= 0) {
      if (S->now_ns >= until) return ETIMEDOUT;
      tl_cur->wake_ns = until;
    }
    BlockOn(m);
  }
}
static int UnlockImpl(pthread_mutex_t *m) {
  Enter e;
  auto it = g_mtx.find(m);
  if (it == g_mtx.end() || it->second.owner != tl_cur) {
    ReportSync("mutex unlocked by a thread which does not hold it");
    return EPERM;
  }
  if (--it->second.count > 0) return 0;
  RaceRelease(m);
  g_mtx.erase(it);
  WakeAll(m);
  return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_mutex_t *))RealSym("pthread_mutex_lock"); return real(m); }
  Yield(2);
  return LockImpl(m, false);
}
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_mutex_t *))RealSym("pthread_mutex_trylock"); return real(m); }
  Yield(2);
  return LockImpl(m, true);
}
static int64_t AbsNs(clockid_t c, const struct timespec *t) {
  int64_t v = t->tv_sec * 1000000000ll + t->tv_nsec;
  return c == CLOCK_REALTIME ? v : v + 1'600'000'000'000'000'000;
}
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) noexcept {
  Yield(2);
  return LockImpl(m, false, AbsNs(CLOCK_REALTIME, t));
}
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t c, const struct timespec *t) noexcept {
  Yield(2);
  return LockImpl(m, false, AbsNs(c, t));
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_mutex_t *))RealSym("pthread_mutex_unlock"); return real(m); }
  const int r = UnlockImpl(m);
  Yield(2);
  return r;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_mutex_t *))RealSym("pthread_mutex_destroy"); return real(m); }
  Enter e;
  if (g_mtx.count(m) && g_mtx[m].owner) { ReportSync("mutex destroyed while locked"); g_mtx.erase(m); }
  return 0;
}

struct CondWaiter { Thread *t; };
static std::map<const void *, std::vector<Thread *>> g_cond;
static int CondWait(pthread_cond_t *c, pthread_mutex_t *m, int64_t until) {
  Yield(2);
  {
    Enter e;
    auto it = g_mtx.find(m);
    if (it == g_mtx.end() || it->second.owner != tl_cur) ReportSync("condition wait without holding the mutex");
  }
  const int saved = [&] { Enter e; return g_mtx.count(m) ? g_mtx[m].count : 1; }();
  bool timed_out = false;
  {
    Enter e;
    g_cond[c].push_back(tl_cur);
    if (g_mtx.count(m)) { RaceRelease(m); g_mtx.erase(m); WakeAll(m); }
    tl_cur->signalled = false;
    int f = FaultAt("cond", "wait");
    if (f == kSpurious) {
      auto &v = g_cond[c];
      v.erase(std::remove(v.begin(), v.end(), tl_cur), v.end());
      tl_cur->depth--;
      Yield(2);
      tl_cur->depth++;
    } else {
      while (!tl_cur->signalled) {
        if (until >= 0) tl_cur->wake_ns = until;
        BlockOn(c);
        if (tl_cur->timed_out) { timed_out = true; break; }
      }
      auto &v = g_cond[c];
      v.erase(std::remove(v.begin(), v.end(), tl_cur), v.end());
    }
  }
  LockImpl(m, false);
  { Enter e; g_mtx[m].count = saved; }
  return timed_out ? ETIMEDOUT : 0;
}
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  FWD(pthread_cond_wait, c, m);
  return CondWait(c, m, -1);
}
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  FWD(pthread_cond_timedwait, c, m, t);
  return CondWait(c, m, AbsNs(CLOCK_REALTIME, t));
}
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  FWD(pthread_cond_clockwait, c, m, k, t);
  return CondWait(c, m, AbsNs(k, t));
}
static void WakeThread(Thread *t) {
  t->signalled = true;
  if (t->state == Thread::kBlocked) { t->state = Thread::kRunnable; t->wait_obj = nullptr; t->wake_ns = -1; }
}
EXPORT int pthread_cond_signal(pthread_cond_t *c) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_cond_t *))RealSym("pthread_cond_signal"); return real(c); }
  Yield(2);
  Enter e;
  auto it = g_cond.find(c);
  if (it == g_cond.end()) return 0;
  auto &v = it->second;
  while (!v.empty() && v.front()->state == Thread::kDone) v.erase(v.begin());
  if (v.empty()) return 0;
  // Any waiter may be woken: derive the choice from the schedule stream.
  size_t i = 0;
  if (v.size() > 1) {
    const auto key = std::make_pair(-tl_cur->id, tl_cur->local_step);
    if (S->replay) {
      auto f = S->switch_script.find(key);
      if (f != S->switch_script.end()) i = f->second % v.size();
    } else if (S->sched.mode != SchedConfig::kSerial) {
      i = S->srng.Below(v.size());
    }
    if (i) S->switches[key] = i;
  }
  WakeThread(v[i]);
  v.erase(v.begin() + i);
  return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_cond_t *))RealSym("pthread_cond_broadcast"); return real(c); }
  Yield(2);
  Enter e;
  auto it = g_cond.find(c);
  if (it == g_cond.end()) return 0;
  for (Thread *t : it->second) WakeThread(t);
  it->second.clear();
  return 0;
}
EXPORT int pthread_cond_destroy(pthread_cond_t *c) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_cond_t *))RealSym("pthread_cond_destroy"); return real(c); }
  Enter e;
  auto it = g_cond.find(c);
  if (it != g_cond.end()) {
    for (Thread *t : it->second) if (t->state == Thread::kBlocked) ReportSync("condition variable destroyed while a thread waits on it");
    g_cond.erase(it);
  }
  return 0;
}

struct Rw { Thread *writer = nullptr; int readers = 0; };
static std::map<const void *, Rw> g_rw;
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_rwlock_t *))RealSym("pthread_rwlock_rdlock"); return real(l); }
  Yield(2);
  Enter e;
  while (g_rw[l].writer) BlockOn(l);
  g_rw[l].readers++;
  RaceAcquire(l);
  return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_rwlock_t *))RealSym("pthread_rwlock_wrlock"); return real(l); }
  Yield(2);
  Enter e;
  while (g_rw[l].writer || g_rw[l].readers) BlockOn(l);
  g_rw[l].writer = tl_cur;
  RaceAcquire(l);
  return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_rwlock_t *))RealSym("pthread_rwlock_tryrdlock"); return real(l); }
  Yield(2);
  Enter e;
  if (g_rw[l].writer) return EBUSY;
  g_rw[l].readers++;
  RaceAcquire(l);
  return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_rwlock_t *))RealSym("pthread_rwlock_trywrlock"); return real(l); }
  Yield(2);
  Enter e;
  if (g_rw[l].writer || g_rw[l].readers) return EBUSY;
  g_rw[l].writer = tl_cur;
  RaceAcquire(l);
  return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) noexcept {
  if (!InSim()) { static auto real = (int (*)(pthread_rwlock_t *))RealSym("pthread_rwlock_unlock"); return real(l); }
  {
    Enter e;
    Rw &r = g_rw[l];
    RaceRelease(l);
    if (r.writer == tl_cur) r.writer = nullptr;
    else if (r.readers > 0) r.readers--;
    else ReportSync("rwlock unlocked while not held");
    WakeAll(l);
  }
  Yield(2);
  return 0;
}
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *l) noexcept { Enter e; return 0; }

EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void)) {
  if (!InSim()) { static auto real = (int (*)(pthread_once_t *, void (*)(void)))RealSym("pthread_once"); return real(o, fn); }
  static std::map<const void *, Thread *> running;
  for (;;) {
    Yield(2);
    if (*o == 2) { Enter e; RaceAcquire(o); return 0; }
    {
      Enter e;
      auto it = running.find(o);
      if (it != running.end()) { BlockOn(o); continue; }
      running[o] = tl_cur;
    }
    try {
      fn();
    } catch (...) {
      { Enter e; running.erase(o); WakeAll(o); }
      throw;
    }
    Enter e;
    *o = 2;
    RaceRelease(o);
    running.erase(o);
    WakeAll(o);
    return 0;
  }
}

// One-time initialisation of function-local statics.
static std::map<const void *, Thread *> *g_guards = nullptr;
EXPORT int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
  if (*(char *)g) { if (tl_cur) { Enter e; RaceAcquire(g); } return 0; }
  if (!tl_cur) return 1;
  for (;;) {
    if (tl_cur->depth == 0) Yield(2);
    if (*(char *)g) { Enter e; RaceAcquire(g); return 0; }
    Enter e;
    if (!g_guards) g_guards = new std::map<const void *, Thread *>;
    auto it = g_guards->find(g);
    if (it == g_guards->end()) { (*g_guards)[g] = tl_cur; return 1; }
    if (it->second == tl_cur) ReportSync("recursive initialisation of a static");
    BlockOn(g);
  }
}
EXPORT void __cxa_guard_release(__cxxabiv1::__guard *g) {
  if (!tl_cur) { *(char *)g = 1; return; }
  {
    Enter e;
    RaceRelease(g);
    *(char *)g = 1;
    if (g_guards) g_guards->erase(g);
    WakeAll(g);
  }
}
EXPORT void __cxa_guard_abort(__cxxabiv1::__guard *g) {
  if (!tl_cur) return;
  Enter e;
  if (g_guards) g_guards->erase(g);
  WakeAll(g);
}

EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a[6];
  for (auto &x : a) x = va_arg(ap, long);
  va_end(ap);
  if (!InSim()) { static auto real = (long (*)(long, ...))RealSym("syscall"); return real(n, a[0], a[1], a[2], a[3], a[4], a[5]); }
  if (n == SYS_futex) {
    int *addr = (int *)a[0];
    const int op = (int)a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      Yield(2);
      Enter e;
      if (*addr != (int)a[2]) return Err(EAGAIN);
      if (a[3]) {
        auto *ts = (const struct timespec *)a[3];
        int64_t t = ts->tv_sec * 1000000000ll + ts->tv_nsec;
        tl_cur->wake_ns = op == FUTEX_WAIT ? S->now_ns + t : t + 1'600'000'000'000'000'000;
      }
      BlockOn(addr);
      RaceAcquire(addr);
      return tl_cur->timed_out ? Err(ETIMEDOUT) : 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      Enter e;
      RaceRelease(addr);
      int woken = 0;
      for (auto &t : S->threads)
        if (woken < a[2] && t->state == Thread::kBlocked && t->wait_obj == addr) {
          t->state = Thread::kRunnable; t->wait_obj = nullptr; t->wake_ns = -1; ++woken;
        }
      return woken;
    }
    return Err(ENOSYS);
  }
  if (n == SYS_gettid) return 5000 + tl_cur->id;
  return Err(ENOSYS);
}

// ------------------------------------------------------------------- getopt
// GNU getopt semantics (permuting), with the state in the simulated process.
static void Exchange(Process *p, char **argv) {
  int bottom = p->first_nonopt, middle = p->last_nonopt, top = optind;
  std::rotate(argv + bottom, argv + middle, argv + top);
  p->first_nonopt += top - middle;
  p->last_nonopt = top;
}
EXPORT int getopt(int argc, char *const *argv_in, const char *spec) noexcept {
  if (!InSim()) { static auto real = (int (*)(int, char *const *, const char *))RealSym("getopt"); return real(argc, argv_in, spec); }
  Process *p = P();
  char **argv = const_cast<char **>(argv_in);
  if (!p->getopt_init) { if (optind == 0) optind = 1; p->first_nonopt = p->last_nonopt = optind; p->nextchar = nullptr; p->getopt_init = true; }
  optarg = nullptr;
  if (!p->nextchar || !*p->nextchar) {
    if (p->last_nonopt > optind) p->last_nonopt = optind;
    if (p->first_nonopt > optind) p->first_nonopt = optind;
    if (p->first_nonopt != p->last_nonopt && p->last_nonopt != optind) Exchange(p, argv);
    else if (p->last_nonopt != optind) p->first_nonopt = optind;
    while (optind < argc && (argv[optind][0] != '-' || argv[optind][1] == '\0')) ++optind;
    p->last_nonopt = optind;
    if (optind != argc && strcmp(argv[optind], "--") == 0) {
      ++optind;
      if (p->first_nonopt != p->last_nonopt && p->last_nonopt != optind) Exchange(p, argv);
      else if (p->first_nonopt == p->last_nonopt) p->first_nonopt = optind;
      p->last_nonopt = argc;
      optind = argc;
    }
    if (optind == argc) {
      if (p->first_nonopt != p->last_nonopt) optind = p->first_nonopt;
      return -1;
    }
    p->nextchar = argv[optind] + 1;
  }
  const char c = *p->nextchar++;
  const char *s = strchr(spec, c);
  if (!*p->nextchar) ++optind;
  if (!s || c == ':') {
    if (opterr) { std::string m = std::string(argv[0]) + ": invalid option -- '" + c + "'\n"; ::write(2, m.data(), m.size()); }
    optopt = c;
    return '?';
  }
  if (s[1] == ':') {
    if (s[2] == ':') {
      if (*p->nextchar) { optarg = p->nextchar; ++optind; }
      p->nextchar = nullptr;
    } else {
      if (*p->nextchar) { optarg = p->nextchar; ++optind; }
      else if (optind == argc) {
        if (opterr) { std::string m = std::string(argv[0]) + ": option requires an argument -- '" + c + "'\n"; ::write(2, m.data(), m.size()); }
        optopt = c;
        p->nextchar = nullptr;
        return spec[0] == ':' ? ':' : '?';
      } else optarg = argv[optind++];
      p->nextchar = nullptr;
    }
  }
  return c;
}
