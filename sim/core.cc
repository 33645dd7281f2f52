#include "core.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <iostream>
#include <streambuf>

namespace sim {
Sim *S = nullptr;
thread_local Thread *tl_cur = nullptr;
static Thread g_ctl;                       // controller
static Thread *g_running = &g_ctl;
static std::vector<Process *> g_targets;   // controller waits for these
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *,
                                  void *(*)(void *), void *);

// ---------------------------------------------------------------- randomness
static uint64_t Splitmix(uint64_t *x) {
  uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
uint64_t Mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9e3779b97f4a7c15ull + b + 0x1234567;
  Splitmix(&x);
  return Splitmix(&x);
}
uint64_t HashStr(std::string_view s) {
  uint64_t h = 14695981039346656037ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
void Rng::Seed(uint64_t seed) { s[0] = Splitmix(&seed); s[1] = Splitmix(&seed); }
uint64_t Rng::Next() {
  uint64_t a = s[0], b = s[1];
  s[0] = b;
  a ^= a << 23;
  s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
  return s[1] + b;
}
uint32_t Draws::Below(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replay) {
    v = pos < rec.size() ? rec[pos] : 0;
    if (v >= n) v = n - 1;
    ++pos;
    return v;
  }
  v = rng.Below(n);
  rec.push_back(v);
  ++pos;
  return v;
}
bool Draws::Chance(uint32_t percent) {
  if (percent == 0) return false;
  // 0 must mean false: v in [0,100), true if v >= 100-percent.
  return Below(100) >= 100 - percent;
}

// ---------------------------------------------------------------- baton
static long RawFutex(int *addr, int op, int val) {
  long ret;
  register long r10 asm("r10") = 0;
  asm volatile("syscall" : "=a"(ret)
               : "0"((long)SYS_futex), "D"(addr), "S"((long)op), "d"((long)val), "r"(r10)
               : "rcx", "r11", "memory");
  return ret;
}
static void Post(Thread *t) {
  __atomic_store_n(&t->sem, 1, __ATOMIC_RELEASE);
  RawFutex(&t->sem, FUTEX_WAKE_PRIVATE, 1);
}
static void WaitTurn(Thread *t) {
  while (__atomic_load_n(&t->sem, __ATOMIC_ACQUIRE) == 0) RawFutex(&t->sem, FUTEX_WAIT_PRIVATE, 0);
  __atomic_store_n(&t->sem, 0, __ATOMIC_RELAXED);
}
[[noreturn]] static void ParkForever() {
  static int never = 0;
  for (;;) RawFutex(&never, FUTEX_WAIT_PRIVATE, 0);
}

Enter::Enter() { if (tl_cur) ++tl_cur->depth; }
Enter::~Enter() { if (tl_cur) --tl_cur->depth; }
}  // namespace sim

extern "C" {  // getopt state lives in the executable, swapped per process
char *optarg = nullptr;
int optind = 1, opterr = 1, optopt = 0;
}

namespace sim {
static void SwapIn(Process *from, Process *to) {
  if (from == to) return;
  std::ios *const std_streams[] = {&std::cout, &std::cerr, &std::clog, &std::cin};
  for (int i = 0; i < 4; ++i) {
    std::ios &o = *std_streams[i];
    if (from) from->ios[i] = {(int)o.rdstate(), (int)o.flags(), (int)o.precision(), (int)o.width(), o.fill(), o.exceptions()};
    if (to) {
      const IosState &n = to->ios[i];
      o.exceptions(std::ios::goodbit);
      o.clear((std::ios::iostate)n.state);
      o.flags((std::ios::fmtflags)n.flags); o.precision(n.precision); o.width(n.width); o.fill(n.fill);
      o.exceptions((std::ios::iostate)n.exceptions);
    }
  }
  if (from) { from->optind_ = optind; from->optarg_ = optarg; from->optopt_ = optopt; from->opterr_ = opterr; }
  if (to) { optind = to->optind_; optarg = to->optarg_; optopt = to->optopt_; opterr = to->opterr_; }
}

static void HandTo(Thread *t) {
  Thread *me = g_running;
  if (t == me) return;
  SwapIn(me->proc, t->proc);
  g_running = t;
  S->n_switches++;
  S->sched_hash = Mix(S->sched_hash, (uint64_t)t->id * 1000003 + me->id);
  Post(t);
}

static bool TargetsDone() {
  for (Process *p : g_targets) if (!p->Done()) return false;
  return true;
}

// ------------------------------------------------------- choosing who is next
static std::vector<Thread *> Runnable() {
  std::vector<Thread *> r;
  for (auto &t : S->threads) if (t->state == Thread::kRunnable) r.push_back(t.get());
  return r;
}

static void LogHash(uint64_t v) { S->log_hash = Mix(S->log_hash, v); }

// Pick a successor when "me" cannot continue.
static Thread *PickForced(Thread *me) {
  for (;;) {
    std::vector<Thread *> r = Runnable();
    if (r.empty()) {
      // Advance simulated time to the earliest timer.
      Thread *best = nullptr;
      for (auto &t : S->threads)
        if (t->state == Thread::kBlocked && t->wake_ns >= 0 &&
            (!best || t->wake_ns < best->wake_ns)) best = t.get();
      if (!best) return nullptr;
      if (best->wake_ns > S->now_ns) S->now_ns = best->wake_ns;
      best->wake_ns = -1;
      best->timed_out = true;
      best->wait_obj = nullptr;
      best->state = Thread::kRunnable;
      continue;
    }
    if (r.size() == 1) return r[0];
    const auto key = std::make_pair(me->id, me->local_step);
    if (S->replay) {
      auto it = S->switch_script.find(key);
      if (it != S->switch_script.end())
        for (Thread *t : r) if (t->id == it->second) { S->switches[key] = t->id; return t; }
      return r[0];
    }
    Thread *pick = r[0];
    switch (S->sched.mode) {
      case SchedConfig::kSerial: break;
      case SchedConfig::kRandom: pick = r[S->srng.Below(r.size())]; break;
      case SchedConfig::kPct:
        for (Thread *t : r) if (t->priority > pick->priority) pick = t;
        break;
    }
    if (pick != r[0]) S->switches[key] = pick->id;
    return pick;
  }
}

static void StopRun() {  // give control back to the controller for good
  Thread *me = tl_cur;
  if (me) me->depth++;
  HandTo(&g_ctl);
  if (me) ParkForever();
}

// Current thread can not go on. Returns once it is scheduled again.
static void Reschedule(Thread *me) {
  Thread *next = PickForced(me);
  if (!next) {
    S->res.deadlock = true;
    std::string d;
    for (auto &t : S->threads)
      if (t->state == Thread::kBlocked)
        d += "p" + std::to_string(t->proc->id) + "/t" + std::to_string(t->id) + " blocked; ";
    S->res.deadlock_text = d;
    StopRun();
  }
  if (next == me) return;
  HandTo(next);
  WaitTurn(me);
}

static uint32_t g_mem_countdown = 0;
static std::vector<uint64_t> g_pct_points;
static int g_pct_low = -1;

static uint32_t NextMem() {
  const uint32_t m = S->sched.mem_every;
  if (!m) return ~0u;
  return 1 + S->srng.Below(2 * m);
}

static void KillTree(Process *p, const char *why) {
  if (p->Done()) return;
  p->state = Process::kKilled;
  p->exit_code = 9;
  p->death = why;
  for (auto &t : S->threads) if (t->proc == p) t->state = Thread::kDone;
  p->live_threads = 0;
  p->fds.clear();
  if (p->kill_children) for (Process *c : p->children) KillTree(c, "killed with parent");
  WakeAll(p);
}

// Our own allocations are not those of the code under test.
struct Inside {
  explicit Inside(Thread *t) : t(t) { t->depth++; }
  ~Inside() { t->depth--; }
  Thread *const t;
};

void Yield(int kind) {
  Thread *me = tl_cur;
  if (!me) return;
  const Inside inside(me);
  S->steps++;
  me->local_step++;
  if (S->steps > S->max_steps) {
    S->res.step_limit = true;
    StopRun();
  }
  Process *p = me->proc;
  if (kind == 1) {
    p->sys_count++;
    if (p->kill_at && p->sys_count == p->kill_at) {
      S->fault_counts["process-kill"]++;
      LogHash(0x6b696c6c + p->id);
      KillTree(p, "killed");
      if (TargetsDone()) { StopRun(); }
      Thread *next = PickForced(me);
      if (!next) StopRun();
      HandTo(next);
      ParkForever();
    }
  }
  if (kind != 0) LogHash(((uint64_t)me->id << 32) ^ kind);
  Thread *target = nullptr;
  const auto key = std::make_pair(me->id, me->local_step);
  if (S->replay) {
    auto it = S->switch_script.find(key);
    if (it != S->switch_script.end())
      for (auto &t : S->threads)
        if (t->id == it->second && t->state == Thread::kRunnable) target = t.get();
    if (!target && ++me->spin > 200000) {  // fairness, if the script has been shortened
      me->spin = 0;
      for (Thread *t : Runnable()) if (t != me && (!target || t->id > me->id)) target = t;
    }
  } else {
    bool want = false;
    switch (S->sched.mode) {
      case SchedConfig::kSerial: break;
      case SchedConfig::kRandom:
        if (kind == 0) {
          if (--g_mem_countdown == 0) { want = true; g_mem_countdown = NextMem(); }
        } else {
          want = S->srng.Chance(S->sched.p_sys);
        }
        if (want) {
          std::vector<Thread *> r = Runnable();
          if (r.size() > 1) target = r[S->srng.Below(r.size())];
        }
        break;
      case SchedConfig::kPct: {
        for (uint64_t pt : g_pct_points)
          if (pt == S->steps) me->priority = g_pct_low--;
        if (kind != 0 || me->spin % 64 == 0) {
          Thread *best = me;
          for (auto &t : S->threads)
            if (t->state == Thread::kRunnable && t->priority > best->priority) best = t.get();
          if (best != me) target = best;
        }
        break;
      }
    }
    if (target == me) target = nullptr;  // not recorded, so as if nothing was picked
    if (!target && ++me->spin > 200000) {  // unfair schedules must not look like hangs
      me->priority = g_pct_low--;
      std::vector<Thread *> r;
      for (Thread *t : Runnable()) if (t != me) r.push_back(t);
      if (!r.empty()) target = r[S->srng.Below(r.size())];
      me->spin = 0;
    }
  }
  if (target && target != me) {
    S->switches[key] = target->id;
    me->spin = 0;
    HandTo(target);
    WaitTurn(me);
  }
}

void OutOfWork() {
  S->res.step_limit = true;
  StopRun();
}

void AdvanceTime(int64_t ns) { S->now_ns += ns; }

void BlockOn(const void *obj) {
  Thread *me = tl_cur;
  const Inside inside(me);
  me->state = Thread::kBlocked;
  me->wait_obj = obj;
  me->timed_out = false;
  me->local_step++;
  me->spin = 0;
  S->steps++;
  Reschedule(me);
}

int Signal(Process *p, int sig) {
  if (p->Done()) return 0;
  LogEvent("signal", "", "", p->id, sig);
  if (p->in_system && (sig == SIGINT || sig == SIGQUIT)) return 0;
  auto it = p->sig.find(sig);
  if (it == p->sig.end() || it->second == SIG_DFL) { p->kill_at = p->sys_count + 1; return 2; }
  if (it->second == SIG_IGN) return 0;
  Thread *me = tl_cur;
  if (me) me->depth++;
  it->second(sig);
  if (me) me->depth--;
  return 1;
}

// Sleep until nothing else can happen any more (or a later timer is due).
void Stall() {
  Thread *me = tl_cur;
  me->wake_ns = S->now_ns + 2'000'000'000;
  BlockOn(&me->wake_ns);
  LogEvent("stalled", "", "", 0, 0);
}

void WakeAll(const void *obj) {
  for (auto &t : S->threads)
    if (t->state == Thread::kBlocked && t->wait_obj == obj) {
      t->state = Thread::kRunnable;
      t->wait_obj = nullptr;
      t->wake_ns = -1;
    }
}

// ---------------------------------------------------------------- events
void LogEvent(const char *kind, const std::string &path, const std::string &path2,
              int64_t ret, int err) {
  Thread *t = tl_cur;
  Event e;
  e.step = (uint32_t)S->steps;
  e.proc = t ? t->proc->id : -1;
  e.tid = t ? t->id : -1;
  e.kind = kind;
  e.path = path;
  e.path2 = path2;
  e.ret = ret;
  e.err = err;
  LogHash(HashStr(kind) ^ Mix(HashStr(path), HashStr(path2)) ^ Mix(ret, err) ^ Mix(e.proc, e.tid));
  if (S->on_event) S->on_event(e);
  if (S->keep_events) S->events.push_back(std::move(e));
}

int FaultAt(const char *kind, const std::string &path) {
  Thread *t = tl_cur;
  if (!t) return 0;
  auto what_of = [](int code) {
    return code < 1000 ? std::string(strerrorname_np(code) ? strerrorname_np(code) : "?")
           : code == kShort1 || code == kShortHalf || code == kShortButOne ? "short"
           : code == kEof || code == kEofHalf ? "premature-eof" : code == kErrHalf ? "error-midway"
           : code == kKillChild || code == kKillInt ? "signal-death"
           : code == kSpurious ? "spurious-wakeup" : code == kStall ? "stall"
           : code == kExit127 ? "not-startable" : code == kGrow ? "grows" : code == kDtypeUnknown ? "no-dtype"
           : code == kVanish ? "vanish" : "other";
  };
  if (S->env_fault) {
    static const std::string none;
    if (int code = S->env_fault(FaultSite{t->proc, kind, path, none})) {
      S->fault_counts[std::string(kind) + ":" + what_of(code)]++;
      LogHash(HashStr(path) + code);
      return code;
    }
  }
  if (!S->replay && !S->policy) return 0;
  std::string key = "p" + std::to_string(t->proc->id) + ":" + kind + ":" + path;
  const uint32_t occ = S->site_count[key]++;
  key += "#" + std::to_string(occ);
  int code = 0;
  if (S->replay) {
    auto it = S->fault_script.find(key);
    if (it != S->fault_script.end()) code = it->second;
  } else {
    code = S->policy(FaultSite{t->proc, kind, path, key});
  }
  if (code) {
    S->faults.emplace_back(key, code);
    S->fault_counts[std::string(kind) + ":" + what_of(code)]++;
    LogHash(HashStr(key) + code);
  }
  return code;
}

std::string AbsPath(Process *p, const std::string &path);

// ---------------------------------------------------------------- processes
static void *ThreadTrampoline(void *arg) {
  Thread *t = (Thread *)arg;
  WaitTurn(t);
  tl_cur = t;
  // Alternate signal stack, so that stack overflow is reported.
  stack_t ss{};
  ss.ss_size = 64 * 1024;
  ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, nullptr);
  if (t->entry) {
    t->entry();
  } else {
    void *r = nullptr;
    try {
      r = t->start(t->arg);
    } catch (...) {
      t->depth++;
      ExitCurrentProcess(6, true, "uncaught exception in thread");
    }
    t->depth++;
    t->retval = r;
    RaceRelease(t);
    t->state = Thread::kDone;
    t->proc->live_threads--;
    LogEvent("thread-exit", "", "", t->id, 0);
    WakeAll(t);
    t->local_step++;
    Thread *next = PickForced(t);
    if (!next) { S->res.deadlock = true; S->res.deadlock_text += " after thread exit;";
      for (auto &x : S->threads) if (x->state == Thread::kBlocked) S->res.deadlock_text += " t" + std::to_string(x->id);
      StopRun(); }
    HandTo(next);
    ParkForever();
  }
  return nullptr;
}

static Thread *NewThread(Process *p) {
  auto t = std::make_unique<Thread>();
  t->id = (int)S->threads.size() + 1;
  t->proc = p;
  t->priority = 1000 + (int)S->srng.Below(1000000);
  t->vc.Set(t->id, 1);
  p->live_threads++;
  S->threads.push_back(std::move(t));
  return S->threads.back().get();
}

static void StartReal(Thread *t, size_t stack_size) {
  if (!real_pthread_create)
    real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  void *stk = mmap(nullptr, stack_size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
  mprotect(stk, 4096, PROT_NONE);
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstack(&a, stk, stack_size);
  pthread_t r;
  if (real_pthread_create(&r, &a, ThreadTrampoline, t) != 0) {
    fprintf(stderr, "simulator: cannot create thread\n");
    _exit(86);
  }
  t->real = r;
  pthread_attr_destroy(&a);
}

Thread *SimThreadCreate(void *(*start)(void *), void *arg) {
  Thread *t = NewThread(tl_cur->proc);
  t->start = start;
  t->arg = arg;
  RaceOnThreadStart(t);
  StartReal(t, 8u << 20);
  return t;
}

static Process *NewProcess(const std::string &name, const SpawnArgs &a, Process *parent) {
  auto up = std::make_unique<Process>();
  Process *p = up.get();
  p->id = (int)S->procs.size() + 1;
  p->name = name;
  p->parent = parent;
  p->argv = a.argv;
  p->env = a.env;
  p->ncpus = a.ncpus;
  p->tty = a.tty;
  p->max_fds = a.max_fds;
  p->kill_at = a.kill_at;
  p->kill_children = a.kill_children;
  p->cwd = parent && a.cwd.empty() ? parent->cwd : S->fs.Lookup(a.cwd);
  for (auto &s : p->argv) p->argv_c.push_back(s.data());
  p->argv_c.push_back(nullptr);
  for (int i = 0; i < 3; ++i) {
    OpenFile f;
    f.std_stream = i == 0 ? 3 : i;
    f.path = i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>";
    f.flags = i ? O_WRONLY : O_RDONLY;
    p->fds[i] = f;
  }
  p->peak_fds = 3;
  if (parent) parent->children.push_back(p);
  S->procs.push_back(std::move(up));
  return p;
}

struct Instance { void *handle; void *base; int (*main_fn)(int, char **); };
struct Image { std::vector<Instance> inst; size_t next = 0; std::string so; };
static std::vector<std::pair<void *, ExitRec>> g_early_atexit;  // registered while loading

Image *LoadImages(const std::string &so, int copies, const char *scratch) {
  auto *img = new Image;
  img->so = so;
  std::string content;
  {
    FILE *f = fopen(so.c_str(), "rb");
    if (!f) { perror(so.c_str()); _exit(86); }
    char buf[1 << 16];
    size_t n;
    while ((n = fread(buf, 1, sizeof buf, f)) > 0) content.append(buf, n);
    fclose(f);
  }
  for (int i = 0; i < copies; ++i) {
    std::string path = std::string(scratch) + "/img-" + std::to_string(getpid()) + "-" + std::to_string(i) + "-" +
                       so.substr(so.rfind('/') + 1);
    FILE *f = fopen(path.c_str(), "wb");
    if (!f || fwrite(content.data(), 1, content.size(), f) != content.size()) { perror(path.c_str()); _exit(86); }
    fclose(f);
    void *h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(86); }
    unlink(path.c_str());
    Instance in;
    in.handle = h;
    in.main_fn = (int (*)(int, char **))dlsym(h, "main");
    struct link_map *lm = nullptr;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    in.base = (void *)lm->l_addr;
    Dl_info di;
    if (!in.main_fn || !dladdr((void *)in.main_fn, &di) || di.dli_fbase != in.base) {
      fprintf(stderr, "no main in %s\n", so.c_str());
      _exit(86);
    }
    img->inst.push_back(in);
  }
  return img;
}
int ImagesLeft(Image *i) { return (int)(i->inst.size() - i->next); }

static void RunAtExit(Process *p) {
  while (!p->atexit.empty()) {
    ExitRec r = p->atexit.back();
    p->atexit.pop_back();
    r.fn(r.arg);
  }
}
bool FlushStdout(Process *p);
void FlushFiles(Process *p);

[[noreturn]] void DoExit(int code) {
  Process *p = tl_cur->proc;
  { Enter e; LogEvent("exit-begin", "", "", code, 0); }
  RunAtExit(p);
  FlushFiles(p);
  FlushStdout(p);
  p->live_at_exit = p->live_threads - 1;
  tl_cur->depth++;
  ExitCurrentProcess(code, false, "");
}

Process *SpawnFn(const std::string &name, const SpawnArgs &args, std::function<int()> fn, Process *parent) {
  Process *p = NewProcess(name, args, parent);
  Thread *t = NewThread(p);
  t->is_main = true;
  if (tl_cur) RaceOnThreadStart(t);
  t->entry = [fn]() {
    int rc = fn();
    FlushStdout(tl_cur->proc);
    tl_cur->depth++;
    ExitCurrentProcess(rc, false, "");
  };
  StartReal(t, 1u << 20);
  return p;
}

Process *Spawn(Image *img, const SpawnArgs &args) {
  if (img->next >= img->inst.size()) { fprintf(stderr, "simulator: out of images\n"); _exit(86); }
  Instance &in = img->inst[img->next++];
  Process *p = NewProcess(args.argv.empty() ? "?" : args.argv[0], args, nullptr);
  p->dso = in.handle;
  p->so_base = in.base;
  for (auto &[base, rec] : g_early_atexit) if (base == in.base) p->atexit.push_back(rec);
  Thread *t = NewThread(p);
  t->is_main = true;
  auto main_fn = in.main_fn;
  t->entry = [p, main_fn]() {
    int rc = 0;
    try {
      rc = main_fn((int)p->argv.size(), p->argv_c.data());
    } catch (...) {
      tl_cur->depth++;
      ExitCurrentProcess(6, true, "uncaught exception");
    }
    DoExit(rc);
  };
  StartReal(t, 16u << 20);
  return p;
}

void ExitCurrentProcess(int code, bool signaled, const std::string &why) {
  Thread *me = tl_cur;
  Process *p = me->proc;
  p->state = signaled ? Process::kSignaled : Process::kExited;
  p->exit_code = signaled ? code : (code & 0xff);
  p->death = why;
  for (auto &t : S->threads) if (t->proc == p) t->state = Thread::kDone;
  p->live_threads = 0;
  for (auto &[fd, f] : p->fds) if (fd > 2) p->fds_at_exit.push_back(f.path);
  p->fds.clear();
  LogEvent("process-exit", "", why, p->exit_code, signaled);
  WakeAll(p);
  me->local_step++;
  if (TargetsDone()) StopRun();
  Thread *next = PickForced(me);
  if (!next) {
    S->res.deadlock = true;
    StopRun();
  }
  HandTo(next);
  ParkForever();
}

bool RunUntilDone(const std::vector<Process *> &procs) {
  if (S->res.step_limit || S->res.deadlock) return false;
  g_targets = procs;
  if (TargetsDone()) return true;
  g_ctl.local_step++;
  Thread *next = PickForced(&g_ctl);
  if (!next) { S->res.deadlock = true; return false; }
  HandTo(next);
  WaitTurn(&g_ctl);
  g_running = &g_ctl;
  return !S->res.step_limit && !S->res.deadlock;
}

void KillProcess(Process *p) { KillTree(p, "killed"); }

void WaitOrphans() {
  std::vector<Process *> rest;
  for (auto &p : S->procs) if (!p->Done()) rest.push_back(p.get());
  RunUntilDone(rest);
}

void SchedInit() {
  g_mem_countdown = NextMem();
  g_pct_points.clear();
  g_pct_low = -1;
  if (S->sched.mode == SchedConfig::kPct)
    for (int i = 0; i < S->sched.pct_depth; ++i) g_pct_points.push_back(1 + S->srng.Below(S->sched.pct_horizon));
}

void ReportSync(const std::string &what) {
  for (auto &r : S->res.races) if (r == what) return;
  if (S->res.races.size() < 20) S->res.races.push_back(what);
}

// ---------------------------------------------------------------- stdio
class DispatchBuf : public std::streambuf {
 public:
  explicit DispatchBuf(int which) : which_(which) {}
 protected:
  std::streamsize xsputn(const char *s, std::streamsize n) override { return Put(s, n) ? n : 0; }
  int overflow(int c) override {
    if (c == EOF) return 0;
    const char ch = (char)c;
    return Put(&ch, 1) ? c : EOF;
  }
  int sync() override;
  bool Put(const char *s, size_t n);
  int which_;
};
bool StdWrite(int which, const char *s, size_t n);  // intercept.cc
bool DispatchBuf::Put(const char *s, size_t n) {
  if (!tl_cur) { (void)!::fwrite(s, 1, n, ::stderr); return true; }
  return StdWrite(which_, s, n);
}
int DispatchBuf::sync() {
  if (!tl_cur || which_ != 1) return 0;
  return FlushStdout(tl_cur->proc) ? 0 : -1;
}
class EmptyBuf : public std::streambuf {};

FILE *g_real_stderr = nullptr;
static ssize_t StdCookieWrite(void *c, const char *b, size_t n) {
  if (!tl_cur) {
    const ssize_t r = ::fwrite(b, 1, n, g_real_stderr);
    fflush(g_real_stderr);
    return r;
  }
  return StdWrite((int)(intptr_t)c, b, n) ? (ssize_t)n : 0;
}

static void OnSignal(int sig, siginfo_t *si, void *uc) {
  // A real crash of the code under test. Report through S->fatal and stop.
  extern void FatalSignal(int, void *, void *);
  FatalSignal(sig, si->si_addr, uc);
}

void InitSimProcessWide() {
  static DispatchBuf out(1), err(2), log(2);
  static EmptyBuf in;
  std::cout.rdbuf(&out);
  std::cerr.rdbuf(&err);
  std::clog.rdbuf(&log);
  std::cin.rdbuf(&in);
  g_real_stderr = stderr;
  cookie_io_functions_t io{};
  io.write = StdCookieWrite;
  FILE *fo = fopencookie((void *)1, "w", io);
  FILE *fe = fopencookie((void *)2, "w", io);
  setvbuf(fo, nullptr, _IONBF, 0);
  setvbuf(fe, nullptr, _IONBF, 0);
  __fsetlocking(fo, FSETLOCKING_BYCALLER);  // shared by simulated processes, no lock across a context switch
  __fsetlocking(fe, FSETLOCKING_BYCALLER);
  stdout = fo;
  stderr = fe;
  struct sigaction sa{};
  sa.sa_sigaction = OnSignal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP}) sigaction(s, &sa, nullptr);
}

void RegisterEarlyAtExit(void *base, ExitRec r) { g_early_atexit.emplace_back(base, r); }
}  // namespace sim
