// Driver: runs simulated executions in forked children, one per seed.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#include <algorithm>
#include <set>
#include <string>
#include <unordered_set>

#include "harness.h"

using namespace sim;
Image *g_tidy = nullptr, *g_bant = nullptr;
namespace sim { extern FILE *g_real_stderr; }
static volatile sig_atomic_t g_stop = 0;
static FILE *g_out = nullptr;  // real stdout
extern "C" uint32_t sim_hash_seed() { return S ? S->hash_seed : 0; }

static double Now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}
std::string Clip(const std::string &s, size_t n) {
  if (s.size() <= n) return s;
  return s.substr(0, n) + "...[" + std::to_string(s.size()) + " bytes]";
}
static std::string Esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c == '\\') r += "\\\\";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += c;
  }
  return r;
}
static std::string Unesc(const std::string &s) {
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
    ++i;
    if (s[i] == 'n') r += '\n';
    else if (s[i] == 't') r += '\t';
    else if (s[i] == 'x' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
    else r += s[i];
  }
  return r;
}

// What a run is made from.
struct Script {
  std::string prop;
  bool thorough = false;
  bool replay = false;
  uint64_t seed = 0;
  std::vector<uint32_t> w;
  std::map<std::string, int> faults;
  std::map<std::pair<int, uint64_t>, int> switches;
};
struct Outcome {
  bool ok = false;   // child delivered a result
  std::vector<Violation> violations;
  uint64_t log_hash = 0, sched_hash = 0, state_hash = 0, steps = 0, nswitch = 0, mem = 0, simtime = 0, events = 0;
  bool nontrivial = false;
  std::map<std::string, uint64_t> faults, probes;
  std::string sample, trace, error;
  Script rec;
};

static Ctx *g_ctx = nullptr;
static int g_pipe = -1;
static bool g_want_trace = false, g_want_rec = true;

static void Emit() {
  std::string o;
  auto line = [&](const std::string &s) { o += s; o += '\n'; };
  Ctx &c = *g_ctx;
  for (auto &v : c.violations) line("V\t" + v.prop + "\t" + Esc(v.cls) + "\t" + Esc(v.detail));
  char b[512];
  uint64_t h = Mix(S->log_hash, S->sched_hash);
  for (auto &v : c.violations) h = Mix(h, HashStr(v.cls));
  snprintf(b, sizeof b, "H\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%llu\t%d\t%llu", (unsigned long long)h,
           (unsigned long long)S->sched_hash, (unsigned long long)Mix(c.state_hash, S->sched_hash), (unsigned long long)S->steps,
           (unsigned long long)S->n_switches, (unsigned long long)S->mem_accesses,
           (unsigned long long)(S->now_ns - S->start_ns), (int)c.nontrivial, (unsigned long long)S->events.size());
  line(b);
  for (auto &[k, n] : S->fault_counts) line("F\t" + Esc(k) + "\t" + std::to_string(n));
  for (auto &[k, n] : c.probes) line("P\t" + Esc(k) + "\t" + std::to_string(n));
  line("S\t" + Esc(c.sample));
  if (g_want_rec) {
    std::string w = "W";
    for (auto v : c.W.rec) w += "\t" + std::to_string(v);
    line(w);
    for (auto &[k, code] : S->faults) line("X\t" + Esc(k) + "\t" + std::to_string(code));
    for (auto &[k, t] : S->switches)
      line("T\t" + std::to_string(k.first) + "\t" + std::to_string(k.second) + "\t" + std::to_string(t));
  }
  if (g_want_trace) {
    for (auto &e : S->events) {
      line("E\t" + Esc(std::to_string(e.step) + " p" + std::to_string(e.proc) + "/t" + std::to_string(e.tid) + " " + e.kind +
           " " + e.path + (e.path2.empty() ? "" : " [" + e.path2 + "]") + " = " + std::to_string(e.ret) +
           (e.err ? std::string(" ") + strerror(e.err) : "")));
    }
    for (auto &p : S->procs)
      line("E\t" + Esc("process " + std::to_string(p->id) + " " + p->name + " state=" + std::to_string(p->state) + " code=" +
                       std::to_string(p->exit_code) + " " + p->death + "\n--stdout--\n" + p->out + "\n--stderr--\n" + p->err));
    for (auto &[path, v] : S->fs.Snapshot("/"))
      if (v.rfind("F", 0) == 0 && v.size() < 3000 && path.find("/sim") != 0) line("E\t" + Esc("at the end: " + path + "\n" + v.substr(1)));
  }
  line("Z");
  size_t done = 0;
  while (done < o.size()) {
    ssize_t r = ::write(g_pipe, o.data() + done, o.size() - done);
    if (r <= 0) break;
    done += r;
  }
}

namespace sim {
void FatalSignal(int sig, void *addr, void *ucv) {
  if (tl_cur) tl_cur->depth += 1000;
  void *pc = (void *)((ucontext_t *)ucv)->uc_mcontext.gregs[REG_RIP];
  Dl_info di{};
  std::string where = "?";
  if (dladdr(pc, &di)) {
    const bool ours = di.dli_fname && strstr(di.dli_fname, "/img-");
    where = std::string(di.dli_sname ? di.dli_sname : "?") + DescribePc(pc);
    if (!ours && !(tl_cur && di.dli_fname && (strstr(di.dli_fname, "libc") || strstr(di.dli_fname, "libstdc++")))) where = "harness:" + where;
  }
  if (!g_ctx) _exit(87);
  g_ctx->Violate(g_ctx->crash_prop.empty() ? g_ctx->prop : g_ctx->crash_prop,
                 std::string("crash-") + (sigabbrev_np(sig) ? sigabbrev_np(sig) : "?"),
                 "code under test died from signal " + std::to_string(sig) + " at " + where + " address " +
                   std::to_string((uintptr_t)addr));
  if (where.rfind("harness:", 0) == 0 || !tl_cur) g_ctx->Violate("HARNESS", "crash", where);
  Emit();
  _exit(0);
}
}  // namespace sim

static void OnCpuLimit(int) {
  static int once = 0;
  if (once++) return;
  if (!g_ctx) _exit(88);
  if (tl_cur) tl_cur->depth += 1000;
  g_ctx->Violate(g_ctx->crash_prop.empty() ? g_ctx->prop : g_ctx->crash_prop, "endless-loop",
                 "no end of the computation in sight (cpu limit of one run exceeded)");
  Emit();
  _exit(0);
}

static void ChildMain(const Script &sc, int fd) {
  g_pipe = fd;
  S = new Sim;
  S->fs.Reset();
  S->replay = sc.replay;
  Ctx ctx;
  g_ctx = &ctx;
  ctx.prop = sc.prop;
  ctx.thorough = sc.thorough;
  S->srng.Seed(Mix(sc.seed, 1));
  S->frng.Seed(Mix(sc.seed, 2));
  ctx.W.rng.Seed(Mix(sc.seed, 3));
  if (sc.replay) {
    ctx.W.replay = true;
    ctx.W.rec = sc.w;
    S->fault_script = sc.faults;
    S->switch_script = sc.switches;
  }
  signal(SIGVTALRM, OnCpuLimit);
  struct itimerval tv{};
  tv.it_value.tv_sec = 30;
  setitimer(ITIMER_VIRTUAL, &tv, nullptr);
  for (auto &ps : kScenarios)
    if (sc.prop == ps.prop) { ps.fn(ctx); break; }
  HeapCheck();
  for (auto &r : S->res.races)
    if (r.rfind("heap error", 0) == 0) ctx.Violate(ctx.crash_prop.empty() ? ctx.prop : ctx.crash_prop, "heap-error", r);
  if (S->res.step_limit)
    ctx.Violate(ctx.crash_prop.empty() ? ctx.prop : ctx.crash_prop, "no-termination",
                "execution did not end within the step bound (" + std::to_string(S->steps) + " steps)");
  Emit();
  _exit(0);
}

static Outcome Run(const Script &sc) {
  Outcome out;
  int p[2];
  if (pipe(p) != 0) { out.error = "pipe"; return out; }
  fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    signal(SIGTERM, SIG_DFL);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    ChildMain(sc, p[1]);
    _exit(0);
  }
  close(p[1]);
  std::string data;
  char buf[65536];
  const double t0 = Now();
  bool timeout = false;
  for (;;) {
    struct pollfd pf{p[0], POLLIN, 0};
    int r = poll(&pf, 1, 1000);
    if (r < 0 && errno == EINTR) continue;
    if (r == 0) { if (Now() - t0 > 180) { timeout = true; break; } continue; }
    ssize_t n = read(p[0], buf, sizeof buf);
    if (n < 0 && errno == EINTR) continue;
    if (n <= 0) break;
    data.append(buf, n);
  }
  close(p[0]);
  kill(pid, SIGKILL);
  int st = 0;
  waitpid(pid, &st, 0);
  if (timeout) { out.error = "timeout (real time) of run"; return out; }
  size_t i = 0;
  out.rec.prop = sc.prop;
  out.rec.thorough = sc.thorough;
  out.rec.seed = sc.seed;
  out.rec.replay = true;
  while (i < data.size()) {
    size_t e = data.find('\n', i);
    if (e == std::string::npos) break;
    std::string l = data.substr(i, e - i);
    i = e + 1;
    std::vector<std::string> f;
    size_t b = 0;
    for (;;) {
      size_t t = l.find('\t', b);
      f.push_back(l.substr(b, t == std::string::npos ? t : t - b));
      if (t == std::string::npos) break;
      b = t + 1;
    }
    if (f[0] == "Z") out.ok = true;
    else if (f[0] == "V") out.violations.push_back({f[1], Unesc(f[2]), Unesc(f[3])});
    else if (f[0] == "H") {
      out.log_hash = strtoull(f[1].c_str(), 0, 10); out.sched_hash = strtoull(f[2].c_str(), 0, 10);
      out.state_hash = strtoull(f[3].c_str(), 0, 10); out.steps = strtoull(f[4].c_str(), 0, 10);
      out.nswitch = strtoull(f[5].c_str(), 0, 10); out.mem = strtoull(f[6].c_str(), 0, 10);
      out.simtime = strtoull(f[7].c_str(), 0, 10); out.nontrivial = f[8] == "1"; out.events = strtoull(f[9].c_str(), 0, 10);
    } else if (f[0] == "F") out.faults[Unesc(f[1])] += strtoull(f[2].c_str(), 0, 10);
    else if (f[0] == "P") out.probes[Unesc(f[1])] += strtoull(f[2].c_str(), 0, 10);
    else if (f[0] == "S") out.sample = Unesc(f[1]);
    else if (f[0] == "E") out.trace += Unesc(f[1]) + "\n";
    else if (f[0] == "W") for (size_t k = 1; k < f.size(); ++k) out.rec.w.push_back(strtoul(f[k].c_str(), 0, 10));
    else if (f[0] == "X") out.rec.faults[Unesc(f[1])] = atoi(f[2].c_str());
    else if (f[0] == "T") out.rec.switches[{atoi(f[1].c_str()), strtoull(f[2].c_str(), 0, 10)}] = atoi(f[3].c_str());
  }
  if (!out.ok) out.error = "run ended without result, status " + std::to_string(st);
  for (auto &v : out.violations) if (v.prop == "HARNESS") out.error = "harness: " + v.detail;
  return out;
}

static const Violation *Find(const Outcome &o, const std::string &prop, const std::string &cls = "") {
  for (auto &v : o.violations)
    if (v.prop == prop && (cls.empty() || v.cls == cls)) return &v;
  return nullptr;
}

// ------------------------------------------------------------------ replay files
static std::string ToText(const Script &s, const std::string &cls, const std::string &detail, uint64_t hash,
                          const std::string &sample) {
  std::string o = "# replay file: one simulated execution (workload draws, faults by call site, context switches)\n";
  o += "prop\t" + s.prop + "\nseed\t" + std::to_string(s.seed) + "\nthorough\t" + (s.thorough ? "1" : "0") + "\n";
  o += "class\t" + Esc(cls) + "\ndetail\t" + Esc(detail) + "\nhash\t" + std::to_string(hash) + "\nsample\t" + Esc(sample) + "\n";
  o += "W";
  for (auto v : s.w) o += "\t" + std::to_string(v);
  o += "\n";
  for (auto &[k, c] : s.faults) o += "X\t" + Esc(k) + "\t" + std::to_string(c) + "\n";
  for (auto &[k, t] : s.switches) o += "T\t" + std::to_string(k.first) + "\t" + std::to_string(k.second) + "\t" + std::to_string(t) + "\n";
  return o;
}
static bool FromFile(const char *fn, Script *s, std::string *cls, uint64_t *hash) {
  FILE *f = fopen(fn, "r");
  if (!f) return false;
  std::string data;
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof buf, f)) > 0) data.append(buf, n);
  fclose(f);
  size_t i = 0;
  s->replay = true;
  while (i < data.size()) {
    size_t e = data.find('\n', i);
    if (e == std::string::npos) e = data.size();
    std::string l = data.substr(i, e - i);
    i = e + 1;
    std::vector<std::string> v;
    size_t b = 0;
    for (;;) {
      size_t t = l.find('\t', b);
      v.push_back(l.substr(b, t == std::string::npos ? t : t - b));
      if (t == std::string::npos) break;
      b = t + 1;
    }
    if (v[0] == "prop") s->prop = v[1];
    else if (v[0] == "seed") s->seed = strtoull(v[1].c_str(), 0, 10);
    else if (v[0] == "thorough") s->thorough = v[1] == "1";
    else if (v[0] == "class") *cls = Unesc(v[1]);
    else if (v[0] == "hash") *hash = strtoull(v[1].c_str(), 0, 10);
    else if (v[0] == "W") { for (size_t k = 1; k < v.size(); ++k) s->w.push_back(strtoul(v[k].c_str(), 0, 10)); }
    else if (v[0] == "X") s->faults[Unesc(v[1])] = atoi(v[2].c_str());
    else if (v[0] == "T") s->switches[{atoi(v[1].c_str()), strtoull(v[2].c_str(), 0, 10)}] = atoi(v[3].c_str());
  }
  return !s->prop.empty();
}

// ------------------------------------------------------------------ minimising
struct Minimiser {
  std::string prop, cls;
  double deadline;
  int runs = 0;
  Outcome best_out;
  bool Fails(const Script &s) {
    if (Now() > deadline) return false;
    ++runs;
    Outcome o = Run(s);
    if (o.error.empty() && Find(o, prop, cls)) { best_out = o; return true; }
    return false;
  }
  template <typename K, typename V>
  void MapDD(Script &cur, std::map<K, V> Script::*m) {
    // Remove chunks of the sparse decisions.
    size_t chunk = std::max<size_t>(1, (cur.*m).size());
    while (!(cur.*m).empty() && Now() < deadline) {
      bool progress = false;
      for (size_t start = 0; start < (cur.*m).size() && Now() < deadline;) {
        Script t = cur;
        auto b = (t.*m).begin();
        std::advance(b, start);
        auto e = b;
        for (size_t k = 0; k < chunk && e != (t.*m).end(); ++k) ++e;
        (t.*m).erase(b, e);
        if (Fails(t)) { cur = t; progress = true; } else start += chunk;
      }
      if (chunk == 1 && !progress) break;
      if (chunk > 1) chunk = chunk / 2; else if (!progress) break;
    }
  }
  void Workload(Script &cur) {
    // Delete spans, zero spans, reduce single values.
    for (size_t chunk = std::max<size_t>(1, cur.w.size() / 2); chunk >= 1 && Now() < deadline; chunk /= 2) {
      for (size_t st = 0; st < cur.w.size() && Now() < deadline;) {
        Script t = cur;
        t.w.erase(t.w.begin() + st, t.w.begin() + std::min(cur.w.size(), st + chunk));
        if (Fails(t)) { cur = t; continue; }
        t = cur;
        bool any = false;
        for (size_t k = st; k < std::min(cur.w.size(), st + chunk); ++k) { any |= t.w[k] != 0; t.w[k] = 0; }
        if (any && Fails(t)) cur = t;
        st += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < cur.w.size() && Now() < deadline; ++i) {
      while (cur.w[i] > 0) {
        Script t = cur;
        t.w[i] /= 2;
        if (!Fails(t)) break;
        cur = t;
      }
    }
  }
  Script Go(Script cur) {
    MapDD(cur, &Script::faults);
    MapDD(cur, &Script::switches);
    Workload(cur);
    MapDD(cur, &Script::faults);
    MapDD(cur, &Script::switches);
    // Normalise: what was really used in the last failing run.
    return cur;
  }
};

static void PinTo(int cpu) {
  cpu_set_t set, have;
  CPU_ZERO(&have);
  sched_getaffinity(0, sizeof have, &have);
  std::vector<int> avail;
  for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &have)) avail.push_back(i);
  if (avail.empty()) return;
  CPU_ZERO(&set);
  CPU_SET(avail[cpu % avail.size()], &set);
  sched_setaffinity(0, sizeof set, &set);
}

int main(int argc, char **argv) {
  // Identical addresses in every process: no address space randomisation, and
  // an environment of fixed size.
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) || getenv("HOME")) {
    personality(ADDR_NO_RANDOMIZE);
    char *env[] = {(char *)"LC_ALL=C", (char *)"GLIBC_TUNABLES=glibc.malloc.arena_max=1", nullptr};
    execve("/proc/self/exe", argv, env);
    fprintf(stderr, "cannot re-execute\n");
    return 86;
  }
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    if (strncmp(argv[i], "--", 2) == 0 && i + 1 < argc) { opt[argv[i] + 2] = argv[i + 1]; ++i; }
    else pos.push_back(argv[i]);
  }
  auto num = [&](const char *k, uint64_t d) { return opt.count(k) ? strtoull(opt[k].c_str(), 0, 10) : d; };
  if (pos.empty()) return 86;
  PinTo((int)num("cpu", 0));
  Script base;
  std::string cls;
  uint64_t hash = 0;
  const std::string mode = pos[0];
  if (mode == "replay" || mode == "minimise") {
    if (pos.size() < 2 || !FromFile(pos[1].c_str(), &base, &cls, &hash)) { fprintf(stderr, "cannot read replay file\n"); return 86; }
  } else {
    base.prop = opt["prop"];
    base.thorough = num("thorough", 0);
  }
  const PropScenario *ps = nullptr;
  for (auto &p : kScenarios) if (base.prop == p.prop) ps = &p;
  if (!ps) { fprintf(stderr, "no scenario for %s\n", base.prop.c_str()); return 86; }
  // Real output, before the standard streams are redirected.
  g_out = fdopen(dup(1), "w");
  setvbuf(g_out, nullptr, _IOLBF, 1 << 16);
  const std::string scratch = opt.count("scratch") ? opt["scratch"] : "/tmp";
  if (ps->tidy) g_tidy = LoadImages(opt["tidy"], num("tidy-copies", 14), scratch.c_str());
  if (ps->bant) g_bant = LoadImages(opt["bant"], num("bant-copies", 14), scratch.c_str());
  InitSimProcessWide();

  if (mode == "one" || mode == "replay") {
    Script sc = base;
    if (mode == "one") sc.seed = opt.count("index") ? Mix(num("seed", 1), num("index", 0)) : num("seed", 1);
    g_want_trace = num("trace", 0);
    Outcome o = Run(sc);
    if (opt.count("again")) o = Run(o.rec);
    if (g_want_trace) fprintf(g_out, "%s", o.trace.c_str());
    for (auto &v : o.violations) fprintf(g_out, "violation %s %s: %s\n", v.prop.c_str(), v.cls.c_str(), v.detail.c_str());
    fprintf(g_out, "case: %s\n", o.sample.c_str());
    fprintf(g_out, "hash %llu steps %llu switches %llu mem %llu faults %zu w %zu %s\n", (unsigned long long)o.log_hash,
            (unsigned long long)o.steps, (unsigned long long)o.nswitch, (unsigned long long)o.mem, o.rec.faults.size(), o.rec.w.size(), o.error.c_str());
    if (!o.error.empty()) return 2;
    if (mode == "replay") {
      const bool same = Find(o, sc.prop, cls) != nullptr;
      const bool exact = same && o.log_hash == hash;
      fprintf(g_out, "%s\n", exact ? "REPRODUCED exactly" : same ? "REPRODUCED (different trace: the code differs from the recorded tree)" : "NOT REPRODUCED");
      fflush(g_out);
      return same ? 1 : 0;
    }
    fflush(g_out);
    return Find(o, sc.prop) ? 1 : 0;
  }
  if (mode == "minimise") {
    Minimiser m;
    m.prop = base.prop;
    m.cls = cls;
    m.deadline = Now() + num("time", 30);
    if (!m.Fails(base)) { fprintf(g_out, "original does not fail\n"); return 2; }
    const size_t f0 = base.faults.size(), s0 = base.switches.size(), w0 = base.w.size();
    Script r = m.Go(base);
    m.deadline = Now() + 100;
    Outcome o = Run(r);
    const Violation *v = Find(o, m.prop, m.cls);
    if (!v) { fprintf(g_out, "minimised does not fail\n"); return 2; }
    FILE *f = fopen(pos[2].c_str(), "w");
    std::string t = ToText(r, v->cls, v->detail, o.log_hash, o.sample);
    fwrite(t.data(), 1, t.size(), f);
    fclose(f);
    fprintf(g_out, "minimised in %d runs: faults %zu->%zu switches %zu->%zu draws %zu->%zu\n", m.runs, f0, r.faults.size(), s0,
            r.switches.size(), w0, r.w.size());
    fflush(g_out);
    return 0;
  }
  if (mode == "batch") {
    signal(SIGTERM, [](int) { g_stop = 1; });
    const uint64_t seed = num("seed", 1), first = num("first", 0), stride = num("stride", 1), max = num("count", 1u << 30);
    const double until = Now() + num("time", 10);
    const int det_every = num("determinism", 50);
    const std::string outdir = opt["out"];
    uint64_t runs = 0, steps = 0, nsw = 0, mem = 0, simt = 0, nontriv = 0, det = 0, nondet = 0, events = 0;
    std::map<std::string, uint64_t> faults, probes;
    std::unordered_set<uint64_t> states, scheds;
    std::vector<std::string> samples;
    std::set<std::string> seen;
    int nviol = 0;
    g_want_trace = num("trace", 0);
    for (uint64_t i = first; i < max && Now() < until && nviol < 6 && !g_stop; i += stride) {
      Script sc = base;
      sc.seed = Mix(seed, i);
      Outcome o = Run(sc);
      if (!o.error.empty()) { fprintf(g_out, "ERROR\trun %llu: %s\n", (unsigned long long)i, Esc(o.error).c_str()); fflush(g_out); return 2; }
      ++runs;
      steps += o.steps; nsw += o.nswitch; mem += o.mem; simt += o.simtime; nontriv += o.nontrivial; events += o.events;
      for (auto &[k, n] : o.faults) faults[k] += n;
      for (auto &[k, n] : o.probes) probes[k] += n;
      if (o.nontrivial) states.insert(o.state_hash);
      scheds.insert(o.sched_hash);
      if (samples.size() < 2 && o.nontrivial) samples.push_back(o.sample);
      const bool viol = Find(o, sc.prop) != nullptr;
      if (viol || (det_every && runs % det_every == 0)) {
        // Same seed again, and the recorded decisions as a script: identical.
        Outcome o2 = Run(sc);
        Outcome o3 = Run(o.rec);
        ++det;
        // Different traces are an error of the simulator, unless the code under
        // test misbehaves all the same in each of them.
        bool same_viol = viol;
        for (auto &v : o.violations)
          if (viol && v.prop == sc.prop && !Find(o3, v.prop, v.cls)) same_viol = false;
        if ((o2.log_hash != o.log_hash || o3.log_hash != o.log_hash) && !same_viol) {
          if (g_want_trace) {
            const Outcome *os[3] = {&o, &o2, &o3};
            for (int k = 0; k < 3; ++k)
              if (FILE *f = fopen((outdir + "/nondet-" + std::to_string(k)).c_str(), "w")) {
                fwrite(os[k]->trace.data(), 1, os[k]->trace.size(), f);
                fclose(f);
              }
          }
          ++nondet;
          fprintf(g_out, "NONDET\trun %llu: %llu / again %llu / replay %llu (%s)\n", (unsigned long long)i,
                  (unsigned long long)o.log_hash, (unsigned long long)o2.log_hash, (unsigned long long)o3.log_hash, o3.error.c_str());
          fflush(g_out);
        }
      }
      if (viol) {
        for (auto &v : o.violations) {
          if (v.prop != sc.prop || !seen.insert(v.cls).second) continue;
          ++nviol;
          char fn[512];
          snprintf(fn, sizeof fn, "%s/raw-%s-%llu-%d.txt", outdir.c_str(), sc.prop.c_str(), (unsigned long long)i, nviol);
          FILE *f = fopen(fn, "w");
          std::string t = ToText(o.rec, v.cls, v.detail, o.log_hash, o.sample);
          if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); }
          fprintf(g_out, "VIOL\t%s\t%s\t%s\t%s\n", sc.prop.c_str(), Esc(v.cls).c_str(), fn, Esc(Clip(v.detail, 1500)).c_str());
          fflush(g_out);
        }
      }
    }
    fprintf(g_out, "STAT\truns\t%llu\nSTAT\tsteps\t%llu\nSTAT\tswitches\t%llu\nSTAT\tmem\t%llu\nSTAT\tsimtime_ns\t%llu\nSTAT\tnontrivial\t%llu\nSTAT\tdeterminism_reruns\t%llu\nSTAT\tevents\t%llu\n",
            (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)nsw, (unsigned long long)mem,
            (unsigned long long)simt, (unsigned long long)nontriv, (unsigned long long)det, (unsigned long long)events);
    fprintf(g_out, "STAT\tnondeterministic_reruns\t%llu\n", (unsigned long long)nondet);
    for (auto &[k, n] : faults) fprintf(g_out, "FAULT\t%s\t%llu\n", Esc(k).c_str(), (unsigned long long)n);
    for (auto &[k, n] : probes) fprintf(g_out, "PROBE\t%s\t%llu\n", Esc(k).c_str(), (unsigned long long)n);
    for (auto &s : samples) fprintf(g_out, "SAMPLE\t%s\n", Esc(Clip(s, 4000)).c_str());
    for (auto h : states) fprintf(g_out, "ST\t%llx\n", (unsigned long long)h);
    for (auto h : scheds) fprintf(g_out, "SC\t%llx\n", (unsigned long long)h);
    fprintf(g_out, "DONE\n");
    fflush(g_out);
    return 0;
  }
  return 86;
}

// Schedules: mostly random walks of different restlessness, some priority-based.
void RandomSchedule(Ctx &c, bool threads_matter) {
  Rng &r = S->srng;
  const int k = r.Below(10);
  if (k == 0) S->sched.mode = SchedConfig::kSerial;
  else if (k <= 6) {
    S->sched.mode = SchedConfig::kRandom;
    static const double ps[] = {0.02, 0.1, 0.3, 0.6, 0.9};
    S->sched.p_sys = ps[r.Below(5)];
    static const uint32_t ms[] = {0, 3, 20, 200, 3000};
    S->sched.mem_every = threads_matter ? ms[r.Below(5)] : 0;
  } else {
    S->sched.mode = SchedConfig::kPct;
    S->sched.pct_depth = 1 + r.Below(5);
    static const uint32_t hs[] = {200, 2000, 20000, 200000};
    S->sched.pct_horizon = hs[r.Below(4)];
  }
  SchedInit();
}
