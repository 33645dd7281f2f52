// Deterministic simulator: scheduler, simulated processes, simulated kernel.
#pragma once
#include <sys/types.h>

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { Seed(seed); }
  void Seed(uint64_t seed);
  uint64_t Next();
  uint32_t Below(uint32_t n) { return n <= 1 ? 0 : (uint32_t)((Next() >> 11) % n); }
  bool Chance(double p) { return (double)(Next() >> 11) / 9007199254740992.0 < p; }
};
uint64_t Mix(uint64_t a, uint64_t b);
uint64_t HashStr(std::string_view s);

// Recorded stream of workload decisions. 0 is always the simplest choice, so
// that shrinking a recorded stream simplifies the workload.
struct Draws {
  std::vector<uint32_t> rec;  // recorded (or, in replay, the given stream)
  size_t pos = 0;
  bool replay = false;
  Rng rng;
  uint32_t Below(uint32_t n);                 // [0, n)
  uint32_t Range(uint32_t lo, uint32_t hi) { return lo + Below(hi - lo + 1); }
  bool Chance(uint32_t percent);              // 0 (false) is simplest
};

// ---------------------------------------------------------------- filesystem
enum class NodeType : uint8_t { kFile, kDir, kSymlink };
struct Inode {
  uint64_t ino = 0, dev = 1, dev_ino = 1;  // dev_ino: unique per device only
  NodeType type = NodeType::kFile;
  int64_t mtime_ns = 0;
  uint32_t mode = 0644;
  int nlink = 1;
  std::string data;     // file content or symlink target
  std::map<std::string, std::shared_ptr<Inode>> children;
  std::vector<std::string> order;  // creation order of children
  std::weak_ptr<Inode> parent;     // for ".."
};
using InodeP = std::shared_ptr<Inode>;

enum class DirOrder { kSorted, kReverse, kCreation, kHashed };

struct FsConfig {
  DirOrder order = DirOrder::kSorted;
  uint64_t order_seed = 0;
  int dtype_unknown_percent = 0;    // 100: never tell types
  enum InoMode { kSequential, kLarge, kZero, kAllOnes, kCollidePerDev, kRandom } ino_mode = kSequential;
};

struct Fs {
  InodeP root;
  FsConfig cfg;
  uint64_t next_ino = 2;
  std::map<uint64_t, uint64_t> dev_next;
  int64_t bytes_free = -1;  // -1: unlimited
  void Reset();
  InodeP NewNode(NodeType t, uint64_t dev);
  // Test-side helpers (no faults, no events); absolute physical paths.
  InodeP MkdirP(const std::string &path);
  void WriteFile(const std::string &path, const std::string &content);
  void Symlink(const std::string &target, const std::string &path);
  bool ReadFile(const std::string &path, std::string *out);  // follows links
  void Remove(const std::string &path);  // recursive
  InodeP Lookup(const std::string &path, bool follow = true);
  void SetMtime(const std::string &path, int64_t ns);
  std::vector<std::string> ListDir(const Inode &dir) const;  // in enumeration order
  uint64_t ShownIno(const Inode &n) const;
  // Sorted dump "path type content" of a subtree, for comparing.
  std::map<std::string, std::string> Snapshot(const std::string &path);
  uint64_t Digest(const std::string &path, bool with_mtime);
};

// ---------------------------------------------------------------- processes
struct Process;
struct OpenFile {
  InodeP node;
  int64_t offset = 0;
  int flags = 0;
  bool dir = false;
  int std_stream = 0;          // 1 stdout, 2 stderr, 3: /dev/null
  std::string path;            // as canonical path at open
  int64_t opened_size = 0;
};

struct DirStream {
  uint32_t magic = 0x51D1;
  int fd = -1;
  InodeP node;
  std::vector<std::pair<std::string, InodeP>> entries;
  size_t pos = 0;
  char ent[512];
};

struct Event {
  uint32_t step = 0;
  int16_t proc = 0;
  int16_t tid = 0;
  const char *kind = "";
  std::string path, path2;
  int64_t ret = 0;
  int err = 0;
};

struct VC {
  std::vector<uint32_t> c;
  uint32_t Get(int i) const { return i < (int)c.size() ? c[i] : 0; }
  void Set(int i, uint32_t v) { if (i >= (int)c.size()) c.resize(i + 1); c[i] = v; }
  void Join(const VC &o) {
    if (o.c.size() > c.size()) c.resize(o.c.size());
    for (size_t i = 0; i < o.c.size(); ++i) if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};

struct Thread {
  int id = 0;
  Process *proc = nullptr;
  enum { kRunnable, kBlocked, kDone } state = kRunnable;
  int sem = 0;                 // futex word
  unsigned long real = 0;
  const void *wait_obj = nullptr;
  int64_t wake_ns = -1;        // timer
  bool timed_out = false;
  bool signalled = false;
  uint64_t local_step = 0;
  VC vc;
  std::function<void()> entry;
  void *(*start)(void *) = nullptr;
  void *arg = nullptr;
  void *retval = nullptr;
  int priority = 0;
  int depth = 0;               // >0 while inside simulator code
  bool is_main = false;
  int spin = 0;                // consecutive yields without progress elsewhere
};

// State of the standard iostreams; each simulated process has its own.
struct IosState { int state = 0, flags = 0x1002, precision = 6, width = 0; char fill = ' '; int exceptions = 0; };
struct ExitRec { void (*fn)(void *); void *arg; };

struct Process {
  int id = 0;
  std::string name;
  Process *parent = nullptr;
  std::vector<std::string> argv;
  std::vector<char *> argv_c;
  std::map<std::string, std::string> env;
  InodeP cwd;
  std::map<int, OpenFile> fds;
  int max_fds = 1024;
  int peak_fds = 0;
  std::string out, err;         // delivered bytes
  std::string stdout_buf;       // stdio buffer
  bool stdout_error = false;    // some write of fd 1 failed
  bool capture_out = true;
  std::vector<ExitRec> atexit;
  void *dso = nullptr;          // dso handle, for atexit routing
  void *so_base = nullptr;
  std::set<void *> files;       // open FILE*
  enum { kRunning, kExited, kSignaled, kKilled } state = kRunning;
  int exit_code = 0;            // or signal
  std::string death;            // reason text
  int live_threads = 0;
  std::vector<std::string> fds_at_exit;  // descriptors still open when the process ended
  int live_at_exit = 0;         // other threads alive after exit handlers ran
  uint64_t sys_count = 0;       // system calls made so far
  uint64_t kill_at = 0;         // die just before this system call (1-based)
  bool kill_children = true;
  std::vector<Process *> children;
  int ncpus = 4;
  bool tty = false;
  std::map<int, void (*)(int)> sig;  // signal dispositions, if not the default
  int in_system = 0;            // system() calls in progress (ignore SIGINT, SIGQUIT)
  IosState ios[4] = {{}, {0, 0x3002}, {}, {}};
  // getopt state
  int optind_ = 1; char *optarg_ = nullptr; int optopt_ = 0, opterr_ = 1;
  char *nextchar = nullptr; int first_nonopt = 1, last_nonopt = 1; bool getopt_init = false;
  bool Done() const { return state != kRunning; }
};

// ---------------------------------------------------------------- faults
// A fault site is identified by process, call, path and occurrence; the policy
// returns 0 (no fault) or a code which the site interprets.
enum FaultCode {
  kNoFault = 0,
  // >0 && < 1000: errno value
  kShort1 = 1001,     // short read/write: 1 byte
  kShortHalf = 1002,  // half
  kShortButOne = 1003,
  kEof = 1004,        // premature end of file (read) : file truncated underneath
  kKillChild = 1005,  // analyser dies from signal at this point
  kSpurious = 1006,   // spurious wake-up
  kStall = 1007,      // long stall of this call (simulated time)
  kExit127 = 1008,
  kKillInt = 1009,
  kGrow = 1010,       // file grows underneath
  kDtypeUnknown = 1011,
  kVanish = 1012,     // entry disappears just before this call
  kEofHalf = 1013,    // reads deliver only the first half of the file, then end of file
  kErrHalf = 1014,    // reads deliver only the first half of the file, then EIO
};
struct FaultSite {
  Process *proc;
  const char *kind;          // "open", "read", ...
  const std::string &path;
  const std::string &key;
};
using FaultPolicy = std::function<int(const FaultSite &)>;

// ---------------------------------------------------------------- scheduler
struct SchedConfig {
  enum Mode { kSerial, kRandom, kPct } mode = kRandom;
  double p_sys = 0.2;          // probability to switch at a system/sync call
  uint32_t mem_every = 0;      // mean number of memory accesses between switches; 0: never
  int pct_depth = 3;
  uint32_t pct_horizon = 2000;
  double p_spurious = 0;
};

struct RaceReport { std::string text; };

struct RunResult {
  bool step_limit = false;
  bool deadlock = false;
  std::string deadlock_text;
  std::vector<std::string> races;      // data races, misuse of sync objects, use after free
};

struct Sim {
  // configuration
  SchedConfig sched;
  Rng srng, frng;
  bool replay = false;
  std::map<std::string, int> fault_script;          // replay: key -> code
  std::map<std::pair<int, uint64_t>, int> switch_script;  // replay: (tid, local step) -> tid
  FaultPolicy policy;                                // random mode
  FaultPolicy env_fault;   // persistent faults that are part of the workload; asked first
  uint64_t max_steps = 20'000'000;
  uint64_t work = 0, max_work = 400'000'000;   // instrumented accesses and calls
  // recorded
  std::vector<std::pair<std::string, int>> faults;   // fired
  std::map<std::pair<int, uint64_t>, int> switches;
  std::map<std::string, uint64_t> fault_counts;      // kind:code -> n
  std::vector<Event> events;
  bool keep_events = true;
  uint64_t log_hash = 14695981039346656037ull;
  uint64_t sched_hash = 1;
  uint64_t steps = 0, n_switches = 0, mem_accesses = 0;
  int64_t now_ns = 1'700'000'000'000'000'000;
  int64_t start_ns = 1'700'000'000'000'000'000;
  Fs fs;
  RunResult res;
  std::vector<std::unique_ptr<Process>> procs;
  std::vector<std::unique_ptr<Thread>> threads;
  std::unordered_map<std::string, uint32_t> site_count;
  std::function<void(const Event &)> on_event;   // invariant checks
  std::function<int(Process &, const std::string &cmd)> shell_prog;  // set by models
  std::string fatal;          // set when the run ended with a real signal
  bool detect_races = true;
  uint32_t hash_seed = 0;     // for shimmed hash tables
  uint32_t layout_seed = 0;   // where the code under test gets its memory; 0: ascending addresses
};
extern Sim *S;

extern thread_local Thread *tl_cur;

// Simulator entry points for scenarios (called on the controller thread).
struct Image;  // code under test, loaded several times
Image *LoadImages(const std::string &so_path, int copies, const char *scratch_dir);
int ImagesLeft(Image *);

struct SpawnArgs {
  std::vector<std::string> argv;
  std::map<std::string, std::string> env;
  std::string cwd = "/";
  int ncpus = 4;
  bool tty = false;
  int max_fds = 1024;
  uint64_t kill_at = 0;
  bool kill_children = true;
};
Process *Spawn(Image *img, const SpawnArgs &args);
Process *SpawnFn(const std::string &name, const SpawnArgs &args,
                 std::function<int()> fn, Process *parent = nullptr);
// Runs until all given processes are done; returns false on deadlock/step limit.
bool RunUntilDone(const std::vector<Process *> &procs);
void KillProcess(Process *p);   // SIGKILL from outside
void WaitOrphans();             // let remaining processes finish

// For model processes (running on simulated threads).
void Yield(int kind);           // 0 mem 1 syscall 2 sync
int FaultAt(const char *kind, const std::string &path);
void AdvanceTime(int64_t ns);
void Stall();
// A signal from outside. Returns what it does: 0 ignored, 1 handled, 2 deadly.
int Signal(Process *p, int sig);
void BlockOn(const void *obj);  // until WakeAll(obj)
void WakeAll(const void *obj);
[[noreturn]] void ExitCurrentProcess(int code, bool signaled, const std::string &why);
void LogEvent(const char *kind, const std::string &path, const std::string &path2,
              int64_t ret, int err);
std::string AbsPath(Process *p, const std::string &path);  // lexical absolute
struct Enter { Enter(); ~Enter(); };

void RaceAcquire(const void *obj);
void RaceRelease(const void *obj);
void RaceOnThreadStart(Thread *child);
void RaceOnJoin(Thread *child);
void RaceMalloc(void *p, size_t n);
bool RaceFree(void *p, size_t n, void *pc);  // true: quarantine
void OutOfWork();  // the code under test does not terminate
void ReportSync(const std::string &what);
void HeapCheck();    // reports heap errors of the code under test
size_t HeapUsed();
std::string DescribePc(const void *pc);

// run in forked children
void InitSimProcessWide();      // once, in the zygote
}  // namespace sim
