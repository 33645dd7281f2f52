// Runtime for code compiled with -fsanitize=thread: each instrumented memory
// access is a potential preemption point and feeds a happens-before race
// detector. Deterministic, as only the thread holding the baton runs.
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <link.h>
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>

#include <new>
#include <string>
#include <unordered_map>

#include "core.h"

#define EXPORT extern "C" __attribute__((visibility("default")))
using namespace sim;
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
extern "C" void *__libc_memalign(size_t, size_t);

namespace {
struct Access { uint16_t tid; uint8_t mask; bool write; uint32_t clk; const void *pc; bool atomic; };
struct Cell { Access a[6]; uint8_t n = 0; uint8_t rr = 0; bool freed = false; int proc = 0; };
std::unordered_map<uintptr_t, Cell> *g_shadow = nullptr;
std::unordered_map<const void *, VC> *g_sync = nullptr;

inline bool Active() { return tl_cur && tl_cur->depth == 0 && tl_cur->proc->live_threads > 1; }

void Report(const char *what, const Access &prev, const Access &cur) {
  std::string t = std::string(what) + ": " + (cur.write ? "write" : "read") + " at " + DescribePc(cur.pc) +
                  " conflicts with " + (prev.write ? "write" : "read") + " at " + DescribePc(prev.pc) +
                  " by another thread, not ordered by any synchronisation";
  ReportSync(t);
}

void CheckGranule(uintptr_t g, uint8_t mask, bool write, const void *pc, bool atomic) {
  Thread *me = tl_cur;
  Cell &c = (*g_shadow)[g];
  if (c.proc != me->proc->id) { c = Cell{}; c.proc = me->proc->id; }  // memory reused by another process
  Access cur{(uint16_t)me->id, mask, write, me->vc.Get(me->id), pc, atomic};
  if (c.freed) { ReportSync(std::string("use after free: ") + (write ? "write" : "read") + " at " + DescribePc(pc)); return; }
  int keep = 0;
  bool stored = false;
  for (int i = 0; i < c.n; ++i) {
    Access &p = c.a[i];
    const bool overlap = p.mask & mask;
    if (overlap && p.tid != cur.tid && (p.write || write) && !(p.atomic && atomic) && me->vc.Get(p.tid) < p.clk) {
      Report("data race", p, cur);
    }
    // Forget entries covered by the current one.
    const bool ordered = p.tid == cur.tid || me->vc.Get(p.tid) >= p.clk;
    if (ordered && (p.mask & ~mask) == 0 && (write || !p.write)) continue;
    c.a[keep++] = p;
  }
  c.n = keep;
  if (!stored) {
    if (c.n < 6) c.a[c.n++] = cur;
    else { c.a[c.rr++ % 6] = cur; }
  }
}

// Data of libstdc++, libc and the simulator: not the code under test (and in
// this simulation shared by processes); e.g. the locale's lazily filled caches.
int LibCb(struct dl_phdr_info *i, size_t, void *v) {
  if (i->dlpi_name && strstr(i->dlpi_name, "/img-")) return 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD)
      ((std::vector<std::pair<uintptr_t, uintptr_t>> *)v)->emplace_back(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz);
  return 0;
}
bool InLibrary(uintptr_t a) {
  static std::vector<std::pair<uintptr_t, uintptr_t>> *r = nullptr;
  if (!r) { r = new std::vector<std::pair<uintptr_t, uintptr_t>>; dl_iterate_phdr(LibCb, r); }
  for (auto &[b, e] : *r) if (a >= b && a < e) return true;
  return false;
}

void CheckRange(const void *addr, size_t n, bool write, const void *pc, bool atomic = false) {
  if (!S->detect_races || InLibrary((uintptr_t)addr)) return;
  if (!g_shadow) g_shadow = new std::unordered_map<uintptr_t, Cell>;
  uintptr_t a = (uintptr_t)addr;
  const uintptr_t end = a + n;
  while (a < end) {
    const uintptr_t g = a >> 3;
    const uintptr_t ge = std::min<uintptr_t>(end, (g + 1) << 3);
    const uint8_t mask = (uint8_t)(((1u << (ge - a)) - 1) << (a & 7));
    CheckGranule(g, mask, write, pc, atomic);
    a = ge;
  }
}

inline void OnAccess(const void *addr, size_t n, bool write, const void *pc) {
  if (!tl_cur || tl_cur->depth) return;
  if (++S->work > S->max_work) OutOfWork();
  if (tl_cur->proc->live_threads <= 1) return;
  S->mem_accesses++;
  Yield(0);
  if (!Active()) return;
  tl_cur->depth++;
  CheckRange(addr, n, write, pc);
  tl_cur->depth--;
}
VC &SyncOf(const void *o) {
  if (!g_sync) g_sync = new std::unordered_map<const void *, VC>;
  return (*g_sync)[o];
}
}  // namespace

namespace sim {
std::string DescribePc(const void *pc) {
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_fbase) {
    char b[64];
    snprintf(b, sizeof b, "+0x%zx", (size_t)((char *)pc - (char *)di.dli_fbase));
    return b;
  }
  return "?";
}
void RaceAcquire(const void *o) { if (tl_cur) tl_cur->vc.Join(SyncOf(o)); }
void RaceRelease(const void *o) {
  if (!tl_cur) return;
  SyncOf(o).Join(tl_cur->vc);
  tl_cur->vc.Set(tl_cur->id, tl_cur->vc.Get(tl_cur->id) + 1);
}
void RaceOnThreadStart(Thread *child) {
  if (!tl_cur) return;
  child->vc.Join(tl_cur->vc);
  tl_cur->vc.Set(tl_cur->id, tl_cur->vc.Get(tl_cur->id) + 1);
}
}  // namespace sim

// ------------------------------------------------------------------ heap
static bool FreeHook(void *p, const void *pc) {
  // true: keep in quarantine
  if (!p || !Active() || !S->detect_races) return false;
  tl_cur->depth++;
  const size_t n = malloc_usable_size(p);
  if (!g_shadow) g_shadow = new std::unordered_map<uintptr_t, Cell>;
  const uintptr_t b = (uintptr_t)p >> 3, e = ((uintptr_t)p + n) >> 3;
  if (n <= 65536) {
    for (uintptr_t g = b; g < e; ++g) {
      auto it = g_shadow->find(g);
      if (it != g_shadow->end() && it->second.proc == tl_cur->proc->id) {
        if (it->second.freed) { ReportSync("double free at " + DescribePc(pc)); tl_cur->depth--; return true; }
        CheckGranule(g, 0xff, true, pc, false);
        it = g_shadow->find(g);
        it->second.n = 0;
        it->second.freed = true;
      } else {
        Cell &nc = (*g_shadow)[g];
        nc = Cell{};
        nc.proc = tl_cur->proc->id;
        nc.freed = true;
      }
    }
  }
  tl_cur->depth--;
  return true;
}
// Memory of the code under test comes from an arena of its own: the layout does
// not depend on the simulator's own allocations, nothing is reused, and
// overruns, double and invalid frees, writes after free are found. Fresh memory
// has garbage in it, freed memory is overwritten (pointers read from it fault).
namespace {
constexpr uintptr_t kArena = 0x100000000000ull;
constexpr size_t kArenaSize = 3ull << 30;
constexpr uint64_t kLive = 0x51beef0011223344ull, kDead = 0x51deadff99887766ull;
struct Hdr { uint64_t magic; uint64_t size; Hdr *prev; const void *pc; };
static_assert(sizeof(Hdr) == 32);
// The arena is divided into lanes. Usually all is taken from the first one, in
// ascending order; with a layout seed, it is pseudo-random what comes first.
constexpr int kLanes = 16;
constexpr size_t kLaneSize = 64ull << 20, kLane0Size = kArenaSize - (kLanes - 1) * kLaneSize;
uintptr_t g_lane[kLanes];
uint64_t g_alloc_serial = 0;
inline uintptr_t LaneEnd(int l) { return l ? kArena + kLane0Size + l * kLaneSize : kArena + kLane0Size; }
inline uintptr_t LaneStart(int l) { return l ? LaneEnd(l) - kLaneSize : kArena + 4096; }
bool g_arena_up = false;
Hdr *g_last = nullptr;
bool g_corrupt = false;
inline bool InArena(const void *p) { return (uintptr_t)p - kArena < kArenaSize; }
inline size_t Room(size_t n) { return ((n + 15) & ~(size_t)15) + 16; }
void *ArenaAlloc(size_t n, size_t align, const void *pc) {
  if (!g_arena_up) {
    g_arena_up = true;
    void *m = mmap((void *)kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    for (int l = 0; l < kLanes; ++l) g_lane[l] = m == (void *)kArena ? LaneStart(l) : LaneEnd(l);
  }
  if (align < 16) align = 16;
  int lane = 0;
  if (S && S->layout_seed) {
    uint64_t x = ++g_alloc_serial * 0x9e3779b97f4a7c15ull + S->layout_seed * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 29)) * 0x94d049bb133111ebull;
    lane = (x >> 40) % kLanes;
  }
  uintptr_t pay;
  for (;;) {
    pay = (g_lane[lane] + sizeof(Hdr) + align - 1) & ~(align - 1);
    if (n <= kArenaSize && pay + Room(n) <= LaneEnd(lane)) break;
    if (!lane) return nullptr;
    lane = 0;
  }
  g_lane[lane] = pay + Room(n);
  Hdr *h = (Hdr *)pay - 1;
  *h = Hdr{kLive, n, g_last, pc};
  g_last = h;
  if (n <= 1 << 20) memset((void *)pay, 0xbe, n);
  memset((char *)pay + n, 0xca, Room(n) - n);
  return (void *)pay;
}
bool Intact(const Hdr *h) {
  const auto *p = (const unsigned char *)(h + 1);
  for (size_t i = h->size, e = Room(h->size); i < e; ++i) if (p[i] != 0xca) return false;
  return true;
}
void Corrupt(const std::string &what, const Hdr *h, const void *pc) {
  if (g_corrupt) return;
  g_corrupt = true;
  const int d = tl_cur ? tl_cur->depth : 0;
  if (tl_cur) tl_cur->depth++;
  ReportSync("heap error: " + what + (h ? " of " + std::to_string(h->size) + " bytes allocated at " + DescribePc(h->pc) : std::string()) +
             (pc ? " at " + DescribePc(pc) : std::string()));
  if (tl_cur) tl_cur->depth = d;
}
void ArenaFree(void *p, const void *pc) {
  Hdr *h = (Hdr *)p - 1;
  if (((uintptr_t)p & 15) || (h->magic != kLive && h->magic != kDead)) { Corrupt("free of an address which was not allocated", nullptr, pc); return; }
  if (h->magic == kDead) { Corrupt("double free", h, pc); return; }
  if (!Intact(h)) Corrupt("write beyond the end", h, pc);
  h->magic = kDead;
  if (h->size <= 1 << 20) memset(p, 0xdd, h->size);
}
#ifdef SIM_DEBUG_HEAP  // to find heap errors of the simulator itself
inline bool UseArena() { return S; }
#else
inline bool UseArena() { return tl_cur && tl_cur->depth == 0; }
#endif
inline void *Alloc(size_t n, size_t align, const void *pc) {
  if (UseArena()) {
    if (void *p = ArenaAlloc(n, align, pc)) return p;
  }
  return align > 16 ? __libc_memalign(align, n) : __libc_malloc(n);
}
inline void Free(void *p, const void *pc) {
  const bool quarantine = FreeHook(p, pc);
  if (InArena(p)) ArenaFree(p, pc);
  else if (!quarantine) __libc_free(p);
}
}  // namespace
namespace sim {
void HeapCheck() {
  if (g_corrupt) return;
  for (const Hdr *h = g_last; h; h = h->prev) {
    if (!InArena(h) || (h->magic != kLive && h->magic != kDead) || h->size > kArenaSize) { Corrupt("block header overwritten", nullptr, nullptr); return; }
    if (!Intact(h)) { Corrupt("write beyond the end", h, nullptr); return; }
    if (h->magic == kDead && h->size <= 1 << 20) {
      const auto *p = (const unsigned char *)(h + 1);
      for (size_t i = 0; i < h->size; ++i) if (p[i] != 0xdd) { Corrupt("write after free", h, nullptr); return; }
    }
  }
}
size_t HeapUsed() {
  size_t n = 0;
  for (int l = 0; l < kLanes; ++l) if (g_arena_up) n += g_lane[l] - LaneStart(l);
  return n;
}
}  // namespace sim
#define PC __builtin_return_address(0)
EXPORT void *malloc(size_t n) { return Alloc(n, 16, PC); }
EXPORT void free(void *p) { if (p) Free(p, PC); }
EXPORT void *calloc(size_t a, size_t b) {
  if (!UseArena()) return __libc_calloc(a, b);
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void *p = Alloc(n, 16, PC);
  if (p) memset(p, 0, n);
  return p;
}
EXPORT size_t malloc_usable_size(void *p) noexcept {
  if (p && InArena(p)) return ((Hdr *)p - 1)->size;
  static auto real = (size_t (*)(void *))dlsym(RTLD_NEXT, "malloc_usable_size");
  return p ? real(p) : 0;
}
EXPORT void *realloc(void *p, size_t n) {
  if (!p) return Alloc(n, 16, PC);
  if (InArena(p) || UseArena()) {
    if (n == 0) { Free(p, PC); return nullptr; }
    void *q = Alloc(n, 16, PC);
    if (!q) return nullptr;
    memcpy(q, p, std::min(n, malloc_usable_size(p)));
    Free(p, PC);
    return q;
  }
  return __libc_realloc(p, n);
}
EXPORT void *memalign(size_t a, size_t n) { return Alloc(n, a, PC); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return Alloc(n, a, PC); }
EXPORT int posix_memalign(void **p, size_t a, size_t n) { *p = Alloc(n, a, PC); return *p ? 0 : ENOMEM; }
static inline void *New(size_t n, size_t align, const void *pc) {
  void *p = Alloc(n ? n : 1, align, pc);
  if (!p) {
    if (!UseArena()) __builtin_trap();
    throw std::bad_alloc();
  }
  return p;
}
#define OP __attribute__((visibility("default")))
OP void *operator new(size_t n) { return New(n, 16, PC); }
OP void *operator new[](size_t n) { return New(n, 16, PC); }
OP void *operator new(size_t n, std::align_val_t a) { return New(n, (size_t)a, PC); }
OP void *operator new[](size_t n, std::align_val_t a) { return New(n, (size_t)a, PC); }
OP void *operator new(size_t n, const std::nothrow_t &) noexcept { return Alloc(n ? n : 1, 16, PC); }
OP void *operator new[](size_t n, const std::nothrow_t &) noexcept { return Alloc(n ? n : 1, 16, PC); }
OP void operator delete(void *p) noexcept { if (p) Free(p, PC); }
OP void operator delete[](void *p) noexcept { if (p) Free(p, PC); }
OP void operator delete(void *p, size_t) noexcept { if (p) Free(p, PC); }
OP void operator delete[](void *p, size_t) noexcept { if (p) Free(p, PC); }
OP void operator delete(void *p, std::align_val_t) noexcept { if (p) Free(p, PC); }
OP void operator delete[](void *p, std::align_val_t) noexcept { if (p) Free(p, PC); }
OP void operator delete(void *p, size_t, std::align_val_t) noexcept { if (p) Free(p, PC); }
OP void operator delete[](void *p, size_t, std::align_val_t) noexcept { if (p) Free(p, PC); }
OP void operator delete(void *p, const std::nothrow_t &) noexcept { if (p) Free(p, PC); }
OP void operator delete[](void *p, const std::nothrow_t &) noexcept { if (p) Free(p, PC); }

// ------------------------------------------------------------------ tsan ABI
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) { if (tl_cur && tl_cur->depth == 0 && ++S->work > S->max_work) OutOfWork(); }
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_flush_memory() {}
EXPORT void __tsan_ignore_thread_begin() {}
EXPORT void __tsan_ignore_thread_end() {}
#define PC __builtin_return_address(0)
#define RW(n)                                                            \
  EXPORT void __tsan_read##n(void *a) { OnAccess(a, n, false, PC); }      \
  EXPORT void __tsan_write##n(void *a) { OnAccess(a, n, true, PC); }      \
  EXPORT void __tsan_volatile_read##n(void *a) { OnAccess(a, n, false, PC); }  \
  EXPORT void __tsan_volatile_write##n(void *a) { OnAccess(a, n, true, PC); }  \
  EXPORT void __tsan_unaligned_read##n(void *a) { OnAccess(a, n, false, PC); } \
  EXPORT void __tsan_unaligned_write##n(void *a) { OnAccess(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *a, size_t n) { OnAccess(a, n, false, PC); }
EXPORT void __tsan_write_range(void *a, size_t n) { OnAccess(a, n, true, PC); }
EXPORT void __tsan_vptr_update(void **v, void *nv) {
  // Always a step: whether the memory happens to hold the value already may
  // depend on what was left on the stack.
  OnAccess(v, 8, *v != nv, PC);
}
EXPORT void __tsan_vptr_read(void **v) { OnAccess(v, 8, false, PC); }

// Atomics. mo: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
namespace {
inline void AtPre(const void *a, size_t n, bool write, int mo, const void *pc) {
  if (!Active()) return;
  S->mem_accesses++;
  Yield(0);
  tl_cur->depth++;
  CheckRange(a, n, write, pc, true);
  if (write && (mo == 3 || mo == 4 || mo == 5)) RaceRelease(a);
  tl_cur->depth--;
}
inline void AtPost(const void *a, bool read, int mo) {
  if (!Active()) return;
  tl_cur->depth++;
  if (read && mo != 0 && mo != 3) RaceAcquire(a);
  tl_cur->depth--;
}
}  // namespace
#define ATOMIC(bits, T)                                                                         \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                            \
    AtPre((const void *)a, sizeof(T), false, mo, PC);                                           \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                 \
    AtPost((const void *)a, true, mo);                                                          \
    return v;                                                                                   \
  }                                                                                             \
  EXPORT void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                         \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                   \
  }                                                                                             \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                         \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    T r = __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                          \
    AtPost((const void *)a, true, mo);                                                          \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) {                        \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    T r = __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                           \
    AtPost((const void *)a, true, mo);                                                          \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) {                        \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    T r = __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                           \
    AtPost((const void *)a, true, mo);                                                          \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) {                        \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    T r = __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                           \
    AtPost((const void *)a, true, mo);                                                          \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) {                         \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    T r = __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                            \
    AtPost((const void *)a, true, mo);                                                          \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) {                        \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    T r = __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                           \
    AtPost((const void *)a, true, mo);                                                          \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) {                       \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    T r = __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                          \
    AtPost((const void *)a, true, mo);                                                          \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T v, int mo, int fmo) { \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    AtPost((const void *)a, true, r ? mo : fmo);                                                \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T v, int mo, int fmo) { \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    bool r = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);   \
    AtPost((const void *)a, true, r ? mo : fmo);                                                \
    return r;                                                                                   \
  }                                                                                             \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int mo, int fmo) { \
    AtPre((const void *)a, sizeof(T), true, mo, PC);                                            \
    __atomic_compare_exchange_n(a, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);           \
    AtPost((const void *)a, true, mo);                                                          \
    return e;                                                                                   \
  }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
EXPORT void __tsan_atomic_thread_fence(int) { if (tl_cur && Active()) { tl_cur->depth++; static int fence; RaceRelease(&fence); RaceAcquire(&fence); tl_cur->depth--; } }
EXPORT void __tsan_atomic_signal_fence(int) {}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { OnAccess(s, n, false, PC); OnAccess(d, n, true, PC); return memcpy(d, s, n); }
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) { OnAccess(s, n, false, PC); OnAccess(d, n, true, PC); return memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int c, size_t n) { OnAccess(d, n, true, PC); return memset(d, c, n); }
EXPORT void __tsan_acquire(void *a) { if (tl_cur) { Enter e; RaceAcquire(a); } }
EXPORT void __tsan_release(void *a) { if (tl_cur) { Enter e; RaceRelease(a); } }
