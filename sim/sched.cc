// The `mt` flavour.  Threads are real pthreads, but only the one holding the
// baton runs; it gives the baton away only at points this file sees: lock
// operations, atomics, simulated file calls, accesses to memory another thread
// has touched, and every few thousand function entries.  Which thread runs next
// is decided by a seeded generator or by an explicit list, so a schedule
// repeats exactly.  Every access to the heap and to static data made by
// instrumented code is checked against a vector clock per location.
#include "simsched.h"

#include <absl/synchronization/mutex.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <locale.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <new>
#include <set>

#include "shared_ops.h"
#include "simfs.h"
#include "svm.h"

namespace {
const int kMax = 4;        // threads whose accesses are recorded
const int kThreads = 24;   // threads that are scheduled
typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

// ---------------------------------------------------------------- the heap
const uptr kHeap = 0x200000000000ull, kHeapSize = 2ull << 30;
const uptr kShadow = 0x300000000000ull;
uptr g_top = 0, g_mapped = 0;
struct Blk {
  size_t size;   // of the class
  size_t asked;
  uptr base;     // start of the block's storage
  u64 magic;
};
struct FreeBlk {
  FreeBlk* next;
};
FreeBlk* g_free[256];

int class_of(size_t n, size_t* out) {
  if (n <= 64) {
    int c = (n + 15) / 16;
    if (!c) c = 1;
    *out = c * 16;
    return c;
  }
  int lg = 63 - __builtin_clzll(n - 1);  // 2^lg < n <= 2^(lg+1)
  size_t step = (size_t)1 << (lg - 2);
  size_t k = (n - ((size_t)1 << lg) + step - 1) / step;  // 1..4
  *out = ((size_t)1 << lg) + k * step;
  return 8 + lg * 4 + (k - 1);
}

struct Cell {
  u32 w;        // last write: clock * 4 + thread, 0: none
  u32 wpc;
  u32 r[kMax];  // last read of each thread: clock, 0: none
  unsigned char rm[kMax];
  unsigned char wm;
  unsigned char pad[3];
};
static_assert(sizeof(Cell) == 32, "");

bool g_on = false;       // threads are running
__thread int t_me = -1;  // this thread's number
Cell* g_heap_shadow;
Cell* g_data_shadow;
uptr g_data_lo, g_data_hi;
}  // namespace

extern "C" {
extern char __data_start[], _end[], __executable_start;
}

namespace {
inline Cell* cell_of(uptr a) {
  if (a - kHeap < kHeapSize) return (Cell*)kShadow + (a - kHeap) / 8;
  if (a - g_data_lo < g_data_hi - g_data_lo) return g_data_shadow + (a - g_data_lo) / 8;
  return nullptr;
}

void* heap_get(size_t n, size_t align) {
  if (n > kHeapSize / 2) return nullptr;
  if (align < 16) align = 16;
  size_t need = n + sizeof(Blk) + (align > 16 ? align : 0);
  size_t sz;
  int c = class_of(need, &sz);
  uptr base;
  if (g_free[c]) {
    base = (uptr)g_free[c];
    g_free[c] = g_free[c]->next;
  } else {
    if (!g_mapped) {
      void* p = mmap((void*)kHeap, kHeapSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
      if (p != (void*)kHeap) _exit(94);
      p = mmap((void*)kShadow, kHeapSize * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
      if (p != (void*)kShadow) _exit(94);
      g_mapped = 1;
    }
    if (g_top + sz > kHeapSize) return nullptr;
    base = kHeap + g_top;
    g_top += sz;
  }
  uptr p = (base + sizeof(Blk) + align - 1) / align * align;
  Blk* b = (Blk*)p - 1;
  b->size = sz;
  b->asked = n;
  b->base = base;
  b->magic = 0x6d74686561700000ull ^ p;
  if (g_on) memset(cell_of(p), 0, (n + 7) / 8 * sizeof(Cell));
  return (void*)p;
}
void heap_check_free(void* p, size_t n, void* pc);
void heap_put(void* p, void* pc) {
  if (!p) return;
  Blk* b = (Blk*)p - 1;
  if (b->magic != (0x6d74686561700000ull ^ (uptr)p)) abort();
  if (g_on) heap_check_free(p, b->asked, pc);
  b->magic = 0;
  size_t sz;
  int c = class_of(b->size, &sz);
  FreeBlk* f = (FreeBlk*)b->base;
  f->next = g_free[c];
  g_free[c] = f;
}
}  // namespace

#define PC __builtin_return_address(0)
extern "C" {
void* malloc(size_t n) {
  void* p = heap_get(n, 16);
  if (!p) errno = ENOMEM;
  return p;
}
void free(void* p) { heap_put(p, PC); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = heap_get(n, 16);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (!n) { heap_put(p, PC); return nullptr; }
  void* q = heap_get(n, 16);
  if (!q) { errno = ENOMEM; return nullptr; }
  size_t old = ((Blk*)p - 1)->asked;
  memcpy(q, p, old < n ? old : n);
  heap_put(p, PC);
  return q;
}
void* memalign(size_t a, size_t n) { return heap_get(n, a); }
void* aligned_alloc(size_t a, size_t n) { return heap_get(n, a); }
void* valloc(size_t n) { return heap_get(n, 4096); }
int posix_memalign(void** out, size_t a, size_t n) { return (*out = heap_get(n, a)) ? 0 : ENOMEM; }
size_t malloc_usable_size(void* p) { return p ? ((Blk*)p - 1)->asked : 0; }
}
static void* op_new(size_t n, size_t a = 16) {
  void* p = heap_get(n ? n : 1, a);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return op_new(n); }
void* operator new[](size_t n) { return op_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return heap_get(n ? n : 1, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return heap_get(n ? n : 1, 16); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void operator delete(void* p) noexcept { heap_put(p, PC); }
void operator delete[](void* p) noexcept { heap_put(p, PC); }
void operator delete(void* p, size_t) noexcept { heap_put(p, PC); }
void operator delete[](void* p, size_t) noexcept { heap_put(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { heap_put(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { heap_put(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { heap_put(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { heap_put(p, PC); }

// ----------------------------------------------------------- the scheduler
namespace {
struct Vc {
  u32 c[kMax] = {0, 0, 0, 0};
  void join(const Vc& o) {
    for (int i = 0; i < kMax; i++)
      if (o.c[i] > c[i]) c[i] = o.c[i];
  }
};
enum State { FREE, READY, BLOCKED, DONE };
struct Thread {
  State st = FREE;
  const void* on = nullptr;  // what it waits for
  bool timed = false;        // the wait may time out
  bool woken = false;
  Vc vc;
  u64 prio = 0;
  int go = 0;                // futex: it holds the baton
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  pthread_t real = 0;
  std::string* what = nullptr;  // the operation it is in
};
Thread g_t[kThreads];
int g_n = 0;
int g_main_go = 0;
u64 g_step, g_limit = 30000000;
u64 g_rng = 1;
u64 g_hash;
long g_switches, g_points[6];
int g_strat;  // 0 list, 1 priorities, 2 random, 3 at file calls and locks
u64 g_p;      // switch probability out of 2^32
u64 g_tick = 4096;
u64 g_entries;
std::set<u64>* g_change;
std::map<u64, int>* g_list;
std::vector<std::pair<u64, int>>* g_done_list;
u64 g_low;
void (*g_emit)(const std::string&);
void (*g_die)();

u64 rnd() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return g_rng * 0x2545F4914F6CDD1Dull;
}

void fwait(int* w) {
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
void fwake(int* w) {
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void stats() {
  char b[200];
  snprintf(b, sizeof b, "S steps=%lu switches=%ld file=%ld lock=%ld atomic=%ld memory=%ld tick=%ld hash=%016lx", (unsigned long)g_step, g_switches,
           g_points[0], g_points[1], g_points[2], g_points[3], g_points[4], (unsigned long)g_hash);
  g_emit(b);
  std::string l;
  size_t n = 0;
  for (auto& x : *g_done_list) {
    if (++n > 4000) break;
    l += (l.empty() ? "" : ",") + std::to_string(x.first) + ":" + std::to_string(x.second);
  }
  g_emit("W " + l);
}
// The run is over: something is wrong.
[[noreturn]] void finish(const std::string& what) {
  simfs::in_sim++;
  g_on = false;
  g_emit("V " + enc(what));
  stats();
  g_die();
  _exit(93);
}
std::string sym(void* pc) {
  Dl_info d;
  if (!dladdr((char*)pc - 1, &d) || !d.dli_sname) return "?";
  return d.dli_sname;
}

void give(int t) {
  if (t == t_me) return;
  int me = t_me;
  g_switches++;
  g_done_list->push_back({g_step, t});
  fwake(&g_t[t].go);
  if (me >= 0)
    fwait(&g_t[me].go);
}
bool ready(int t) { return g_t[t].st == READY; }
int pick(int me, int kind) {
  int n = 0, c[kThreads];
  for (int i = 0; i < g_n; i++)
    if (ready(i)) c[n++] = i;
  if (!n) return -1;
  bool can = me >= 0 && ready(me);
  if (g_strat == 0) {
    auto it = g_list->find(g_step);
    if (it != g_list->end() && ready(it->second)) return it->second;
    return can ? me : c[0];
  }
  if (g_strat == 1) {
    if (can && g_change->count(g_step)) g_t[me].prio = --g_low;
    int b = c[0];
    for (int i = 1; i < n; i++)
      if (g_t[c[i]].prio > g_t[b].prio) b = c[i];
    return b;
  }
  u64 p = g_p;
  if (g_strat == 3) p = kind <= 1 ? g_p : g_p / 64;
  if (can && (rnd() >> 32) >= p) return me;
  return c[rnd() % n];
}
// A place where the running thread may lose the baton.
void point(int kind) {
  int me = t_me;
  if (!g_on || me < 0) return;
  simfs::Guard g;
  g_step++;
  g_points[kind]++;
  if (g_step > g_limit) finish("stuck: no end after " + std::to_string(g_limit) + " steps");
  int t = pick(me, kind);
  g_hash = (g_hash ^ (u64)(t + 1)) * 1099511628211ull;
  if (t >= 0) give(t);
}
void expire() {
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == BLOCKED && g_t[i].timed) {
      g_t[i].st = READY;
      g_t[i].woken = false;
      return;
    }
}
void dead() {
  std::string w;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == BLOCKED) w += " thread " + std::to_string(i) + " in " + (g_t[i].what ? g_t[i].what->substr(0, 60) : "?") + ";";
  finish("deadlock: every thread waits:" + w);
}
// Waits until somebody wakes what `on` stands for; false: timed out.
bool block(const void* on, bool timed = false) {
  int me = t_me;
  simfs::Guard g;
  Thread& t = g_t[me];
  t.st = BLOCKED;
  t.on = on;
  t.timed = timed;
  t.woken = false;
  g_step++;
  int n = pick(me, 1);
  if (n < 0) {
    expire();
    n = pick(me, 1);
    if (n < 0) dead();
  }
  g_hash = (g_hash ^ (u64)(n + 1)) * 1099511628211ull;
  give(n);
  return t.woken;
}
void wake(const void* on, bool all = true) {
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == BLOCKED && g_t[i].on == on) {
      g_t[i].st = READY;
      g_t[i].woken = true;
      if (!all) return;
    }
}
// Somebody polls: let the others go on.
void poll_yield() {
  int me = t_me;
  if (!g_on || me < 0) return;
  simfs::Guard g;
  g_step++;
  if (g_step > g_limit) finish("stuck: no end after " + std::to_string(g_limit) + " steps");
  if (g_strat == 1) g_t[me].prio = --g_low;
  for (int k = 1; k < g_n; k++) {
    int t = (me + k) % g_n;
    if (ready(t)) {
      g_hash = (g_hash ^ (u64)(t + 1)) * 1099511628211ull;
      give(t);
      return;
    }
  }
}

// ------------------------------------------------------- order of accesses
struct Sync {
  Vc vc;       // released here
  Vc readers;
  int owner = -1;
  int depth = 0;
  int shared = 0;
};
std::map<uptr, Sync>* g_sync;
Sync& sync_of(const void* p) {
  return (*g_sync)[(uptr)p];
}
void acquire(const Vc& v) { g_t[t_me].vc.join(v); }
void release(Vc* v) {
  v->join(g_t[t_me].vc);
  if (t_me < kMax) g_t[t_me].vc.c[t_me]++;
}
void release_store(Vc* v) {
  *v = g_t[t_me].vc;
  if (t_me < kMax) g_t[t_me].vc.c[t_me]++;
}

[[noreturn]] void race(const char* now, void* pc, const char* before, int other, u32 wpc) {
  simfs::in_sim++;
  std::string a = sym(pc), b = wpc ? sym((void*)((uptr)&__executable_start + wpc)) : "";
  std::string s = std::string("race: ") + now + " in " + a + " by thread " + std::to_string(t_me);
  if (g_t[t_me].what) s += " (" + g_t[t_me].what->substr(0, 40) + ")";
  s += std::string(" is not ordered after ") + before + (b.empty() ? "" : " in " + b) + " by thread " + std::to_string(other);
  finish(s);
}

inline bool skip_data(uptr a) {
  // Standard streams may be used by several threads at once.
  auto in = [a](void* p, size_t n) { return a - (uptr)p < n; };
  return in(&std::cout, sizeof std::cout) || in(&std::cerr, sizeof std::cerr) || in(&std::clog, sizeof std::clog) || in(&std::cin, sizeof std::cin);
}

template <bool W>
__attribute__((noinline)) void slow(Cell* c, unsigned char m, void* pc, uptr a) {
  int me = t_me;
  if (a - kHeap >= kHeapSize && skip_data(a)) return;
  bool shared = c->w && (int)(c->w & 3) != me;
  if (W && !shared)
    for (int i = 0; i < kMax; i++) shared |= i != me && c->r[i];
  if (shared) point(3);
  Vc& vc = g_t[me].vc;
  if (c->w && (int)(c->w & 3) != me && (c->w >> 2) > vc.c[c->w & 3] && (c->wm & m)) race(W ? "a write" : "a read", pc, "a write", c->w & 3, c->wpc);
  if (W)
    for (int i = 0; i < kMax; i++)
      if (i != me && c->r[i] > vc.c[i] && (c->rm[i] & m)) race("a write", pc, "a read", i, 0);
  u32 clk = vc.c[me];
  if (W) {
    u32 e = clk << 2 | me;
    if (c->w == e) c->wm |= m;
    else { c->w = e; c->wm = m; }
    c->wpc = (u32)((uptr)pc - (uptr)&__executable_start);
  } else {
    if (c->r[me] == clk) c->rm[me] |= m;
    else { c->r[me] = clk; c->rm[me] = m; }
  }
}
template <bool W>
inline void access1(uptr a, unsigned char m, void* pc) {
  Cell* c = cell_of(a);
  if (!c) return;
  int me = t_me;
  if ((unsigned)me >= (unsigned)kMax || simfs::in_sim) return;
  u32 clk = g_t[me].vc.c[me];
  // The same thread did the same since its last release.
  if (W) {
    if (c->w == (clk << 2 | (u32)me) && (c->wm & m) == m && !(c->r[0] | c->r[1] | c->r[2] | c->r[3])) return;
  } else {
    if (c->r[me] == clk && (c->rm[me] & m) == m && (c->w == 0 || (int)(c->w & 3) == me)) return;
    if (c->w == (clk << 2 | (u32)me) && (c->wm & m) == m && c->r[me]) return;
  }
  slow<W>(c, m, pc, a);
}
template <bool W>
inline void access(const volatile void* p, size_t n, void* pc) {
  if (!g_on) return;
  uptr a = (uptr)p;
  unsigned o = a & 7;
  if (o + n <= 8) {
    access1<W>(a, (unsigned char)(((1u << n) - 1) << o), pc);
    return;
  }
  uptr end = a + n;
  while (a < end) {
    o = a & 7;
    size_t k = 8 - o;
    if (k > end - a) k = end - a;
    access1<W>(a, (unsigned char)(((1u << k) - 1) << o), pc);
    a += k;
  }
}
void heap_check_free(void* p, size_t n, void* pc) {
  int me = t_me;
  if ((unsigned)me >= (unsigned)kMax) return;
  if (!g_sync->empty()) {
    auto it = g_sync->lower_bound((uptr)p);
    if (it != g_sync->end() && it->first < (uptr)p + n) {
      simfs::Guard g;
      while (it != g_sync->end() && it->first < (uptr)p + n) it = g_sync->erase(it);
    }
  }
  if (simfs::in_sim) return;
  Vc& vc = g_t[me].vc;
  Cell* c = cell_of((uptr)p);
  for (size_t i = 0; i < (n + 7) / 8; i++) {
    if (c[i].w && (int)(c[i].w & 3) != me && (c[i].w >> 2) > vc.c[c[i].w & 3]) race("freeing", pc, "a write", c[i].w & 3, c[i].wpc);
    for (int k = 0; k < kMax; k++)
      if (k != me && c[i].r[k] > vc.c[k]) race("freeing", pc, "a read", k, 0);
  }
}
// A library's hidden state.
char g_pseudo[8][8];
}  // namespace

// --------------------------------------------------- compiler instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_read1(void* p) { access<false>(p, 1, PC); }
void __tsan_read2(void* p) { access<false>(p, 2, PC); }
void __tsan_read4(void* p) { access<false>(p, 4, PC); }
void __tsan_read8(void* p) { access<false>(p, 8, PC); }
void __tsan_read16(void* p) { access<false>(p, 16, PC); }
void __tsan_write1(void* p) { access<true>(p, 1, PC); }
void __tsan_write2(void* p) { access<true>(p, 2, PC); }
void __tsan_write4(void* p) { access<true>(p, 4, PC); }
void __tsan_write8(void* p) { access<true>(p, 8, PC); }
void __tsan_write16(void* p) { access<true>(p, 16, PC); }
void __tsan_unaligned_read2(void* p) { access<false>(p, 2, PC); }
void __tsan_unaligned_read4(void* p) { access<false>(p, 4, PC); }
void __tsan_unaligned_read8(void* p) { access<false>(p, 8, PC); }
void __tsan_unaligned_read16(void* p) { access<false>(p, 16, PC); }
void __tsan_unaligned_write2(void* p) { access<true>(p, 2, PC); }
void __tsan_unaligned_write4(void* p) { access<true>(p, 4, PC); }
void __tsan_unaligned_write8(void* p) { access<true>(p, 8, PC); }
void __tsan_unaligned_write16(void* p) { access<true>(p, 16, PC); }
void __tsan_read_write1(void* p) { access<true>(p, 1, PC); }
void __tsan_read_write2(void* p) { access<true>(p, 2, PC); }
void __tsan_read_write4(void* p) { access<true>(p, 4, PC); }
void __tsan_read_write8(void* p) { access<true>(p, 8, PC); }
void __tsan_read_write16(void* p) { access<true>(p, 16, PC); }
void __tsan_unaligned_read_write2(void* p) { access<true>(p, 2, PC); }
void __tsan_unaligned_read_write4(void* p) { access<true>(p, 4, PC); }
void __tsan_unaligned_read_write8(void* p) { access<true>(p, 8, PC); }
void __tsan_unaligned_read_write16(void* p) { access<true>(p, 16, PC); }
void __tsan_read_range(void* p, size_t n) { access<false>(p, n, PC); }
void __tsan_write_range(void* p, size_t n) { access<true>(p, n, PC); }
void __tsan_vptr_read(void** p) { access<false>(p, 8, PC); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) access<true>(p, 8, PC);
}
void __tsan_func_entry(void*) {
  if (g_on && ++g_entries % g_tick == 0 && !simfs::in_sim) point(4);
}
void __tsan_func_exit() {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_acquire(void*) {}
void __tsan_release(void*) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  access<false>(s, n, PC);
  access<true>(d, n, PC);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  access<false>(s, n, PC);
  access<true>(d, n, PC);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  access<true>(d, n, PC);
  return memset(d, c, n);
}
// The same in code under test that calls the library function.
void* sim_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
char* sim_strcpy(char* d, const char* s) {
  size_t n = strlen(s) + 1;
  access<false>(s, n, PC);
  access<true>(d, n, PC);
  return (char*)memcpy(d, s, n);
}
char* sim_strncpy(char* d, const char* s, size_t n) {
  access<false>(s, strnlen(s, n), PC);
  access<true>(d, n, PC);
  return strncpy(d, s, n);
}
int sim_snprintf(char* d, size_t n, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(d, n, f, ap);
  va_end(ap);
  if (n && r >= 0) access<true>(d, (size_t)r + 1 < n ? r + 1 : n, PC);
  return r;
}
int sim_sprintf(char* d, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsprintf(d, f, ap);
  va_end(ap);
  if (r >= 0) access<true>(d, r + 1, PC);
  return r;
}

static void at(void* p, int mo, bool load, bool store) {
  if (!g_on || t_me < 0 || simfs::in_sim) return;
  point(2);
  simfs::Guard g;
  Sync& s = sync_of(p);
  if (load && (mo == 1 || mo == 2 || mo >= 4)) acquire(s.vc);
  if (store && mo >= 3) {
    if (load) release(&s.vc);
    else release_store(&s.vc);
  } else if (store && !load) {
    s.vc = Vc();  // a relaxed store publishes nothing
  }
}
#define ATOMIC(N, T)                                                                                                          \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) { at((void*)p, mo, true, false); return __atomic_load_n(p, 5); }     \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { at((void*)p, mo, false, true); __atomic_store_n(p, v, 5); }     \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { at((void*)p, mo, true, true); return __atomic_exchange_n(p, v, 5); } \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { at((void*)p, mo, true, true); return __atomic_fetch_add(p, v, 5); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { at((void*)p, mo, true, true); return __atomic_fetch_sub(p, v, 5); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { at((void*)p, mo, true, true); return __atomic_fetch_and(p, v, 5); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { at((void*)p, mo, true, true); return __atomic_fetch_or(p, v, 5); }   \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { at((void*)p, mo, true, true); return __atomic_fetch_xor(p, v, 5); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { at((void*)p, mo, true, true); return __atomic_fetch_nand(p, v, 5); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) {                                 \
    at((void*)p, mo, true, true);                                                                                             \
    return __atomic_compare_exchange_n(p, c, v, 0, 5, 5);                                                                     \
  }                                                                                                                           \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) {                                   \
    at((void*)p, mo, true, true);                                                                                             \
    return __atomic_compare_exchange_n(p, c, v, 0, 5, 5);                                                                     \
  }                                                                                                                           \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) {                                       \
    at((void*)p, mo, true, true);                                                                                             \
    __atomic_compare_exchange_n(p, &c, v, 0, 5, 5);                                                                           \
    return c;                                                                                                                 \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------- locks
namespace {
bool mine() { return g_on && t_me >= 0; }
void lock(const void* m, bool recursive) {
  point(1);
  simfs::Guard g;
  for (;;) {
    Sync& s = sync_of(m);
    if (recursive && s.owner == t_me) {
      s.depth++;
      return;
    }
    if (s.owner < 0 && !s.shared) {
      s.owner = t_me;
      s.depth = 1;
      acquire(s.vc);
      acquire(s.readers);
      return;
    }
    block(m);
  }
}
bool try_lock(const void* m, bool recursive) {
  point(1);
  simfs::Guard g;
  Sync& s = sync_of(m);
  if (recursive && s.owner == t_me) {
    s.depth++;
    return true;
  }
  if (s.owner >= 0 || s.shared) return false;
  s.owner = t_me;
  s.depth = 1;
  acquire(s.vc);
  acquire(s.readers);
  return true;
}
void unlock(const void* m) {
  {
    simfs::Guard g;
    Sync& s = sync_of(m);
    if (s.owner == t_me) {
      if (--s.depth) return;
      s.owner = -1;
      release(&s.vc);
    } else if (s.shared) {
      s.shared--;
      release(&s.readers);
    }
    wake(m);
  }
  point(1);
}
void lock_shared(const void* m) {
  point(1);
  simfs::Guard g;
  for (;;) {
    Sync& s = sync_of(m);
    if (s.owner < 0) {
      s.shared++;
      acquire(s.vc);
      return;
    }
    block(m);
  }
}
bool try_shared(const void* m) {
  point(1);
  simfs::Guard g;
  Sync& s = sync_of(m);
  if (s.owner >= 0) return false;
  s.shared++;
  acquire(s.vc);
  return true;
}
bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
}  // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (mine()) lock(m, recursive(m));
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { return !mine() || try_lock(m, recursive(m)) ? 0 : EBUSY; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (mine()) unlock(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (mine()) lock_shared(m);
  return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (mine()) lock(m, false);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return !mine() || try_shared(m) ? 0 : EBUSY; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return !mine() || try_lock(m, false) ? 0 : EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (mine()) unlock(m);
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) {
  if (mine()) lock((const void*)m, false);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* m) {
  if (mine()) unlock((const void*)m);
  return 0;
}
static int cond_wait(const void* c, const void* m, bool timed) {
  unlock(m);
  bool ok;
  {
    simfs::Guard g;
    ok = block(c, timed);
    acquire(sync_of(c).vc);
  }
  lock(m, false);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return mine() ? cond_wait(c, m, false) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return mine() ? cond_wait(c, m, true) : ETIMEDOUT; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) {
  return mine() ? cond_wait(c, m, true) : ETIMEDOUT;
}
static void cond_wake(const void* c, bool all) {
  if (!mine()) return;
  {
    simfs::Guard g;
    release(&sync_of(c).vc);
    wake(c, all);
  }
  point(1);
}
int pthread_cond_signal(pthread_cond_t* c) { cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { cond_wake(c, true); return 0; }

int pthread_once(pthread_once_t* c, void (*fn)()) {
  if (mine()) {
    point(1);
    for (;;) {
      {
        simfs::Guard g;
        if (*c == 2) {
          acquire(sync_of(c).vc);
          return 0;
        }
        if (*c == 1) {
          block(c);
          continue;
        }
        *c = 1;
      }
      break;
    }
  } else {
    if (*c == 2) return 0;
    *c = 1;
  }
  try {
    fn();
  } catch (...) {
    *c = 0;
    if (mine()) wake(c);
    throw;
  }
  *c = 2;
  if (mine()) {
    simfs::Guard g;
    release(&sync_of(c).vc);
    wake(c);
  }
  return 0;
}
// Function-local static objects: byte 0 done, byte 1 in progress.
int __cxa_guard_acquire(uint64_t* o) {
  char* b = (char*)o;
  if (mine()) point(1);
  for (;;) {
    if (b[0]) {
      if (mine()) {
        simfs::Guard g;
        acquire(sync_of(o).vc);
      }
      return 0;
    }
    if (!b[1]) break;
    if (!mine()) abort();
    block(o);
  }
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* o) {
  char* b = (char*)o;
  b[0] = 1;
  b[1] = 0;
  if (mine()) {
    {
      simfs::Guard g;
      release(&sync_of(o).vc);
      wake(o);
    }
    point(1);
  }
}
void __cxa_guard_abort(uint64_t* o) {
  ((char*)o)[1] = 0;
  if (mine()) wake(o);
}
int sched_yield() { poll_yield(); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (mine()) { poll_yield(); return 0; }
  return syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t, int, const struct timespec* a, struct timespec* b) { return nanosleep(a, b); }
int usleep(useconds_t us) {
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
}

namespace absl {
ABSL_NAMESPACE_BEGIN
void Mutex::Lock() { if (mine()) lock(this, false); }
bool Mutex::TryLock() { return !mine() || try_lock(this, false); }
void Mutex::Unlock() { if (mine()) unlock(this); }
void Mutex::ReaderLock() { if (mine()) lock_shared(this); }
bool Mutex::ReaderTryLock() { return !mine() || try_shared(this); }
void Mutex::ReaderUnlock() { if (mine()) unlock(this); }
void Mutex::Await(const Condition& c) {
  while (!c.Eval()) {
    if (!mine()) finish("deadlock: a condition that cannot become true");
    unlock(this);
    poll_yield();
    lock(this, false);
  }
}
void Mutex::LockWhen(const Condition& c) { Lock(); Await(c); }
void Mutex::ReaderLockWhen(const Condition& c) { Lock(); Await(c); Unlock(); ReaderLock(); }
void Mutex::AssertHeld() const {}
void Mutex::AssertReaderHeld() const {}
void Mutex::AssertNotHeld() const {}
void CondVar::Wait(Mutex* m) { if (mine()) cond_wait(this, m, false); }
void CondVar::Signal() { cond_wake(this, false); }
void CondVar::SignalAll() { cond_wake(this, true); }
ABSL_NAMESPACE_END
}  // namespace absl
#define STR2(x) #x
#define STR(x) STR2(x)
extern "C" void sim_spin_delay(volatile u32*, u32, int, int) asm("AbslInternalSpinLockDelay_" STR(ABSL_OPTION_INLINE_NAMESPACE_NAME));
extern "C" void sim_spin_delay(volatile u32*, u32, int, int) { poll_yield(); }

// ----------------------------------------------------------------- threads
namespace {
pthread_key_t g_key;
typedef int (*Create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
Create real_create() {
  static Create f = (Create)dlsym(RTLD_NEXT, "pthread_create");
  return f;
}
// Runs after the thread's own thread-local objects are gone.
void thread_end(void* p) {
  int me = (int)(uptr)p - 1;
  Thread& t = g_t[me];
  simfs::in_sim++;
  if (me < kMax || true) release(&sync_of(&t).vc);
  t.st = DONE;
  wake(&t);
  int n = pick(me, 1);
  if (n < 0) {
    expire();
    n = pick(me, 1);
  }
  if (n >= 0) {
    g_hash = (g_hash ^ (u64)(n + 1)) * 1099511628211ull;
    g_switches++;
    g_done_list->push_back({g_step, n});
    fwake(&g_t[n].go);
  } else {
    bool blocked = false;
    for (int i = 0; i < g_n; i++) blocked |= g_t[i].st == BLOCKED;
    if (blocked) dead();
    fwake(&g_main_go);
  }
  int never = 0;
  fwait(&never);
}
void* trampoline(void* p) {
  t_me = (int)(uptr)p;
  Thread& t = g_t[t_me];
  fwait(&t.go);
  pthread_setspecific(g_key, (void*)(uptr)(t_me + 1));
  t.ret = t.fn(t.arg);
  return t.ret;
}
int spawn(void* (*fn)(void*), void* arg) {
  simfs::Guard g;
  if (g_n >= kThreads) return -1;
  int id = g_n;
  Thread& t = g_t[id];
  t.fn = fn;
  t.arg = arg;
  t.prio = 1000 + rnd() % 1000000;
  if (t_me >= 0) {
    t.vc = g_t[t_me].vc;
    if (t_me < kMax) g_t[t_me].vc.c[t_me]++;
  }
  if (id < kMax) t.vc.c[id]++;
  if (real_create()(&t.real, nullptr, trampoline, (void*)(uptr)id)) return -1;
  t.st = READY;
  g_n++;
  return id;
}
}  // namespace
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  if (!mine()) return real_create()(out, at, fn, arg);
  int id = spawn(fn, arg);
  if (id < 0) return EAGAIN;
  *out = g_t[id].real;
  point(1);
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  if (!mine()) {
    static auto f = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
    return f(th, ret);
  }
  point(1);
  simfs::Guard g;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].real == th) {
      while (g_t[i].st != DONE) block(&g_t[i]);
      acquire(sync_of(&g_t[i]).vc);
      if (ret) *ret = g_t[i].ret;
      return 0;
    }
  return ESRCH;
}
int pthread_detach(pthread_t th) {
  if (mine()) return 0;
  static auto f = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
  return f(th);
}
}

// ------------------------------------- libraries that keep state of their own
extern "C" {
static void hidden(int k, bool write, void* pc) {
  if (write) access<true>(g_pseudo[k], 8, pc);
  else access<false>(g_pseudo[k], 8, pc);
}
// The SVR library's loader has a static line buffer.
svm_model* sim_svm_load_model(const char* p) {
  hidden(0, true, PC);
  svm_model* m = svm_load_model(p);
  hidden(0, true, PC);
  return m;
}
char* sim_strtok(char* s, const char* d) { hidden(1, true, PC); return strtok(s, d); }
struct tm* sim_localtime(const time_t* t) { hidden(2, true, PC); return localtime(t); }
struct tm* sim_gmtime(const time_t* t) { hidden(2, true, PC); return gmtime(t); }
char* sim_ctime(const time_t* t) { hidden(2, true, PC); return ctime(t); }
char* sim_asctime(const struct tm* t) { hidden(2, true, PC); return asctime(t); }
char* sim_setlocale(int c, const char* l) { hidden(3, l != nullptr, PC); return setlocale(c, l); }
int sim_setenv(const char* a, const char* b, int o) { hidden(4, true, PC); return setenv(a, b, o); }
char* sim_getenv(const char* a) { hidden(4, false, PC); return getenv(a); }
}

// --------------------------------------------------------------- scenarios
namespace {
struct Section {
  World* w = nullptr;
  bool own = false;
  std::vector<size_t> ops;
};
const std::vector<OpLine>* g_ops;
std::map<std::string, Shared*>* g_shared;
std::string do_op(World* w, const OpLine& o) {
  std::string r;
  if (o.name.compare(0, 7, "shared_") == 0) {
    try {
      shared_op(g_shared, o, &r);
    } catch (const std::exception& e) {
      r = std::string("exc=") + enc(e.what());
    }
    return r;
  }
  return run_op(w, o);
}
void* run_section(void* p) {
  Section* s = (Section*)p;
  for (size_t i : s->ops) {
    const OpLine& o = (*g_ops)[i];
    {
      simfs::Guard g;
      g_t[t_me].what = new std::string(o.name + " " + o.s("id", ""));
    }
    simfs::active = true;
    std::string r = do_op(s->w, o);
    simfs::Guard g;
    g_emit("R " + std::to_string(i) + " " + r);
  }
  return nullptr;
}
void configure(const OpLine& o) {
  g_rng = o.n("seed", 1) * 0x9e3779b97f4a7c15ull + 0x1234567;
  for (int i = 0; i < 8; i++) rnd();
  std::string s = o.s("strat", "pct");
  g_strat = s == "list" ? 0 : s == "pct" ? 1 : s == "rand" ? 2 : 3;
  g_p = (u64)(o.f("p", 0.1) * 4294967296.0);
  g_tick = o.n("tick", 4096);
  g_low = 1000;
  for (int i = 0; i < o.n("d", 3); i++) g_change->insert(1 + rnd() % (u64)o.n("k", 2000));
  std::string l = o.s("list");
  size_t a = 0;
  while (a < l.size()) {
    size_t e = l.find(',', a);
    if (e == std::string::npos) e = l.size();
    size_t c = l.find(':', a);
    if (c < e) (*g_list)[strtoull(l.c_str() + a, nullptr, 10)] = atoi(l.c_str() + c + 1);
    a = e + 1;
  }
}
}  // namespace

void sched_child(World* w, const std::vector<OpLine>& ops, void (*emit)(const std::string&), void (*die)()) {
  g_emit = emit;
  g_die = die;
  g_ops = &ops;
  std::map<int, World*> worlds;
  std::vector<Section> sec;
  bool threads = false;
  {
    simfs::Guard g;
    g_shared = new std::map<std::string, Shared*>;
    g_change = new std::set<u64>;
    g_list = new std::map<u64, int>;
    g_done_list = new std::vector<std::pair<u64, int>>;
    g_sync = new std::map<uptr, Sync>;
    g_data_lo = (uptr)__data_start & ~7ull;
    g_data_hi = ((uptr)_end + 7) & ~7ull;
    g_data_shadow = (Cell*)mmap(nullptr, (g_data_hi - g_data_lo) * 4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_key_create(&g_key, thread_end);
    simfs::yield_hook = [](const char*) { point(0); };
  }
  auto world_of = [&](int k) {
    if (!worlds.count(k)) worlds[k] = new_world();
    return worlds[k];
  };
  Section* cur = nullptr;
  for (size_t i = 0; i < ops.size(); i++) {
    const OpLine& o = ops[i];
    if (o.name == "sched") {
      simfs::Guard g;
      configure(o);
      continue;
    }
    if (o.name == "thread") {
      simfs::Guard g;
      sec.emplace_back();
      cur = &sec.back();
      cur->own = o.n("own", 1);
      cur->w = cur->own ? world_of(sec.size() - 1) : w;
      threads = true;
      continue;
    }
    if (o.name == "join") {
      if (sec.size() > (size_t)kMax) _exit(92);
      g_n = 0;
      for (auto& t : g_t) t = Thread();
      g_on = false;
      for (auto& s : sec) spawn(run_section, &s);
      simfs::active = true;
      g_on = true;
      int first = pick(-1, 1);
      if (first >= 0) {
        g_done_list->push_back({g_step, first});
        fwake(&g_t[first].go);
        fwait(&g_main_go);
      }
      g_on = false;
      simfs::active = false;
      simfs::Guard g;
      sec.clear();
      cur = nullptr;
      continue;
    }
    if (cur) {
      simfs::Guard g;
      cur->ops.push_back(i);
      continue;
    }
    std::string r;
    simfs::in_sim++;
    bool done = setup_op(o, &r);
    simfs::in_sim--;
    if (!done) {
      World* in = o.has("in") ? world_of(o.n("in")) : w;
      simfs::active = true;
      r = do_op(in, o);
      simfs::active = false;
    } else if (r.empty()) {
      continue;
    }
    simfs::Guard g;
    emit("R " + std::to_string(i) + " " + r);
  }
  simfs::active = true;
  for (auto& kv : worlds) delete_world(kv.second);
  for (auto& kv : *g_shared) delete_shared(kv.second);
  simfs::active = false;
  simfs::Guard g;
  if (threads) stats();
}
