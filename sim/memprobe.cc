#include "memprobe.h"

#include <errno.h>
#include <execinfo.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <map>
#include <new>

#include "simfs.h"

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace memprobe {
static const uint64_t kMine = 0x51b10c6d1e5a77ffull;
// A header in front of every block: {magic ^ addr, size, base, tracked}.
struct Hdr {
  uint64_t magic;
  size_t size;
  void* base;
  uint64_t tracked;  // and the arena's size class above the low bit
};
static long g_count, g_bytes, g_peak, g_max, g_allocs, g_fail;
static bool g_failed;
static uint64_t g_fill;
static uint64_t g_rng;
static uint64_t rnd() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  g_rng ^= g_rng << 17;
  return g_rng;
}

bool available() { return true; }
void reset() { g_peak = g_bytes; g_max = 0; g_allocs = 0; g_failed = false; }

// The heap of the code under test: a region of its own whose addresses, and
// which freed block is given out again, follow from the run alone.
static char *g_top, *g_end;
static const int kClasses = 1024;
struct Free {
  Free *next, *prev;
};
static Free g_free[kClasses];
static int g_reuse;
static int size_class(size_t* n) {
  if (*n <= 1024) {
    int c = (*n + 15) / 16;
    *n = (size_t)(c ? c : 1) * 16;
    return c ? c : 1;
  }
  int k = 63 - __builtin_clzll(*n - 1);  // 2^k < n <= 2^(k+1)
  size_t step = (size_t)1 << (k - 3);
  size_t j = (*n - ((size_t)1 << k) + step - 1) / step;
  *n = ((size_t)1 << k) + j * step;
  return 64 + (k - 10) * 8 + (int)j;
}
static void* arena_get(size_t n, int* cls) {
  int c = size_class(&n);
  if (c >= kClasses || n > ((size_t)1 << 28)) return nullptr;
  *cls = c;
  Free& f = g_free[c];
  if (!f.next) f.next = f.prev = &f;
  if (f.next != &f && !(g_reuse == 2 && rnd() % 4 == 0)) {
    Free* b = g_reuse == 1 ? f.prev : f.next;  // the oldest or the newest
    b->prev->next = b->next;
    b->next->prev = b->prev;
    return b;
  }
  if (g_end - g_top < (long)n) return nullptr;
  void* r = g_top;
  g_top += n;
  return r;
}
static void arena_put(void* base, int c) {
  Free* b = (Free*)base;
  Free& f = g_free[c];
  b->next = f.next;
  b->prev = &f;
  f.next->prev = b;
  f.next = b;
}
void set_reuse(int how) { g_reuse = how; }
void rebase() {
  g_count = g_bytes = g_peak = 0;
  const size_t n = (size_t)64 << 30;
  void* p = mmap((void*)0x6a0000000000, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
  if (p == MAP_FAILED) abort();
  g_top = (char*)p;
  g_end = g_top + n;
}
static int g_lock;
struct Lock {
  Lock() { while (__sync_lock_test_and_set(&g_lock, 1)) {} }
  ~Lock() { __sync_lock_release(&g_lock); }
};
long live_count() { return g_count; }
long live_bytes() { return g_bytes; }
long peak_bytes() { return g_peak; }
long max_single() { return g_max; }
long allocs() { return g_allocs; }
void fail_at(long n) { g_fail = n; g_failed = false; g_allocs = 0; }
bool failed() { return g_failed; }
void set_fill(uint64_t s) { g_fill = s; g_rng = s * 0x9e3779b97f4a7c15ull | 1; }

static void garbage(unsigned char* p, size_t n) {
  if (!g_fill) return;
  if (g_fill == 1) { memset(p, 0, n); return; }
  if (g_fill == 2) { memset(p, 0xff, n); return; }
  uint64_t x = rnd();
  // Plausible-looking values: small integers, sane doubles, stale pointers.
  switch (x % 4) {
    case 0: memset(p, (int)(x >> 8), n); break;
    case 1: for (size_t i = 0; i + 8 <= n; i += 8) { double d = 0.001 * (double)(x % 5000) * (double)(i + 1); memcpy(p + i, &d, 8); } break;
    case 2: for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = (x + i) % 64; memcpy(p + i, &v, 8); } break;
    default: for (size_t i = 0; i + 8 <= n; i += 8) { uint64_t v = rnd(); memcpy(p + i, &v, 8); }
  }
}

struct Trace {
  void* pc[24];
  int n;
};
static bool g_trace;
static std::map<void*, Trace>& blocks() {
  static auto* m = new std::map<void*, Trace>();
  return *m;
}
void trace_blocks(bool on) { g_trace = on; }
std::vector<std::string> live_blocks() {
  simfs::Guard g;
  std::vector<std::string> out;
  for (auto& kv : blocks()) {
    char** s = backtrace_symbols(kv.second.pc, kv.second.n);
    std::string l = std::to_string(((size_t*)kv.first)[-3]) + " bytes";
    for (int i = 2; i < kv.second.n; i++) l += std::string("\n    ") + s[i];
    out.push_back(l);
  }
  return out;
}

static void* get(size_t n, size_t align, bool zero) {
  bool track = !simfs::in_sim;
  if (align < 16) align = 16;
  size_t pad = 0;
  if (track && g_fill > 2) pad = (rnd() % 8) * 16;
  size_t lead = (sizeof(Hdr) + pad + align - 1) / align * align;
  if (n > (size_t)1 << 40) { errno = ENOMEM; return nullptr; }
  int cls = 0;
  void* base = nullptr;
  if (track && g_top) {
    Lock l;
    base = arena_get(lead + n + align - 16, &cls);
  }
  if (!base) {
    cls = 0;
    base = __libc_memalign(align, lead + n);
  }
  if (!base) return nullptr;
  char* p = (char*)(((uintptr_t)base + lead + align - 1) / align * align);
  if (!cls) p = (char*)base + lead;
  Hdr* h = (Hdr*)p - 1;
  h->magic = kMine ^ (uint64_t)p;
  h->size = n;
  h->base = base;
  h->tracked = (track ? 1 : 0) | (uint64_t)cls << 1;
  if (zero) memset(p, 0, n);
  else if (track) garbage((unsigned char*)p, n);
  if (track) {
    g_count++;
    g_bytes += n;
    if (g_bytes > g_peak) g_peak = g_bytes;
    if ((long)n > g_max) g_max = n;
    if (g_trace) {
      simfs::Guard g;
      Trace& t = blocks()[p];
      t.n = backtrace(t.pc, 24);
    }
  }
  return p;
}
static void put(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != (kMine ^ (uint64_t)p)) abort();  // bad or double free
  h->magic = 0;
  if (h->tracked & 1) {
    if (g_trace) {
      simfs::Guard g;
      blocks().erase(p);
    }
    g_count--;
    g_bytes -= h->size;
    if (g_fill) memset(p, 0xdb, h->size);
  }
  if (h->tracked >> 1) {
    int c = h->tracked >> 1;
    Lock l;
    arena_put(h->base, c);
    return;
  }
  __libc_free(h->base);
}
static bool refuse() {
  if (simfs::in_sim) return false;
  g_allocs++;
  if (g_fail && g_allocs == g_fail) {
    g_failed = true;
    g_fail = 0;
    return true;
  }
  return false;
}
}  // namespace memprobe
using namespace memprobe;

extern "C" {
void* malloc(size_t n) { return get(n, 16, false); }
// What malloc is called in the code under test.
void* sim_malloc(size_t n) { return refuse() ? nullptr : get(n, 16, false); }
void free(void* p) { put(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return get(n, 16, true);
}
void* realloc(void* p, size_t n) {
  if (!p) return get(n, 16, false);
  if (!n) { put(p); return nullptr; }
  Hdr* h = (Hdr*)p - 1;
  if (h->magic != (kMine ^ (uint64_t)p)) abort();
  void* q = get(n, 16, false);
  if (!q) return nullptr;
  memcpy(q, p, h->size < n ? h->size : n);
  put(p);
  return q;
}
void* memalign(size_t a, size_t n) { return refuse() ? nullptr : get(n, a, false); }
void* aligned_alloc(size_t a, size_t n) { return refuse() ? nullptr : get(n, a, false); }
int posix_memalign(void** out, size_t a, size_t n) {
  if (refuse()) return ENOMEM;
  *out = get(n, a, false);
  return *out ? 0 : ENOMEM;
}
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }
}

static void* op_new(size_t n) {
  if (refuse()) throw std::bad_alloc();
  void* p = get(n ? n : 1, 16, false);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return op_new(n); }
void* operator new[](size_t n) { return op_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : get(n ? n : 1, 16, false); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse() ? nullptr : get(n ? n : 1, 16, false); }
void* operator new(size_t n, std::align_val_t a) { if (refuse()) throw std::bad_alloc(); return get(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { if (refuse()) throw std::bad_alloc(); return get(n, (size_t)a, false); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
