#include "memprobe.h"

#include "simfs.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define SIM_ASAN 1
#include <sanitizer/allocator_interface.h>
#endif
#endif
namespace memprobe {
static long g_live, g_peak, g_max, g_allocs;
#ifdef SIM_ASAN
static void on_malloc(const volatile void*, size_t n) {
  if (simfs::in_sim) return;
  g_allocs++;
  g_live += n;
  if (g_live > g_peak) g_peak = g_live;
  if ((long)n > g_max) g_max = n;
}
static void on_free(const volatile void* p) {
  if (simfs::in_sim || !p) return;
  g_live -= __sanitizer_get_allocated_size(p);
}
__attribute__((constructor)) static void install() {
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
}
#endif
bool available() { return false; }
void rebase() {}
void trace_blocks(bool) {}
std::vector<std::string> live_blocks() { return {}; }
void reset() { g_peak = g_live; g_max = 0; g_allocs = 0; }
long live_count() { return 0; }
long live_bytes() { return g_live; }
long peak_bytes() { return g_peak; }
long max_single() { return g_max; }
long allocs() { return g_allocs; }
void fail_at(long) {}
bool failed() { return false; }
void set_fill(uint64_t) {}
void set_reuse(int) {}
}  // namespace memprobe
