// What the program under test takes from the heap, and whether it gets it.
#ifndef MEMPROBE_H
#define MEMPROBE_H
#include <stddef.h>
#include <stdint.h>

#include <string>
#include <vector>
namespace memprobe {
bool available();            // live counts and failures are supported
void rebase();               // count from here
void reset();                // counters of the current op
long live_count();           // blocks allocated by the code under test and not freed
long live_bytes();
long peak_bytes();           // since reset
long max_single();           // largest request since reset
long allocs();               // C++ allocations since reset (operator new, aligned)
void fail_at(long nth);      // fail the nth C++ allocation from now, 0: never
bool failed();               // the failure was delivered
void set_fill(uint64_t seed);  // garbage pattern and padding of new blocks
void set_reuse(int how);       // which freed block is given out: 0 newest, 1 oldest, 2 newest or none
void trace_blocks(bool on);   // remember where live blocks were allocated
std::vector<std::string> live_blocks();
}  // namespace memprobe
#endif
