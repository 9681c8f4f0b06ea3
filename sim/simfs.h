// In-process simulated file system.  While `active`, every libc file call made
// by the program under test is served from here; nothing reaches the kernel.
#ifndef SIMFS_H
#define SIMFS_H
#include <stdint.h>

#include <map>
#include <string>
#include <vector>

namespace simfs {

enum Op { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_STAT, OP_CWD, OP_ANY, OP_N };

struct Rule {
  std::string path;  // exact path, or "*"
  int op = OP_ANY;
  int from = 1;      // fires from the from-th matching call ...
  int count = 1;     // ... for this many calls (-1: for ever)
  std::string kind;  // errno name, "short", "eof", "crash", "torn", "vanish", "swap"
  long arg = 0;
  int seen = 0;
  int fired = 0;
};

struct Node {
  std::string data;
  bool dir = false;
  bool pipe = false;    // not seekable, size unknown
  bool noread = false;
  bool nowrite = false;
  bool noacc = false;   // stat fails with EACCES
  int uid = 0;          // identity for the trace
  long changed = 0;     // when, on the disk's own clock
};

struct Fs {
  std::map<std::string, Node*> files;
  long disk_free = -1;  // bytes left on the device, -1: unlimited
};

extern bool active;
extern bool over;
extern Fs fs;
extern std::vector<Rule> rules;
extern std::map<std::string, long> fired;       // fault kind -> times
extern std::map<std::string, long> probes;      // rare conditions reached
extern uint64_t trace_hash;
extern long n_ops;                               // simulated calls so far
extern long n_escapes;                           // paths outside /sim
extern std::vector<std::string>* trace_log;      // full trace when non-null
extern void (*yield_hook)(const char* op);       // preemption point
extern void (*crash_hook)();                     // never returns

void put(const std::string& path, const std::string& data);
bool get(const std::string& path, std::string* out);
std::string resolve(const char* path);
void serialize(std::string* out);
void deserialize(const std::string& in);
long open_handles();
int errno_of(const std::string& name);

// Marks simulator code so that probes (memory, races) ignore it.
extern __thread int in_sim;
struct Guard {
  Guard() { in_sim++; }
  ~Guard() { in_sim--; }
};
}  // namespace simfs
#endif
