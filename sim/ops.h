#ifndef SIM_OPS_H
#define SIM_OPS_H
#include <stdint.h>

#include <map>
#include <string>
#include <vector>

// One line of a scenario: a name and k=v arguments.
struct OpLine {
  std::string name;
  std::map<std::string, std::string> kv;
  std::string s(const char* k, const char* d = "") const {
    auto it = kv.find(k);
    return it == kv.end() ? std::string(d) : it->second;
  }
  long n(const char* k, long d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtol(it->second.c_str(), nullptr, 0);
  }
  double f(const char* k, double d = 0) const {
    auto it = kv.find(k);
    return it == kv.end() ? d : strtod(it->second.c_str(), nullptr);
  }
  bool has(const char* k) const { return kv.count(k) != 0; }
};
OpLine parse_op(const std::string& line);
std::string enc(const std::string& s);     // percent-encoding
std::string hex(const std::string& s);
std::string unhex(const std::string& s);

struct World;  // sessions and components alive in this process
World* new_world();
void delete_world(World*);
// Executes one op and returns "k=v ..." describing what was observed.
std::string run_op(World* w, const OpLine& op);
// Harness-only set-up ops (files, faults); false if the name is not one.
bool setup_op(const OpLine& op, std::string* out);

std::vector<double> make_signal(const std::string& spec);
std::string make_wav(const std::vector<double>& mono, int sr, const OpLine& a);

struct Fnv {
  uint64_t h = 1469598103934665603ull;
  void add(const void* p, size_t n) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  }
  void d(double x) {
    if (x != x) x = __builtin_nan("");  // one NaN
    if (x == 0) x = 0;                  // one zero
    uint64_t u;
    __builtin_memcpy(&u, &x, 8);
    if (x != x) u = 0x7ff8000000000000ull;
    add(&u, 8);
  }
  void v(const std::vector<double>& x) {
    uint64_t n = x.size();
    add(&n, 8);
    for (double e : x) d(e);
  }
};
#endif
