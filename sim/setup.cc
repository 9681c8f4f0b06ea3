// Set-up half of the operation language: files, signals, faults.  No code
// under test is called from here.
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "memprobe.h"
#include "ops.h"
#include "simfs.h"
#include "tensorflow/lite/model_builder.h"

OpLine parse_op(const std::string& line) {
  OpLine o;
  size_t i = 0;
  bool first = true;
  while (i < line.size()) {
    size_t j = line.find(' ', i);
    if (j == std::string::npos) j = line.size();
    std::string t = line.substr(i, j - i);
    i = j + 1;
    if (t.empty()) continue;
    if (first) {
      o.name = t;
      first = false;
      continue;
    }
    size_t e = t.find('=');
    std::string k = t.substr(0, e), v = e == std::string::npos ? "1" : t.substr(e + 1), d;
    for (size_t a = 0; a < v.size(); a++) {
      if (v[a] == '%' && a + 2 < v.size()) {
        d += (char)strtol(v.substr(a + 1, 2).c_str(), nullptr, 16);
        a += 2;
      } else {
        d += v[a];
      }
    }
    o.kv[k] = d;
  }
  return o;
}
std::string enc(const std::string& s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    if (c <= 32 || c == '%' || c >= 127) {
      snprintf(b, sizeof b, "%%%02x", c);
      o += b;
    } else {
      o += (char)c;
    }
  }
  return o;
}
std::string hex(const std::string& s) {
  static const char* k = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    o += k[c >> 4];
    o += k[c & 15];
  }
  return o;
}
std::string unhex(const std::string& s) {
  std::string o;
  auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)(v(s[i]) << 4 | v(s[i + 1]));
  return o;
}

namespace {
struct Rng {
  uint64_t x;
  explicit Rng(uint64_t s) : x(s * 0x9e3779b97f4a7c15ull + 0x1234567) {}
  uint64_t next() {
    x += 0x9e3779b97f4a7c15ull;
    uint64_t z = x;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double pm() { return 2 * u() - 1; }
};
std::map<std::string, std::string> parse_spec(const std::string& s) {
  std::map<std::string, std::string> m;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find(';', i);
    if (j == std::string::npos) j = s.size();
    std::string t = s.substr(i, j - i);
    size_t e = t.find(':');
    if (e != std::string::npos) m[t.substr(0, e)] = t.substr(e + 1);
    i = j + 1;
  }
  return m;
}
}  // namespace

// k: kind, s: seed, n: samples, r: rate, a: amplitude; then degradations
// dn noise, ds noise seed, dl lag (positive delays, negative cuts), dg gain,
// dc clip level, dz1/dz2 zeroed range (fractions), dt truncate to samples.
std::vector<double> make_signal(const std::string& spec) {
  auto m = parse_spec(spec);
  auto num = [&](const char* k, double d) { return m.count(k) ? strtod(m[k].c_str(), nullptr) : d; };
  std::string kind = m.count("k") ? m["k"] : "mix";
  size_t n = (size_t)num("n", 1000);
  double r = num("r", 1000), a = num("a", 0.3);
  Rng g((uint64_t)num("s", 1));
  std::vector<double> x(n);
  if (kind == "mix" || kind == "bursts") {
    double f[5], p[5], q[5];
    for (int i = 0; i < 5; i++) {
      f[i] = (0.03 + 0.4 * g.u()) * r;
      p[i] = 6.28 * g.u();
      q[i] = (0.5 + 4 * g.u());
    }
    double on = 0.2 + 0.3 * g.u();
    for (size_t i = 0; i < n; i++) {
      double t = i / r, v = 0;
      for (int j = 0; j < 5; j++) v += sin(6.283185307179586 * f[j] * t + p[j]) * (0.6 + 0.4 * sin(q[j] * t * 3 + j));
      v = v / 5 + 0.05 * g.pm();
      if (kind == "bursts" && fmod(t, on * 2) > on) v *= 0.001;
      x[i] = a * v;
    }
  } else if (kind == "noise") {
    for (auto& v : x) v = a * g.pm();
  } else if (kind == "sine") {
    double f = num("f", 0.1 * r);
    for (size_t i = 0; i < n; i++) x[i] = a * sin(6.283185307179586 * f * i / r);
  } else if (kind == "const") {
    for (auto& v : x) v = a;
  } else if (kind == "impulse") {
    for (auto& v : x) v = 0;
    if (n) x[(size_t)(g.u() * n)] = a;
  } else if (kind == "nan") {
    for (auto& v : x) v = __builtin_nan("");
  }  // silence: zeros
  long lag = (long)num("dl", 0);
  if (lag > 0) x.insert(x.begin(), lag, 0.0);
  if (lag < 0) x.erase(x.begin(), x.begin() + (-lag < (long)x.size() ? -lag : x.size()));
  if (num("dw", 0) > 0 && !x.empty()) std::rotate(x.begin(), x.begin() + (size_t)num("dw", 0) % x.size(), x.end());
  double dn = num("dn", 0), dg = num("dg", 1), dc = num("dc", 0);
  Rng h((uint64_t)num("ds", 7));
  double z1 = num("dz1", -1), z2 = num("dz2", -1);
  for (size_t i = 0; i < x.size(); i++) {
    double v = x[i] + dn * a * h.pm();
    v *= dg;
    if (dc > 0) v = v > dc * a ? dc * a : v < -dc * a ? -dc * a : v;
    double fr = (double)i / x.size();
    if (z1 >= 0 && fr >= z1 && fr < z2) v = 0;
    x[i] = v;
  }
  if (m.count("q"))  // as it would be after a trip through a 16-bit file
    for (auto& v : x) {
      double y = lround(v * 32768.0 > 32767 ? 32767 : v * 32768.0 < -32768 ? -32768 : v * 32768.0);
      v = y / 32768.0;
    }
  if (m.count("dt") && (size_t)num("dt", 0) < x.size()) x.resize((size_t)num("dt", 0));
  return x;
}

static void p16(std::string* o, unsigned v) {
  o->push_back((char)v);
  o->push_back((char)(v >> 8));
}
static void p32(std::string* o, uint32_t v) {
  p16(o, v & 0xffff);
  p16(o, v >> 16);
}
std::string make_wav(const std::vector<double>& mono, int sr, const OpLine& a) {
  int ch = a.n("ch", 1);
  std::string pcm;
  for (double v : mono) {
    for (int c = 0; c < ch; c++) {
      double y = v * (1.0 - 0.15 * c) * 32768.0;
      long s = lround(y > 32767 ? 32767 : y < -32768 ? -32768 : y);
      p16(&pcm, (unsigned)s & 0xffff);
    }
  }
  std::string o = "RIFF";
  p32(&o, (uint32_t)a.n("riffsize", 36 + pcm.size()));
  o += "WAVEfmt ";
  bool ext = a.n("ext");
  p32(&o, ext ? 40 : 16);
  p16(&o, ext ? 0xfffe : (unsigned)a.n("fmt", 1));
  p16(&o, (unsigned)a.n("chdecl", ch));
  p32(&o, sr);
  p32(&o, sr * 2 * ch);
  p16(&o, 2 * ch);
  p16(&o, (unsigned)a.n("bits", 16));
  if (ext) {
    p16(&o, 22);
    o += std::string(22, '\1');
    o += "fact";
    p32(&o, 4);
    p32(&o, mono.size());
  }
  if (a.n("list")) {
    o += "LIST";
    p32(&o, (uint32_t)a.n("list"));
    o += std::string(a.n("list"), 'x');
  }
  o += "data";
  p32(&o, (uint32_t)a.n("datasize", pcm.size()));
  o += pcm;
  if (a.n("tail")) o += std::string(a.n("tail"), 'T');
  if (a.has("trunc") && (size_t)a.n("trunc") < o.size()) o.resize(a.n("trunc"));
  return o;
}

static std::string read_host(const std::string& p) {
  std::string o;
  FILE* f = fopen(p.c_str(), "rb");
  if (!f) return o;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
  fclose(f);
  return o;
}

// Host files are read once, in the pristine server, so that a run never
// touches the real file system.
std::map<std::string, std::string>& host_cache() {
  static auto* m = new std::map<std::string, std::string>();
  return *m;
}
void preload_host(const std::string& p) {
  auto& m = host_cache();
  if (!m.count(p)) m[p] = read_host(p);
}

bool setup_op(const OpLine& op, std::string* out) {
  simfs::Guard guard;
  const std::string& n = op.name;
  std::string path = op.has("p") ? simfs::resolve(op.s("p").c_str()) : "";
  if (n == "put") {
    simfs::put(path, op.has("hex") ? unhex(op.s("hex")) : op.s("text"));
  } else if (n == "dir") {
    simfs::put(path, "");
    simfs::fs.files[path]->dir = true;
  } else if (n == "attr") {
    auto it = simfs::fs.files.find(path);
    if (it != simfs::fs.files.end()) {
      it->second->pipe = op.n("pipe", it->second->pipe);
      it->second->noread = op.n("noread", it->second->noread);
      it->second->nowrite = op.n("nowrite", it->second->nowrite);
      it->second->noacc = op.n("noacc", it->second->noacc);
    }
  } else if (n == "rmfile") {
    simfs::fs.files.erase(path);
  } else if (n == "host") {
    std::string d = host_cache()[op.s("from")];
    if (op.has("trunc") && (size_t)op.n("trunc") < d.size()) d.resize(op.n("trunc"));
    if (op.has("flip")) {
      size_t b = op.n("flip") % (d.size() * 8);
      d[b / 8] ^= 1 << (b % 8);
    }
    if (op.has("cutline")) {  // remove one line
      long k = op.n("cutline");
      size_t i = 0;
      while (k-- > 0 && i != std::string::npos) {
        i = d.find('\n', i);
        if (i != std::string::npos) i++;
      }
      if (i != std::string::npos && i < d.size()) {
        size_t j = d.find('\n', i);
        d.erase(i, j == std::string::npos ? std::string::npos : j - i + 1);
      }
    }
    if (op.has("zero")) {  // a lost block: zeros instead of data
      size_t b = op.n("zero"), len = op.n("zerolen", 4096);
      for (size_t i = b; i < b + len && i < d.size(); i++) d[i] = 0;
    }
    if (op.has("append")) d += op.s("append");
    simfs::put(path, d);
  } else if (n == "wav") {
    auto sig = make_signal(op.s("sig"));
    simfs::put(path, make_wav(sig, op.n("sr", 1000), op));
  } else if (n == "disk") {
    simfs::fs.disk_free = op.n("free", -1);
  } else if (n == "fault") {
    simfs::Rule r;
    r.path = op.has("p") && op.s("p") != "*" ? path : "*";
    static const char* k[] = {"open", "read", "write", "close", "seek", "stat", "cwd", "any"};
    for (int i = 0; i < simfs::OP_N; i++)
      if (op.s("op", "any") == k[i]) r.op = i;
    r.from = op.n("from", 1);
    r.count = op.n("count", 1);
    r.kind = op.s("kind");
    r.arg = op.n("arg");
    simfs::rules.push_back(r);
  } else if (n == "tflite") {
    auto& f = g_sim_tflite_faults;
    f.build = op.n("build");
    f.set_threads = op.n("threads");
    f.build_interpreter = op.n("builder");
    f.allocate = op.n("allocate");
    f.delegate = op.n("delegate");
    f.no_signature = op.n("nosig");
    f.invoke = op.n("invoke");
    f.invoke_after = op.n("after");
  } else if (n == "nofaults") {
    simfs::rules.clear();
    g_sim_tflite_faults = SimTfliteFaults();
  } else if (n == "fill") {
    memprobe::set_fill(op.n("seed"));
    memprobe::set_reuse(op.n("reuse"));
  } else if (n == "dump") {
    std::string d;
    *out = simfs::get(path, &d) ? "size=" + std::to_string(d.size()) + " hex=" + hex(d) : "missing=1";
    return true;
  } else if (n == "ls") {
    for (auto& kv : simfs::fs.files)
      if (!kv.second->dir) *out += (out->empty() ? "files=" : ",") + enc(kv.first);
    return true;
  } else if (n == "mem") {
    bool c = memprobe::available();
    *out = "count=" + std::to_string(c ? memprobe::live_count() : 0) + " bytes=" + std::to_string(c ? memprobe::live_bytes() : 0) +
           " handles=" + std::to_string(simfs::open_handles()) + " tflite=" + std::to_string(g_sim_tflite_live);
    return true;
  } else {
    return false;
  }
  return true;
}
