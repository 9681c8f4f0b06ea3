// The simulation server.  Reads scenarios on stdin; every simulated process is
// a forked child of this pristine process that runs real code against the
// simulated file system, and whose death at any point is just another event.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "memprobe.h"
#include "ops.h"
#include "simfs.h"

#ifdef SIM_FLAVOUR_MT
#include "simsched.h"
#endif

void preload_host(const std::string&);

static int g_res_fd = -1;  // child: result records
static int g_fs_fd = -1;   // child: the disk at its death

static void emit(const std::string& s) {
  simfs::Guard g;
  std::string l = s + "\n";
  size_t o = 0;
  while (o < l.size()) {
    long r = syscall(SYS_write, g_res_fd, l.data() + o, l.size() - o);
    if (r <= 0) _exit(98);
    o += r;
  }
}
static void save_disk() {
  simfs::Guard g;
  std::string d;
  simfs::serialize(&d);
  syscall(SYS_ftruncate, g_fs_fd, 0);
  syscall(SYS_lseek, g_fs_fd, 0, SEEK_SET);
  size_t o = 0;
  while (o < d.size()) {
    long r = syscall(SYS_write, g_fs_fd, d.data() + o, d.size() - o);
    if (r <= 0) _exit(98);
    o += r;
  }
}
static void report_counters() {
  simfs::Guard g;
  for (auto& kv : simfs::fired) emit("F " + enc(kv.first) + " " + std::to_string(kv.second));
  for (auto& kv : simfs::probes) emit("P " + enc(kv.first) + " " + std::to_string(kv.second));
  char b[96];
  snprintf(b, sizeof b, "H %016lx %ld %ld", (unsigned long)simfs::trace_hash, simfs::n_ops, simfs::n_escapes);
  emit(b);
  if (simfs::trace_log)
    for (auto& s : *simfs::trace_log) emit("T " + s);
}
// The simulated process is killed: only the disk survives.
static void die() {
  save_disk();
  report_counters();
  emit("X simcrash");
  _exit(77);
}

static bool g_done;
// The program called exit() itself.
static void at_exit() {
  if (g_done) return;
  simfs::active = false;
  simfs::in_sim++;
  save_disk();
  report_counters();
  emit("X exit");
  simfs::over = true;
  simfs::in_sim--;
}

static std::string slurp(int fd) {
  std::string s;
  char b[65536];
  lseek(fd, 0, SEEK_SET);
  long n;
  while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
  return s;
}

static void child(const std::vector<std::string>& lines, const std::string& disk, bool trace) {
  World* w = nullptr;
  simfs::in_sim++;
  if (!disk.empty()) {
    simfs::deserialize(disk);
  } else {
    for (const char* d : {"/", "/sim", "/sim/out", "/sim/model", "/tmp"}) {
      simfs::put(d, "");
      simfs::fs.files[d]->dir = true;
    }
  }
  simfs::crash_hook = die;
  if (trace) simfs::trace_log = new std::vector<std::string>();
  std::vector<OpLine> ops;
  for (auto& l : lines) ops.push_back(parse_op(l));
  simfs::in_sim--;
  memprobe::rebase();
  for (auto& o : ops)
    if (o.name == "endmem" && o.n("trace")) memprobe::trace_blocks(true);
  w = new_world();
  atexit(at_exit);
#ifdef SIM_FLAVOUR_MT
  sched_child(w, ops, emit, die);
#else
  for (size_t i = 0; i < ops.size(); i++) {
    std::string r;
    simfs::in_sim++;
    bool done = setup_op(ops[i], &r);
    simfs::in_sim--;
    if (!done) {
      simfs::active = true;
      r = run_op(w, ops[i]);
      simfs::active = false;
    } else if (r.empty()) {
      continue;
    }
    simfs::Guard g;
    emit("R " + std::to_string(i) + " " + r);
  }
#endif
  bool last_mem = false;
  for (auto& o : ops) last_mem |= o.name == "endmem";
  simfs::active = true;
  delete_world(w);
  simfs::active = false;
  if (last_mem) {
    OpLine m;
    m.name = "mem";
    std::string r;
    setup_op(m, &r);
    emit("M " + r);
    for (auto& l : memprobe::live_blocks()) emit("L " + enc(l));
  }
  simfs::in_sim++;
  save_disk();
  report_counters();
  emit("X done");
  g_done = true;
  simfs::over = true;
  simfs::in_sim--;
  exit(0);
}


// The server itself keeps nothing on the heap: every child starts from the
// same memory, whatever was simulated before.
static char* g_in;
static size_t g_have;
static const size_t kIn = (size_t)1 << 31;
static char g_out[1 << 16];
static size_t g_n;
static void flush_out() {
  size_t o = 0;
  while (o < g_n) {
    long r = syscall(SYS_write, 1, g_out + o, g_n - o);
    if (r <= 0) _exit(94);
    o += r;
  }
  g_n = 0;
}
static void put_out(const char* p, size_t n) {
  while (n) {
    size_t k = sizeof g_out - g_n < n ? sizeof g_out - g_n : n;
    memcpy(g_out + g_n, p, k);
    g_n += k;
    p += k;
    n -= k;
    if (g_n == sizeof g_out) flush_out();
  }
}
static void put_file(int fd, bool as_hex, size_t limit) {
  static char b[32768], h[65536];
  size_t off = 0;
  long n;
  while (off < limit && (n = syscall(SYS_pread64, fd, b, sizeof b < limit - off ? sizeof b : limit - off, off)) > 0) {
    off += n;
    if (!as_hex) {
      put_out(b, n);
      continue;
    }
    for (long i = 0; i < n; i++) {
      h[2 * i] = "0123456789abcdef"[(unsigned char)b[i] >> 4];
      h[2 * i + 1] = "0123456789abcdef"[b[i] & 15];
    }
    put_out(h, 2 * n);
  }
}
static void put_str(const char* s) { put_out(s, strlen(s)); }

// One complete request at the start of g_in, or 0 at the end of the input.
static size_t request() {
  size_t seen = 0;
  while (true) {
    for (; seen + 4 <= g_have; seen++)
      if (!memcmp(g_in + seen, "END\n", 4) && (seen == 0 || g_in[seen - 1] == '\n')) return seen + 4;
    if (g_have == kIn) _exit(93);
    long n = syscall(SYS_read, 0, g_in + g_have, kIn - g_have);
    if (n <= 0) return 0;
    g_have += n;
  }
}

int main(int argc, char** argv) {
  // Same addresses in every run.
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  signal(SIGPIPE, SIG_IGN);
  // The children's standard output has its buffer from the start.
  static char outbuf[4096];
  setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
  for (int i = 1; i < argc; i++) preload_host(argv[i]);
  int out_fd = memfd_create("out", 0), err_fd = memfd_create("err", 0);
  int res_fd = memfd_create("res", 0), fs_fd = memfd_create("fs", 0);
  g_in = (char*)mmap(nullptr, kIn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (g_in == (char*)MAP_FAILED) return 92;
  size_t len;
  while ((len = request()) > 0) {
    bool trace = false;
    int cpu = 60, nprocs = 0;
    for (size_t i = 0; i < len;) {
      const char* e = (const char*)memchr(g_in + i, '\n', len - i);
      size_t n = e - (g_in + i);
      const char* l = g_in + i;
      if (n == 5 && !memcmp(l, "trace", 5)) trace = true;
      else if (n > 4 && n < 12 && !memcmp(l, "cpu ", 4)) cpu = atoi(l + 4);
      else if (n == 4 && !memcmp(l, "proc", 4)) nprocs++;
      i += n + 1;
    }
    if (ftruncate(fs_fd, 0)) return 97;
    for (int p = 0; p < nprocs; p++) {
      for (int fd : {out_fd, err_fd, res_fd}) {
        if (ftruncate(fd, 0)) return 97;
        lseek(fd, 0, SEEK_SET);
      }
      flush_out();
      pid_t pid = fork();
      if (pid < 0) return 96;
      if (pid == 0) {
        setpgid(0, 0);
        struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 5};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit rc = {0, 0};
        setrlimit(RLIMIT_CORE, &rc);
        dup2(out_fd, 1);
        dup2(err_fd, 2);
        int nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0);
        g_res_fd = res_fd;
        g_fs_fd = fs_fd;
        simfs::in_sim++;
        auto* lines = new std::vector<std::string>();
        int at = -1;
        for (size_t i = 0; i < len;) {
          const char* e = (const char*)memchr(g_in + i, '\n', len - i);
          size_t n = e - (g_in + i);
          if (n == 4 && !memcmp(g_in + i, "proc", 4)) at++;
          else if (at == p && i + n + 1 < len) lines->emplace_back(g_in + i, n);
          i += n + 1;
        }
        auto* disk = new std::string(slurp(fs_fd));
        simfs::in_sim--;
        child(*lines, *disk, trace);
        _exit(95);
      }
      int status = 0;
      time_t t0 = time(nullptr);
      bool killed = false;
      for (long spin = 0;; spin++) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (time(nullptr) - t0 > 300) {
          kill(-pid, SIGKILL);
          kill(pid, SIGKILL);
          killed = true;
          waitpid(pid, &status, 0);
          break;
        }
        struct timespec ts = {0, spin < 200 ? 100000 : 1000000};
        nanosleep(&ts, nullptr);
      }
      char b[64];
      snprintf(b, sizeof b, "PROC %d ", p);
      put_str(b);
      if (killed) put_str("hang");
      else {
        snprintf(b, sizeof b, WIFSIGNALED(status) ? "signal:%d" : "exit:%d", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
        put_str(b);
      }
      put_str("\n");
      put_file(res_fd, false, (size_t)-1);
      put_str("STDOUT ");
      put_file(out_fd, true, (size_t)-1);
      put_str("\nSTDERR ");
      put_file(err_fd, true, 200000);
      put_str("\n");
    }
    put_str("END\n");
    flush_out();
    memmove(g_in, g_in + len, g_have - len);
    g_have -= len;
  }
  return 0;
}
