#include "simfs.h"

#include <algorithm>

#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace simfs {

bool active = false;
Fs fs;
std::vector<Rule> rules;
std::map<std::string, long> fired;
std::map<std::string, long> probes;
uint64_t trace_hash = 1469598103934665603ull;
long n_ops = 0;
long n_escapes = 0;
std::vector<std::string>* trace_log = nullptr;
void (*yield_hook)(const char*) = nullptr;
void (*crash_hook)() = nullptr;
__thread int in_sim = 0;

static const int kBase = 1 << 20;
struct Open {
  Node* node = nullptr;
  std::string path;
  size_t pos = 0;
  bool rd = false, wr = false, append = false;
  bool used = false;
  FILE* stream = nullptr;
};
static std::vector<Open>& table() {
  static std::vector<Open>* t = new std::vector<Open>();
  return *t;
}
static std::map<FILE*, int>& streams() {
  static std::map<FILE*, int>* m = new std::map<FILE*, int>();
  return *m;
}

static const char* kOpName[] = {"open", "read", "write", "close", "seek", "stat", "cwd", "any"};

static void mix(const void* p, size_t n) {
  const unsigned char* c = (const unsigned char*)p;
  for (size_t i = 0; i < n; i++) trace_hash = (trace_hash ^ c[i]) * 1099511628211ull;
}
static void trace(int op, const std::string& path, long a, long r) {
  char buf[64];
  int n = snprintf(buf, sizeof buf, "|%s %ld -> %ld", kOpName[op], a, r);
  mix(path.data(), path.size());
  mix(buf, n);
  if (trace_log) trace_log->push_back(path + buf);
}

int errno_of(const std::string& n) {
  static const struct { const char* n; int e; } k[] = {
      {"EIO", EIO}, {"EINTR", EINTR}, {"ENOENT", ENOENT}, {"EACCES", EACCES},
      {"EMFILE", EMFILE}, {"ENFILE", ENFILE}, {"ENOSPC", ENOSPC}, {"EROFS", EROFS},
      {"EDQUOT", EDQUOT}, {"EISDIR", EISDIR}, {"ENOMEM", ENOMEM}, {"ELOOP", ELOOP},
      {"ENAMETOOLONG", ENAMETOOLONG}, {"EFBIG", EFBIG}, {"ESTALE", ESTALE}, {"ENOTDIR", ENOTDIR}};
  for (auto& x : k)
    if (n == x.n) return x.e;
  return 0;
}

std::string resolve(const char* p) {
  std::string s = p ? p : "";
  if (s.empty()) return s;
  if (s[0] != '/') s = "/sim/" + s;
  std::vector<std::string> parts;
  size_t i = 0;
  while (i < s.size()) {
    size_t j = s.find('/', i);
    if (j == std::string::npos) j = s.size();
    std::string c = s.substr(i, j - i);
    if (c == "..") {
      if (!parts.empty()) parts.pop_back();
    } else if (!c.empty() && c != ".") {
      parts.push_back(c);
    }
    i = j + 1;
  }
  std::string out;
  for (auto& c : parts) out += "/" + c;
  return out.empty() ? "/" : out;
}

static Node* find(const std::string& p) {
  auto it = fs.files.find(p);
  return it == fs.files.end() ? nullptr : it->second;
}
static bool parent_ok(const std::string& p) {
  size_t s = p.rfind('/');
  std::string d = s == 0 || s == std::string::npos ? "/" : p.substr(0, s);
  Node* n = find(d);
  return n && n->dir;
}
static int g_uid = 0;
static long g_tick = 0;
void put(const std::string& path, const std::string& data) {
  Guard g;
  Node*& n = fs.files[path];
  if (!n) {
    n = new Node();
    n->uid = ++g_uid;
  }
  n->dir = false;
  n->data = data;
  n->changed = ++g_tick;
}
bool get(const std::string& path, std::string* out) {
  Guard g;
  Node* n = find(path);
  if (!n || n->dir) return false;
  *out = n->data;
  return true;
}

static void w32(std::string* o, uint32_t v) { o->append((char*)&v, 4); }
static uint32_t r32(const std::string& s, size_t* p) {
  uint32_t v;
  memcpy(&v, s.data() + *p, 4);
  *p += 4;
  return v;
}
void serialize(std::string* o) {
  Guard g;
  w32(o, (uint32_t)fs.disk_free);
  w32(o, fs.files.size());
  for (auto& kv : fs.files) {
    w32(o, kv.first.size());
    *o += kv.first;
    Node* n = kv.second;
    w32(o, n->dir | n->pipe << 1 | n->noread << 2 | n->nowrite << 3 | n->noacc << 4);
    w32(o, n->data.size());
    *o += n->data;
  }
}
void deserialize(const std::string& in) {
  Guard g;
  fs.files.clear();
  size_t p = 0;
  fs.disk_free = (int32_t)r32(in, &p);
  uint32_t c = r32(in, &p);
  while (c--) {
    uint32_t l = r32(in, &p);
    std::string name = in.substr(p, l);
    p += l;
    uint32_t f = r32(in, &p);
    l = r32(in, &p);
    Node* n = new Node();
    n->data = in.substr(p, l);
    n->changed = ++g_tick;
    p += l;
    n->dir = f & 1;
    n->pipe = f >> 1 & 1;
    n->noread = f >> 2 & 1;
    n->nowrite = f >> 3 & 1;
    n->noacc = f >> 4 & 1;
    n->uid = ++g_uid;
    fs.files[name] = n;
  }
}
long open_handles() {
  Guard g;
  long n = 0;
  for (auto& o : table()) n += o.used;
  return n;
}

// The rule that fires at this call, or null.
static Rule* consult(int op, const std::string& path) {
  Rule* hit = nullptr;
  for (auto& r : rules) {
    if (r.op != OP_ANY && r.op != op) continue;
    if (r.path != "*" && r.path != path) continue;
    r.seen++;
    if (!hit && r.seen >= r.from && (r.count < 0 || r.seen < r.from + r.count)) hit = &r;
  }
  return hit;
}
static void note(Rule* r) {
  r->fired++;
  fired[r->kind + "@" + kOpName[r->op == OP_ANY ? OP_ANY : r->op]]++;
}
static void begin(int op) {
  n_ops++;
  if (yield_hook) yield_hook(kOpName[op]);
}
static void crash_now(int op, const std::string& p) {
  trace(op, p, -77, -77);
  crash_hook();
}

// 0 or a negative errno.
static int pre(int op, const std::string& path, Rule** out) {
  Rule* r = consult(op, path);
  *out = nullptr;
  if (!r) return 0;
  if (r->kind == "crash") {
    note(r);
    crash_now(op, path);
  }
  if (r->kind == "vanish") {  // the file is removed just before this call
    note(r);
    auto it = fs.files.find(path);
    if (it != fs.files.end()) fs.files.erase(it);
    return 0;
  }
  int e = errno_of(r->kind);
  if (e) {
    note(r);
    return -e;
  }
  *out = r;
  return 0;
}

static int do_open(const char* cpath, int flags) {
  Guard g;
  std::string path = resolve(cpath);
  begin(OP_OPEN);
  if (path.compare(0, 4, "/sim") != 0) n_escapes++;
  Rule* r;
  int e = pre(OP_OPEN, path, &r);
  Node* n = nullptr;
  int acc = flags & O_ACCMODE;
  bool rd = acc == O_RDONLY || acc == O_RDWR, wr = acc == O_WRONLY || acc == O_RDWR;
  if (!e) {
    n = find(path);
    if (!cpath || !*cpath) e = -ENOENT;
    else if (!n && !(flags & O_CREAT)) e = -ENOENT;
    else if (!n && !parent_ok(path)) e = -ENOENT;
    else if (n && n->noacc) e = -EACCES;
    else if (n && (flags & O_CREAT) && (flags & O_EXCL)) e = -EEXIST;
    else if (n && n->dir && wr) e = -EISDIR;
    else if (n && ((rd && n->noread) || (wr && n->nowrite))) e = -EACCES;
  }
  if (e) {
    trace(OP_OPEN, path, flags & (O_ACCMODE | O_CREAT | O_APPEND | O_TRUNC), e);
    errno = -e;
    return -1;
  }
  if (!n) {
    n = new Node();
    n->uid = ++g_uid;
    fs.files[path] = n;
    probes["file created"]++;
  } else if ((flags & O_TRUNC) && wr) {
    n->data.clear();
  }
  auto& t = table();
  size_t i = 0;
  while (i < t.size() && t[i].used) i++;
  if (i == t.size()) t.emplace_back();
  Open& o = t[i];
  o = Open();
  o.node = n;
  o.path = path;
  o.rd = rd;
  o.wr = wr;
  o.append = flags & O_APPEND;
  o.used = true;
  trace(OP_OPEN, path, flags & (O_ACCMODE | O_CREAT | O_APPEND | O_TRUNC), (long)i);
  return kBase + (int)i;
}
static Open* get_open(int fd) {
  size_t i = fd - kBase;
  if (fd < kBase || i >= table().size() || !table()[i].used) return nullptr;
  return &table()[i];
}
static bool ours(int fd) { return fd >= kBase; }

static ssize_t do_read(int fd, void* buf, size_t n) {
  Guard g;
  begin(OP_READ);
  Open* o = get_open(fd);
  if (!o || !o->rd) {
    errno = EBADF;
    return -1;
  }
  Rule* r;
  int e = pre(OP_READ, o->path, &r);
  if (!e && o->node->dir) e = -EISDIR;
  if (e) {
    trace(OP_READ, o->path, n, e);
    errno = -e;
    return -1;
  }
  size_t end = o->node->data.size();
  size_t m = n;
  if (r && r->kind == "eof") {  // the file ends early from here on
    if (end > (size_t)r->arg) {
      end = r->arg;
      note(r);
    }
  }
  size_t avail = o->pos < end ? end - o->pos : 0;
  if (m > avail) m = avail;
  if (r && r->kind == "short" && r->arg > 0 && m > (size_t)r->arg) {
    m = r->arg;
    note(r);
  }
  memcpy(buf, o->node->data.data() + o->pos, m);
  if (r && r->kind == "flip" && m > 0) {  // a stored bit read back wrong
    size_t k = (size_t)r->arg % (m * 8);
    ((unsigned char*)buf)[k / 8] ^= 1u << (k % 8);
    note(r);
  }
  o->pos += m;
  trace(OP_READ, o->path, n, m);
  return m;
}

static ssize_t do_write(int fd, const void* buf, size_t n) {
  Guard g;
  begin(OP_WRITE);
  Open* o = get_open(fd);
  if (!o || !o->wr) {
    errno = EBADF;
    return -1;
  }
  Rule* r;
  int e = pre(OP_WRITE, o->path, &r);
  if (e) {
    trace(OP_WRITE, o->path, n, e);
    errno = -e;
    return -1;
  }
  size_t m = n;
  bool torn = false;
  if (r && r->kind == "short" && r->arg > 0 && m > (size_t)r->arg) {
    m = r->arg;
    note(r);
  }
  if (r && r->kind == "torn") {  // the process dies inside this write
    m = n ? (size_t)r->arg % (n + 1) : 0;
    torn = true;
    note(r);
  }
  if (fs.disk_free >= 0) {
    if (fs.disk_free == 0 && m > 0) {
      fired["ENOSPC@disk"]++;
      trace(OP_WRITE, o->path, n, -ENOSPC);
      errno = ENOSPC;
      return -1;
    }
    if ((long)m > fs.disk_free) {
      m = fs.disk_free;
      fired["short@disk"]++;
    }
    fs.disk_free -= m;
  }
  if (o->append) o->pos = o->node->data.size();
  o->node->changed = ++g_tick;
  if (o->pos + m > o->node->data.size()) o->node->data.resize(o->pos + m);
  memcpy(&o->node->data[0] + o->pos, buf, m);
  o->pos += m;
  mix(buf, m);
  trace(OP_WRITE, o->path, n, m);
  if (torn) crash_now(OP_WRITE, o->path);
  return m;
}

static int do_close(int fd) {
  Guard g;
  begin(OP_CLOSE);
  Open* o = get_open(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  Rule* r;
  int e = pre(OP_CLOSE, o->path, &r);
  o->used = false;
  trace(OP_CLOSE, o->path, 0, e);
  if (e) {
    errno = -e;
    return -1;
  }
  return 0;
}

static int64_t do_lseek(int fd, int64_t off, int wh) {
  Guard g;
  begin(OP_SEEK);
  Open* o = get_open(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  Rule* r;
  int e = pre(OP_SEEK, o->path, &r);
  if (!e && o->node->pipe) e = -ESPIPE;
  int64_t p = off + (wh == SEEK_CUR ? (int64_t)o->pos : wh == SEEK_END ? (int64_t)o->node->data.size() : 0);
  if (!e && p < 0) e = -EINVAL;
  trace(OP_SEEK, o->path, off, e ? e : p);
  if (e) {
    errno = -e;
    return -1;
  }
  o->pos = p;
  return p;
}

static void fill(const Node* n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_ino = n->uid;
  st->st_nlink = 1;
  st->st_mode = (n->dir ? S_IFDIR : n->pipe ? S_IFIFO : S_IFREG) | 0644;
  st->st_size = n->pipe ? 0 : n->data.size();
  st->st_blksize = 4096;
  st->st_mtime = st->st_ctime = st->st_atime = 1600000000 + n->changed;
}
static int do_stat(const char* cpath, struct stat* st) {
  Guard g;
  begin(OP_STAT);
  std::string path = resolve(cpath);
  if (path.compare(0, 4, "/sim") != 0 && path != "/") n_escapes++;
  Rule* r;
  int e = pre(OP_STAT, path, &r);
  Node* n = find(path);
  if (!e && (!cpath || !*cpath || !n)) e = -ENOENT;
  if (!e && n->noacc) e = -EACCES;
  if (!e && path.size() > 1) {
    std::string d = path;
    size_t s;
    while ((s = d.rfind('/')) != std::string::npos && s > 0) {
      d = d.substr(0, s);
      Node* dn = find(d);
      if (dn && dn->noacc) e = -EACCES;
    }
  }
  trace(OP_STAT, path, 0, e);
  if (e) {
    errno = -e;
    return -1;
  }
  fill(n, st);
  return 0;
}
static int do_fstat(int fd, struct stat* st) {
  Guard g;
  Open* o = get_open(fd);
  if (!o) {
    errno = EBADF;
    return -1;
  }
  fill(o->node, st);
  return 0;
}

// Streams the program leaked are flushed by exit(), after the run is over.
bool over = false;
static ssize_t ck_read(void* c, char* b, size_t n) { return over ? 0 : do_read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void* c, const char* b, size_t n) {
  if (over) return n;
  ssize_t r = do_write((int)(intptr_t)c, b, n);
  return r < 0 ? 0 : r;
}
static int ck_seek(void* c, off64_t* off, int wh) {
  if (over) return 0;
  int64_t r = do_lseek((int)(intptr_t)c, *off, wh);
  if (r < 0) return -1;
  *off = r;
  return 0;
}
static int ck_close(void* c) { return over ? 0 : do_close((int)(intptr_t)c); }

static FILE* do_fdopen(int fd, const char* mode) {
  Guard g;
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie((void*)(intptr_t)fd, mode, io);
  if (!f) return nullptr;
  get_open(fd)->stream = f;
  streams()[f] = fd;
  return f;
}
static FILE* do_fopen(const char* path, const char* mode) {
  int fl;
  bool plus = strchr(mode, '+') != nullptr;
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  int fd = do_open(path, fl);
  if (fd < 0) return nullptr;
  return do_fdopen(fd, mode);
}
static bool on() { return active && !in_sim; }

template <class F>
static F real(const char* n) {
  return (F)dlsym(RTLD_NEXT, n);
}
}  // namespace simfs

using namespace simfs;

extern "C" {

FILE* fopen(const char* p, const char* m) {
  if (on()) return do_fopen(p, m);
  static auto f = real<FILE* (*)(const char*, const char*)>("fopen");
  return f(p, m);
}
FILE* fopen64(const char* p, const char* m) {
  if (on()) return do_fopen(p, m);
  static auto f = real<FILE* (*)(const char*, const char*)>("fopen64");
  return f(p, m);
}
FILE* fdopen(int fd, const char* m) {
  if (ours(fd)) return do_fdopen(fd, m);
  static auto f = real<FILE* (*)(int, const char*)>("fdopen");
  return f(fd, m);
}
int fileno(FILE* f) {
  {
    Guard g;
    auto it = streams().find(f);
    if (it != streams().end()) return it->second;
  }
  static auto r = real<int (*)(FILE*)>("fileno");
  return r(f);
}
int fclose(FILE* f) {
  {
    Guard g;
    streams().erase(f);
  }
  static auto r = real<int (*)(FILE*)>("fclose");
  return r(f);
}
int open(const char* p, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  if (on()) return do_open(p, flags);
  return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int open64(const char* p, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  if (on()) return do_open(p, flags);
  return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) {
  if (ours(fd)) return do_close(fd);
  return syscall(SYS_close, fd);
}
ssize_t read(int fd, void* b, size_t n) {
  if (ours(fd)) return do_read(fd, b, n);
  return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
  if (ours(fd)) return do_write(fd, b, n);
  return syscall(SYS_write, fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t off) {
  if (ours(fd)) {
    Open* o = get_open(fd);
    if (!o) { errno = EBADF; return -1; }
    size_t keep = o->pos;
    o->pos = off;
    ssize_t r = do_read(fd, b, n);
    if ((o = get_open(fd))) o->pos = keep;
    return r;
  }
  return syscall(SYS_pread64, fd, b, n, off);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t off) { return pread(fd, b, n, off); }
ssize_t writev(int fd, const struct iovec* v, int c) {
  if (ours(fd)) {
    Guard g;
    // One kernel call: one transfer, possibly partial.
    std::string all;
    for (int i = 0; i < c; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
    return do_write(fd, all.data(), all.size());
  }
  return syscall(SYS_writev, fd, v, c);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
  if (ours(fd)) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
      ssize_t r = do_read(fd, v[i].iov_base, v[i].iov_len);
      if (r < 0) return t ? t : -1;
      t += r;
      if ((size_t)r < v[i].iov_len) break;
    }
    return t;
  }
  return syscall(SYS_readv, fd, v, c);
}
off_t lseek(int fd, off_t off, int wh) {
  if (ours(fd)) return do_lseek(fd, off, wh);
  return syscall(SYS_lseek, fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) {
  if (ours(fd)) return do_lseek(fd, off, wh);
  return syscall(SYS_lseek, fd, off, wh);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (ours(fd)) {
    Open* o = get_open(fd);
    if (o && req == FIONREAD) {
      *(int*)arg = o->pos < o->node->data.size() ? o->node->data.size() - o->pos : 0;
      return 0;
    }
    errno = ENOTTY;
    return -1;
  }
  return syscall(SYS_ioctl, fd, req, arg);
}
int poll(struct pollfd* p, nfds_t n, int t) {
  if (n == 1 && ours(p->fd)) {
    p->revents = POLLIN;
    return 1;
  }
  return syscall(SYS_poll, p, n, t);
}
int fsync(int fd) {
  if (ours(fd)) return 0;
  return syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
  if (ours(fd)) return 0;
  return syscall(SYS_fdatasync, fd);
}
static int change(const std::string& path, long what, int (*f)(const std::string&, const std::string&, off_t), const std::string& to, off_t n) {
  Guard g;
  begin(OP_ANY);
  Rule* r;
  int e = pre(OP_ANY, path, &r);
  if (!e) e = f(path, to, n);
  trace(OP_ANY, path, what, e);
  if (e) {
    errno = -e;
    return -1;
  }
  return 0;
}
static int cut(const std::string& p, const std::string&, off_t n) {
  Node* x = find(p);
  if (!x) return -ENOENT;
  if (x->dir) return -EISDIR;
  x->data.resize(n);
  x->changed = ++g_tick;
  return 0;
}
static int drop(const std::string& p, const std::string&, off_t) {
  auto it = fs.files.find(p);
  if (it == fs.files.end()) return -ENOENT;
  fs.files.erase(it);
  return 0;
}
static int move(const std::string& p, const std::string& to, off_t) {
  auto it = fs.files.find(p);
  if (it == fs.files.end()) return -ENOENT;
  if (!parent_ok(to)) return -ENOENT;
  Node* n = it->second;
  fs.files.erase(it);
  fs.files[to] = n;
  for (auto& o : table())
    if (o.used && o.node == n) o.path = to;
  return 0;
}
static int make_dir(const std::string& p, const std::string&, off_t) {
  if (find(p)) return -EEXIST;
  if (!parent_ok(p)) return -ENOENT;
  Node* n = new Node();
  n->dir = true;
  n->uid = ++g_uid;
  fs.files[p] = n;
  return 0;
}
int ftruncate(int fd, off_t n) {
  if (ours(fd)) {
    Open* o = get_open(fd);
    if (!o) { errno = EBADF; return -1; }
    return change(o->path, 4, cut, "", n);
  }
  return syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) {
  if (on()) return change(resolve(p), 4, cut, "", n);
  return syscall(SYS_truncate, p, n);
}
int truncate64(const char* p, off64_t n) { return truncate(p, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t off) {
  if (ours(fd)) {
    Open* o = get_open(fd);
    if (!o) { errno = EBADF; return -1; }
    size_t keep = o->pos;
    o->pos = off;
    ssize_t r = do_write(fd, b, n);
    if ((o = get_open(fd))) o->pos = keep;
    return r;
  }
  return syscall(SYS_pwrite64, fd, b, n, off);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t off) { return pwrite(fd, b, n, off); }
int openat(int d, const char* p, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  if (on()) return do_open(p, flags);
  return syscall(SYS_openat, d, p, flags, mode);
}
int openat64(int d, const char* p, int flags, ...) {
  mode_t mode = 0;
  if (flags & O_CREAT) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, int);
    va_end(ap);
  }
  return openat(d, p, flags, mode);
}
int posix_fadvise(int fd, off_t a, off_t b, int how) {
  if (ours(fd)) return 0;
  return syscall(SYS_fadvise64, fd, a, b, how) < 0 ? errno : 0;
}
int posix_fadvise64(int fd, off64_t a, off64_t b, int how) { return posix_fadvise(fd, a, b, how); }
int flock(int fd, int how) {
  if (ours(fd)) return 0;
  return syscall(SYS_flock, fd, how);
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (ours(fd)) {
    Open* o = get_open(fd);
    if (!o) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return (o->rd && o->wr ? O_RDWR : o->wr ? O_WRONLY : O_RDONLY) | (o->append ? O_APPEND : 0);
    return 0;
  }
  return syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
ssize_t sendfile(int o, int i, off_t* off, size_t n) {
  if (ours(o) || ours(i)) { errno = EINVAL; return -1; }
  return syscall(SYS_sendfile, o, i, off, n);
}
ssize_t sendfile64(int o, int i, off64_t* off, size_t n) { return sendfile(o, i, off, n); }
// A private copy of the file; memory mapped output is not simulated.
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (ours(fd)) {
    Open* o = get_open(fd);
    if (!o || !o->rd) { errno = EACCES; return MAP_FAILED; }
    Guard g;
    begin(OP_READ);
    Rule* r;
    int e = pre(OP_READ, o->path, &r);
    if (!e && (flags & MAP_SHARED) && (prot & PROT_WRITE)) e = -ENODEV;
    trace(OP_READ, o->path, n, e);
    if (e) { errno = -e; return MAP_FAILED; }
    void* p = (void*)syscall(SYS_mmap, a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p != MAP_FAILED && (size_t)off < o->node->data.size())
      memcpy(p, o->node->data.data() + off, std::min(n, o->node->data.size() - (size_t)off));
    return p;
  }
  return (void*)syscall(SYS_mmap, a, n, prot, flags, fd, off);
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off64_t off) { return mmap(a, n, prot, flags, fd, off); }
int isatty(int fd) {
  (void)fd;
  errno = ENOTTY;
  return 0;
}
int stat(const char* p, struct stat* st) {
  if (on()) return do_stat(p, st);
  return syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int lstat(const char* p, struct stat* st) {
  if (on()) return do_stat(p, st);
  return syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int fstat(int fd, struct stat* st) {
  if (ours(fd)) return do_fstat(fd, st);
  return syscall(SYS_fstat, fd, st);
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int lstat64(const char* p, struct stat64* st) { return lstat(p, (struct stat*)st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int fstatat(int d, const char* p, struct stat* st, int fl) {
  if (on()) return do_stat(p, st);
  return syscall(SYS_newfstatat, d, p, st, fl);
}
int fstatat64(int d, const char* p, struct stat64* st, int fl) {
  return fstatat(d, p, (struct stat*)st, fl);
}
int access(const char* p, int m) {
  if (on()) {
    struct stat st;
    if (do_stat(p, &st)) return -1;
    Guard g;
    Node* n = find(resolve(p));
    if (n && (((m & R_OK) && n->noread) || ((m & W_OK) && n->nowrite))) {
      errno = EACCES;
      return -1;
    }
    return 0;
  }
  return syscall(SYS_access, p, m);
}
int unlink(const char* p) {
  if (on()) return change(resolve(p), 1, drop, "", 0);
  return syscall(SYS_unlink, p);
}
int rmdir(const char* p) {
  if (on()) return change(resolve(p), 1, drop, "", 0);
  return syscall(SYS_rmdir, p);
}
int remove(const char* p) { return unlink(p); }
int rename(const char* a, const char* b) {
  if (on()) return change(resolve(a), 2, move, resolve(b), 0);
  return syscall(SYS_rename, a, b);
}
int mkdir(const char* p, mode_t m) {
  if (on()) return change(resolve(p), 3, make_dir, "", 0);
  return syscall(SYS_mkdir, p, m);
}
int mkstemp(char* t) {
  if (on()) {
    size_t n = strlen(t);
    if (n < 6) { errno = EINVAL; return -1; }
    for (int k = 0; k < 1000; k++) {
      char b[8];
      snprintf(b, sizeof b, "%06d", k);
      memcpy(t + n - 6, b, 6);
      int fd = do_open(t, O_RDWR | O_CREAT | O_EXCL);
      if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
  }
  static auto f = real<int (*)(char*)>("mkstemp");
  return f(t);
}
int faccessat(int d, const char* p, int m, int fl) {
  if (on()) return access(p, m);
  return syscall(SYS_faccessat, d, p, m, fl);
}
int euidaccess(const char* p, int m) { return access(p, m); }
int eaccess(const char* p, int m) { return access(p, m); }
int chmod(const char* p, mode_t m) {
  if (on()) {
    struct stat st;
    return do_stat(p, &st);
  }
  return syscall(SYS_chmod, p, m);
}
int fchmod(int fd, mode_t m) {
  if (ours(fd)) return 0;
  return syscall(SYS_fchmod, fd, m);
}
char* realpath(const char* p, char* b) {
  if (on()) {
    struct stat st;
    if (do_stat(p, &st)) return nullptr;
    Guard g;
    std::string r = resolve(p);
    if (!b) return strdup(r.c_str());
    return strcpy(b, r.c_str());
  }
  static auto f = real<char* (*)(const char*, char*)>("realpath");
  return f(p, b);
}
char* getcwd(char* b, size_t n) {
  if (on()) {
    Guard g;
    begin(OP_CWD);
    Rule* r;
    int e = pre(OP_CWD, "/sim", &r);
    trace(OP_CWD, "/sim", 0, e);
    if (e) {
      errno = -e;
      return nullptr;
    }
    if (!b) return strdup("/sim");
    if (n < 5) {
      errno = ERANGE;
      return nullptr;
    }
    return strcpy(b, "/sim");
  }
  return syscall(SYS_getcwd, b, n) < 0 ? nullptr : b;
}
}
