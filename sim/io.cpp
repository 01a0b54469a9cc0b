// Interposition of the C library functions through which the program reaches files, clocks, the shell and the heap.
#include "io.hpp"
#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cerrno>
#include <dlfcn.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <spawn.h>
#include <sys/mman.h>
#include <algorithm>
#include <new>
#include <time.h>

extern "C" void* __libc_malloc(size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_memalign(size_t, size_t);
extern "C" void __libc_free(void*);

namespace sim {
const char* op_name[] = {"open-read", "open-write", "read", "write", "truncate", "close", "unlink", "rename", "symlink", "mkdir", "stat", "shell", "copy", "stdin"};
const char* fault_name[] = {"error", "error-window", "error-file", "short-transfer", "interrupt", "crash-before", "crash-after", "crash-torn", "clock-jump", "stall", "user-command", "allocation-failure", "error-nth"};
void (*crash_hook)() = nullptr;
void (*user_hook)(int64_t) = nullptr;
void (*op_hook)(uint64_t, int, const char*) = nullptr;
std::string escape_path;
void on_alloc(void* p, size_t n);
void no_preempt(int);

static bool on = false;
static Io_spec spec;
static Io_stats stats;
static Vec<Op_rec> log_;
static std::vector<std::string> paths;
static std::map<std::string, int> path_ids;
struct Fd { int path = -1; bool write = false; };
static Fd fds[1024];
static double extra_mono = 0., extra_real = 0.;
static uint64_t rng_state;
static bool file_broken = false; static int broken_path = -1; static int broken_errno = 0;
static bool alloc_armed = false;
static uint64_t allocs = 0;
static int64_t alloc_fail_at = -1;
static int busy = 0; // inside simulator code: pass everything through

template <typename T> static T real(const char* name) { return (T)dlsym(RTLD_NEXT, name); }
#define REAL(name) static auto real_##name = real<decltype(&::name)>(#name)

static double uni() { uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27))*0x94d049bb133111ebull; z ^= z >> 31; return (z >> 11)*(1./9007199254740992.); }
static void hash_in(uint64_t v) { stats.hash = (stats.hash ^ v)*1099511628211ull; }

double sim_monotonic() { return 1000. + ticks()*1e-9 + extra_mono; }
double sim_realtime() { return spec.clock_start + ticks()*1e-9 + extra_mono + extra_real; }

// absolute, normalised path without resolving symbolic links
static std::string absolute(const char* p)
{
  std::string s = p ? p : "";
  if (s.empty() || s[0] != '/') { char b[4096]; if (syscall(SYS_getcwd, b, sizeof b) > 0) s = std::string(b) + "/" + s; }
  std::vector<std::string> parts; std::string cur;
  for (size_t i = 0; i <= s.size(); ++i) {
    if (i == s.size() || s[i] == '/') {
      if (cur == "..") { if (!parts.empty()) parts.pop_back(); }
      else if (!cur.empty() && cur != ".") parts.push_back(cur);
      cur.clear();
    } else cur += s[i];
  }
  std::string r;
  for (auto& x : parts) r += "/" + x;
  return r.empty() ? "/" : r;
}
static bool inside(const std::string& a) { return !spec.root.empty() && a.size() >= spec.root.size() && a.compare(0, spec.root.size(), spec.root) == 0 && (a.size() == spec.root.size() || a[spec.root.size()] == '/'); }
static int path_id(const std::string& a)
{
  std::string rel = inside(a) ? a.substr(std::min(a.size(), spec.root.size() + 1)) : a;
  auto it = path_ids.find(rel);
  if (it != path_ids.end()) return it->second;
  int i = paths.size();
  paths.push_back(rel); path_ids[rel] = i;
  return i;
}

static bool modifies(int type) { return type == OP_OPEN_W || type == OP_WRITE || type == OP_TRUNC || type == OP_RENAME || type == OP_SYMLINK || type == OP_MKDIR || type == OP_COPY || type == OP_SHELL; }

static void die()
{
  stats.injected[0] += 0;
  if (crash_hook) crash_hook();
  _exit(137);
}

struct Decision { int err = 0; bool torn = false, crash_after = false, shorten = false, eintr = false; };

// every simulated operation passes through here before it takes effect
static Decision begin(int type, int path, uint64_t size)
{
  Decision d;
  uint64_t i = stats.ops++;
  stats.by_type[type]++;
  log_.push_back({(uint8_t)type, 0, path, size});
  hash_in(i); hash_in(type); hash_in(path); hash_in(size);
  extra_mono += spec.io_latency*(.5 + uni());
  if (op_hook) { ++busy; op_hook(i, type, path >= 0 ? paths[path].c_str() : ""); --busy; }
  bool data_op = type == OP_READ || type == OP_WRITE || type == OP_COPY;
  for (auto& f : spec.faults) {
    if (f.kind == F_ALLOC) continue;
    bool hit = f.kind == F_ERR_WINDOW ? (i >= f.op && i < f.op + (uint64_t)f.arg2 && modifies(type)) : f.kind == F_ERR_NTH ? (type == f.arg2 && f.op + 1 == stats.by_type[type]) : f.op == i;
    if (!hit) continue;
    switch (f.kind) {
      case F_ERR: case F_ERR_NTH: d.err = f.arg; break;
      case F_ERR_WINDOW: d.err = f.arg; break;
      case F_ERR_PATH: if (path >= 0) { file_broken = true; broken_path = path; broken_errno = f.arg; } break;
      case F_SHORT: if (data_op && size > 1 && type != OP_COPY) d.shorten = true; else continue; break;
      case F_EINTR: if (data_op && type != OP_COPY) d.eintr = true; else continue; break;
      case F_CRASH: stats.injected[F_CRASH]++; hash_in(777); die(); break;
      case F_CRASH_AFTER: d.crash_after = true; break;
      case F_CRASH_TORN: if (type == OP_WRITE || type == OP_COPY) d.torn = true; else d.crash_after = true; break;
      case F_CLOCK_JUMP: extra_real += f.arg; break;
      case F_STALL: extra_mono += f.arg; break;
      case F_USER: if (user_hook) { ++busy; user_hook(f.arg); --busy; } break;
      default: continue;
    }
    stats.injected[f.kind]++;
    hash_in(f.kind + 100);
  }
  if (file_broken && path == broken_path && modifies(type) && !d.err) { d.err = broken_errno; stats.injected[F_ERR_PATH]++; }
  if (d.err || d.shorten || d.eintr) log_.back().faulted = 1;
  return d;
}
static void end(const Decision& d) { if (d.crash_after) { hash_in(778); die(); } }

// returns simulated path id or -1 (not simulated)
static int tracked(const char* p) { if (!on || busy) return -1; ++busy; std::string a = absolute(p); int r = inside(a) ? path_id(a) : -1; --busy; return r; }
static bool escape(const char* p) // a modifying operation outside the scratch directory
{
  if (!on || busy) return false;
  ++busy;
  std::string a = absolute(p);
  bool e = !inside(a) && a.compare(0, 5, "/dev/") != 0;
  if (e) { stats.escapes++; if (escape_path.empty()) escape_path = a; }
  --busy;
  return e;
}
static int fd_path(int fd) { return on && !busy && fd >= 0 && fd < 1024 ? fds[fd].path : -1; }

void io_start(const Io_spec& s)
{
  spec = s; stats = Io_stats(); log_.clear(); paths.clear(); path_ids.clear();
  for (auto& f : fds) f = Fd();
  extra_mono = extra_real = 0; rng_state = s.seed + 77; file_broken = false; broken_path = -1;
  allocs = 0; alloc_fail_at = -1;
  for (auto& f : spec.faults) if (f.kind == F_ALLOC) alloc_fail_at = f.op;
  on = true;
}
void io_stop() { on = false; }
Io_stats& io_stats() { stats.allocs = allocs; return stats; }
const Vec<Op_rec>& io_log() { return log_; }
const std::vector<std::string>& io_paths() { return paths; }
uint64_t alloc_count() { return allocs; }
void alloc_arm(bool b) { alloc_armed = b; }

static int do_open(int dirfd, const char* path, int flags, mode_t mode)
{
  bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
  int id = dirfd == AT_FDCWD || (path && path[0] == '/') ? tracked(path) : -1;
  if (id < 0) {
    if (w && (dirfd == AT_FDCWD || path[0] == '/') && escape(path)) { errno = EACCES; return -1; }
    return syscall(SYS_openat, dirfd, path, flags, mode);
  }
  if (flags & O_DIRECTORY) return syscall(SYS_openat, dirfd, path, flags, mode);
  Decision d = begin(w ? OP_OPEN_W : OP_OPEN_R, id, flags & O_TRUNC ? 1 : 0);
  if (d.err) { errno = d.err; end(d); return -1; }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (fd >= 0 && fd < 1024) { fds[fd].path = id; fds[fd].write = w; }
  end(d);
  return fd;
}
static std::string fd_name(int dirfd, const char* p)
{
  if (dirfd == AT_FDCWD || (p && p[0] == '/')) return p ? p : "";
  char b[64], out[4096]; snprintf(b, 64, "/proc/self/fd/%d", dirfd);
  ssize_t n = syscall(SYS_readlink, b, out, 4095);
  return n > 0 ? std::string(out, n) + "/" + p : std::string(p);
}
}

using namespace sim;

extern "C" double sim_wtime() { return sim_monotonic(); }

extern "C" {

int open(const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, path, flags, m); }
int open64(const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(AT_FDCWD, path, flags, m); }
int openat(int dir, const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(dir, path, flags, m); }
int openat64(int dir, const char* path, int flags, ...) { va_list a; va_start(a, flags); mode_t m = va_arg(a, mode_t); va_end(a); return do_open(dir, path, flags, m); }
int creat(const char* path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static FILE* do_fopen(const char* path, const char* mode)
{
  REAL(fopen);
  bool w = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
  int id = tracked(path);
  if (id < 0) {
    if (w && escape(path)) { errno = EACCES; return nullptr; }
    return real_fopen(path, mode);
  }
  Decision d = begin(w ? OP_OPEN_W : OP_OPEN_R, id, strchr(mode, 'w') ? 1 : 0);
  if (d.err) { errno = d.err; end(d); return nullptr; }
  FILE* f = real_fopen(path, mode);
  if (f) { int fd = fileno(f); if (fd < 1024) { fds[fd].path = id; fds[fd].write = w; } }
  end(d);
  return f;
}
FILE* fopen(const char* path, const char* mode) { return do_fopen(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return do_fopen(path, mode); }
int fclose(FILE* f)
{
  REAL(fclose);
  int fd = fileno(f);
  int id = fd_path(fd);
  if (id < 0) return real_fclose(f);
  Decision d = begin(OP_CLOSE, id, 0);
  fds[fd] = Fd();
  int r = real_fclose(f);
  if (d.err && d.err != EINTR) { errno = d.err; r = EOF; }
  end(d);
  return r;
}
int close(int fd)
{
  int id = fd_path(fd);
  if (id < 0) return syscall(SYS_close, fd);
  Decision d = begin(OP_CLOSE, id, 0);
  fds[fd] = Fd();
  int r = syscall(SYS_close, fd);
  if (d.err) { errno = d.err; r = -1; }
  end(d);
  return r;
}
static ssize_t do_write(int fd, const void* buf, size_t n, bool p, off_t off)
{
  auto raw = [&](size_t m) -> ssize_t { return p ? syscall(SYS_pwrite64, fd, buf, m, off) : syscall(SYS_write, fd, buf, m); };
  int id = fd_path(fd);
  if (id < 0) return raw(n);
  Decision d = begin(OP_WRITE, id, n);
  if (d.torn) { size_t m = n ? (size_t)(uni()*n) : 0; if (m) { ssize_t r = raw(m); (void)r; } hash_in(779 + m); die(); }
  if (d.err) { errno = d.err; end(d); return -1; }
  if (d.eintr) { errno = EINTR; end(d); return -1; }
  size_t m = n;
  if (d.shorten && n > 1) m = 1 + (size_t)(uni()*(n - 1));
  ssize_t r = raw(m);
  if (r > 0) stats.bytes_written += r;
  end(d);
  return r;
}
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n, false, 0); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, true, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, true, o); }
ssize_t writev(int fd, const struct iovec* v, int c)
{
  int id = fd_path(fd);
  if (id < 0) return syscall(SYS_writev, fd, v, c);
  ++busy; std::string all; for (int i = 0; i < c; ++i) all.append((const char*)v[i].iov_base, v[i].iov_len); --busy;
  return do_write(fd, all.data(), all.size(), false, 0);
}
static ssize_t do_read(int fd, void* buf, size_t n, bool p, off_t off)
{
  auto raw = [&](size_t m) -> ssize_t { return p ? syscall(SYS_pread64, fd, buf, m, off) : syscall(SYS_read, fd, buf, m); };
  int id = fd_path(fd);
  if (id < 0) return raw(n);
  Decision d = begin(OP_READ, id, n);
  if (d.err) { errno = d.err; end(d); return -1; }
  if (d.eintr) { errno = EINTR; end(d); return -1; }
  size_t m = n;
  if (d.shorten && n > 1) m = 1 + (size_t)(uni()*(n - 1));
  ssize_t r = raw(m);
  if (r > 0) stats.bytes_read += r;
  end(d);
  return r;
}
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n, false, 0); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, true, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, true, o); }
static int do_ftruncate(int fd, off_t n)
{
  int id = fd_path(fd);
  if (id < 0) return syscall(SYS_ftruncate, fd, n);
  Decision d = begin(OP_TRUNC, id, n);
  if (d.err) { errno = d.err; end(d); return -1; }
  int r = syscall(SYS_ftruncate, fd, n);
  end(d);
  return r;
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off_t n) { return do_ftruncate(fd, n); }

#define SIM_PATH_OP(TYPE, PATH, CALL) \
  int id = tracked(PATH); \
  if (id < 0) { if (escape(PATH)) { errno = EACCES; return -1; } return CALL; } \
  Decision d = begin(TYPE, id, 0); \
  if (d.err) { errno = d.err; end(d); return -1; } \
  int r = CALL; \
  end(d); \
  return r;
int truncate(const char* p, off_t n) { SIM_PATH_OP(OP_TRUNC, p, (int)syscall(SYS_truncate, p, n)) }
int unlink(const char* p) { SIM_PATH_OP(OP_UNLINK, p, (int)syscall(SYS_unlink, p)) }
int rmdir(const char* p) { SIM_PATH_OP(OP_UNLINK, p, (int)syscall(SYS_rmdir, p)) }
int remove(const char* p)
{
  struct stat st;
  SIM_PATH_OP(OP_UNLINK, p, (int)(syscall(SYS_newfstatat, AT_FDCWD, p, &st, AT_SYMLINK_NOFOLLOW) == 0 && S_ISDIR(st.st_mode) ? syscall(SYS_rmdir, p) : syscall(SYS_unlink, p)))
}
int unlinkat(int dir, const char* p, int fl) { ++busy; std::string full = fd_name(dir, p); --busy; SIM_PATH_OP(OP_UNLINK, full.c_str(), (int)syscall(SYS_unlinkat, dir, p, fl)) }
int rename(const char* a, const char* b)
{
  if (escape(a)) { errno = EACCES; return -1; }
  SIM_PATH_OP(OP_RENAME, b, (int)syscall(SYS_rename, a, b))
}
int renameat(int d1, const char* a, int d2, const char* b)
{
  ++busy; std::string fa = fd_name(d1, a), fb = fd_name(d2, b); --busy;
  if (escape(fa.c_str())) { errno = EACCES; return -1; }
  SIM_PATH_OP(OP_RENAME, fb.c_str(), (int)syscall(SYS_renameat, d1, a, d2, b))
}
int symlink(const char* t, const char* p) { SIM_PATH_OP(OP_SYMLINK, p, (int)syscall(SYS_symlink, t, p)) }
int symlinkat(const char* t, int dir, const char* p) { ++busy; std::string full = fd_name(dir, p); --busy; SIM_PATH_OP(OP_SYMLINK, full.c_str(), (int)syscall(SYS_symlinkat, t, dir, p)) }
int link(const char* t, const char* p) { SIM_PATH_OP(OP_SYMLINK, p, (int)syscall(SYS_link, t, p)) }
int mkdir(const char* p, mode_t m) { SIM_PATH_OP(OP_MKDIR, p, (int)syscall(SYS_mkdir, p, m)) }
int chmod(const char* p, mode_t m) { if (on && !busy && escape(p)) { errno = EACCES; return -1; } return syscall(SYS_chmod, p, m); }

ssize_t sendfile(int out, int in, off_t* off, size_t n)
{
  int id = fd_path(out);
  if (id < 0) return syscall(SYS_sendfile, out, in, off, n);
  Decision d = begin(OP_COPY, id, n);
  if (d.err) { errno = d.err; end(d); return -1; }
  size_t m = n;
  if (d.shorten || d.torn) m = (size_t)(uni()*n);
  ssize_t r = syscall(SYS_sendfile, out, in, off, m);
  if (d.torn) { hash_in(780); die(); }
  if (r > 0) stats.bytes_written += r;
  end(d);
  return r;
}
ssize_t sendfile64(int out, int in, off_t* off, size_t n) { return sendfile(out, in, off, n); }
ssize_t copy_file_range(int in, off64_t* oi, int out, off64_t* oo, size_t n, unsigned fl)
{
  int id = fd_path(out);
  if (id < 0) return syscall(SYS_copy_file_range, in, oi, out, oo, n, fl);
  errno = ENOSYS; return -1;
}

// the shell: a separate process; one operation of this one. It can fail, and the process can be killed around it.
int system(const char* cmd)
{
  if (!cmd) return 1;
  ++busy; int id = on ? path_id(std::string("$ ") + cmd) : -1; --busy;
  Decision d;
  if (on) {
    d = begin(OP_SHELL, id, 0);
    if (d.err || d.eintr) { end(d); return 1 << 8; }
  }
  ++busy;
  const char* argv[] = {"sh", "-c", cmd, nullptr};
  pid_t pid; int status = -1;
  const char* envp[] = {"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", nullptr};
  if (posix_spawn(&pid, "/bin/sh", nullptr, nullptr, (char**)argv, (char**)envp) == 0) waitpid(pid, &status, 0);
  --busy;
  end(d);
  return status;
}

// clocks
static void fill(struct timespec* t, double s) { t->tv_sec = (time_t)s; t->tv_nsec = (long)((s - (double)t->tv_sec)*1e9); }
int clock_gettime(clockid_t c, struct timespec* t)
{
  if (!on) return syscall(SYS_clock_gettime, c, t);
  stats.clock_reads++;
  advance_ticks(20);
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) fill(t, sim_realtime());
  else fill(t, sim_monotonic());
  return 0;
}
int gettimeofday(struct timeval* tv, void*)
{
  if (!on) return syscall(SYS_gettimeofday, tv, nullptr);
  stats.clock_reads++;
  advance_ticks(20);
  double s = sim_realtime();
  tv->tv_sec = (time_t)s; tv->tv_usec = (long)((s - (double)tv->tv_sec)*1e6);
  return 0;
}
time_t time(time_t* p)
{
  if (!on) return syscall(SYS_time, p);
  time_t t = (time_t)sim_realtime();
  if (p) *p = t;
  return t;
}

// ---- the program's heap: addresses are a function of the program's own allocations and of the layout seed only
}
namespace sim {
static char* const arena = (char*)0x500000000000ull;
static const size_t arena_size = 3ull << 30;
static size_t arena_top = 0;
static bool heap_on = false;
static uint64_t layout_rng = 0; static bool layout_random = false; static unsigned char poison = 0xa5;
struct Head { uint64_t size; uint32_t cls; uint32_t off; }; // just before the memory; `off`: distance from the start of the block
struct Free_node { Free_node* next; };
const int n_cls = 64 + 4*22;
static Free_node* free_list[n_cls];
static Free_node* free_tail[n_cls];
static size_t free_count[n_cls];
// which of the freed blocks is used next: 0: the last one freed; 1: the first one freed; 2: either; 3: none until there are a lot of them
static int reuse_policy = 0;
static bool in_arena(const void* p) { return (char*)p >= arena && (char*)p < arena + arena_size; }
static size_t cls_size(int c)
{
  if (c < 64) return 16*(size_t)(c + 1);
  int k = c - 64;
  size_t base = 1024ull << (k/4);
  return base + (k%4 + 1)*(base/4);
}
static int cls_of(size_t n)
{
  if (n <= 1024) return n ? (int)((n + 15)/16 - 1) : 0;
  int c = 64;
  while (cls_size(c) < n) if (++c >= n_cls) return -1;
  return c;
}
static uint64_t lrand() { uint64_t z = (layout_rng += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27))*0x94d049bb133111ebull; return z ^ (z >> 31); }
static void* arena_alloc(size_t n, size_t align)
{
  size_t extra = sizeof(Head) + (align > 16 ? align : 0);
  int c = cls_of(n + extra);
  if (c < 0) return nullptr;
  size_t bs = cls_size(c);
  if (!free_list[c] || (reuse_policy == 3 && free_count[c]*bs < (512u << 10) && arena_top < arena_size/2)) {
    int m = bs <= 1024 ? 64 : bs <= 65536 ? 8 : 1;
    if (arena_top + m*bs > arena_size) return nullptr;
    char* base = arena + arena_top; arena_top += m*bs;
    int order[64];
    for (int i = 0; i < m; ++i) order[i] = i;
    if (layout_random) for (int i = m - 1; i > 0; --i) std::swap(order[i], order[lrand()%(i + 1)]);
    for (int i = m - 1; i >= 0; --i) { auto* f = (Free_node*)(base + order[i]*bs); f->next = free_list[c]; free_list[c] = f; if (!free_tail[c]) free_tail[c] = f; }
    free_count[c] += m;
  }
  char* b = (char*)free_list[c];
  free_list[c] = free_list[c]->next;
  if (!free_list[c]) free_tail[c] = nullptr;
  --free_count[c];
  uintptr_t u = (uintptr_t)b + sizeof(Head);
  if (align > 16) u = (u + align - 1) & ~(uintptr_t)(align - 1);
  Head* h = (Head*)u - 1;
  h->size = n; h->cls = c; h->off = u - (uintptr_t)b;
  memset((void*)u, poison, n);
  return (void*)u;
}
static void arena_free(void* p)
{
  Head* h = (Head*)p - 1;
  int c = h->cls;
  if (c >= n_cls || !h->off) { fprintf(stderr, "sim: bad free\n"); abort(); } // double free or corruption
  char* b = (char*)p - h->off;
  memset(p, 0xdd, h->size < 4096 ? h->size : 4096);
  h->off = 0;
  auto* f = (Free_node*)b;
  ++free_count[c];
  bool last = reuse_policy == 1 || reuse_policy == 3 || (reuse_policy == 2 && lrand()%2);
  if (last && free_tail[c]) { f->next = nullptr; free_tail[c]->next = f; free_tail[c] = f; }
  else { f->next = free_list[c]; free_list[c] = f; if (!free_tail[c]) free_tail[c] = f; }
}
void heap_start(uint64_t layout, unsigned char fill)
{
  void* m = mmap(arena, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != arena) { fprintf(stderr, "sim: heap mmap failed\n"); _exit(91); }
  layout_random = layout != 0; layout_rng = layout; poison = fill;
  if (layout_random) reuse_policy = lrand()%4;
  heap_on = true;
}
void heap_stop() { heap_on = false; }
void sim_busy(int d) { busy += d; }
}
using namespace sim;
extern "C" {
void* malloc(size_t n)
{
  if (heap_on && !busy) {
    void* p = arena_alloc(n, 16);
    if (!p) { errno = ENOMEM; return nullptr; }
    if (__builtin_expect(in_region(), 0)) on_alloc(p, n);
    return p;
  }
  return __libc_malloc(n);
}
void free(void* p) { if (!p) return; if (in_arena(p)) arena_free(p); else __libc_free(p); }
void* calloc(size_t a, size_t b)
{
  if (heap_on && !busy) { void* p = b && a > (size_t)-1/b ? nullptr : malloc(a*b); if (p) memset(p, 0, a*b); return p; }
  return __libc_calloc(a, b);
}
void* realloc(void* q, size_t n)
{
  if (!q) return malloc(n);
  if (in_arena(q)) {
    if (!n) { free(q); return nullptr; }
    size_t old = ((Head*)q - 1)->size;
    void* p = heap_on && !busy ? malloc(n) : __libc_malloc(n);
    if (!p) return nullptr;
    memcpy(p, q, old < n ? old : n);
    arena_free(q);
    return p;
  }
  return __libc_realloc(q, n);
}
static void* do_align(size_t a, size_t n)
{
  if (heap_on && !busy) { void* p = arena_alloc(n, a); if (p && in_region()) on_alloc(p, n); return p; }
  return __libc_memalign(a, n);
}
void* memalign(size_t a, size_t n) { return do_align(a, n); }
void* aligned_alloc(size_t a, size_t n) { return do_align(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { void* q = do_align(a, n); if (!q) return ENOMEM; *p = q; return 0; }
void* valloc(size_t n) { return do_align(4096, n); }
size_t malloc_usable_size(void* p) { if (!p) return 0; if (in_arena(p)) return ((Head*)p - 1)->size; static auto r = (size_t (*)(void*))dlsym(RTLD_NEXT, "malloc_usable_size"); return r(p); }

int sim_guard_acquire(long* g) asm("__cxa_guard_acquire");
int sim_guard_acquire(long* g)
{
  static auto r = (int (*)(long*))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
  int x = r(g);
  if (x) no_preempt(1);
  return x;
}
void sim_guard_release(long* g) asm("__cxa_guard_release");
void sim_guard_release(long* g)
{
  static auto r = (void (*)(long*))dlsym(RTLD_NEXT, "__cxa_guard_release");
  r(g);
  no_preempt(-1);
}
void sim_guard_abort(long* g) asm("__cxa_guard_abort");
void sim_guard_abort(long* g)
{
  static auto r = (void (*)(long*))dlsym(RTLD_NEXT, "__cxa_guard_abort");
  r(g);
  no_preempt(-1);
}
}

static void* sim_new(size_t n)
{
  if (alloc_armed && !busy) {
    uint64_t i = allocs++;
    if ((int64_t)i == alloc_fail_at) { stats.injected[F_ALLOC]++; throw std::bad_alloc(); }
  }
  void* p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(size_t n) { return sim_new(n); }
void* operator new[](size_t n) { return sim_new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim_new(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
