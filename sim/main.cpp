#include <execinfo.h>
// Zygote: reads jobs from standard input; forks one pristine child per job; prints the id and the way it ended.
#include "harness.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <csignal>
#include <cmath>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <cxxabi.h>
#include <typeinfo>
#include <hdf5.h>
#include <H5Cpp.h>

namespace sim {
Outcome out;
static std::map<std::string, Scenario>& scenarios() { static auto* m = new std::map<std::string, Scenario>; return *m; }
Register::Register(const char* name, Scenario f) { scenarios()[name] = f; }
static Job job;
static bool sim_on = false;

std::string fmt(const char* f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

static std::string json_str(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

void begin_sim(const Job& j)
{
  sched_start(j.sched);
  set_tick_limit(j.tick_limit);
  io_start(j.io);
  heap_start(strtoull(j.get("layout", "0").c_str(), nullptr, 0), (unsigned char)j.geti("fill", 0xa5));
  sim_on = true;
}
void end_sim() { sim_on = false; heap_stop(); io_stop(); sched_stop(); }

static void write_results()
{
  heap_stop();
  io_stop();
  sched_stop();
  FILE* f = fopen(job.out.c_str(), "wb");
  if (!f) _exit(97);
  auto& s = sched_stats();
  auto& io = io_stats();
  std::string h = "{\"status\":" + json_str(out.status) + ",\"detail\":" + json_str(out.detail.substr(0, 1500));
  h += ",\"violations\":[";
  for (size_t i = 0; i < out.violations.size(); ++i) h += (i ? "," : "") + json_str(out.violations[i]);
  h += "],\"probes\":{";
  bool first = true;
  for (auto& p : out.probes) { h += (first ? "" : ",") + json_str(p.first) + ":" + std::to_string(p.second); first = false; }
  h += "}";
  h += fmt(",\"ticks\":%lu,\"regions\":%lu,\"team_regions\":%lu,\"switches\":%lu,\"lock_acq\":%lu,\"lock_block\":%lu,\"atomics\":%lu,\"criticals\":%lu,\"held\":%lu,\"met\":%lu,\"order_hash\":\"%016lx\",\"trace_truncated\":%d",
           s.ticks, s.regions, s.team_regions, s.switches, s.lock_acq, s.lock_block, s.atomics, s.criticals, s.held, s.met, s.order_hash, (int)sched_trace_truncated());
  h += fmt(",\"ops\":%lu,\"bytes_written\":%lu,\"bytes_read\":%lu,\"io_hash\":\"%016lx\",\"escapes\":%lu,\"escape_path\":%s,\"allocs\":%lu,\"clock_reads\":%lu,\"sim_time\":%.9f",
           io.ops, io.bytes_written, io.bytes_read, io.hash, io.escapes, json_str(escape_path.substr(0, 200)).c_str(), io.allocs, io.clock_reads, sim_monotonic() - 1000.);
  h += ",\"injected\":{";
  first = true;
  for (int k = 0; k < F_N; ++k) if (io.injected[k]) { h += fmt("%s\"%s\":%lu", first ? "" : ",", fault_name[k], io.injected[k]); first = false; }
  h += "},\"by_type\":{";
  first = true;
  for (int k = 0; k < OP_N; ++k) if (io.by_type[k]) { h += fmt("%s\"%s\":%lu", first ? "" : ",", op_name[k], io.by_type[k]); first = false; }
  h += "},\"races\":[";
  auto races = sched_races();
  for (size_t i = 0; i < races.size() && i < 400; ++i) {
    auto& r = races[i];
    h += fmt("%s[%lu,%lu,%d,%d,%lu,%lu,%u]", i ? "," : "", r.pc0, r.pc1, r.w0, r.w1, r.count, r.changed, r.region);
  }
  h += "]}\n";
  // identity of everything observed
  uint64_t d = 1469598103934665603ull;
  auto feed = [&](const void* p, size_t n) { for (size_t i = 0; i < n; ++i) d = (d ^ ((const unsigned char*)p)[i])*1099511628211ull; };
  for (auto& x : out.secs) { feed(x.name.data(), x.name.size()); feed(x.i.data(), x.i.size()*8); feed(x.d.data(), x.d.size()*8); feed(x.s.data(), x.s.size()); }
  feed(out.status.data(), out.status.size());
  for (auto& v : out.violations) feed(v.data(), v.size());
  h.resize(h.size() - 2);
  h += fmt(",\"digest\":\"%016lx\"}\n", d);
  fwrite(h.data(), 1, h.size(), f);
  for (auto& x : out.secs) {
    uint64_t n = x.kind == 'I' ? x.i.size() : x.kind == 'D' ? x.d.size() : x.s.size();
    uint32_t l = x.name.size();
    fwrite(&x.kind, 1, 1, f); fwrite(&l, 4, 1, f); fwrite(x.name.data(), 1, l, f); fwrite(&n, 8, 1, f); fwrite(&x.scale, 8, 1, f);
    if (x.kind == 'I') fwrite(x.i.data(), 8, n, f);
    else if (x.kind == 'D') fwrite(x.d.data(), 8, n, f);
    else fwrite(x.s.data(), 1, n, f);
  }
  fclose(f);
  if (job.keep_trace) {
    f = fopen((job.out + ".trace").c_str(), "wb");
    if (f) {
      for (auto& w : sched_trace()) fprintf(f, "%u %u %lu %u\n", w.region, w.tid, w.count, w.next);
      fclose(f);
    }
  }
  if (job.geti("conflicts", 0)) {
    f = fopen((job.out + ".conflicts").c_str(), "wb");
    if (f) { for (auto& c : sched_conflicts()) fprintf(f, "%u %lu\n", c.first, c.second); fclose(f); }
  }
  if (job.keep_log) {
    f = fopen((job.out + ".log").c_str(), "wb");
    if (f) {
      auto& paths = io_paths(); auto& log = io_log();
      for (size_t i = 0; i < log.size(); ++i)
        fprintf(f, "%lu %s %lu %d %s\n", i, op_name[log[i].type], log[i].size, log[i].faulted, log[i].path >= 0 ? paths[log[i].path].c_str() : "-");
      fclose(f);
    }
  }
}

static void on_fatal(const char* kind, const char* detail)
{
  out.status = kind; out.detail = detail;
  write_results();
  fflush(nullptr);
  _exit(0);
}
static void on_crash() { sched_abandon(); out.status = "crashed"; write_results(); }
static std::string describe_exception()
{
  try { throw; }
  catch (const std::exception& e) { int st; char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st); return std::string(n ? n : "?") + ": " + e.what(); }
  catch (const H5::Exception& e) { return "H5::Exception: " + e.getDetailMsg(); }
  catch (...) { return "unknown"; }
}
static void on_terminate()
{
  sched_abandon();
  out.status = "terminate";
  if (std::current_exception()) out.detail = describe_exception();
  write_results();
  fflush(nullptr);
  _exit(0);
}
static void on_signal(int sig)
{
  static bool again = false;
  if (again) _exit(96);
  again = true;
  sched_abandon();
  out.status = fmt("signal %d", sig);
  write_results();
  void* frames[40]; backtrace_symbols_fd(frames, backtrace(frames, 40), 2); // for a reader; nothing is judged by it
  _exit(0);
}

// what is on the stack when the program starts is decided by the job, not left over from the simulator
__attribute__((noinline)) static void scrub_stack(unsigned char fill)
{
  volatile unsigned char b[256 << 10];
  for (size_t i = 0; i < sizeof b; ++i) b[i] = fill;
}

static void run_child()
{
  struct rlimit rl {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = rl.rlim_max = 10ull << 30;
  setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = rl.rlim_max = 300ull << 20;
  setrlimit(RLIMIT_FSIZE, &rl);
  signal(SIGXFSZ, SIG_IGN);
  umask(0);
  setpgid(0, 0);
  if (geteuid() == 0) { // the code under test gets the rights of nobody
    int r = setgroups(0, nullptr); r |= setgid(65534); r |= setuid(65534);
    if (r) _exit(95);
  }
  int fd = open((job.out + ".console").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  if (fd < 0) _exit(94);
  dup2(fd, 1); 
  int fe = open((job.out + ".stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
  dup2(fe, 2);
  close(fd); close(fe);
  std::string in = job.get("stdin");
  int fi = open(in.empty() ? "/dev/null" : in.c_str(), O_RDONLY);
  dup2(fi, 0); close(fi);
  if (chdir(job.dir.c_str())) _exit(93);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  stack_t ss; ss.ss_sp = malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  fatal_hook = on_fatal;
  crash_hook = on_crash;
  std::set_terminate(on_terminate);
  auto it = scenarios().find(job.scen);
  if (it == scenarios().end()) { out.status = "no such scenario"; write_results(); _exit(92); }
  job.sched.fill = job.geti("fill", 0xa5);
  scrub_stack(job.sched.fill);
  try {
    it->second(job);
  } catch (...) {
    out.status = "exception"; out.detail = describe_exception();
  }
  write_results();
  std::cout.flush(); fflush(nullptr);
  _exit(0);
}

static std::vector<std::string> split(const std::string& s, char c) { std::vector<std::string> r; std::stringstream ss(s); std::string x; while (std::getline(ss, x, c)) r.push_back(x); return r; }

static Job parse(const std::string& line)
{
  Job j;
  for (auto& tok : split(line, ' ')) {
    size_t e = tok.find('=');
    if (e == std::string::npos) continue;
    std::string k = tok.substr(0, e), v = tok.substr(e + 1);
    auto U = [&] { return strtoull(v.c_str(), nullptr, 0); };
    auto D = [&] { return strtod(v.c_str(), nullptr); };
    if (k == "id") j.id = v; else if (k == "scen") j.scen = v; else if (k == "dir") j.dir = v; else if (k == "out") j.out = v;
    else if (k == "cfg") j.cfg = U(); else if (k == "threads") j.sched.n_threads = U(); else if (k == "strat") j.sched.strategy = U();
    else if (k == "seed") j.sched.seed = U(); else if (k == "gap") j.sched.gap = D(); else if (k == "psync") j.sched.p_sync = D();
    else if (k == "preg") j.sched.p_region = D(); else if (k == "phot") j.sched.p_hot = D(); else if (k == "race") j.sched.race = U();
    else if (k == "hot") { std::ifstream f(v); uint32_t r; uint64_t a; while (f >> r >> a) j.sched.hot.push_back({r, a}); }
    else if (k == "ioseed") j.io.seed = U(); else if (k == "latency") j.io.io_latency = D(); else if (k == "clock") j.io.clock_start = D();
    else if (k == "trace") j.keep_trace = U(); else if (k == "log") j.keep_log = U(); else if (k == "ticks") j.tick_limit = U();
    else if (k == "faults") {
      for (auto& f : split(v, ',')) {
        auto p = split(f, ':');
        if (p.size() < 2) continue;
        Fault x; x.kind = atoi(p[0].c_str()); x.op = strtoull(p[1].c_str(), nullptr, 0);
        if (p.size() > 2) x.arg = atoll(p[2].c_str());
        if (p.size() > 3) x.arg2 = atoll(p[3].c_str());
        j.io.faults.push_back(x);
      }
    } else if (k == "replay") {
      j.sched.use_explicit = true;
      if (v != "none") { std::ifstream f(v); Switch w; while (f >> w.region >> w.tid >> w.count >> w.next) j.sched.switches.push_back(w); }
    } else j.opt[k] = v;
  }
  j.io.root = j.dir;
  return j;
}

// ---- comparison of two outcome files
struct Loaded { std::map<std::string, Outcome::Sec> secs; std::vector<std::string> order; bool ok = false; };
static Loaded load(const std::string& path)
{
  Loaded l;
  std::ifstream f(path, std::ios::binary);
  std::string head;
  if (!std::getline(f, head)) return l;
  l.ok = true;
  char kind;
  while (f.read(&kind, 1)) {
    uint32_t n; uint64_t m;
    f.read((char*)&n, 4);
    Outcome::Sec s; s.kind = kind; s.name.resize(n); f.read(s.name.data(), n);
    f.read((char*)&m, 8); f.read((char*)&s.scale, 8);
    if (kind == 'I') { s.i.resize(m); f.read((char*)s.i.data(), 8*m); }
    else if (kind == 'D') { s.d.resize(m); f.read((char*)s.d.data(), 8*m); }
    else { s.s.resize(m); f.read(s.s.data(), m); }
    if (!f) { l.ok = false; return l; }
    l.order.push_back(s.name);
    l.secs[s.name] = std::move(s);
  }
  return l;
}
static std::string compare(const std::string& a, const std::string& b, double rtol)
{
  Loaded x = load(a), y = load(b);
  if (!x.ok || !y.ok) return "{\"error\":\"unreadable outcome\"}";
  std::string r; int n = 0; double worst = 0; std::string worst_name;
  auto diff = [&](const std::string& s) { if (n++ < 12) r += (r.empty() ? "" : ",") + json_str(s); };
  for (auto& name : x.order) if (!y.secs.count(name)) diff(name + ": present only in the first");
  for (auto& name : y.order) if (!x.secs.count(name)) diff(name + ": present only in the second");
  for (auto& name : x.order) {
    auto it = y.secs.find(name);
    if (it == y.secs.end()) continue;
    auto& p = x.secs[name]; auto& q = it->second;
    if (p.kind != q.kind) { diff(name + ": kind"); continue; }
    if (p.kind == 'S') { if (p.s != q.s) { size_t i = 0; while (i < p.s.size() && i < q.s.size() && p.s[i] == q.s[i]) ++i; size_t b = i > 30 ? i - 30 : 0; diff(fmt("%s: text differs at %zu: `%s` / `%s`", name.c_str(), i, p.s.substr(b, 80).c_str(), q.s.substr(b, 80).c_str())); } continue; }
    size_t np = p.kind == 'I' ? p.i.size() : p.d.size(), nq = q.kind == 'I' ? q.i.size() : q.d.size();
    if (np != nq) { diff(fmt("%s: size %zu / %zu", name.c_str(), np, nq)); continue; }
    if (p.kind == 'I') { for (size_t i = 0; i < np; ++i) if (p.i[i] != q.i[i]) { diff(fmt("%s[%zu]: %ld / %ld", name.c_str(), i, p.i[i], q.i[i])); break; } continue; }
    double big = std::max(p.scale, q.scale);
    for (size_t i = 0; i < np; ++i) { if (std::isfinite(p.d[i])) big = std::max(big, std::abs(p.d[i])); if (std::isfinite(q.d[i])) big = std::max(big, std::abs(q.d[i])); }
    size_t wi = np; double wd = 0;
    for (size_t i = 0; i < np; ++i) {
      double u = p.d[i], v = q.d[i];
      if (u == v || (std::isnan(u) && std::isnan(v))) continue;
      double e = std::isfinite(u) && std::isfinite(v) ? std::abs(u - v)/big : INFINITY;
      if (e > wd) { wd = e; wi = i; }
    }
    if (wd > worst) { worst = wd; worst_name = name; }
    if (wd > rtol) diff(fmt("%s[%zu]: %.17g / %.17g (relative to largest entry %.3g)", name.c_str(), wi, p.d[wi], q.d[wi], wd));
  }
  return fmt("{\"equal\":%s,\"n_diff\":%d,\"worst\":%s,\"worst_name\":%s,\"diffs\":[", n ? "false" : "true", n, std::isfinite(worst) ? fmt("%.3g", worst).c_str() : "1e300", json_str(worst_name).c_str()) + r + "]}";
}
}

using namespace sim;

int main(int argc, char** argv)
{
  int p = personality(0xffffffff);
  if (!(p & ADDR_NO_RANDOMIZE) && !getenv("SIMHEX_ASLR")) {
    if (personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIMHEX_ASLR", "tried", 1); execv("/proc/self/exe", argv); }
  }
  // identical environment for every process
  clearenv();
  setenv("PATH", "/usr/local/bin:/usr/bin:/bin", 1); setenv("LC_ALL", "C", 1); setenv("HDF5_USE_FILE_LOCKING", "FALSE", 1); setenv("TZ", "UTC", 1);
  H5open();
  H5::Exception::dontPrint();
  signal(SIGPIPE, SIG_IGN);
  char* buf = nullptr; size_t cap = 0; ssize_t n;
  while ((n = getline(&buf, &cap, stdin)) > 0) {
    std::string line(buf, n);
    while (!line.empty() && (line.back() == '\n' || line.back() == '\r')) line.pop_back();
    if (line.compare(0, 4, "cmp ") == 0) {
      // in a process of its own, so that this one, and with it every later child, is not altered
      pid_t pid = fork();
      if (pid == 0) {
        auto t = split(line, ' ');
        printf("%s\n", compare(t[1], t[2], atof(t[3].c_str())).c_str());
        fflush(stdout);
        _exit(0);
      }
      int status = 0;
      waitpid(pid, &status, 0);
      if (!WIFEXITED(status) || WEXITSTATUS(status)) { printf("{\"error\":\"comparison failed\"}\n"); fflush(stdout); }
      continue;
    }
    job = parse(line);
    int wall = job.geti("wall", 120);
    pid_t pid = fork();
    if (pid == 0) run_child();
    int status = 0; bool timeout = false;
    struct timeval t0, t1; gettimeofday(&t0, nullptr);
    for (int spin = 0;; ++spin) {
      pid_t r = waitpid(pid, &status, WNOHANG);
      if (r == pid) break;
      usleep(spin < 50 ? 500 : 3000);
      gettimeofday(&t1, nullptr);
      if (t1.tv_sec - t0.tv_sec > wall) { timeout = true; kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
    }
    gettimeofday(&t1, nullptr);
    double dt = (t1.tv_sec - t0.tv_sec) + 1e-6*(t1.tv_usec - t0.tv_usec);
    if (timeout) printf("done %s timeout %.3f\n", job.id.c_str(), dt);
    else if (WIFSIGNALED(status)) printf("done %s killed-%d %.3f\n", job.id.c_str(), WTERMSIG(status), dt);
    else printf("done %s exit-%d %.3f\n", job.id.c_str(), WEXITSTATUS(status), dt);
    fflush(stdout);
  }
  return 0;
}
