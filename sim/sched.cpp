// Deterministic replacement for libgomp and for the ThreadSanitizer runtime.
// Threads of an OpenMP team are fibers of one OS thread. Every instrumented memory access, lock operation, atomic and
// critical section is a possible preemption point; which of them switch threads is decided by a seeded generator (or by
// an explicit list when replaying).
#include "sched.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <cmath>
#include <exception>
#include <cxxabi.h>
#include <malloc.h>

extern "C" char __libc_single_threaded;

namespace sim {

void (*fatal_hook)(const char*, const char*) = nullptr;
void sched_abandon();
static void fatal(const char* kind, const char* detail)
{
  sched_abandon();
  if (fatal_hook) fatal_hook(kind, detail);
  fprintf(stderr, "sim fatal: %s: %s\n", kind, detail);
  _Exit(99);
}

template <typename K, typename V> using Umap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, Sim_alloc<std::pair<const K, V>>>;
const int max_team = 8;
const size_t stack_size = 4 << 20;

struct Rng { uint64_t s;
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27))*0x94d049bb133111ebull; return z ^ (z >> 31); }
  double uni() { return (next() >> 11)*(1./9007199254740992.); }
  uint64_t below(uint64_t n) { return n ? next()%n : 0; }
};

typedef uint32_t Vc[max_team];

enum State { READY, BLOCKED, DONE, HELD };
struct Fiber {
  void* sp = nullptr;
  char* stack = nullptr;
  State state = DONE;
  uint64_t count = 0;
  uint64_t stop_at = ~0ull;
  void* wait = nullptr; // lock or barrier we are blocked on
  char eh[16];
  Vc vc;
  int level = 1;        // nested (serialised) parallel level
  int nest_serial = 0;  // >0: inside a nested, serialised region
  int no_preempt = 0;
  // work sharing bookkeeping
  int ws_index = 0;
  // pending write: to see whether a write changed memory
  uintptr_t pw_addr = 0; uint32_t pw_size = 0; uint64_t pw_old = 0; int pw_race = -1;
  Vec<int> pw_races;
  uintptr_t held_at = 0; uint64_t held_since = 0; int burst = 0; // strategy MEET
};

static Fiber fibers[max_team];
static Fiber* cur = nullptr;      // running fiber, or null in the serial part
static int team = 1;
static bool active = false;
static Sched_spec spec;
static Rng rng;
static Sched_stats stats;
static Vec<Switch> trace;
static bool trunc_trace = false;
static uint64_t g_ticks = 0, tick_limit = ~0ull;
static int nthreads_var = 1;
static void* main_sp;
static char main_eh[16];
static int serial_level = 0;
static void (*team_fn)(void*);
static void* team_data;
static uint32_t region_id = 0;
static bool region_preempt = true;
static int starved = -1;
static int next_req = -1; // thread requested to run next
static size_t expl_pos = 0;
static Umap<uint64_t, Vec<Switch>> expl; // region<<8|tid -> switches sorted by count
static Vec<size_t> expl_idx(max_team);

static inline void hash_in(uint64_t v) { stats.order_hash = (stats.order_hash ^ v)*1099511628211ull; }

struct Lock_state { int owner = -1; int depth = 0; Vc vc; Lock_state() { memset(vc, 0, sizeof vc); } };
static Umap<void*, Lock_state>* locks = nullptr;
static Umap<void*, Lock_state>& lock_map() { if (!locks) locks = new (__libc_malloc(sizeof(Umap<void*, Lock_state>))) Umap<void*, Lock_state>; return *locks; }

// ---- work sharing constructs (loop schedules, single, barrier)
struct Work { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; int done = 0; bool single_taken = false; };
struct Ctx { Vec<Work> works; int index = 0; };
static Vec<Work> works;  // of the running team, shared by its threads
static Ctx serial_ctx;           // of parallel regions executed by one thread
static Ctx nest_ctx[max_team];   // of nested (hence serialised) parallel regions
static int barrier_count = 0;

// ---- context switch
extern "C" void sim_switch(void** from, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

static void to_main()
{
  Fiber* me = cur;
  memcpy(me->eh, abi::__cxa_get_globals(), 16);
  memcpy(abi::__cxa_get_globals(), main_eh, 16);
  cur = nullptr;
  sim_switch(&me->sp, main_sp);
  // resumed: main has set cur
}

static void fiber_main()
{
  team_fn(team_data);
  cur->state = DONE;
  to_main();
  abort();
}

static void to_fiber(Fiber& f)
{
  memcpy(main_eh, abi::__cxa_get_globals(), 16);
  memcpy(abi::__cxa_get_globals(), f.eh, 16);
  cur = &f;
  sim_switch(&main_sp, f.sp);
}

// ---- happens-before conflict detection
struct Cell {
  uint32_t tag;
  uint32_t wclk; uint32_t wpc;
  uint8_t wtid, wmask, watomic, pad;
  uint32_t rclk[max_team]; uint32_t rpc[max_team]; uint8_t rmask[max_team]; uint8_t ratomic[max_team];
};
static Umap<uintptr_t, Cell*>* pages = nullptr;
static uintptr_t last_page = ~0ull; static Cell* last_cells = nullptr;
static uint32_t tag = 0;
struct Race_rec { Race r; };
static std::map<std::pair<uintptr_t, uintptr_t>, int, std::less<std::pair<uintptr_t, uintptr_t>>, Sim_alloc<std::pair<const std::pair<uintptr_t, uintptr_t>, int>>> race_index;
static Vec<Race> races;
static Umap<uintptr_t, bool> hot;
static Vec<std::pair<uint32_t, uint64_t>> conflicts;      // where conflicts were seen
static Umap<uint64_t, bool> conflict_seen;
static Umap<uint32_t, Umap<uint64_t, bool>> hot_places;    // strategy MEET: where to hold threads
static Umap<uint64_t, bool>* here = nullptr;               // ... in the current region
static bool any_hot = false;
static uintptr_t text_base = 0;
extern "C" char __executable_start;

static Cell* cells_for(uintptr_t page)
{
  if (page == last_page) return last_cells;
  Cell*& c = (*pages)[page];
  if (!c) {
    c = (Cell*)mmap(nullptr, 512*sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (c == MAP_FAILED) { fprintf(stderr, "sim: shadow mmap failed\n"); _Exit(98); }
  }
  last_page = page; last_cells = c;
  return c;
}

static uint64_t load_old(uintptr_t a, uint32_t size)
{
  uint64_t v = 0;
  memcpy(&v, (void*)a, size > 8 ? 8 : size);
  return v;
}

static void settle_write(Fiber* f)
{
  if (!f->pw_addr) return;
  if (load_old(f->pw_addr, f->pw_size) != f->pw_old) for (int r : f->pw_races) races[r].changed++;
  f->pw_addr = 0;
  f->pw_races.clear();
}

static int note_race(uint32_t pc0, uint32_t pc1, bool w0, bool w1)
{
  if (pc0 > pc1) { std::swap(pc0, pc1); std::swap(w0, w1); }
  auto key = std::make_pair((uintptr_t)pc0, (uintptr_t)pc1);
  auto it = race_index.find(key);
  int i;
  if (it == race_index.end()) {
    i = races.size();
    race_index[key] = i;
    races.push_back({pc0, pc1, w0, w1, 0, 0, region_id});
    hot[pc0] = true; hot[pc1] = true; any_hot = spec.strategy != MEET;
  } else i = it->second;
  races[i].count++;
  return i;
}

static void note_place(uintptr_t word)
{
  if (conflicts.size() >= 20000) return;
  bool& b = conflict_seen[(uint64_t)region_id << 45 ^ word];
  if (!b) { b = true; conflicts.push_back({region_id, word}); }
}
static void check_word(uintptr_t word, uint8_t mask, bool write, bool atomic, uint32_t pc)
{
  Cell& c = cells_for(word >> 9)[word & 511];
  Fiber* f = cur;
  int t = f - fibers;
  if (c.tag != tag) { memset((void*)&c, 0, sizeof c); c.tag = tag; }
  // against the last write
  if (c.wclk && (c.wmask & mask) && c.wtid != t && !(atomic && c.watomic) && f->vc[c.wtid] < c.wclk) {
    int r = note_race(c.wpc, pc, true, write); note_place(word);
    if (write) f->pw_races.push_back(r);
    else races[r].changed += 0;
  }
  if (write) {
    for (int o = 0; o < team; ++o) if (o != t && c.rclk[o] && (c.rmask[o] & mask) && !(atomic && c.ratomic[o]) && f->vc[o] < c.rclk[o]) {
      int r = note_race(c.rpc[o], pc, false, true); note_place(word);
      f->pw_races.push_back(r);
    }
    c.wclk = f->vc[t]; c.wtid = t; c.wmask = mask; c.watomic = atomic; c.wpc = pc;
  } else {
    if (c.rclk[t] == f->vc[t] && !c.ratomic[t]) c.rmask[t] |= mask;
    else { c.rclk[t] = f->vc[t]; c.rmask[t] = mask; c.ratomic[t] = atomic; c.rpc[t] = pc; }
  }
}

static void check_access(uintptr_t a, uint32_t size, bool write, bool atomic, uint32_t pc)
{
  Fiber* f = cur;
  settle_write(f);
  if (a - (uintptr_t)f->stack < stack_size) return; // own stack
  uintptr_t end = a + size;
  for (uintptr_t w = a >> 3; (w << 3) < end; ++w) {
    uintptr_t lo = std::max(a, w << 3), hi = std::min(end, (w << 3) + 8);
    uint8_t mask = ((1u << (hi - lo)) - 1) << (lo & 7);
    check_word(w, mask, write, atomic, pc);
  }
  if (write && !f->pw_races.empty()) { f->pw_addr = a; f->pw_size = size > 8 ? 8 : size; f->pw_old = load_old(a, size); }
}

static void clear_shadow(uintptr_t a, size_t size)
{
  if (!pages) return;
  for (uintptr_t w = a >> 3; (w << 3) < a + size; ++w) {
    auto it = pages->find(w >> 9);
    if (it == pages->end()) { w |= 511; continue; }
    it->second[w & 511].tag = 0;
  }
}

// ---- scheduling decisions
static int runnable[max_team]; static int n_runnable;
static void collect(int except)
{
  n_runnable = 0;
  for (int t = 0; t < team; ++t) if (fibers[t].state == READY && t != except) runnable[n_runnable++] = t;
}

static uint64_t gap_draw()
{
  double g = spec.gap;
  if (spec.strategy == ROUND_ROBIN) return std::max<uint64_t>(1, (uint64_t)g);
  double u = rng.uni();
  double x = -std::log(1 - u)*g;
  if (x < 1) x = 1;
  if (x > 1e15) x = 1e15;
  return (uint64_t)x;
}

static void set_stop(Fiber& f)
{
  if (spec.use_explicit) {
    f.stop_at = ~0ull;
    uint32_t t = &f - fibers;
    auto it = expl.find((uint64_t)region_id << 8 | t);
    if (it != expl.end()) {
      auto& v = it->second;
      size_t& i = expl_idx[t];
      while (i < v.size() && v[i].count <= f.count) ++i;
      if (i < v.size()) f.stop_at = v[i].count;
    }
    return;
  }
  f.stop_at = ~0ull;
  if (!region_preempt) return;
  if (f.burst > 0) { --f.burst; f.stop_at = f.count + 1 + rng.below(4); return; }
  switch (spec.strategy) {
    case RANDOM: case ROUND_ROBIN: f.stop_at = f.count + gap_draw(); break;
    case STARVE: if (&f - fibers == starved) f.stop_at = f.count + gap_draw(); break;
    default: break;
  }
}

static void record(uint32_t t, uint64_t count, uint32_t next)
{
  hash_in(((uint64_t)region_id << 40) ^ (count << 8) ^ (t << 4) ^ next);
  stats.switches++;
  if (spec.use_explicit) return;
  if (trace.size() < 3000000) trace.push_back({region_id, t, count, next});
  else trunc_trace = true;
}

// default choice when the running thread cannot go on: lowest runnable thread. Deviations are recorded.
static void release_held() // nothing else can run: let one held thread go on
{
  int h[max_team], n = 0;
  for (int t = 0; t < team; ++t) if (fibers[t].state == HELD) h[n++] = t;
  if (n) fibers[h[rng.below(n)]].state = READY;
}
static int choose_after_stop(int t)
{
  int def = -1;
  for (int i = 0; i < team && def < 0; ++i) if (fibers[i].state == READY || fibers[i].state == HELD) def = i;
  if (def < 0) return -1;
  collect(-1);
  if (!n_runnable) { release_held(); collect(-1); }
  int pick = runnable[0];
  uint64_t count = t >= 0 ? fibers[t].count : 0;
  uint32_t rec_t = t >= 0 ? t | 128 : 255; // 128: decision taken because the thread stopped
  if (spec.use_explicit) {
    auto it = expl.find((uint64_t)region_id << 8 | rec_t);
    if (it != expl.end()) for (auto& s : it->second) if (s.count == count && s.next < (uint32_t)team && fibers[s.next].state == READY) pick = s.next;
    if (pick != def) record(rec_t, count, pick);
    return pick;
  }
  switch (spec.strategy) {
    case SEQ: break;
    case REVERSE: pick = runnable[n_runnable - 1]; break;
    case STARVE: {
      int m = 0; int others[max_team];
      for (int i = 0; i < n_runnable; ++i) if (runnable[i] != starved || !fibers[runnable[i]].count) others[m++] = runnable[i];
      pick = m ? others[rng.below(m)] : runnable[rng.below(n_runnable)];
      break;
    }
    default: pick = runnable[rng.below(n_runnable)];
  }
  if (pick != def) record(rec_t, count, pick);
  return pick;
}

static void yield_to(int next)
{
  next_req = next;
  to_main();
}

// involuntary switch at a preemption point
static void preempt()
{
  Fiber& f = *cur;
  int t = &f - fibers;
  if (f.no_preempt) { f.stop_at = f.count + 1; return; }
  if (spec.use_explicit) {
    auto& v = expl[(uint64_t)region_id << 8 | t];
    size_t& i = expl_idx[t];
    while (i < v.size() && v[i].count < f.count) ++i;
    if (i < v.size() && v[i].count == f.count) {
      int next = v[i].next;
      ++i;
      if (next < team && next != t && fibers[next].state == READY) { record(t, f.count, next); yield_to(next); set_stop(f); return; }
    }
    set_stop(f);
    return;
  }
  collect(t);
  int next = -1;
  if (n_runnable) {
    if (spec.strategy == ROUND_ROBIN) { next = runnable[0]; for (int i = 0; i < n_runnable; ++i) if (runnable[i] > t) { next = runnable[i]; break; } }
    else if (spec.strategy == STARVE && n_runnable > 1) {
      int m = 0; int others[max_team];
      for (int i = 0; i < n_runnable; ++i) if (runnable[i] != starved) others[m++] = runnable[i];
      next = m ? others[rng.below(m)] : runnable[0];
    } else next = runnable[rng.below(n_runnable)];
  }
  if (next >= 0) { record(t, f.count, next); yield_to(next); }
  set_stop(f);
}

static inline void tick(Fiber* f)
{
  ++g_ticks;
  if (__builtin_expect(++f->count >= f->stop_at, 0)) preempt();
  if (__builtin_expect(g_ticks > tick_limit, 0)) fatal("hang", "tick limit exceeded inside a parallel region");
}

// an extra preemption point taken with probability p (counts one tick, so that replays line up)
static void maybe_preempt(Fiber* f, double p)
{
  ++g_ticks; ++f->count;
  if (spec.use_explicit) { if (f->count >= f->stop_at) preempt(); return; }
  if (f->count >= f->stop_at || (region_preempt && p > 0 && rng.uni() < p)) preempt();
}

static void sync_point()
{
  if (!cur) return;
  Fiber* f = cur;
  if (spec.race) settle_write(f);
  tick(f);
  maybe_preempt(f, spec.p_sync);
}

static void hold(Fiber* f, uintptr_t word)
{
  int t = f - fibers;
  for (int o = 0; o < team; ++o) if (fibers[o].state == HELD && fibers[o].held_at/8 == word/8) { // the same cache line
    fibers[o].state = READY;
    stats.met++;
    fibers[o].burst = f->burst = 4 + rng.below(16);
    if (rng.below(2)) { record(t, f->count, o); yield_to(o); }
    set_stop(*f);
    return;
  }
  if (f->burst || rng.uni() >= spec.p_hot) return;
  collect(t);
  if (!n_runnable) return;
  f->state = HELD; f->held_at = word; stats.held++;
  int next = runnable[rng.below(n_runnable)];
  record(t, f->count, next);
  yield_to(next);
  set_stop(*f);
}
// called right after the tick of an access
static inline void hot_point(uint32_t pc, uintptr_t a, uint32_t size, uint64_t switches_before)
{
  if (spec.use_explicit || !region_preempt || stats.switches != switches_before || cur->no_preempt) return;
  if (here) { if (here->count(a >> 3) || (size > 8 && here->count((a + 8) >> 3))) hold(cur, a >> 3); }
  else if (spec.p_hot > 0 && hot.count(pc) && rng.uni() < spec.p_hot) preempt();
}

static void acquire_vc(Vc& v) { if (cur) for (int i = 0; i < max_team; ++i) cur->vc[i] = std::max(cur->vc[i], v[i]); }
static void release_vc(Vc& v) { if (cur) { for (int i = 0; i < max_team; ++i) v[i] = std::max(v[i], cur->vc[i]); cur->vc[cur - fibers]++; } }

static char crit_key, atomic_key;
static void lock_acquire(void* key, bool nest)
{
  stats.lock_acq++;
  Lock_state& l = lock_map()[key];
  if (!cur) {
    if (l.owner != -1) {
      if (nest && l.owner == 100) { l.depth++; return; }
      fatal("deadlock", "serial code acquires a lock that is already held");
    }
    l.owner = 100; l.depth = 1;
    return;
  }
  int t = cur - fibers;
  sync_point();
  if (nest && l.owner == t) { l.depth++; return; }
  while (lock_map()[key].owner != -1) {
    Lock_state& k = lock_map()[key];
    if (k.owner == t) fatal("deadlock", "a thread acquires a lock that it already holds");
    stats.lock_block++;
    ++cur->count;
    cur->state = BLOCKED; cur->wait = key;
    next_req = -1;
    to_main();
    set_stop(*cur);
  }
  Lock_state& k = lock_map()[key];
  k.owner = t; k.depth = 1;
  acquire_vc(k.vc);
}

static void lock_release(void* key, bool nest)
{
  Lock_state& l = lock_map()[key];
  if (l.owner == -1) fatal("lock misuse", "release of a lock that is not held");
  if (cur && l.owner != cur - fibers && l.owner != 100) fatal("lock misuse", "release of a lock held by another thread");
  if (nest && --l.depth > 0) return;
  if (cur) release_vc(l.vc);
  l.owner = -1; l.depth = 0;
  if (cur) {
    for (int t = 0; t < team; ++t) if (fibers[t].state == BLOCKED && fibers[t].wait == key) { fibers[t].state = READY; fibers[t].wait = nullptr; }
    sync_point();
  }
}

static void run_team(void (*fn)(void*), void* data, int n, Work* preset)
{
  team = n;
  team_fn = fn; team_data = data;
  ++stats.team_regions;
  works.clear();
  if (preset) works.push_back(*preset);
  barrier_count = 0;
  region_preempt = spec.p_region >= 1 || rng.uni() < spec.p_region;
  starved = spec.strategy == STARVE ? (int)rng.below(n) : -1;
  std::fill(expl_idx.begin(), expl_idx.end(), 0);
  { auto it = hot_places.find(region_id); here = it == hot_places.end() ? nullptr : &it->second; }
  ++tag;
  if (tag == 0) tag = 1;
  for (int t = 0; t < n; ++t) {
    Fiber& f = fibers[t];
    if (!f.stack) {
      f.stack = (char*)mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (f.stack == MAP_FAILED) { fprintf(stderr, "sim: stack mmap failed\n"); _Exit(98); }
      memset(f.stack + stack_size - (128 << 10), spec.fill, 128 << 10);
    }
    uintptr_t top = ((uintptr_t)f.stack + stack_size - 64) & ~15ull;
    void** sp = (void**)top;
    *--sp = nullptr;               // fake return address: keeps the stack aligned as after a call
    *--sp = (void*)&fiber_main;    // ret target
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    --sp;
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx)); asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t*)sp)[0] = mx; ((uint32_t*)sp)[1] = cw;
    f.sp = sp;
    f.state = READY; f.count = 0; f.wait = nullptr; f.level = 1; f.nest_serial = 0; f.no_preempt = 0; f.ws_index = preset ? 1 : 0;
    f.pw_addr = 0; f.pw_races.clear(); f.burst = 0;
    memset(f.eh, 0, 16);
    memset(f.vc, 0, sizeof f.vc);
    f.vc[t] = 1;
    set_stop(f);
  }
  for (auto& l : lock_map()) memset(l.second.vc, 0, sizeof l.second.vc);
  int t = choose_after_stop(-1);
  while (true) {
    next_req = -1;
    Fiber& f = fibers[t];
    to_fiber(f);
    if (f.state == DONE && spec.race) settle_write(&f);
    if (next_req >= 0) { t = next_req; continue; }
    bool all = true;
    for (int i = 0; i < n; ++i) all = all && fibers[i].state == DONE;
    if (all) break;
    int p = choose_after_stop(t);
    if (p < 0) fatal("deadlock", "every unfinished thread of the team is blocked");
    t = p;
  }
  team = 1;
}

void sched_start(const Sched_spec& s)
{
  spec = s;
  __libc_single_threaded = 0;
  if (spec.n_threads < 1) spec.n_threads = 1;
  if (spec.n_threads > max_team) spec.n_threads = max_team;
  nthreads_var = spec.n_threads;
  rng.s = s.seed*0x9e3779b97f4a7c15ull + 12345;
  stats = Sched_stats();
  trace.clear(); trunc_trace = false;
  region_id = 0; g_ticks = 0;
  races.clear(); race_index.clear(); hot.clear(); any_hot = false; conflicts.clear(); conflict_seen.clear(); hot_places.clear();
  for (auto& h : spec.hot) hot_places[h.first][h.second] = true;
  if (!pages) pages = new (__libc_malloc(sizeof(Umap<uintptr_t, Cell*>))) Umap<uintptr_t, Cell*>;
  expl.clear();
  for (auto& w : spec.switches) expl[(uint64_t)w.region << 8 | w.tid].push_back(w);
  for (auto& p : expl) std::stable_sort(p.second.begin(), p.second.end(), [](const Switch& a, const Switch& b) { return a.count < b.count; });
  active = true;
}
void sched_stop() { active = false; }
void sched_abandon() { active = false; cur = nullptr; tick_limit = ~0ull; }
const Sched_stats& sched_stats() { stats.ticks = g_ticks; return stats; }
const Vec<Switch>& sched_trace() { return trace; }
bool sched_trace_truncated() { return trunc_trace; }
Vec<Race> sched_races() { return races; }
const Vec<std::pair<uint32_t, uint64_t>>& sched_conflicts() { return conflicts; }
uint64_t ticks() { return g_ticks; }
void advance_ticks(uint64_t n) { g_ticks += n; }
void set_tick_limit(uint64_t l) { tick_limit = l; }
bool in_region() { return cur != nullptr; }


// ---- work sharing
static bool team_ctx() { return cur && !cur->nest_serial; }
static Ctx& own_ctx() { return cur ? nest_ctx[cur - fibers] : serial_ctx; }
static Work& enter_work()
{
  if (team_ctx()) {
    size_t i = cur->ws_index++;
    if (works.size() <= i) works.resize(i + 1);
    return works[i];
  }
  Ctx& c = own_ctx();
  size_t i = c.index++;
  if (c.works.size() <= i) c.works.resize(i + 1);
  return c.works[i];
}
static Work& this_work() { return team_ctx() ? works[cur->ws_index - 1] : own_ctx().works[own_ctx().index - 1]; }
static bool loop_next(long* is, long* ie)
{
  if (cur) sync_point();
  Work& w = this_work();
  bool left = w.incr > 0 ? w.next < w.end : w.next > w.end;
  if (!left) return false;
  long n = w.chunk*w.incr;
  *is = w.next;
  long e = w.next + n;
  if (w.incr > 0 ? e > w.end : e < w.end) e = w.end;
  *ie = e;
  w.next = e;
  return true;
}
static void loop_init(Work& w, long s, long e, long incr, long chunk)
{
  if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = incr; w.chunk = chunk > 0 ? chunk : 1; }
}
static Vc barrier_vc;
static void barrier()
{
  if (!team_ctx()) return;
  sync_point();
  for (int i = 0; i < max_team; ++i) barrier_vc[i] = std::max(barrier_vc[i], cur->vc[i]);
  if (++barrier_count == team) {
    barrier_count = 0;
    for (int t = 0; t < team; ++t) {
      Fiber& f = fibers[t];
      if (&f == cur || (f.state == BLOCKED && f.wait == &barrier_count)) {
        memcpy(f.vc, barrier_vc, sizeof(Vc)); f.vc[t]++;
        if (&f != cur) { f.state = READY; f.wait = nullptr; }
      }
    }
    sync_point();
  } else {
    ++cur->count;
    cur->state = BLOCKED; cur->wait = &barrier_count;
    next_req = -1;
    to_main();
    set_stop(*cur);
  }
}

static Umap<uintptr_t, std::pair<uint32_t, Lock_state>> sync_vars;
static inline void atomic_access(uintptr_t a, uint32_t size, bool write, bool acq, bool rel, uint32_t pc)
{
  if (!cur) { ++g_ticks; return; }
  stats.atomics++;
  Fiber* f = cur;
  uint64_t sw = stats.switches;
  tick(f);
  if (__builtin_expect(any_hot || here, 0)) hot_point(pc, a, size, sw);
  maybe_preempt(f, spec.p_sync);
  if (spec.race) {
    check_access(a, size, write, true, pc);
    if (acq || rel) {
      auto& p = sync_vars[a];
      if (p.first != tag) { p.first = tag; memset(p.second.vc, 0, sizeof(Vc)); }
      if (acq) acquire_vc(p.second.vc);
      if (rel) release_vc(p.second.vc);
    }
  }
}

static inline void plain_access(uintptr_t a, uint32_t size, bool write, uint32_t pc)
{
  Fiber* f = cur;
  if (!f) { if (__builtin_expect(++g_ticks > tick_limit, 0)) fatal("hang", "tick limit exceeded"); return; }
  uint64_t sw = stats.switches;
  tick(f);
  if (__builtin_expect(any_hot || here, 0)) hot_point(pc, a, size, sw);
  if (spec.race && !f->no_preempt) check_access(a, size, write, false, pc);
}
void on_alloc(void* p, size_t n) { if (cur && spec.race && p) clear_shadow((uintptr_t)p, n); }
void no_preempt(int d) { if (cur) cur->no_preempt += d; }
}

using namespace sim;

// ---- libgomp interface
extern "C" {

static void run_region(void (*fn)(void*), void* data, unsigned n, Work* preset)
{
  ++region_id; ++stats.regions;
  if (cur) {
    Ctx save = nest_ctx[cur - fibers]; nest_ctx[cur - fibers] = Ctx();
    if (preset) { nest_ctx[cur - fibers].works.push_back(*preset); nest_ctx[cur - fibers].index = 1; }
    cur->nest_serial++; fn(data); cur->nest_serial--;
    nest_ctx[cur - fibers] = save;
    return;
  }
  int nt = n ? (int)n : nthreads_var;
  if (nt > max_team) nt = max_team;
  if (!active || nt <= 1 || serial_level) {
    Ctx save = serial_ctx; serial_ctx = Ctx();
    if (preset) { serial_ctx.works.push_back(*preset); serial_ctx.index = 1; }
    serial_level++; fn(data); serial_level--;
    serial_ctx = save;
    return;
  }
  run_team(fn, data, nt, preset);
}

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_region(fn, data, n, nullptr); }
void GOMP_critical_start() { stats.criticals++; lock_acquire(&crit_key, false); }
void GOMP_critical_end() { lock_release(&crit_key, false); }
void GOMP_critical_name_start(void** p) { stats.criticals++; lock_acquire(p, false); }
void GOMP_critical_name_end(void** p) { lock_release(p, false); }
void GOMP_atomic_start() { stats.atomics++; lock_acquire(&atomic_key, false); }
void GOMP_atomic_end() { lock_release(&atomic_key, false); }
void GOMP_barrier() { barrier(); }
bool GOMP_cancellation_point(int) { return false; }
bool GOMP_single_start() { if (cur) sync_point(); Work& w = enter_work(); if (w.single_taken) return false; w.single_taken = true; return true; }

#define SIM_LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long* is, long* ie) { loop_init(enter_work(), s, e, i, c); return loop_next(is, ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is, ie); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, long c, unsigned) { Work w; loop_init(w, s, e, i, c); run_region(fn, data, n, &w); } \
bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) \
{ (void)up; loop_init(enter_work(), s, e, (long)i, c); return loop_next((long*)is, (long*)ie); } \
bool GOMP_loop_ull_##NAME##_next(unsigned long long* is, unsigned long long* ie) { return loop_next((long*)is, (long*)ie); }
SIM_LOOP(dynamic) SIM_LOOP(guided) SIM_LOOP(nonmonotonic_dynamic) SIM_LOOP(nonmonotonic_guided) SIM_LOOP(static)
#define SIM_LOOP_RT(NAME) \
bool GOMP_loop_##NAME##_start(long s, long e, long i, long* is, long* ie) { loop_init(enter_work(), s, e, i, 1); return loop_next(is, ie); } \
bool GOMP_loop_##NAME##_next(long* is, long* ie) { return loop_next(is, ie); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long s, long e, long i, unsigned) { Work w; loop_init(w, s, e, i, 1); run_region(fn, data, n, &w); }
SIM_LOOP_RT(runtime) SIM_LOOP_RT(nonmonotonic_runtime) SIM_LOOP_RT(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
unsigned GOMP_sections_start(unsigned n) { loop_init(enter_work(), 1, (long)n + 1, 1, 1); long s, e; return loop_next(&s, &e) ? s : 0; }
unsigned GOMP_sections_next() { long s, e; return loop_next(&s, &e) ? s : 0; }
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) { Work w; loop_init(w, 1, (long)count + 1, 1, 1); run_region(fn, data, n, &w); }
// tasks are executed by the creating thread at once: a schedule OpenMP permits
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool, unsigned, void**, int, void*)
{
  if (cpy) { char* buf = (char*)alloca(size + align); char* arg = (char*)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1)); cpy(arg, data); fn(arg); }
  else fn(data);
}
void GOMP_taskwait() {}

int omp_get_thread_num() { return cur && !cur->nest_serial ? cur - fibers : 0; }
int omp_get_num_threads() { return cur && !cur->nest_serial ? team : 1; }
int omp_get_max_threads() { return nthreads_var; }
int omp_get_num_procs() { return nthreads_var; }
int omp_get_level() { return cur ? 1 + cur->nest_serial : serial_level; }
int omp_get_active_level() { return cur ? 1 : 0; }
int omp_in_parallel() { return cur != nullptr; }
int omp_get_thread_limit() { return max_team; }
int omp_get_dynamic() { return 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
void omp_set_num_threads(int) {} // the number of threads is a parameter of the simulation
double sim_wtime();
double omp_get_wtime() { return sim_wtime(); }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void* l) { lock_map()[l] = Lock_state(); }
void omp_destroy_lock(void* l)
{
  auto it = lock_map().find(l);
  if (it != lock_map().end()) {
    if (it->second.owner != -1 && !std::uncaught_exceptions()) fatal("lock misuse", "destruction of a lock that is held");
    lock_map().erase(it);
  }
}
void omp_set_lock(void* l) { lock_acquire(l, false); }
void omp_unset_lock(void* l) { lock_release(l, false); }
int omp_test_lock(void* l) { sync_point(); Lock_state& s = lock_map()[l]; if (s.owner != -1) return 0; lock_acquire(l, false); return 1; }
void omp_init_nest_lock(void* l) { omp_init_lock(l); }
void omp_destroy_nest_lock(void* l) { omp_destroy_lock(l); }
void omp_set_nest_lock(void* l) { lock_acquire(l, true); }
void omp_unset_nest_lock(void* l) { lock_release(l, true); }

// ---- ThreadSanitizer interface (the compiler emits these calls; this is the whole runtime)
#define PC ((uint32_t)((uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start))
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define SIM_RW(N) \
void __tsan_read##N(void* a) { plain_access((uintptr_t)a, N, false, PC); } \
void __tsan_write##N(void* a) { plain_access((uintptr_t)a, N, true, PC); } \
void __tsan_unaligned_read##N(void* a) { plain_access((uintptr_t)a, N, false, PC); } \
void __tsan_unaligned_write##N(void* a) { plain_access((uintptr_t)a, N, true, PC); } \
void __tsan_volatile_read##N(void* a) { plain_access((uintptr_t)a, N, false, PC); } \
void __tsan_volatile_write##N(void* a) { plain_access((uintptr_t)a, N, true, PC); }
SIM_RW(1) SIM_RW(2) SIM_RW(4) SIM_RW(8) SIM_RW(16)
void __tsan_vptr_update(void** a, void*) { plain_access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { plain_access((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void* a, unsigned long n) { plain_access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { plain_access((uintptr_t)a, n, true, PC); }
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int mo) {}
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) == 4 || (mo) == 5)
#define REL(mo) ((mo) == 3 || (mo) == 4 || (mo) == 5)
#define SIM_ATOMIC(BITS, T) \
T __tsan_atomic##BITS##_load(const volatile T* a, int mo) { atomic_access((uintptr_t)a, sizeof(T), false, ACQ(mo), false, PC); return *a; } \
void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) { atomic_access((uintptr_t)a, sizeof(T), true, false, REL(mo), PC); *a = v; } \
T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; } \
int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; } \
T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T e, T v, int mo, int) { atomic_access((uintptr_t)a, sizeof(T), true, ACQ(mo), REL(mo), PC); T o = *a; if (o == e) *a = v; return o; }
SIM_ATOMIC(8, unsigned char) SIM_ATOMIC(16, unsigned short) SIM_ATOMIC(32, unsigned int) SIM_ATOMIC(64, unsigned long)
}
