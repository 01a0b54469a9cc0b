// Deterministic OpenMP runtime: public interface used by the scenario code.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <cstdlib>
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
namespace sim {

// the simulator's own data live outside the simulated heap, so that they do not affect the addresses the program sees
template <typename T> struct Sim_alloc {
  typedef T value_type;
  Sim_alloc() = default;
  template <typename U> Sim_alloc(const Sim_alloc<U>&) {}
  T* allocate(size_t n) { return (T*)__libc_malloc(n*sizeof(T)); }
  void deallocate(T* p, size_t) { __libc_free(p); }
  template <typename U> bool operator==(const Sim_alloc<U>&) const { return true; }
  template <typename U> bool operator!=(const Sim_alloc<U>&) const { return false; }
};
template <typename T> using Vec = std::vector<T, Sim_alloc<T>>;

struct Switch { uint32_t region; uint32_t tid; uint64_t count; uint32_t next; }; // at `count` ticks of thread `tid` in `region`, run `next`
enum Strategy { SEQ = 0, RANDOM = 1, ROUND_ROBIN = 2, STARVE = 3, SYNC = 4, REVERSE = 5, MEET = 6, N_STRATEGY = 7 }; // MEET: hold a thread at a conflicting access until another one arrives at the same data, then interleave them finely

struct Sched_spec {
  int n_threads = 1;
  int strategy = SEQ;
  uint64_t seed = 0;
  double gap = 1e4;         // mean number of memory accesses between involuntary switches
  double p_sync = 0.;       // probability of a switch at each synchronisation operation
  double p_region = 1.;     // fraction of the parallel regions in which involuntary switches happen
  double p_hot = 0.;        // probability of a switch at an access already seen to conflict
  bool race = false;        // happens-before conflict detection on
  Vec<std::pair<uint32_t, uint64_t>> hot; // places known to conflict (parallel region, address/8)
  bool use_explicit = false; // replay: follow `switches` and nothing else
  Vec<Switch> switches;
  unsigned char fill = 0xa5; // initial content of the stacks
};

const Vec<std::pair<uint32_t, uint64_t>>& sched_conflicts(); // (parallel region, address/8) where conflicts were seen
struct Race { uintptr_t pc0, pc1; bool w0, w1; uint64_t count; uint64_t changed; uint32_t region; };

struct Sched_stats {
  uint64_t ticks = 0, regions = 0, team_regions = 0, switches = 0, lock_acq = 0, lock_block = 0, held = 0, met = 0, atomics = 0, criticals = 0;
  uint64_t order_hash = 1469598103934665603ull; // hash of every scheduling decision = identity of the interleaving
};

void sched_start(const Sched_spec&);  // from here parallel regions are simulated with these parameters
void sched_stop();
void sched_abandon(); // the execution ends here: whatever runs from now on is not simulated
const Sched_stats& sched_stats();
const Vec<Switch>& sched_trace();
bool sched_trace_truncated();
Vec<Race> sched_races();
uint64_t ticks();
void set_tick_limit(uint64_t);
bool in_region();
void advance_ticks(uint64_t);
// called on: deadlock, tick limit, misuse of the runtime. must not return.
extern void (*fatal_hook)(const char* kind, const char* detail);
}
