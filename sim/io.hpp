// Simulated operating system surface: files, clock, shell, memory allocation.
#pragma once
#include "sched.hpp"
#include <cstdint>
#include <string>
#include <vector>
#include <map>
namespace sim {

enum Op_type { OP_OPEN_R, OP_OPEN_W, OP_READ, OP_WRITE, OP_TRUNC, OP_CLOSE, OP_UNLINK, OP_RENAME, OP_SYMLINK, OP_MKDIR, OP_STAT, OP_SHELL, OP_COPY, OP_STDIN, OP_N };
extern const char* op_name[];
enum Fault_kind {
  F_ERR,         // operation `op` fails with errno `arg` (once)
  F_ERR_WINDOW,  // data-modifying operations [op, op + arg2) fail with errno `arg` (e.g. full disk, later freed)
  F_ERR_PATH,    // from `op` on, every data-modifying operation on the file that operation `op` touches fails with errno `arg`
  F_SHORT,       // read/write transfers only part of the data (legal POSIX behaviour)
  F_EINTR,       // read/write interrupted before transferring (legal POSIX behaviour)
  F_CRASH,       // process killed before operation `op`
  F_CRASH_AFTER, // process killed after operation `op`
  F_CRASH_TORN,  // process killed in the middle of write `op`
  F_CLOCK_JUMP,  // system clock jumps by `arg` seconds at operation `op`; steady clock unaffected
  F_STALL,       // both clocks advance by `arg` seconds during operation `op`
  F_USER,        // the user delivers runtime command number `arg` (atomically, by rename) just before operation `op`
  F_ALLOC,       // C++ allocation number `op` fails
  F_ERR_NTH,     // the operation number `op` among those of type `arg2` fails with errno `arg`
  F_N };
extern const char* fault_name[];
struct Fault { int kind; uint64_t op; int64_t arg = 0; int64_t arg2 = 0; };

struct Op_rec { uint8_t type; uint8_t faulted; int path; uint64_t size; };

struct Io_spec {
  std::string root;            // absolute path of the scratch directory: operations on it are simulated
  std::vector<Fault> faults;
  uint64_t seed = 0;
  double io_latency = 1e-4;    // mean simulated latency of one operation [s]
  double clock_start = 1.7e9;  // simulated UNIX time at start
};

struct Io_stats {
  uint64_t ops = 0, bytes_written = 0, bytes_read = 0;
  uint64_t injected[F_N] = {};
  uint64_t by_type[OP_N] = {};
  uint64_t clock_reads = 0, allocs = 0;
  uint64_t hash = 1469598103934665603ull;
  uint64_t escapes = 0;        // attempts to modify something outside the scratch directory
};

void io_start(const Io_spec&);
void io_stop();
Io_stats& io_stats();
const Vec<Op_rec>& io_log();
const std::vector<std::string>& io_paths();
double sim_monotonic();
double sim_realtime();
void io_set_counting(bool); // count (and fault) operations only while on
uint64_t alloc_count();
void alloc_arm(bool);
extern void (*crash_hook)();                      // called just before a simulated crash
extern void (*user_hook)(int64_t which);          // performs the simulated user's action
extern void (*op_hook)(uint64_t op, int type, const char* path); // observer
extern std::string escape_path;
void heap_start(uint64_t layout, unsigned char fill); // simulated heap on: `layout` randomises relative addresses (0: ascending), `fill`: initial content of memory
void heap_stop();
void sim_busy(int d); // +1/-1: code in between belongs to the simulator
}
