// What scenarios share: the job description, the record of what was observed, and random choices.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include "sched.hpp"
#include "io.hpp"

namespace sim {

struct Job {
  std::string id, scen, dir, out;
  uint64_t cfg = 0;               // seed of the scenario (program and its inputs)
  Sched_spec sched;
  Io_spec io;
  bool keep_trace = false, keep_log = false;
  uint64_t tick_limit = 4000000000ull;
  std::map<std::string, std::string> opt;
  std::string get(const std::string& k, const std::string& def = "") const { auto i = opt.find(k); return i == opt.end() ? def : i->second; }
  int geti(const std::string& k, int def) const { auto i = opt.find(k); return i == opt.end() ? def : atoi(i->second.c_str()); }
};

// sections of observations, compared between executions: integers and text exactly, reals to a tolerance
struct Outcome {
  struct Sec { char kind; std::string name; std::vector<int64_t> i; std::vector<double> d; std::string s; double scale = 0; };
  std::vector<Sec> secs;
  std::string status = "ok", detail;
  std::vector<std::string> violations;          // invariants broken while the run proceeded
  std::map<std::string, int64_t> probes;        // rare conditions this run reached
  void ints(const std::string& n, std::vector<int64_t> v) { secs.push_back({'I', n, std::move(v), {}, ""}); }
  // `scale`: differences are judged relative to the largest entry or to this, whichever is greater
  void reals(const std::string& n, std::vector<double> v, double scale = 0) { secs.push_back({'D', n, {}, std::move(v), "", scale}); }
  void text(const std::string& n, std::string v) { secs.push_back({'S', n, {}, {}, std::move(v)}); }
  void integer(const std::string& n, int64_t v) { ints(n, {v}); }
  void real(const std::string& n, double v, double scale = 0) { reals(n, {v}, scale); }
  void probe(const std::string& n, int64_t k = 1) { probes[n] += k; }
  void violation(const std::string& s) { if (violations.size() < 20) violations.push_back(s); }
};

struct Gen { // SplitMix64
  uint64_t s;
  explicit Gen(uint64_t seed) : s{seed*0x9e3779b97f4a7c15ull + 0x1234567} { next(); next(); }
  uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30))*0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27))*0x94d049bb133111ebull; return z ^ (z >> 31); }
  double uni() { return (next() >> 11)*(1./9007199254740992.); }
  double uni(double a, double b) { return a + (b - a)*uni(); }
  int range(int a, int b) { return a + (int)(next()%(uint64_t)(b - a + 1)); } // inclusive
  bool chance(double p) { return uni() < p; }
};
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h = (h ^ (h >> 30))*0xbf58476d1ce4e5b9ull; return h ^ (h >> 27); }

extern Outcome out;
typedef void (*Scenario)(const Job&);
struct Register { Register(const char* name, Scenario f); };
void begin_sim(const Job&);   // simulation on
void end_sim();               // simulation off (results may be inspected with the real operating system)
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// mesh_file.cpp: reads result files without using any hexed code
struct Mesh_file;
// canonical, order-independent description of a mesh file (and of a state file, if given) appended to `out`
bool digest_mesh(const std::string& prefix, const std::string& mesh_path, const std::string& state_path, bool check_topology);
// checks what must hold for every mesh, from the file alone; false if it can not be read
bool validate_mesh(const std::string& name, const std::string& mesh_path, bool whole_box);
int shapes_match(const std::string& mesh_path, const std::string& state_path);
// any HDF5 file: every dataset and attribute in file order; false if it can not be read completely
bool digest_h5(const std::string& prefix, const std::string& path, bool record, std::string* why = nullptr);
std::string read_text(const std::string& path);
bool exists(const std::string& path);
}
