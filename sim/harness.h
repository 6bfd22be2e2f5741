// One evaluation of a property: the generator draws parameters, check() runs
// one or more simulated jobs and judges what they did.
#pragma once
#include "world.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace sim {
struct Ctx {
  Shared *sh = nullptr;
  World *world = nullptr;
  Choices ch;
  uint64_t polseed = 1;
  Counters cnt;
  uint64_t hash = 0xcbf29ce484222325ull, sched = 0xcbf29ce484222325ull;
  int64_t steps = 0, sim_ns = 0, jobs = 0;
  std::string san;            // first report of a sanitizer, from any job
  std::string *trace = nullptr;
  std::string scratch;        // empty directory, removed afterwards
  // Runs one job. A job that does not reach its end is a violation unless the
  // caller says otherwise.
  Result run(const Params &p);
};
struct Violation;
using Out = std::map<int64_t, double>;
// All records with one tag from all ranks, keyed by index. dup counts keys
// reported more than once.
struct Field { std::vector<double> v; std::vector<int> seen; int64_t dup = 0, out_of_range = 0, n = 0; };
// The job may hold more processes than the program under test is given, in any
// order: the place of process r of program `group` in the job.
int job_rank(const Params &p, int r, int group = 0);
int job_size(const Params &p);
inline Mailbox &mailbox(Shared *sh, int r) { return sh->mb[sh->map[r]]; }
Field collect(Shared *sh, int np, int tag, int64_t size);
std::vector<Rec> records(Shared *sh, int rank, int tag);
double record(Shared *sh, int rank, int tag, int64_t idx, double def);

struct Property {
  std::string id, title;
  std::function<Params(Rng &, bool thorough, int64_t index)> gen;
  std::function<Violation(Ctx &, const Params &)> check;
  std::vector<std::pair<std::string, int64_t>> simplify;   // key, simpler value (tried in order)
  std::string rule;                                        // what counts as non-trivial
  std::vector<std::string> real, stub;
};
const std::vector<Property> &properties();
extern "C" bool rank_sanitized();             // is the code under test built with sanitizers?
bool in_domain(const Params &p);             // could a generator have drawn this?
int rank_main(const Params &p, int rank, const char *scratch);   // body of a rank image
std::string describe(const Params &p);
double hashval(uint64_t seed, uint64_t i);   // in [-1,1]
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
} // namespace sim
