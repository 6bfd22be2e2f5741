// The simulator: owns the schedule, the network, the collectives, the disk
// outcomes and the clock of one simulated parallel job.
#pragma once
#include "proto.h"
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)((next() >> 11) % n) : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint32_t)(b - a + 1)); }
  bool chance(double p) { return (double)(next() >> 11) / 9007199254740992.0 < p; }
  double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
};

// Integer parameters of one run (sizes, options, fault plan). Absent = 0.
struct Params {
  std::map<std::string, int64_t> v;
  int64_t operator()(const std::string &k, int64_t def = 0) const { auto i = v.find(k); return i == v.end() ? def : i->second; }
  int64_t &operator[](const std::string &k) { return v[k]; }
};

// Every scheduling decision goes through here: drawn by a policy and recorded,
// or replayed from a list (an exhausted list answers 0, the canonical choice).
struct Choices {
  bool replay = false;
  std::vector<uint32_t> list;   // recorded or to be replayed
  size_t pos = 0;
};

struct Violation { std::string cls, detail; };

struct Counters { std::map<std::string, int64_t> c; void add(const std::string &k, int64_t n = 1) { c[k] += n; } };

struct Result {
  std::string cls;            // "" when the job ran to its end
  std::string detail;
  std::vector<int> status;    // exit status per rank
  uint64_t hash = 0;
  uint64_t sched_hash = 0;    // schedule only: order of actions and matches
  int64_t steps = 0;
  int64_t sim_ns = 0;
  int64_t io_ops = 0;
  int64_t io_ops_armed = 0;
  bool crashed = false;       // simulated crash was injected
  bool io_fault_fired = false;
  std::vector<int> stage_at_fault;
};

// Policies for the seeded scheduler
enum Policy { P_CANON = 0, P_UNIFORM, P_STICKY, P_PRIO, P_STARVE_RANK, P_DELAY_NET, P_LIFO, P_NPOL };

class World {
public:
  World(Shared *sh);
  // runs one job: every rank image executes body(rank) after being released
  Result run(const Params &p, Choices &ch, uint64_t policy_seed, const std::function<int(int)> &body, Counters &cnt, std::string *trace);
private:
  struct Msg { int src, dst, ctx, tag; std::vector<unsigned char> data; int64_t sreq; bool rndv; int64_t at; };
  struct RQ {       // one request, posted by `rank`
    int rank; int kind;   // 1 send 2 recv 3 coll
    bool done = false, freed = false;
    int ctx = 0, src = 0, tag = 0;
    int msrc = 0, mtag = 0;
    std::vector<unsigned char> data;
    int64_t coll = -1;
  };
  struct Coll {
    int ctx, kind, root, extra; int64_t seq; int narr = 0; bool sync = false; bool computed = false;
    std::vector<int> w; std::vector<char> arr, left; std::vector<std::vector<unsigned char>> in;
    std::vector<int> perm; std::vector<int> newctx; std::vector<std::vector<int>> neww;
    uint64_t nb0 = 0;
  };
  struct RankSt { int pid = 0; bool alive = false, exited = false; Req rq{}; std::vector<unsigned char> payload; bool pending = false; int64_t blockreq = 0; int polls = 0; int stage = 0; std::map<int, int64_t> collseq; int consec_false = 0; };
  Shared *sh_;
  int n_ = 0;
  const Params *p_ = nullptr;
  Choices *ch_ = nullptr;
  Rng rng_;
  Counters *cnt_ = nullptr;
  std::string *trace_ = nullptr;
  std::vector<RankSt> rk_;
  std::map<std::tuple<int, int, int>, std::deque<Msg>> net_;   // (dst,src,ctx)
  std::vector<std::deque<Msg>> unexp_;
  std::map<int64_t, RQ> rq_;
  std::vector<std::deque<int64_t>> posted_;                    // posted receives per rank
  int64_t nextid_ = 1;
  std::map<int, std::vector<int>> comms_;
  int nextctx_ = 1;
  std::map<std::pair<int, int64_t>, int64_t> collidx_;
  std::map<int64_t, Coll> colls_;
  int64_t nextcoll_ = 1;
  Result res_;
  int last_ = -1;
  int policy_ = 0;
  std::vector<double> prio_;
  int victim_ = -1; int64_t victim_until_ = 0; int slow_src_ = -1, slow_dst_ = -1; double sticky_ = 0.9;
  std::set<int64_t> changes_;
  void fnv(uint64_t v) { res_.hash = (res_.hash ^ v) * 0x100000001B3ull; }
  void fnvs(uint64_t v) { res_.sched_hash = (res_.sched_hash ^ v) * 0x100000001B3ull; fnv(v); }
  void fnvb(const unsigned char *d, size_t n);
  uint32_t choose(uint32_t n, const std::function<uint32_t()> &pol);
  bool coin(double p) { return choose(2, [&] { return (uint32_t)rng_.chance(p); }) != 0; }
  void log(const char *f, ...) __attribute__((format(printf, 2, 3)));
  bool resume(int r, const Rep &rep);       // lets rank r run to its next request
  bool wait_parked(int r);
  bool accept(int r);                        // collects the request of rank r; services local ones
  bool ready(int r);
  void service(int r);
  void deliver(const std::tuple<int, int, int> &k);
  void match(RQ &q, Msg &m);
  int64_t new_rq(int rank, int kind);
  Coll &coll_arrive(int r, const Req &q, const std::vector<unsigned char> &d, int64_t &id);
  bool coll_done(const Coll &c, int me);
  void coll_reply(Coll &c, int me, std::vector<unsigned char> &o);
  void fail(const std::string &cls, const std::string &d) { if (res_.cls.empty()) { res_.cls = cls; res_.detail = d; } }
  void killall();
  std::string dump();
  bool req_done(int64_t id);
  int idx_in(const Coll &c, int w) { for (size_t i = 0; i < c.w.size(); ++i) if (c.w[i] == w) return (int)i; return -1; }
};
} // namespace sim
