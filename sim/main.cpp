// Driver: seeded search over simulated jobs, minimisation, replay, evidence.
#include "harness.h"
#include "rank.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fcntl.h>
#include <ftw.h>
#include <fstream>
#include <iostream>
#include <mpi.h>
#include <sched.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
namespace sim {
double hashval(uint64_t seed, uint64_t i)
{
  uint64_t z = seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
  return (double)(int64_t)(z >> 11) / 4503599627370496.0 - 1.0;
}
std::string describe(const Params &p)
{
  std::string s;
  for (auto &k : p.v) if (k.second) s += k.first + "=" + std::to_string(k.second) + " ";
  return s;
}
Field collect(Shared *sh, int np, int tag, int64_t size)
{
  Field f; f.v.assign(size, NAN); f.seen.assign(size, 0);
  for (int r = 0; r < np; ++r) {
    Mailbox &m = mailbox(sh, r); uint64_t n = std::min<uint64_t>(m.nout, OUT_MAX);
    for (uint64_t i = 0; i < n; ++i) {
      const Rec &x = m.out[i];
      if (x.tag != tag) continue;
      f.n++;
      if (x.idx < 0 || x.idx >= size) { f.out_of_range++; continue; }
      if (f.seen[x.idx]++) f.dup++;
      f.v[x.idx] = x.val;
    }
  }
  return f;
}
std::vector<Rec> records(Shared *sh, int rank, int tag)
{
  std::vector<Rec> o;
  Mailbox &m = mailbox(sh, rank); uint64_t n = std::min<uint64_t>(m.nout, OUT_MAX);
  for (uint64_t i = 0; i < n; ++i) if (m.out[i].tag == tag) o.push_back(m.out[i]);
  return o;
}
double record(Shared *sh, int rank, int tag, int64_t idx, double def)
{
  Mailbox &m = mailbox(sh, rank); uint64_t n = std::min<uint64_t>(m.nout, OUT_MAX);
  for (uint64_t i = 0; i < n; ++i) if (m.out[i].tag == tag && m.out[i].idx == idx) return m.out[i].val;
  return def;
}
static std::string g_base;   // scratch root of this driver
static int wipe_one(const char *f, const struct stat *, int, struct FTW *w) { if (w->level > 0) { if (remove(f)) {} } return 0; }
static void wipe(const std::string &d)
{ // empties a directory of this driver, without following links
  if (g_base.size() > 14 && d.find(g_base) == 0) nftw(d.c_str(), wipe_one, 16, FTW_DEPTH | FTW_PHYS);
}
int job_size(const Params &p) { return (int)(p("np", 1) + (p("sub") ? p("extra") : 0)); }
int job_rank(const Params &p, int r, int group)
{
  if (!p("sub")) return r;
  int n = job_size(p), at = group ? (int)p("np", 1) + r : r; int perm[MAXRANKS];
  for (int i = 0; i < n; ++i) perm[i] = i;
  Rng g((uint64_t)p("subseed") + 12345);
  for (int i = n; i > 1; --i) std::swap(perm[i - 1], perm[g.below((uint32_t)i)]);
  return perm[at];
}
Result Ctx::run(const Params &p)
{
  jobs++;
  uint64_t ps = polseed * 1000003 + jobs;
  std::string sc = scratch;
  for (int r = 0; r < MAXRANKS; ++r) sh->map[r] = r < (int)p("np", 1) ? job_rank(p, r) : r;
  Result r = world->run(p, ch, ps, [&](int rank) { return rank_main(p, rank, sc.c_str()); }, cnt, trace);
  hash = (hash ^ r.hash) * 0x100000001B3ull;
  sched = (sched ^ r.sched_hash) * 0x100000001B3ull;
  steps += r.steps; sim_ns += r.sim_ns;
  for (int i = 0; i < job_size(p) && san.empty(); ++i) if (sh->mb[i].san[0]) san = fmt("rank %d: ", i) + std::string(sh->mb[i].san, strnlen(sh->mb[i].san, sizeof sh->mb[i].san));
  return r;
}
} // namespace sim

using Clock = std::chrono::steady_clock;
static double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }

struct Eval { Violation v; uint64_t hash, sched; int64_t steps, sim_ns, jobs; Counters cnt; Choices ch; };
static Shared *g_shm; static World *g_world; static std::string g_sc;
static Eval evaluate(const Property &pr, const Params &p, uint64_t polseed, const std::vector<uint32_t> *replay, std::string *trace)
{
  Ctx c; c.sh = g_shm; c.world = g_world; c.polseed = polseed; c.trace = trace; c.scratch = g_sc;
  if (replay) { c.ch.replay = true; c.ch.list = *replay; }
  wipe(g_sc);
  Eval e;
  e.v = pr.check(c, p);
  e.hash = c.hash; e.sched = c.sched; e.steps = c.steps; e.sim_ns = c.sim_ns; e.jobs = c.jobs; e.cnt = c.cnt; e.ch = c.ch;
  return e;
}
static void setup_process(const std::string &tag)
{
  size_t sz = sizeof(Shared);
  void *m = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(3); }
  g_shm = new (m) Shared();
  g_world = new World(g_shm);
  g_sc = g_base + "/" + tag;
  mkdir(g_sc.c_str(), 0700);
}

struct Replay { std::string prop, cls, detail; Params p; uint64_t polseed = 1, hash = 0; std::vector<uint32_t> list; };
static void write_replay(const std::string &path, const Replay &r, const std::string &trace)
{
  std::ofstream f(path);
  f << "property " << r.prop << "\nclass " << r.cls << "\n";
  std::string d = r.detail; std::replace(d.begin(), d.end(), '\n', ' ');
  f << "detail " << d << "\nhash " << r.hash << "\npolseed " << r.polseed << "\n";
  for (auto &k : r.p.v) f << "param " << k.first << " " << k.second << "\n";
  // choices as run lengths of zeros followed by a value
  f << "choices";
  size_t n = r.list.size(); while (n && r.list[n - 1] == 0) --n;
  for (size_t i = 0; i < n;) { size_t z = 0; while (r.list[i] == 0) { ++z; ++i; } f << " " << z << ":" << r.list[i]; ++i; }
  f << "\n";
  f << "# schedule and fault trace of the minimised run\n";
  std::istringstream is(trace); std::string l; size_t c = 0;
  while (std::getline(is, l) && c++ < 20000) f << "# " << l << "\n";
}
static bool read_replay(const std::string &path, Replay &r)
{
  std::ifstream f(path); if (!f) return false;
  std::string l;
  while (std::getline(f, l)) {
    std::istringstream s(l); std::string k; s >> k;
    if (k == "property") s >> r.prop;
    else if (k == "class") s >> r.cls;
    else if (k == "detail") { std::getline(s, r.detail); if (!r.detail.empty()) r.detail.erase(0, 1); }
    else if (k == "hash") s >> r.hash;
    else if (k == "polseed") s >> r.polseed;
    else if (k == "param") { std::string n; int64_t v; s >> n >> v; r.p[n] = v; }
    else if (k == "choices") { std::string t; while (s >> t) { size_t c = t.find(':'); size_t z = std::stoul(t.substr(0, c)); r.list.insert(r.list.end(), z, 0); r.list.push_back((uint32_t)std::stoul(t.substr(c + 1))); } }
  }
  return !r.prop.empty();
}

struct Known { std::string prop, key, text; };
static std::vector<Known> g_known;
static void load_known(const std::string &file)
{
  std::ifstream f(file); std::string l;
  while (std::getline(f, l)) {
    if (l.compare(0, 6, "KNOWN ")) continue;
    Known k; size_t a = l.find("property="), b = l.find("key="), c = l.find(" :: ");
    if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
    k.prop = l.substr(a + 9, l.find(' ', a) - a - 9); k.key = l.substr(b + 4, c - b - 4); k.text = l.substr(c + 4);
    g_known.push_back(k);
  }
}
// a violation's key is its class; known findings name the exact class
static const Known *known(const std::string &prop, const Violation &v)
{
  for (auto &k : g_known) if (k.prop == prop && k.key == v.cls) return &k;
  return nullptr;
}

static std::string jesc(const std::string &s)
{
  std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o;
}
static std::string g_self;

struct Stat { int64_t runs = 0, jobs = 0, steps = 0, sim_ns = 0; Counters cnt; std::set<uint64_t> scheds, states; std::map<int64_t, int64_t> bynp; std::map<std::string, int64_t> bycfg; std::vector<std::string> samples; std::set<std::string> known; int64_t knownhits = 0; int64_t detpairs = 0; };

static int run_check(const Property &pr, bool thorough, uint64_t seed, double budget, int64_t maxruns, int workers, const std::string &verif, const std::string &outdir)
{
  double t0 = now();
  struct Sh { std::atomic<int64_t> bad; std::atomic<int64_t> err; };
  Sh *sh = (Sh *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->bad.store(INT64_MAX); sh->err.store(0);
  std::vector<pid_t> pid;
  for (int w = 0; w < workers; ++w) {
    pid_t p = fork();
    if (p == 0) {
      cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(w % std::max(1l, sysconf(_SC_NPROCESSORS_ONLN)), &cs); sched_setaffinity(0, sizeof cs, &cs);
      setup_process("w" + std::to_string(w));
      std::ofstream out(g_base + "/out." + std::to_string(w));
      for (int64_t i = w; i < maxruns; i += workers) {
        if (now() - t0 > budget || sh->bad.load() < i) break;
        Rng rg(seed * 7919 + (uint64_t)i * 104729 + 17);
        Params prm = pr.gen(rg, thorough, i);
        uint64_t ps = rg.next();
        static const bool dd = getenv("SIM_DETDUMP"); std::string t1, t2;
        Eval e = evaluate(pr, prm, ps, nullptr, dd ? &t1 : nullptr);
        // part of every batch is run twice to keep the simulator honest
        if (e.v.cls.empty() && i % 97 == 5) {
          Eval e2 = evaluate(pr, prm, ps, nullptr, dd ? &t2 : nullptr);
          if (dd && e2.hash != e.hash) { std::ofstream("/tmp/det1") << t1; std::ofstream("/tmp/det2") << t2; }
          Eval e3 = evaluate(pr, prm, 0, &e.ch.list, nullptr);
          if (e2.hash != e.hash || e3.hash != e.hash) { out << "NONDET " << i << (e2.hash != e.hash ? " rerun " : " replay ") << describe(prm) << "\n"; sh->err.fetch_add(1); }
          else out << "DET\n";
        }
        out << "RUN " << i << " " << e.jobs << " " << e.steps << " " << e.sim_ns << " " << e.sched << " " << e.hash << " " << prm("np") << " " << prm("cfg") << "\n";
        for (auto &c : e.cnt.c) out << "CNT " << c.second << " " << c.first << "\n";
        if (i < 3 || (i < 60 && i % 20 == 0)) out << "SAMPLE " << describe(prm) << "\n";
        if (!e.v.cls.empty()) {
          if (known(pr.id, e.v)) { out << "KNOWN " << e.v.cls << "\n"; continue; }
          Replay r; r.prop = pr.id; r.cls = e.v.cls; r.detail = e.v.detail; r.p = prm; r.polseed = ps; r.hash = e.hash; r.list = e.ch.list;
          write_replay(g_base + "/bad." + std::to_string(i), r, "");
          int64_t cur = sh->bad.load(); while (i < cur && !sh->bad.compare_exchange_weak(cur, i)) {}
          out.flush();
          break;
        }
      }
      out.flush();
      _exit(0);
    }
    pid.push_back(p);
  }
  int lost = 0;
  for (pid_t p : pid) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) lost++; }
  Stat s;
  for (int w = 0; w < workers; ++w) {
    std::ifstream in(g_base + "/out." + std::to_string(w)); std::string l;
    while (std::getline(in, l)) {
      std::istringstream is(l); std::string k; is >> k;
      if (k == "RUN") { int64_t i, j, st, ns, np, cfg; uint64_t sc, h; is >> i >> j >> st >> ns >> sc >> h >> np >> cfg; s.runs++; s.jobs += j; s.steps += st; s.sim_ns += ns; s.scheds.insert(sc); s.states.insert(h); s.bynp[np]++; s.bycfg[std::to_string(cfg)]++; }
      else if (k == "CNT") { std::string n; int64_t v; is >> v; std::getline(is >> std::ws, n); s.cnt.add(n, v); }
      else if (k == "SAMPLE") { if (s.samples.size() < 12) s.samples.push_back(l.substr(7)); }
      else if (k == "KNOWN") { s.known.insert(l.substr(6)); s.knownhits++; }
      else if (k == "DET") s.detpairs++;
      else if (k == "NONDET") std::cerr << "simulator not deterministic: " << l << "\n";
    }
  }
  int rc = 0;
  int64_t nviol = 0;
  std::string vline, vdetail;
  if (lost) { std::cerr << lost << " worker(s) died\n"; if (lost == workers) rc = 4; }
  if (sh->bad.load() != INT64_MAX) {
    // gate and minimise
    setup_process("min");
    cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(0, &cs); sched_setaffinity(0, sizeof cs, &cs);
    std::vector<int64_t> bads;
    for (int64_t i = 0; i < maxruns && i < INT64_MAX && (int)bads.size() < workers; ++i) { if (i > sh->bad.load() + 100000) break; struct stat st; if (!stat((g_base + "/bad." + std::to_string(i)).c_str(), &st)) bads.push_back(i); }
    Replay r; bool exact = false; int64_t pick = -1;
    for (int64_t bi : bads) {
      r = Replay(); read_replay(g_base + "/bad." + std::to_string(bi), r);
      std::cerr << pr.id << ": run " << bi << " fails: [" << r.cls << "] " << r.detail << "\n  parameters: " << describe(r.p) << "\n";
      // The same run again, twice. Code with undefined behaviour may not repeat to the
      // last bit: then the violation itself has to repeat.
      Eval a = evaluate(pr, r.p, r.polseed, &r.list, nullptr), b = evaluate(pr, r.p, r.polseed, &r.list, nullptr);
      exact = a.hash == b.hash && a.hash == r.hash;
      if (a.v.cls.empty() || b.v.cls.empty() || known(pr.id, a.v) || known(pr.id, b.v)) {
        std::cerr << "the failing run does not repeat (" << a.v.cls << "/" << b.v.cls << "/" << r.cls << " " << a.hash << " " << b.hash << " " << r.hash << ")\n";
        continue;
      }
      if (!exact) { r.cls = a.v.cls; r.detail = a.v.detail; }
      pick = bi; break;
    }
    if (pick < 0) { std::cerr << "no failing run repeats: simulator error\n"; return 6; }
    sh->bad.store(pick);
    if (!exact) std::cerr << "note: the execution does not repeat to the last bit, the violation does\n";
    double tm = now(), lim = getenv("SIM_NOMIN") ? 0 : thorough ? 120 : 40;
    int tries = 0;
    auto attempt = [&](const Params &p, const std::vector<uint32_t> &l) {
      if (now() - tm > lim || !in_domain(p)) return false;
      ++tries;
      Eval e = evaluate(pr, p, r.polseed, &l, nullptr);
      if (e.v.cls == r.cls) { r.p = p; r.list = l; r.hash = e.hash; r.detail = e.v.detail; return true; }
      return false;
    };
    attempt(r.p, {});
    bool again = true;
    while (again && now() - tm < lim) {
      again = false;
      for (auto &sv : pr.simplify) {
        int64_t cur = r.p(sv.first);
        if (cur == sv.second) continue;
        Params q = r.p; q[sv.first] = sv.second;
        if (attempt(q, r.list)) { again = true; continue; }
        // half way for sizes
        static const std::set<std::string> sizes{"mx", "my", "lx", "ly", "b_mx", "b_my", "b_lx", "b_ly", "np", "rx", "ry", "npart"};
        if (!sizes.count(sv.first)) continue;
        int64_t mid = (cur + sv.second) / 2;
        if (mid != cur && mid != sv.second) { q[sv.first] = mid; if (attempt(q, r.list)) again = true; }
      }
    }
    attempt(r.p, {});
    auto trim = [&] { while (!r.list.empty() && r.list.back() == 0) r.list.pop_back(); };
    trim();
    for (size_t cut = r.list.size() / 2; cut >= 1 && now() - tm < lim;) { // shorten the tail
      if (cut < r.list.size()) { std::vector<uint32_t> l(r.list.begin(), r.list.end() - cut); if (attempt(r.p, l)) { trim(); cut = std::min(cut, r.list.size() / 2 + 1); continue; } }
      cut /= 2;
    }
    for (size_t len = std::max<size_t>(1, r.list.size() / 2); len >= 1 && now() - tm < lim; len /= 2) { // remove deviations from the canonical schedule
      for (size_t s0 = 0; s0 < r.list.size() && now() - tm < lim; s0 += len) {
        std::vector<uint32_t> l = r.list; bool any = false;
        for (size_t i = s0; i < std::min(l.size(), s0 + len); ++i) { if (l[i]) any = true; l[i] = 0; }
        if (any) attempt(r.p, l);
      }
      trim();
      if (len == 1) break;
    }
    std::string trace;
    Eval fin = evaluate(pr, r.p, r.polseed, &r.list, &trace);
    r.hash = fin.hash; r.detail = fin.v.detail;
    std::string path = outdir + "/" + pr.id + "-seed" + std::to_string(seed) + "-" + std::to_string(sh->bad.load()) + ".replay";
    write_replay(path, r, trace);
    std::cerr << "minimised in " << tries << " runs to: " << describe(r.p) << " with " << std::count_if(r.list.begin(), r.list.end(), [](uint32_t x) { return x; }) << " non-canonical choices\n";
    std::string cmd = "'" + g_self + "' replay '" + path + "' > /dev/null 2>&1";
    int st = system(cmd.c_str());
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    if (exact ? code != 1 : code != 1 && code != 8) {
      // minimised too far for a fresh process: keep the run as it was found
      Replay r0; read_replay(g_base + "/bad." + std::to_string(sh->bad.load()), r0);
      trace.clear(); Eval e0 = evaluate(pr, r0.p, r0.polseed, &r0.list, &trace);
      r0.cls = e0.v.cls; r0.hash = e0.hash; r0.detail = e0.v.detail; r = r0;
      write_replay(path, r, trace);
      st = system(cmd.c_str()); code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
      if (code != 1 && code != 8) { std::cerr << "the replay file does not reproduce the violation in a fresh process: simulator error\n"; return 7; }
    }
    nviol = 1; rc = 1;
    vdetail = "[" + r.cls + "] " + r.detail + " | " + describe(r.p);
    vline = "VIOLATION property=" + pr.id + " replay=" + path;
  }
  double wall = now() - t0;
  mkdir((verif + "/evidence").c_str(), 0755);
  std::ofstream ev(verif + "/evidence/" + pr.id + ".json");
  ev.precision(10);
  double perh = wall > 0 ? 3600.0 / wall : 0;
  ev << "{\n \"property\": \"" << pr.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
  ev << "  \"evaluations\": " << s.runs << ",\n  \"distinct_nontrivial\": " << s.states.size() << ",\n  \"rule\": \"" << jesc(pr.rule) << "\",\n  \"samples\": [";
  for (size_t i = 0; i < s.samples.size(); ++i) ev << (i ? ", " : "") << "\"" << jesc(s.samples[i]) << "\"";
  ev << "],\n  \"simulated_jobs\": " << s.jobs << ",\n  \"seeds_per_hour\": " << (int64_t)(s.runs * perh) << ",\n  \"simulated_jobs_per_hour\": " << (int64_t)(s.jobs * perh) << ",\n  \"scheduler_steps\": " << s.steps << ",\n  \"simulated_seconds\": " << 1e-9 * s.sim_ns << ",\n  \"distinct_schedules\": " << s.scheds.size() << ",\n  \"distinct_schedules_measure\": \"64-bit hash of the sequence of (message delivered source,destination), (rank released, operation) and collective arrivals of a run\",\n  \"determinism_pairs_checked\": " << s.detpairs << ",\n  \"determinism_mismatches\": " << sh->err.load() << ",\n  \"workers_lost\": " << lost << ",\n  \"events_and_faults\": {";
  bool first = true;
  for (auto &c : s.cnt.c) { ev << (first ? "" : ", ") << "\"" << c.first << "\": " << c.second; first = false; }
  ev << "},\n  \"runs_by_rank_count\": {"; first = true;
  for (auto &c : s.bynp) { ev << (first ? "" : ", ") << "\"" << c.first << "\": " << c.second; first = false; }
  ev << "},\n  \"known_finding_hits\": " << s.knownhits << ",\n  \"components_real\": [";
  for (size_t i = 0; i < pr.real.size(); ++i) ev << (i ? ", " : "") << "\"" << jesc(pr.real[i]) << "\"";
  ev << "],\n  \"components_simulated\": [";
  for (size_t i = 0; i < pr.stub.size(); ++i) ev << (i ? ", " : "") << "\"" << jesc(pr.stub[i]) << "\"";
  ev << "]\n },\n \"assumptions\": [\"MPI ranks interact only through MPI and files, so releasing them one at a time at those points covers every interleaving of their effects\", \"PETSc, HDF5 and the datatype engine of Open MPI are trusted and run for real\", \"sampled seeds, not exhaustive\"],\n \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
  ev.close();
  for (auto &k : s.known) for (auto &g : g_known) if (g.prop == pr.id && g.key == k) std::cout << "KNOWN-FINDING: property=" << pr.id << " " << g.text << "\n";
  std::cout << pr.id << ": " << s.runs << " seeds, " << s.jobs << " simulated jobs, " << s.scheds.size() << " distinct schedules, " << s.steps << " steps, " << wall << " s\n";
  if (!vline.empty()) std::cout << vdetail << "\n" << vline << "\n";
  std::cout.flush();
  return rc;
}

int main(int argc, char **argv)
{
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    personality(ADDR_NO_RANDOMIZE);
    // A fixed environment keeps the initial stack, and so every address, the same.
    execv("/proc/self/exe", argv);
  }
  char buf[4096]; ssize_t n = readlink("/proc/self/exe", buf, sizeof buf - 1); buf[n > 0 ? n : 0] = 0; g_self = buf;
  std::string cmd = argc > 1 ? argv[1] : "";
  const char *vd = getenv("SIM_VERIF"); std::string verif = vd ? vd : "/verif";
  load_known(verif + "/known_findings.txt");
  char base[] = "/tmp/cafes-sim-XXXXXX";
  if (!mkdtemp(base)) { perror("mkdtemp"); return 3; }
  g_base = base;
  pid_t owner = getpid();
  struct Cleanup { pid_t o; ~Cleanup() { if (getpid() == o && g_base.size() > 14) { std::string c = "find '" + g_base + "' -delete"; if (system(c.c_str())) {} } } } cl{owner};
  setenv("OMPI_MCA_sharedfp", "individual", 1); // nothing here uses shared file pointers
  int prov; MPI_Init_thread(nullptr, nullptr, MPI_THREAD_FUNNELED, &prov);
  int rc = 3;
  if (cmd == "list") { for (auto &p : properties()) std::cout << p.id << " " << p.title << "\n"; rc = 0; }
  else if (cmd == "check") {
    std::string id = argv[2]; bool th = false; uint64_t seed = 1; double budget = -1; int64_t maxruns = INT64_MAX; int workers = (int)std::max(1l, std::min(16l, sysconf(_SC_NPROCESSORS_ONLN))); std::string od = verif + "/evidence";
    for (int i = 3; i + 1 < argc; i += 2) {
      std::string a = argv[i];
      if (a == "--tier") th = std::string(argv[i + 1]) == "thorough";
      if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
      if (a == "--budget") budget = atof(argv[i + 1]);
      if (a == "--runs") maxruns = atoll(argv[i + 1]);
      if (a == "--workers") workers = atoi(argv[i + 1]);
      if (a == "--outdir") od = argv[i + 1];
    }
    if (budget < 0) budget = th ? 600 : 60;
    for (auto &p : properties()) if (p.id == id) rc = run_check(p, th, seed, budget, maxruns, workers, verif, od);
  } else if (cmd == "replay") {
    Replay r;
    if (!read_replay(argv[2], r)) { std::cerr << "cannot read replay file\n"; return 3; }
    setup_process("min");
    cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(0, &cs); sched_setaffinity(0, sizeof cs, &cs);
    for (auto &p : properties()) if (p.id == r.prop) {
      std::string trace;
      Eval e = evaluate(p, r.p, r.polseed, &r.list, &trace);
      if (argc > 3) { std::ofstream(argv[3]) << trace; }
      std::cout << "[" << e.v.cls << "] " << e.v.detail << "\n";
      if (e.v.cls == r.cls) { std::cout << (e.hash == r.hash ? "identical execution" : "same violation, different execution (the code changed?)") << "\nVIOLATION property=" << r.prop << " replay=" << argv[2] << "\n"; rc = e.hash == r.hash ? 1 : 8; if (getenv("SIM_LOOSE")) rc = 1; }
      else { std::cout << "not reproduced\n"; rc = 0; }
    }
  } else if (cmd == "seed") { // seed ID seed index: one run, verbose
    setup_process("min");
    for (auto &p : properties()) if (p.id == argv[2]) {
      uint64_t seed = strtoull(argv[3], 0, 10); int64_t i = atoll(argv[4]);
      Rng rg(seed * 7919 + (uint64_t)i * 104729 + 17);
      Params prm = p.gen(rg, argc > 5 && std::string(argv[5]) == "thorough", i); uint64_t ps = rg.next();
      std::string trace; double t = now();
      Eval e = evaluate(p, prm, ps, nullptr, getenv("SIM_TRACE") ? &trace : nullptr);
      std::cout << describe(prm) << "\n[" << e.v.cls << "] " << e.v.detail << "\nhash " << e.hash << " steps " << e.steps << " jobs " << e.jobs << " wall " << now() - t << "\n";
      if (getenv("SIM_TRACE")) std::ofstream(getenv("SIM_TRACE")) << trace;
      rc = e.v.cls.empty() ? 0 : 1;
    }
  } else if (cmd == "det") { // det ID seed count: hashes, for determinism comparisons
    setup_process("min");
    for (auto &p : properties()) if (p.id == argv[2])
      for (int64_t i = 0; i < atoll(argv[4]); ++i) {
        Rng rg(strtoull(argv[3], 0, 10) * 7919 + (uint64_t)i * 104729 + 17);
        Params prm = p.gen(rg, false, i); uint64_t ps = rg.next();
        Eval e = evaluate(p, prm, ps, nullptr, nullptr);
        std::cout << i << " " << e.hash << " [" << e.v.cls << "]\n";
      }
    rc = 0;
  } else std::cerr << "usage: sim list | check ID [--tier T --seed S --budget s --runs n --workers w] | replay FILE [trace] | seed ID S I\n";
  std::cout.flush();
  wipe(g_base);
  rmdir(g_base.c_str());
  g_base.clear();
  _exit(rc);
}
