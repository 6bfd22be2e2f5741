#include "harness.h"
#include "rank.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <linux/futex.h>
#include <malloc.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace sim {

World::World(Shared *sh) : sh_(sh) {}

void World::fnvb(const unsigned char *d, size_t n)
{
  uint64_t h = res_.hash;
  size_t i = 0;
  for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, d + i, 8); h = (h ^ v) * 0x100000001B3ull; h ^= h >> 29; }
  for (; i < n; ++i) h = (h ^ d[i]) * 0x100000001B3ull;
  res_.hash = h;
}
uint32_t World::choose(uint32_t n, const std::function<uint32_t()> &pol)
{
  if (n <= 1) return 0;
  uint32_t v;
  if (ch_->replay) {
    v = ch_->pos < ch_->list.size() ? ch_->list[ch_->pos] % n : 0;
    ch_->pos++;
  } else {
    v = pol();
    ch_->list.push_back(v);
  }
  return v;
}
void World::log(const char *f, ...)
{
  if (!trace_ || trace_->size() > (4u << 20)) return;
  char b[512]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
  char h[64]; snprintf(h, sizeof h, "%7lld t=%.6f ", (long long)res_.steps, 1e-9 * sh_->clock_ns.load());
  *trace_ += h; *trace_ += b; *trace_ += "\n";
}
static const char *cname(int k)
{
  static const char *n[] = {"?", "barrier", "bcast", "reduce", "allreduce", "scan", "exscan", "reduce_scatter", "gather", "allgather", "scatter", "alltoall", "comm_split", "comm_dup", "comm_create", "file-collective"};
  return k > 0 && k < 16 ? n[k] : "?";
}
static std::string opname(const Req &q)
{
  char b[160];
  switch (q.op) {
  case OP_SEND: snprintf(b, sizeof b, "send(to %d, tag %d, %llu bytes)", q.a, q.b, (unsigned long long)q.nbytes); break;
  case OP_RECV: snprintf(b, sizeof b, "recv(from %d, tag %d)", q.a, q.b); break;
  case OP_WAIT: snprintf(b, sizeof b, "wait(mode %d, %d requests)", q.a, q.b); break;
  case OP_PROBE: snprintf(b, sizeof b, "probe(from %d, tag %d)", q.a, q.b); break;
  case OP_COLL: snprintf(b, sizeof b, "%s(comm %d, root %d, %llu bytes)", cname(q.a), q.ctx, q.b, (unsigned long long)q.nbytes); break;
  case OP_IO: snprintf(b, sizeof b, "io(kind %d, %llu bytes)", q.a, (unsigned long long)q.nbytes); break;
  case OP_EXIT: snprintf(b, sizeof b, "exit(%d)", q.a); break;
  default: snprintf(b, sizeof b, "op %d", q.op);
  }
  return b;
}
std::string World::dump()
{
  std::string s;
  for (int r = 0; r < n_; ++r) {
    char b[240];
    snprintf(b, sizeof b, "rank %d: %s%s (stage %d); ", r, rk_[r].exited ? "finished" : "blocked in ", rk_[r].exited ? "" : opname(rk_[r].rq).c_str(), rk_[r].stage);
    s += b;
  }
  return s;
}
void World::killall()
{
  for (auto &r : rk_) if (r.alive) kill(r.pid, SIGKILL);
  for (auto &r : rk_) if (r.alive) { int st; waitpid(r.pid, &st, 0); r.alive = false; }
}

// Hands the processor to rank r and waits until it parks again.
static double proc_cpu(int pid)
{
  char f[64], b[1024]; snprintf(f, sizeof f, "/proc/%d/stat", pid);
  int fd = open(f, O_RDONLY); if (fd < 0) return -1;
  ssize_t n = read(fd, b, sizeof b - 1); close(fd); if (n <= 0) return -1; b[n] = 0;
  char *p = strrchr(b, ')'); unsigned long u = 0, s = 0;
  if (!p || sscanf(p + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s) != 2) return -1;
  return (double)(u + s) / sysconf(_SC_CLK_TCK);
}
// Waits until rank r parks. A rank that dies or sleeps for good fails the job.
bool World::wait_parked(int r)
{
  Mailbox &m = sh_->mb[r];
  int idle = 0; double cpu = -1;
  for (;;) {
    if (m.turn.load(std::memory_order_acquire) == 0) return true;
    timespec ts{0, 100000000};
    int e = syscall(SYS_futex, (int32_t *)&m.turn, FUTEX_WAIT, 1, &ts, nullptr, 0);
    if (!(e == -1 && errno == ETIMEDOUT)) continue;
    int st = 0;
    pid_t w = waitpid(rk_[r].pid, &st, WNOHANG);
    char b[200];
    if (w == rk_[r].pid && m.turn.load(std::memory_order_acquire) != 0) {
      rk_[r].alive = false;
      if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGXCPU || (s == SIGKILL)) { snprintf(b, sizeof b, "rank %d computed without reaching its next event for more than the processor-time limit (stage %d)", r, rk_[r].stage); fail("hang", b); }
        else { snprintf(b, sizeof b, "rank %d died of signal %d (%s) in stage %d", r, s, strsignal(s), rk_[r].stage); fail("crash", b); }
      } else { snprintf(b, sizeof b, "rank %d left with status %d outside the protocol in stage %d", r, WEXITSTATUS(st), rk_[r].stage); fail("crash", b); }
      return false;
    }
    double c = proc_cpu(rk_[r].pid);
    if (c != cpu) { cpu = c; idle = 0; }
    else if (++idle > 300) { snprintf(b, sizeof b, "rank %d sleeps outside MPI in stage %d", r, rk_[r].stage); fail("hang", b); return false; }
  }
}
bool World::resume(int r, const Rep &rep)
{
  Mailbox &m = sh_->mb[r];
  m.rep = rep;
  m.turn.store(1, std::memory_order_release);
  syscall(SYS_futex, (int32_t *)&m.turn, FUTEX_WAKE, 1, nullptr, nullptr, 0);
  if (!wait_parked(r)) return false;
  return accept(r);
}

int64_t World::new_rq(int rank, int kind)
{
  int64_t id = nextid_++;
  RQ q; q.rank = rank; q.kind = kind;
  rq_[id] = q;
  return id;
}
bool World::req_done(int64_t id)
{
  RQ &q = rq_[id];
  if (q.done) return true;
  if (q.kind == 3) return coll_done(colls_[q.coll], idx_in(colls_[q.coll], q.rank));
  return false;
}
void World::match(RQ &q, Msg &m)
{
  q.done = true; q.msrc = m.src; q.mtag = m.tag; q.data.swap(m.data);
  if (m.rndv) { auto it = rq_.find(m.sreq); if (it != rq_.end()) { it->second.done = true; if (it->second.freed) rq_.erase(it); } }
}
void World::deliver(const std::tuple<int, int, int> &k)
{
  auto it = net_.find(k);
  Msg m = std::move(it->second.front());
  it->second.pop_front();
  if (it->second.empty()) net_.erase(it);
  fnvs(0xD0000 + m.src * 64 + m.dst); fnv(m.tag); fnv(m.ctx); fnvb(m.data.data(), m.data.size());
  cnt_->add("messages_delivered");
  int dst = m.dst;
  log("deliver %d->%d comm %d tag %d (%zu bytes)%s", m.src, m.dst, m.ctx, m.tag, m.data.size(), m.rndv ? " rendezvous" : "");
  for (auto p = posted_[dst].begin(); p != posted_[dst].end(); ++p) {
    RQ &q = rq_[*p];
    if (q.ctx == m.ctx && (q.src == -1 || q.src == m.src) && (q.tag == -1 || q.tag == m.tag)) {
      posted_[dst].erase(p);
      match(q, m);
      return;
    }
  }
  cnt_->add("unexpected_messages");
  unexp_[dst].push_back(std::move(m));
}

World::Coll &World::coll_arrive(int r, const Req &q, const std::vector<unsigned char> &d, int64_t &id)
{
  int64_t seq = rk_[r].collseq[q.ctx]++;
  auto key = std::make_pair((int)q.ctx, seq);
  auto it = collidx_.find(key);
  if (it == collidx_.end()) {
    id = nextcoll_++;
    collidx_[key] = id;
    Coll c; c.ctx = q.ctx; c.kind = q.a; c.root = q.b; c.extra = q.c; c.seq = seq;
    c.w = comms_[q.ctx];
    c.arr.assign(c.w.size(), 0); c.left.assign(c.w.size(), 0); c.in.resize(c.w.size());
    c.nb0 = q.nbytes;
    bool rooted = c.kind == C_BCAST || c.kind == C_REDUCE || c.kind == C_GATHER || c.kind == C_SCATTER || c.kind == C_SCAN || c.kind == C_EXSCAN;
    if (rooted) { c.sync = coin((*p_)("collsync") ? 0.5 : 0.0); if (c.sync) cnt_->add("collective_synchronising"); }
    for (size_t i = 0; i < c.w.size(); ++i) c.perm.push_back((int)i);
    if ((*p_)("redperm") && c.extra && (c.kind == C_REDUCE || c.kind == C_ALLREDUCE)) {
      if (coin(0.5)) {
        cnt_->add("reductions_reordered");
        for (size_t i = c.perm.size(); i > 1; --i) std::swap(c.perm[i - 1], c.perm[i - 1 - choose((uint32_t)i, [&] { return rng_.below((uint32_t)i); })]);
      }
    }
    colls_[id] = std::move(c);
  } else
    id = it->second;
  Coll &c = colls_[id];
  int me = idx_in(c, r);
  bool bad = me < 0 || c.kind != q.a || c.root != q.b;
  if (!bad && (c.kind == C_ALLREDUCE || c.kind == C_REDUCE || c.kind == C_SCAN || c.kind == C_EXSCAN) && c.nb0 != q.nbytes) bad = true;
  if (bad) {
    char b[300];
    snprintf(b, sizeof b, "collective number %lld of communicator %d is %s(root %d, %llu bytes) on one rank and %s(root %d, %llu bytes) on rank %d; ", (long long)seq, q.ctx, cname(c.kind), c.root, (unsigned long long)c.nb0, cname(q.a), q.b, (unsigned long long)q.nbytes, r);
    fail("collective-mismatch", b + dump());
    return c;
  }
  if (!c.arr[me]) { c.arr[me] = 1; c.narr++; }
  c.in[me] = d;
  fnvs(0xC0000 + r * 32 + c.kind); fnvb(d.data(), d.size());
  return c;
}
bool World::coll_done(const Coll &c, int me)
{
  bool all = c.narr == (int)c.w.size();
  if (c.sync || all) return all;
  bool amroot = c.root >= 0 && c.w[me] == c.root;
  switch (c.kind) {
  case C_BCAST: case C_SCATTER:
    if (amroot) return true;
    for (size_t i = 0; i < c.w.size(); ++i) if (c.w[i] == c.root) return c.arr[i];
    return false;
  case C_REDUCE: case C_GATHER: return !amroot;
  case C_SCAN: case C_EXSCAN:
    for (int i = 0; i <= me; ++i) if (!c.arr[i]) return false;
    return true;
  default: return false;
  }
}
static void p64(std::vector<unsigned char> &o, uint64_t v) { size_t a = o.size(); o.resize(a + 8); memcpy(o.data() + a, &v, 8); }
static uint64_t g64(const std::vector<unsigned char> &d, size_t at) { uint64_t v = 0; if (at + 8 <= d.size()) memcpy(&v, d.data() + at, 8); return v; }
static void pb(std::vector<unsigned char> &o, const std::vector<unsigned char> &d)
{
  p64(o, d.size()); o.insert(o.end(), d.begin(), d.end()); while (o.size() & 7) o.push_back(0);
}
void World::coll_reply(Coll &c, int me, std::vector<unsigned char> &o)
{
  int n = (int)c.w.size(), ri = -1;
  for (int i = 0; i < n; ++i) if (c.w[i] == c.root) ri = i;
  switch (c.kind) {
  case C_BARRIER: case C_FILE: break;
  case C_BCAST: {
    if (me == ri) break;
    uint64_t want = g64(c.in[me], 0);
    if (want != c.in[ri].size() - 8) { fail("collective-mismatch", "broadcast of " + std::to_string(c.in[ri].size() - 8) + " bytes received as " + std::to_string(want)); break; }
    o.assign(c.in[ri].begin() + 8, c.in[ri].end());
    break;
  }
  case C_REDUCE: case C_ALLREDUCE:
    if (c.kind == C_REDUCE && me != ri) { p64(o, 0); p64(o, 0); break; }
    p64(o, n); p64(o, c.nb0);
    for (int i : c.perm) o.insert(o.end(), c.in[i].begin(), c.in[i].end());
    break;
  case C_SCAN: case C_EXSCAN: {
    int m = c.kind == C_SCAN ? me + 1 : me;
    p64(o, m); p64(o, c.nb0);
    for (int i = 0; i < m; ++i) o.insert(o.end(), c.in[i].begin(), c.in[i].end());
    break;
  }
  case C_GATHER: if (me != ri) break; // fallthrough
  case C_ALLGATHER: for (int i = 0; i < n; ++i) pb(o, c.in[i]); break;
  case C_SCATTER: {
    size_t at = 0;
    for (int i = 0; i < me; ++i) at += 8 + ((g64(c.in[ri], at) + 7) & ~uint64_t(7));
    uint64_t l = g64(c.in[ri], at);
    o.assign(c.in[ri].begin() + at + 8, c.in[ri].begin() + at + 8 + l);
    break;
  }
  case C_ALLTOALL:
    for (int s = 0; s < n; ++s) {
      size_t at = 0;
      for (int i = 0; i < me; ++i) at += 8 + ((g64(c.in[s], at) + 7) & ~uint64_t(7));
      uint64_t l = g64(c.in[s], at);
      pb(o, std::vector<unsigned char>(c.in[s].begin() + at + 8, c.in[s].begin() + at + 8 + l));
    }
    break;
  case C_DUP: case C_SPLIT: case C_CREATE:
    if (!c.computed) {
      c.computed = true;
      c.newctx.assign(n, -1); c.neww.assign(n, {});
      if (c.kind == C_DUP) {
        int x = nextctx_++; comms_[x] = c.w;
        for (int i = 0; i < n; ++i) { c.newctx[i] = x; c.neww[i] = c.w; }
      } else if (c.kind == C_CREATE) {
        std::vector<int> g; for (uint64_t i = 0; i < g64(c.in[0], 0); ++i) g.push_back((int)g64(c.in[0], 8 + 8 * i));
        int x = nextctx_++; comms_[x] = g;
        for (int i = 0; i < n; ++i) if (std::find(g.begin(), g.end(), c.w[i]) != g.end()) { c.newctx[i] = x; c.neww[i] = g; }
      } else {
        std::map<int64_t, std::vector<std::pair<int64_t, int>>> by;
        for (int i = 0; i < n; ++i) { int64_t col = (int64_t)g64(c.in[i], 0); if (col >= 0) by[col].push_back({(int64_t)g64(c.in[i], 8), i}); }
        for (auto &kv : by) {
          std::stable_sort(kv.second.begin(), kv.second.end());
          std::vector<int> g; for (auto &x : kv.second) g.push_back(c.w[x.second]);
          int x = nextctx_++; comms_[x] = g;
          for (auto &y : kv.second) { c.newctx[y.second] = x; c.neww[y.second] = g; }
        }
      }
    }
    p64(o, (uint64_t)(int64_t)c.newctx[me]);
    p64(o, c.neww[me].size());
    for (int w : c.neww[me]) p64(o, (uint64_t)w);
    break;
  }
}

// Collects the request rank r parked with. Purely local requests (posting a
// send or a receive, entering a stage) are answered at once: no other rank can
// tell when they happened. Everything else waits for a scheduling decision.
bool World::accept(int r)
{
  for (;;) {
    Mailbox &m = sh_->mb[r];
    RankSt &k = rk_[r];
    k.rq = m.req;
    k.payload.assign(m.data, m.data + (m.req.nbytes <= MB_DATA && (m.req.op == OP_SEND || m.req.op == OP_COLL || m.req.op == OP_WAIT || m.req.op == OP_IO) ? m.req.nbytes : 0));
    k.blockreq = 0;
    Rep rep{};
    const Req &q = k.rq;
    bool local = false;
    switch (q.op) {
    case OP_STAGE: k.stage = q.a; log("rank %d enters stage %d", r, q.a); local = true; break;
    case OP_FREE: {
      auto it = rq_.find(q.id);
      if (it != rq_.end()) { if (it->second.done) rq_.erase(it); else it->second.freed = true; }
      local = true; break;
    }
    case OP_SEND: {
      int64_t id = new_rq(r, 1);
      Msg x{r, q.a, q.ctx, q.b, k.payload, id, false, res_.steps};
      x.rndv = (q.flags & F_SYNC) || coin((*p_)("rndv") / 100.0);
      if (!(q.flags & F_SYNC)) cnt_->add(x.rndv ? "sends_rendezvous" : "sends_eager");
      rq_[id].done = !x.rndv;
      fnv(0x50000 + r * 16 + q.a); fnv(q.b); fnv(q.ctx);
      log("rank %d sends to %d comm %d tag %d (%llu bytes)%s", r, q.a, q.ctx, q.b, (unsigned long long)q.nbytes, x.rndv ? " rendezvous" : "");
      net_[std::make_tuple((int)q.a, r, (int)q.ctx)].push_back(std::move(x));
      if (q.flags & F_BLOCK) { if (rq_[id].done) { rq_.erase(id); local = true; } else k.blockreq = id; }
      else { rep.a = (int32_t)(id & 0xffffffff); rep.b = (int32_t)(id >> 32); local = true; }
      break;
    }
    case OP_RECV: {
      int64_t id = new_rq(r, 2);
      RQ &x = rq_[id]; x.ctx = q.ctx; x.src = q.a; x.tag = q.b;
      bool found = false;
      for (auto u = unexp_[r].begin(); u != unexp_[r].end(); ++u)
        if (u->ctx == x.ctx && (x.src == -1 || u->src == x.src) && (x.tag == -1 || u->tag == x.tag)) {
          Msg mm = std::move(*u); unexp_[r].erase(u); match(x, mm); found = true; break;
        }
      if (!found) posted_[r].push_back(id);
      rep.a = (int32_t)(id & 0xffffffff); rep.b = (int32_t)(id >> 32); local = true;
      break;
    }
    case OP_COLL: {
      int64_t ci = 0;
      coll_arrive(r, q, k.payload, ci);
      if (!res_.cls.empty()) return false;
      int64_t id = new_rq(r, 3);
      rq_[id].coll = ci; rq_[id].ctx = q.ctx;
      log("rank %d enters %s comm %d (root %d, %llu bytes)", r, cname(q.a), q.ctx, q.b, (unsigned long long)q.nbytes);
      if (q.flags & F_BLOCK) k.blockreq = id;
      else { rep.a = (int32_t)(id & 0xffffffff); rep.b = (int32_t)(id >> 32); local = true; }
      break;
    }
    default: break;
    }
    if (!local) { k.pending = true; return true; }
    if (++res_.steps > (*p_)("stepcap", 4000000)) { fail("no-progress", "step bound exceeded; " + dump()); return false; }
    m.rep = rep;
    m.turn.store(1, std::memory_order_release);
    syscall(SYS_futex, (int32_t *)&m.turn, FUTEX_WAKE, 1, nullptr, nullptr, 0);
    if (!wait_parked(r)) return false;
  }
}

bool World::ready(int r)
{
  RankSt &k = rk_[r];
  if (!k.pending || k.exited) return false;
  const Req &q = k.rq;
  switch (q.op) {
  case OP_HELLO: case OP_EXIT: case OP_ABORT: case OP_YIELD: case OP_IO: case OP_ALLOC: return true;
  case OP_SEND: return rq_[k.blockreq].done;
  case OP_COLL: return req_done(k.blockreq);
  case OP_PROBE:
    if (!(q.flags & F_BLOCK)) return true;
    for (auto &u : unexp_[r]) if (u.ctx == q.ctx && (q.a == -1 || u.src == q.a) && (q.b == -1 || u.tag == q.b)) return true;
    return false;
  case OP_WAIT: {
    if (q.a >= W_TESTALL) return true;
    const int64_t *ids = (const int64_t *)k.payload.data();
    for (int i = 0; i < q.b; ++i) {
      bool d = req_done(ids[i]);
      if (q.a == W_ALL && !d) return false;
      if (q.a != W_ALL && d) return true;
    }
    return q.a == W_ALL;
  }
  }
  return false;
}

struct WItem { int32_t index, src, tag, pad; uint64_t n; };

void World::service(int r)
{
  RankSt &k = rk_[r];
  Req q = k.rq;
  Mailbox &m = sh_->mb[r];
  Rep rep{};
  fnvs(0xA0000 + r * 64 + q.op);
  switch (q.op) {
  case OP_HELLO: case OP_YIELD: break;
  case OP_EXIT:
    k.exited = true; k.pending = false; res_.status[r] = q.a; fnv(q.a);
    log("rank %d finishes with status %d", r, q.a);
    return;
  case OP_ABORT: {
    char b[700];
    snprintf(b, sizeof b, "rank %d aborted with code %d in stage %d: %s", r, q.a, k.stage, m.errmsg);
    fail(q.a == 99 ? "mpi-misuse" : "abort", b);
    return;
  }
  case OP_SEND: rq_.erase(k.blockreq); break;
  case OP_COLL: {
    RQ &x = rq_[k.blockreq];
    Coll &c = colls_[x.coll];
    int me = idx_in(c, r);
    std::vector<unsigned char> o;
    coll_reply(c, me, o);
    c.left[me] = 1;
    bool gone = c.narr == (int)c.w.size();
    for (char l : c.left) if (!l) gone = false;
    log("rank %d leaves %s comm %d", r, cname(c.kind), c.ctx);
    if (o.size() > MB_DATA) { fail("mpi-misuse", "collective result larger than the simulator mailbox"); return; }
    if (o.size()) memcpy(m.data, o.data(), o.size());
    rep.nbytes = o.size();
    if (gone) { collidx_.erase({c.ctx, c.seq}); colls_.erase(x.coll); }
    rq_.erase(k.blockreq);
    break;
  }
  case OP_PROBE: {
    bool spurious = !(q.flags & F_BLOCK) && (*p_)("spurious") && k.consec_false < 6 && coin((*p_)("spurious") / 100.0);
    for (auto &u : unexp_[r])
      if (u.ctx == q.ctx && (q.a == -1 || u.src == q.a) && (q.b == -1 || u.tag == q.b)) {
        if (spurious) { cnt_->add("polls_spuriously_negative"); break; }
        rep.a = 1; rep.b = u.src; rep.c = u.tag; rep.nbytes = u.data.size();
        break;
      }
    if (rep.a) { k.polls = 0; k.consec_false = 0; } else { k.polls++; k.consec_false++; }
    break;
  }
  case OP_WAIT: {
    std::vector<int64_t> ids(q.b);
    memcpy(ids.data(), k.payload.data(), 8 * (size_t)q.b);
    std::vector<int> d;
    for (int i = 0; i < q.b; ++i) if (req_done(ids[i])) d.push_back(i);
    bool all = (int)d.size() == q.b;
    bool test = q.a >= W_TESTALL;
    bool give = test ? (q.a == W_TESTALL ? all : !d.empty()) : true;
    if (test && give && (*p_)("spurious") && k.consec_false < 6 && coin((*p_)("spurious") / 100.0)) { give = false; cnt_->add("polls_spuriously_negative"); }
    if (!give) { k.polls++; k.consec_false++; rep.b = 0; break; }
    k.polls = 0; k.consec_false = 0;
    if (q.a == W_ANY || q.a == W_TESTANY) { int i = (int)choose((uint32_t)d.size(), [&] { return rng_.below((uint32_t)d.size()); }); d = {d[i]}; }
    else if (q.a == W_SOME || q.a == W_TESTSOME) {
      if (d.size() > 1 && coin(0.3)) { int i = (int)choose((uint32_t)d.size(), [&] { return rng_.below((uint32_t)d.size()); }); d = {d[i]}; }
    }
    rep.b = 1; rep.a = (int)d.size();
    size_t at = 0;
    for (int i : d) {
      RQ &x = rq_[ids[i]];
      std::vector<unsigned char> o;
      WItem it{i, -1, -1, 0, 0};
      if (x.kind == 2) { it.src = x.msrc; it.tag = x.mtag; o.swap(x.data); }
      else if (x.kind == 3) {
        Coll &c = colls_[x.coll]; int me = idx_in(c, r);
        coll_reply(c, me, o); c.left[me] = 1;
        bool gone = c.narr == (int)c.w.size(); for (char l : c.left) if (!l) gone = false;
        if (gone) { collidx_.erase({c.ctx, c.seq}); colls_.erase(x.coll); }
      }
      it.n = o.size();
      if (at + sizeof it + o.size() + 8 > MB_DATA) { fail("mpi-misuse", "completion larger than the simulator mailbox"); return; }
      memcpy(m.data + at, &it, sizeof it); at += sizeof it;
      if (o.size()) memcpy(m.data + at, o.data(), o.size());
      at += (o.size() + 7) & ~size_t(7);
      fnv(i);
      rq_.erase(ids[i]);
    }
    rep.nbytes = at;
    break;
  }
  case OP_IO: {
    // q.a kind, q.b size, q.c path class
    res_.io_ops++;
    char ev[96]; snprintf(ev, sizeof ev, "io_%s", q.a == IO_OPEN ? "open" : q.a == IO_WRITE ? "write" : q.a == IO_TRUNC ? "truncate" : q.a == IO_SYNC ? "sync" : q.a == IO_CLOSE ? "close" : q.a == IO_UNLINK ? "unlink" : "read");
    cnt_->add(ev);
    int64_t armed_stage = (*p_)("io_stage", -1);
    bool armed = armed_stage < 0 || k.stage == armed_stage;
    // one fault plan per run: at the io_at-th armed operation do io_act
    int64_t at = (*p_)("io_at"), act = (*p_)("io_act");
    rep.a = 0;
    if (armed) {
      res_.io_ops_armed++;
      bool hit = act && (res_.io_ops_armed == at || (res_.io_ops_armed > at && (*p_)("io_sticky") && act != 5));
      if (hit) {
        // 1 EIO, 2 ENOSPC, 3 short write, 4 EACCES/EROFS on open, 5 crash before, 6 crash after a torn write
        int64_t eff = act;
        if (act == 3 && (q.a != IO_WRITE || q.b < 2)) eff = 0;
        if (act == 2 && q.a != IO_WRITE && q.a != IO_TRUNC && q.a != IO_OPEN) eff = 0;
        if (act == 4 && q.a != IO_OPEN) eff = 0;
        if (act == 1 && q.a == IO_READ) eff = 0;
        if (eff == 5 || eff == 6) {
          if (eff == 6 && q.a == IO_WRITE && !res_.crashed) { rep.a = 3; rep.b = (int)choose((uint32_t)std::max<int64_t>(1, q.b), [&] { return rng_.below((uint32_t)std::max<int64_t>(1, q.b)); }); }
          else rep.a = 0;
          res_.crashed = true;
          cnt_->add(eff == 5 ? "fault_crash" : "fault_crash_torn_write");
          log("rank %d: crash at disk operation %lld", r, (long long)res_.io_ops);
          if (eff == 6 && rep.a == 3) { // let the torn write reach the disk, then stop everything
            k.pending = false; last_ = r;
            resume(r, rep);
          }
          return;
        }
        if (eff) {
          res_.io_fault_fired = true;
          if (std::find(res_.stage_at_fault.begin(), res_.stage_at_fault.end(), k.stage) == res_.stage_at_fault.end()) res_.stage_at_fault.push_back(k.stage);
          if (eff == 1) { rep.a = 1; rep.b = EIO; cnt_->add("fault_eio"); }
          if (eff == 2) { rep.a = 1; rep.b = ENOSPC; cnt_->add("fault_enospc"); }
          if (eff == 3) { rep.a = 3; rep.b = 1 + (int)choose((uint32_t)(q.b - 1), [&] { return rng_.below((uint32_t)(q.b - 1)); }); cnt_->add("fault_short_write"); }
          if (eff == 4) { rep.a = 1; rep.b = EACCES; cnt_->add("fault_eacces"); }
        }
      }
    }
    fnv(q.a); fnv(q.b); fnv(rep.a); fnv(rep.b);
    log("rank %d disk operation %lld: %s (%d bytes)%s", r, (long long)res_.io_ops, ev, q.b, rep.a ? " FAULT" : "");
    break;
  }
  default: break;
  }
  k.pending = false;
  last_ = r;
  resume(r, rep);
}

Result World::run(const Params &p, Choices &ch, uint64_t policy_seed, const std::function<int(int)> &body, Counters &cnt, std::string *trace)
{
  n_ = job_size(p);
  p_ = &p; ch_ = &ch; cnt_ = &cnt; trace_ = trace;
  rng_ = Rng(policy_seed);
  rk_.assign(n_, RankSt());
  net_.clear(); unexp_.assign(n_, {}); rq_.clear(); posted_.assign(n_, {}); nextid_ = 1;
  comms_.clear(); nextctx_ = 1; collidx_.clear(); colls_.clear(); nextcoll_ = 1;
  res_ = Result(); res_.hash = res_.sched_hash = 0xcbf29ce484222325ull; res_.status.assign(n_, -1);
  last_ = -1; victim_until_ = 0;
  std::vector<int> w; for (int i = 0; i < n_; ++i) w.push_back(i);
  comms_[0] = w;
  for (int i = 0; i < n_; ++i) comms_[1000000 + i] = {i};
  sh_->nranks = n_;
  sh_->clock_ns.store(1000000000ll * 3600);
  policy_ = (int)p("policy");
  prio_.assign(n_ + 2, 0); for (auto &x : prio_) x = rng_.unit();
  victim_ = (int)rng_.below(n_); slow_src_ = (int)rng_.below(n_); slow_dst_ = (int)rng_.below(n_);
  sticky_ = 0.5 + 0.49 * rng_.unit();
  changes_.clear(); for (int i = 0; i < 6; ++i) changes_.insert(rng_.range(1, 4000));
  for (int r = 0; r < n_; ++r) {
    Mailbox &m = sh_->mb[r];
    m.turn.store(0); m.nout = 0; m.errmsg[0] = 0; m.san[0] = 0; m.nerr = 0; m.alloc_count = 0; m.alloc_fired = 0; m.req = Req{};
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      rlimit rl; rl.rlim_cur = (rlim_t)p("cpulimit", 20); rl.rlim_max = rl.rlim_cur + 1; setrlimit(RLIMIT_CPU, &rl);
      rlimit core{0, 0}; setrlimit(RLIMIT_CORE, &core);
      if (!getenv("SIM_KEEP_STDERR")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); close(fd); }
      rank_attach(sh_, r);
      if (p("perturb")) mallopt(M_PERTURB, (int)p("perturb"));
      rank_comm_init();
      int st = body(r);
      Req q{}; q.op = OP_EXIT; q.a = st;
      rpc(q);
      _exit(0);
    }
    rk_[r].pid = pid; rk_[r].alive = true;
    // parked at its first instruction
    rk_[r].pending = true; rk_[r].rq = Req{}; rk_[r].rq.op = OP_HELLO;
  }
  const int64_t cap = p("stepcap", 1500000);
  while (res_.cls.empty() && !res_.crashed) {
    if (++res_.steps > cap) { fail("no-progress", "step bound exceeded; " + dump()); break; }
    struct Act { int type; int r; std::tuple<int, int, int> k; };
    std::vector<Act> acts;
    for (auto &kv : net_) acts.push_back({0, std::get<0>(kv.first), kv.first});
    int ndel = (int)acts.size();
    std::vector<int> rd;
    for (int i = 0; i < n_; ++i) if (ready(i)) rd.push_back(i);
    // canonical order: last rank first, fruitless pollers last
    std::stable_sort(rd.begin(), rd.end(), [&](int a, int b) {
      int pa = rk_[a].polls > 0, pb_ = rk_[b].polls > 0;
      if (pa != pb_) return pa < pb_;
      if (pa) return rk_[a].polls < rk_[b].polls;
      return (a == last_) > (b == last_);
    });
    for (int r : rd) acts.push_back({1, r, {}});
    if (acts.empty()) {
      bool allex = true; for (auto &k : rk_) if (!k.exited) allex = false;
      if (allex) break;
      fail("deadlock", "no rank can continue and nothing is in flight: " + dump());
      break;
    }
    uint32_t pick = choose((uint32_t)acts.size(), [&]() -> uint32_t {
      uint32_t n = (uint32_t)acts.size();
      // ranks that poll in vain never block the others for long
      auto starving = [&](const Act &a) { return a.type == 1 && rk_[a.r].polls > 3 && rng_.chance(0.9); };
      // weak fairness: whatever stays enabled is eventually chosen
      if (policy_ != P_CANON && res_.steps % 61 == 0) return rng_.below(n);
      switch (policy_) {
      case P_CANON: return 0;
      case P_UNIFORM: { uint32_t i = rng_.below(n); if (starving(acts[i])) i = rng_.below(n); return i; }
      case P_STICKY: {
        if (rng_.chance(sticky_)) for (uint32_t i = 0; i < n; ++i) if (acts[i].type == 1 && acts[i].r == last_ && !starving(acts[i])) return i;
        return rng_.below(n);
      }
      case P_PRIO: {
        if (changes_.count(res_.steps)) prio_[rng_.below(n_ + 1)] = rng_.unit() - 1.0;
        double best = -1e9; uint32_t bi = 0;
        for (uint32_t i = 0; i < n; ++i) {
          double v = acts[i].type == 0 ? prio_[n_] : prio_[acts[i].r] - (rk_[acts[i].r].polls > 3 ? 5.0 + rk_[acts[i].r].polls : 0.0);
          if (v > best) { best = v; bi = i; }
        }
        return bi;
      }
      case P_STARVE_RANK: {   // one rank only moves when nobody else can, for stretches of time
        if (res_.steps > victim_until_ + 400) { victim_ = (int)rng_.below(n_); victim_until_ = res_.steps + rng_.range(20, 800); }
        bool stall = res_.steps < victim_until_;
        std::vector<uint32_t> ok;
        for (uint32_t i = 0; i < n; ++i) if (!stall || !(acts[i].r == victim_)) if (!starving(acts[i])) ok.push_back(i);
        if (ok.size() < n && !ok.empty()) cnt_->add("rank_stalled_steps");
        return ok.empty() ? rng_.below(n) : ok[rng_.below((uint32_t)ok.size())];
      }
      case P_DELAY_NET: {     // messages wait until every rank is blocked; one link slower still
        std::vector<uint32_t> ok;
        for (uint32_t i = ndel; i < n; ++i) if (!starving(acts[i])) ok.push_back(i);
        if (!ok.empty() && rng_.chance(0.97)) { if (ndel) cnt_->add("message_delayed_steps"); return ok[rng_.below((uint32_t)ok.size())]; }
        ok.clear();
        for (int i = 0; i < ndel; ++i) if (!(std::get<1>(acts[i].k) == slow_src_ && std::get<0>(acts[i].k) == slow_dst_)) ok.push_back(i);
        if (!ok.empty()) return ok[rng_.below((uint32_t)ok.size())];
        return rng_.below(n);
      }
      case P_LIFO: {          // newest message first, highest rank first
        if (ndel && rng_.chance(0.6)) {
          uint32_t bi = 0; int64_t b = -1;
          for (int i = 0; i < ndel; ++i) { int64_t a = net_[acts[i].k].front().at; if (a > b) { b = a; bi = i; } }
          return bi;
        }
        uint32_t bi = n - 1;
        if (starving(acts[bi])) bi = rng_.below(n);
        return bi;
      }
      }
      return 0;
    });
    Act a = acts[pick];
    sh_->clock_ns.fetch_add(a.type == 0 ? 5000 + 137 * (res_.steps % 91) : 1000 + 11 * (res_.steps % 17));
    if (a.type == 0) deliver(a.k);
    else service(a.r);
  }
  res_.sim_ns = sh_->clock_ns.load() - 1000000000ll * 3600;
  if (res_.cls.empty() && !res_.crashed) {
    // end-of-job hygiene
    size_t um = 0; std::string ex; char b[160];
    for (auto &u : unexp_) for (auto &m : u) { um++; if (ex.empty()) { snprintf(b, sizeof b, "message %d->%d tag %d comm %d was never received", m.src, m.dst, m.tag, m.ctx); ex = b; } }
    size_t pr = 0;
    for (auto &x : rq_) if (!x.second.done || x.second.kind == 2) { if (x.second.freed) continue; pr++; if (ex.empty()) { snprintf(b, sizeof b, "request of kind %d posted by rank %d was never completed", x.second.kind, x.second.rank); ex = b; } }
    if (um || pr) fail("leftover", ex + " (" + std::to_string(um) + " messages, " + std::to_string(pr) + " requests left at the end)");
  }
  for (int r = 0; r < n_; ++r) {
    fnv(sh_->mb[r].nout);
    uint64_t k = std::min<uint64_t>(sh_->mb[r].nout, OUT_MAX);
    fnvb((const unsigned char *)sh_->mb[r].out, k * sizeof(Rec));
  }
  killall();
  return res_;
}
} // namespace sim
