// Interposed MPI. These definitions live in the executable, so the dynamic
// linker binds PETSc, HDF5 and cafes to them; anything purely local (datatype
// construction, attributes, ops, info) is left to the real library, which runs
// in every rank image as a singleton world.
#include "rank.h"
#include <mpi.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <linux/futex.h>
#include <string>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace sim {
Shared *g_sh = nullptr;
int g_rank = -1;
Mailbox *g_mb = nullptr;
char g_scratch[256] = "";
bool g_io_on = false, g_mute = false;
static int64_t g_live_req = 0;
int64_t g_coll_calls = 0, g_p2p_calls = 0;

static void futex_wait(std::atomic<int32_t> *p, int v)
{
  syscall(SYS_futex, (int32_t *)p, FUTEX_WAIT, v, nullptr, nullptr, 0);
}
static void futex_wake(std::atomic<int32_t> *p)
{
  syscall(SYS_futex, (int32_t *)p, FUTEX_WAKE, 1, nullptr, nullptr, 0);
}
Rep rpc(const Req &q)
{
  g_mb->req = q;
  g_mb->turn.store(0, std::memory_order_release);
  futex_wake(&g_mb->turn);
  while (g_mb->turn.load(std::memory_order_acquire) != 1) futex_wait(&g_mb->turn, 0);
  return g_mb->rep;
}
[[noreturn]] static void fatal(const char *what)
{
  snprintf(g_mb->errmsg, sizeof g_mb->errmsg, "simulator: unsupported or invalid MPI use: %s", what);
  Req q{}; q.op = OP_ABORT; q.a = 99;
  rpc(q);
  _exit(99);
}
void rank_attach(Shared *sh, int rank)
{
  g_sh = sh; g_rank = rank; g_mb = &sh->mb[rank];
  while (g_mb->turn.load(std::memory_order_acquire) != 1) futex_wait(&g_mb->turn, 0);
}
void stage(int s) { Req q{}; q.op = OP_STAGE; q.a = s; rpc(q); }
void out(int tag, int64_t idx, double v)
{
  if (g_mute) return;
  if (g_mb->nout < OUT_MAX) { g_mb->out[g_mb->nout] = Rec{tag, 0, idx, v}; }
  g_mb->nout++;
}

// ---------------------------------------------------------------- communicators
struct VComm { int ctx, rank; std::vector<int> w; };
static std::unordered_map<MPI_Comm, VComm> *g_comms;
struct VGroup { uint32_t magic; std::vector<int> w; };
static const uint32_t GMAGIC = 0x51477247;

void rank_comm_init()
{
  g_comms = new std::unordered_map<MPI_Comm, VComm>();
  VComm w; w.ctx = 0; w.rank = g_rank;
  for (int i = 0; i < g_sh->nranks; ++i) w.w.push_back(i);
  (*g_comms)[MPI_COMM_WORLD] = w;
  VComm s; s.ctx = 1000000 + g_rank; s.rank = 0; s.w.push_back(g_rank);
  (*g_comms)[MPI_COMM_SELF] = s;
}
static VComm &vc(MPI_Comm c)
{
  auto it = g_comms->find(c);
  if (it == g_comms->end()) fatal("call on an unknown communicator");
  return it->second;
}
int64_t live_comms() { return (int64_t)g_comms->size(); }
int64_t live_requests() { return g_live_req; }
static bool pass() { return g_rank < 0; }

// ---------------------------------------------------------------- packing
static void pack(const void *buf, int count, MPI_Datatype t, std::vector<unsigned char> &o)
{
  if (count <= 0) return;
  int sz = 0; PMPI_Type_size(t, &sz);
  MPI_Aint lb, ext; PMPI_Type_get_extent(t, &lb, &ext);
  size_t n = size_t(sz) * count, at = o.size();
  o.resize(at + n);
  if (ext == sz && lb == 0 ) {
    int ni, na, nd, comb; PMPI_Type_get_envelope(t, &ni, &na, &nd, &comb);
    if (comb == MPI_COMBINER_NAMED || comb == MPI_COMBINER_CONTIGUOUS || comb == MPI_COMBINER_DUP) {
      memcpy(o.data() + at, buf, n); return;
    }
  }
  int pos = 0; PMPI_Pack(buf, count, t, o.data() + at, (int)n, &pos, MPI_COMM_SELF);
  o.resize(at + pos);
}
static size_t tsize(MPI_Datatype t) { int s = 0; PMPI_Type_size(t, &s); return s; }
static MPI_Aint text(MPI_Datatype t) { MPI_Aint l, e; PMPI_Type_get_extent(t, &l, &e); return e; }
static void unpack(const unsigned char *d, size_t n, void *buf, int count, MPI_Datatype t)
{
  size_t s = tsize(t);
  if (!n || !s) return;
  size_t c = n / s;
  if (c > (size_t)count) fatal("message truncated: it is longer than the receive buffer");
  int pos = 0;
  PMPI_Unpack(d, (int)n, &pos, buf, (int)c, t, MPI_COMM_SELF);
}

// ---------------------------------------------------------------- requests
struct Counted { Counted() { ++g_live_req; } ~Counted() { --g_live_req; } Counted(const Counted &) = delete; };
struct SimReq {
  uint32_t magic;
  int64_t id;            // controller id, 0 = inactive
  bool persistent, collective;
  MPI_Comm comm;
  std::function<void(const unsigned char *, size_t)> fin;
  std::function<int64_t()> start;
  Counted counted;
};
static const uint32_t RMAGIC = 0x51527251;
static SimReq *sr(MPI_Request r)
{
  SimReq *p = (SimReq *)r;
  if (p->magic != RMAGIC) fatal("unknown request handle");
  return p;
}
static MPI_Request newreq(MPI_Comm c, int64_t id, std::function<void(const unsigned char *, size_t)> fin, bool coll = false)
{
  SimReq *p = new SimReq{RMAGIC, id, false, coll, c, std::move(fin), nullptr};
  return (MPI_Request)p;
}
static int64_t post_send(MPI_Comm c, const void *buf, int count, MPI_Datatype t, int dst, int tag, int flags)
{
  VComm &v = vc(c);
  if (dst < 0 || dst >= (int)v.w.size()) fatal("send to a rank outside the communicator");
  std::vector<unsigned char> d; pack(buf, count, t, d);
  if (d.size() > MB_DATA) fatal("message larger than the simulator mailbox");
  if (d.size()) memcpy(g_mb->data, d.data(), d.size());
  Req q{}; q.op = OP_SEND; q.ctx = v.ctx; q.a = v.w[dst]; q.b = tag; q.flags = flags; q.nbytes = d.size();
  ++g_p2p_calls;
  Rep r = rpc(q);
  return ((int64_t)r.b << 32) | (uint32_t)r.a;
}
static int64_t post_recv(MPI_Comm c, int src, int tag, int flags)
{
  VComm &v = vc(c);
  if (src != MPI_ANY_SOURCE && (src < 0 || src >= (int)v.w.size())) fatal("receive from a rank outside the communicator");
  Req q{}; q.op = OP_RECV; q.ctx = v.ctx; q.a = src == MPI_ANY_SOURCE ? -1 : v.w[src]; q.b = tag == MPI_ANY_TAG ? -1 : tag;
  q.flags = flags;
  ++g_p2p_calls;
  Rep r = rpc(q);
  return ((int64_t)r.b << 32) | (uint32_t)r.a;
}
static int rank_in(MPI_Comm c, int world)
{
  VComm &v = vc(c);
  for (size_t i = 0; i < v.w.size(); ++i) if (v.w[i] == world) return (int)i;
  return MPI_UNDEFINED;
}
static void set_status(MPI_Status *s, MPI_Comm c, int src, int tag, size_t n)
{
  if (s == MPI_STATUS_IGNORE) return;
  s->MPI_SOURCE = src < 0 ? MPI_ANY_SOURCE : rank_in(c, src);
  s->MPI_TAG = tag < 0 ? MPI_ANY_TAG : tag;
  s->MPI_ERROR = MPI_SUCCESS;
  s->_cancelled = 0; s->_ucount = n;
}
static void empty_status(MPI_Status *s)
{
  if (s == MPI_STATUS_IGNORE) return;
  s->MPI_SOURCE = MPI_ANY_SOURCE; s->MPI_TAG = MPI_ANY_TAG; s->MPI_ERROR = MPI_SUCCESS; s->_cancelled = 0; s->_ucount = 0;
}
struct Item { int32_t index, src, tag, pad; uint64_t n; };
// Runs a WAIT on the active requests of a list; done[] receives the list
// positions that completed, in completion order.
static bool do_wait(int n, MPI_Request *reqs, int mode, std::vector<int> &done, MPI_Status *st, bool sts_by_index)
{
  std::vector<int> pos; std::vector<int64_t> ids;
  for (int i = 0; i < n; ++i)
    if (reqs[i] != MPI_REQUEST_NULL && sr(reqs[i])->id) { pos.push_back(i); ids.push_back(sr(reqs[i])->id); }
  if (ids.empty()) return true;
  memcpy(g_mb->data, ids.data(), ids.size() * 8);
  Req q{}; q.op = OP_WAIT; q.a = mode; q.b = (int)ids.size(); q.nbytes = ids.size() * 8;
  Rep r = rpc(q);
  if (!r.b) return false;
  // The payload area is reused by any further call, so copy it out first.
  std::vector<unsigned char> d(g_mb->data, g_mb->data + r.nbytes);
  size_t at = 0;
  for (int k = 0; k < r.a; ++k) {
    Item it; memcpy(&it, d.data() + at, sizeof it); at += sizeof it;
    int i = pos[it.index];
    SimReq *p = sr(reqs[i]);
    if (p->fin) p->fin(d.data() + at, it.n);
    if (st) set_status(sts_by_index ? &st[i] : &st[done.size()], p->comm, it.src, it.tag, it.n);
    at += (it.n + 7) & ~size_t(7);
    if (p->persistent) p->id = 0;
    else { delete p; reqs[i] = MPI_REQUEST_NULL; }
    done.push_back(i);
  }
  return true;
}

// ---------------------------------------------------------------- collectives
using Bytes = std::vector<unsigned char>;
static void put_u64(Bytes &b, uint64_t v) { size_t a = b.size(); b.resize(a + 8); memcpy(b.data() + a, &v, 8); }
static uint64_t get_u64(const unsigned char *d, size_t &at) { uint64_t v; memcpy(&v, d + at, 8); at += 8; return v; }

static Rep post_coll(MPI_Comm c, int kind, int root, const Bytes &d, int flags, int extra = 0)
{
  VComm &v = vc(c);
  if (d.size() > MB_DATA) fatal("collective larger than the simulator mailbox");
  if (d.size()) memcpy(g_mb->data, d.data(), d.size());
  Req q{}; q.op = OP_COLL; q.ctx = v.ctx; q.a = kind; q.b = root < 0 ? -1 : v.w[root]; q.c = extra; q.flags = flags; q.nbytes = d.size();
  ++g_coll_calls;
  return rpc(q);
}
// Posts a collective; blocking when req==nullptr.
static int coll(MPI_Comm c, int kind, int root, const Bytes &d, std::function<void(const unsigned char *, size_t)> fin, MPI_Request *req, int extra = 0)
{
  if (!req) {
    Rep r = post_coll(c, kind, root, d, F_BLOCK, extra);
    Bytes p(g_mb->data, g_mb->data + r.nbytes);
    if (fin) fin(p.data(), p.size());
  } else {
    Rep r = post_coll(c, kind, root, d, 0, extra);
    *req = newreq(c, ((int64_t)r.b << 32) | (uint32_t)r.a, fin, true);
  }
  return MPI_SUCCESS;
}
// payload of a reduction reply: [n][len] then n contributions in the order the
// simulator wants them combined.
static void combine(const unsigned char *d, size_t, void *recv, int count, MPI_Datatype t, MPI_Op op)
{
  size_t at = 0; uint64_t n = get_u64(d, at), len = get_u64(d, at);
  if (!n || !count) return;
  MPI_Aint lb, ext; PMPI_Type_get_true_extent(t, &lb, &ext);
  MPI_Aint e = text(t); if (e < ext) e = ext;
  // combine from the last to the first: inout = in op inout
  std::vector<unsigned char> acc(e * count + 64), in(e * count + 64);
  unpack(d + at + (n - 1) * len, len, acc.data() - lb, count, t);
  for (int64_t k = (int64_t)n - 2; k >= 0; --k) {
    unpack(d + at + k * len, len, in.data() - lb, count, t);
    PMPI_Reduce_local(in.data() - lb, acc.data() - lb, count, t, op);
  }
  Bytes o; pack(acc.data() - lb, count, t, o);
  unpack(o.data(), o.size(), recv, count, t);
}
static int reduce_like(int kind, const void *s, void *r, int count, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *req)
{
  VComm &v = vc(c);
  Bytes d;
  const void *src = s == MPI_IN_PLACE ? r : s;
  pack(src, count, t, d);
  int comm = 0; PMPI_Op_commutative(op, &comm);
  bool mine = (kind == C_REDUCE) ? (v.rank == root) : true;
  bool first = kind == C_EXSCAN && v.rank == 0;
  return coll(c, kind, kind == C_REDUCE ? root : -1, d,
              [=](const unsigned char *p, size_t n) { if (mine && !first) combine(p, n, r, count, t, op); }, req, comm);
}
} // namespace sim
using namespace sim;

extern "C" {
// ---- local queries
int MPI_Comm_rank(MPI_Comm c, int *r) { if (pass()) return PMPI_Comm_rank(c, r); *r = vc(c).rank; return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int *s) { if (pass()) return PMPI_Comm_size(c, s); *s = (int)vc(c).w.size(); return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *res)
{
  if (pass()) return PMPI_Comm_compare(a, b, res);
  if (a == b) *res = MPI_IDENT;
  else {
    VComm &x = vc(a), &y = vc(b);
    if (x.w == y.w) *res = MPI_CONGRUENT;
    else {
      auto p = x.w, q = y.w; std::vector<int> m(MAXRANKS, 0);
      for (int i : p) m[i]++; for (int i : q) m[i]--;
      bool sim_ = true; for (int i : m) if (i) sim_ = false;
      *res = sim_ ? MPI_SIMILAR : MPI_UNEQUAL;
    }
  }
  return MPI_SUCCESS;
}
int MPI_Finalized(int *f) { return PMPI_Finalized(f); }
int MPI_Finalize(void) { if (pass()) return PMPI_Finalize(); return MPI_SUCCESS; }
double MPI_Wtime(void) { if (pass()) return PMPI_Wtime(); return 1e-9 * (double)g_sh->clock_ns.load(); }
int MPI_Abort(MPI_Comm c, int code)
{
  if (pass()) return PMPI_Abort(c, code);
  Req q{}; q.op = OP_ABORT; q.a = code; rpc(q); _exit(code ? code : 1);
}
// ---- groups
int MPI_Comm_group(MPI_Comm c, MPI_Group *g)
{
  if (pass()) return PMPI_Comm_group(c, g);
  *g = (MPI_Group) new VGroup{GMAGIC, vc(c).w}; return MPI_SUCCESS;
}
static VGroup *vg(MPI_Group g) { VGroup *p = (VGroup *)g; if (g == MPI_GROUP_EMPTY || p->magic != GMAGIC) return nullptr; return p; }
int MPI_Group_free(MPI_Group *g)
{
  if (pass()) return PMPI_Group_free(g);
  if (VGroup *p = vg(*g)) { p->magic = 0; delete p; }
  *g = MPI_GROUP_NULL; return MPI_SUCCESS;
}
int MPI_Group_incl(MPI_Group g, int n, const int r[], MPI_Group *o)
{
  if (pass()) return PMPI_Group_incl(g, n, r, o);
  VGroup *p = vg(g), *q = new VGroup{GMAGIC, {}};
  for (int i = 0; i < n; ++i) q->w.push_back(p->w.at(r[i]));
  *o = (MPI_Group)q; return MPI_SUCCESS;
}
int MPI_Group_size(MPI_Group g, int *s) { if (pass()) return PMPI_Group_size(g, s); VGroup *p = vg(g); *s = p ? (int)p->w.size() : 0; return MPI_SUCCESS; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int r[], MPI_Group b, int o[])
{
  if (pass()) return PMPI_Group_translate_ranks(a, n, r, b, o);
  VGroup *p = vg(a), *q = vg(b);
  for (int i = 0; i < n; ++i) {
    o[i] = MPI_UNDEFINED;
    if (q) for (size_t k = 0; k < q->w.size(); ++k) if (q->w[k] == p->w.at(r[i])) o[i] = (int)k;
  }
  return MPI_SUCCESS;
}
// ---- communicator construction (collective)
static int newcomm(MPI_Comm c, MPI_Comm *o, int kind, const Bytes &d, bool copy_attr)
{
  Bytes ans;
  coll(c, kind, -1, d, [&](const unsigned char *p, size_t n) { ans.assign(p, p + n); }, nullptr);
  size_t at = 0; int64_t ctx = (int64_t)get_u64(ans.data(), at); uint64_t n = get_u64(ans.data(), at);
  if (ctx < 0) { *o = MPI_COMM_NULL; return MPI_SUCCESS; }
  VComm v; v.ctx = (int)ctx; v.rank = -1;
  for (uint64_t i = 0; i < n; ++i) { int w = (int)get_u64(ans.data(), at); if (w == g_rank) v.rank = (int)i; v.w.push_back(w); }
  MPI_Comm h;
  if (copy_attr) PMPI_Comm_dup(c, &h); else PMPI_Comm_dup(MPI_COMM_SELF, &h);
  (*g_comms)[h] = v; *o = h; return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) { if (pass()) return PMPI_Comm_dup(c, o); return newcomm(c, o, C_DUP, Bytes(), true); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o)
{
  if (pass()) return PMPI_Comm_split(c, color, key, o);
  Bytes d; put_u64(d, (uint64_t)(int64_t)(color == MPI_UNDEFINED ? -1 : color)); put_u64(d, (uint64_t)(int64_t)key);
  return newcomm(c, o, C_SPLIT, d, false);
}
int MPI_Comm_split_type(MPI_Comm c, int type, int key, MPI_Info info, MPI_Comm *o)
{
  if (pass()) return PMPI_Comm_split_type(c, type, key, info, o);
  Bytes d; put_u64(d, type == MPI_UNDEFINED ? (uint64_t)-1 : 0); put_u64(d, (uint64_t)(int64_t)key);
  return newcomm(c, o, C_SPLIT, d, false);
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *o)
{
  if (pass()) return PMPI_Comm_create(c, g, o);
  Bytes d; VGroup *p = vg(g); put_u64(d, p ? p->w.size() : 0);
  if (p) for (int w : p->w) put_u64(d, w);
  return newcomm(c, o, C_CREATE, d, false);
}
int MPI_Comm_free(MPI_Comm *c)
{
  if (pass()) return PMPI_Comm_free(c);
  MPI_Comm h = *c; vc(h);
  int r = PMPI_Comm_free(c);   // attribute delete callbacks still see the communicator
  g_comms->erase(h); return r;
}
// ---- point to point
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r)
{
  if (pass()) return PMPI_Isend(b, n, t, dst, tag, c, r);
  if (dst == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
  *r = newreq(c, post_send(c, b, n, t, dst, tag, 0), nullptr); return MPI_SUCCESS;
}
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r)
{
  if (pass()) return PMPI_Issend(b, n, t, dst, tag, c, r);
  *r = newreq(c, post_send(c, b, n, t, dst, tag, F_SYNC), nullptr); return MPI_SUCCESS;
}
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
  if (pass()) return PMPI_Send(b, n, t, dst, tag, c);
  if (dst == MPI_PROC_NULL) return MPI_SUCCESS;
  post_send(c, b, n, t, dst, tag, F_BLOCK); return MPI_SUCCESS;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c)
{
  if (pass()) return PMPI_Ssend(b, n, t, dst, tag, c);
  if (dst == MPI_PROC_NULL) return MPI_SUCCESS;
  post_send(c, b, n, t, dst, tag, F_BLOCK | F_SYNC); return MPI_SUCCESS;
}
static std::function<void(const unsigned char *, size_t)> rfin(void *b, int n, MPI_Datatype t)
{
  return [=](const unsigned char *d, size_t s) { unpack(d, s, b, n, t); };
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r)
{
  if (pass()) return PMPI_Irecv(b, n, t, src, tag, c, r);
  if (src == MPI_PROC_NULL) { *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
  *r = newreq(c, post_recv(c, src, tag, 0), rfin(b, n, t)); return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *r, MPI_Status *s);
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s)
{
  if (pass()) return PMPI_Recv(b, n, t, src, tag, c, s);
  MPI_Request r; MPI_Irecv(b, n, t, src, tag, c, &r); return MPI_Wait(&r, s);
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype st, int dst, int stag, void *rb, int rn, MPI_Datatype rt, int src, int rtag, MPI_Comm c, MPI_Status *s)
{
  if (pass()) return PMPI_Sendrecv(sb, sn, st, dst, stag, rb, rn, rt, src, rtag, c, s);
  MPI_Request r[2]; MPI_Status ss[2];
  MPI_Irecv(rb, rn, rt, src, rtag, c, &r[0]); MPI_Isend(sb, sn, st, dst, stag, c, &r[1]);
  MPI_Waitall(2, r, ss); if (s != MPI_STATUS_IGNORE) *s = ss[0]; return MPI_SUCCESS;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int dst, int stag, int src, int rtag, MPI_Comm c, MPI_Status *s)
{
  if (pass()) return PMPI_Sendrecv_replace(b, n, t, dst, stag, src, rtag, c, s);
  MPI_Request r[2]; MPI_Status ss[2];
  MPI_Isend(b, n, t, dst, stag, c, &r[1]); MPI_Irecv(b, n, t, src, rtag, c, &r[0]);
  MPI_Waitall(2, r, ss); if (s != MPI_STATUS_IGNORE) *s = ss[0]; return MPI_SUCCESS;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r)
{
  if (pass()) return PMPI_Send_init(b, n, t, dst, tag, c, r);
  *r = newreq(c, 0, nullptr); SimReq *p = sr(*r); p->persistent = true;
  p->start = [=] { return post_send(c, b, n, t, dst, tag, 0); }; return MPI_SUCCESS;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r)
{
  if (pass()) return PMPI_Recv_init(b, n, t, src, tag, c, r);
  *r = newreq(c, 0, rfin(b, n, t)); SimReq *p = sr(*r); p->persistent = true;
  p->start = [=] { return post_recv(c, src, tag, 0); }; return MPI_SUCCESS;
}
int MPI_Startall(int n, MPI_Request r[])
{
  if (pass()) return PMPI_Startall(n, r);
  for (int i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL) { SimReq *p = sr(r[i]); if (p->id) fatal("start of an active persistent request"); p->id = p->start(); }
  return MPI_SUCCESS;
}
int MPI_Start(MPI_Request *r) { if (pass()) return PMPI_Start(r); return MPI_Startall(1, r); }
int MPI_Request_free(MPI_Request *r)
{
  if (pass()) return PMPI_Request_free(r);
  SimReq *p = sr(*r);
  if (p->id) { Req q{}; q.op = OP_FREE; q.id = p->id; rpc(q); }
  p->magic = 0; delete p; *r = MPI_REQUEST_NULL; return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request *r, MPI_Status *s)
{
  if (pass()) return PMPI_Wait(r, s);
  if (*r == MPI_REQUEST_NULL || !sr(*r)->id) { empty_status(s); return MPI_SUCCESS; }
  std::vector<int> d; do_wait(1, r, W_ALL, d, s, true); return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request r[], MPI_Status s[])
{
  if (pass()) return PMPI_Waitall(n, r, s);
  if (s != MPI_STATUSES_IGNORE) for (int i = 0; i < n; ++i) if (r[i] == MPI_REQUEST_NULL || !sr(r[i])->id) empty_status(&s[i]);
  std::vector<int> d; do_wait(n, r, W_ALL, d, s == MPI_STATUSES_IGNORE ? nullptr : s, true); return MPI_SUCCESS;
}
static bool none_active(int n, MPI_Request r[])
{
  for (int i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL && sr(r[i])->id) return false;
  return true;
}
int MPI_Waitany(int n, MPI_Request r[], int *idx, MPI_Status *s)
{
  if (pass()) return PMPI_Waitany(n, r, idx, s);
  if (none_active(n, r)) { *idx = MPI_UNDEFINED; empty_status(s); return MPI_SUCCESS; }
  std::vector<int> d; do_wait(n, r, W_ANY, d, s == MPI_STATUS_IGNORE ? nullptr : s, false); *idx = d[0]; return MPI_SUCCESS;
}
int MPI_Waitsome(int n, MPI_Request r[], int *cnt, int idx[], MPI_Status s[])
{
  if (pass()) return PMPI_Waitsome(n, r, cnt, idx, s);
  if (none_active(n, r)) { *cnt = MPI_UNDEFINED; return MPI_SUCCESS; }
  std::vector<int> d; do_wait(n, r, W_SOME, d, s == MPI_STATUSES_IGNORE ? nullptr : s, false);
  *cnt = (int)d.size(); for (size_t i = 0; i < d.size(); ++i) idx[i] = d[i]; return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request r[], int *flag, MPI_Status s[])
{
  if (pass()) return PMPI_Testall(n, r, flag, s);
  std::vector<int> d; *flag = do_wait(n, r, W_TESTALL, d, s == MPI_STATUSES_IGNORE ? nullptr : s, true); return MPI_SUCCESS;
}
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *s)
{
  if (pass()) return PMPI_Test(r, flag, s);
  if (*r == MPI_REQUEST_NULL || !sr(*r)->id) { *flag = 1; empty_status(s); return MPI_SUCCESS; }
  std::vector<int> d; *flag = do_wait(1, r, W_TESTALL, d, s == MPI_STATUS_IGNORE ? nullptr : s, true); return MPI_SUCCESS;
}
int MPI_Testany(int n, MPI_Request r[], int *idx, int *flag, MPI_Status *s)
{
  if (pass()) return PMPI_Testany(n, r, idx, flag, s);
  *idx = MPI_UNDEFINED; *flag = 1;
  if (none_active(n, r)) { empty_status(s); return MPI_SUCCESS; }
  std::vector<int> d; *flag = do_wait(n, r, W_TESTANY, d, s == MPI_STATUS_IGNORE ? nullptr : s, false); if (*flag) *idx = d[0];
  return MPI_SUCCESS;
}
int MPI_Testsome(int n, MPI_Request r[], int *cnt, int idx[], MPI_Status s[])
{
  if (pass()) return PMPI_Testsome(n, r, cnt, idx, s);
  if (none_active(n, r)) { *cnt = MPI_UNDEFINED; return MPI_SUCCESS; }
  std::vector<int> d; do_wait(n, r, W_TESTSOME, d, s == MPI_STATUSES_IGNORE ? nullptr : s, false);
  *cnt = (int)d.size(); for (size_t i = 0; i < d.size(); ++i) idx[i] = d[i]; return MPI_SUCCESS;
}
static int probe(int src, int tag, MPI_Comm c, MPI_Status *s, int flags)
{
  VComm &v = vc(c);
  Req q{}; q.op = OP_PROBE; q.ctx = v.ctx; q.a = src == MPI_ANY_SOURCE ? -1 : v.w.at(src); q.b = tag == MPI_ANY_TAG ? -1 : tag; q.flags = flags;
  Rep r = rpc(q);
  if (r.a) set_status(s, c, r.b, r.c, r.nbytes);
  return r.a;
}
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *s) { if (pass()) return PMPI_Iprobe(src, tag, c, flag, s); *flag = probe(src, tag, c, s, 0); return MPI_SUCCESS; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *s) { if (pass()) return PMPI_Probe(src, tag, c, s); probe(src, tag, c, s, F_BLOCK); return MPI_SUCCESS; }
int MPI_Cancel(MPI_Request *r) { if (pass()) return PMPI_Cancel(r); fatal("MPI_Cancel"); }

// ---- collectives
#define ONE(c) (vc(c).w.size() == 1)
int MPI_Barrier(MPI_Comm c) { if (pass()) return PMPI_Barrier(c); if (ONE(c)) return MPI_SUCCESS; return coll(c, C_BARRIER, -1, Bytes(), nullptr, nullptr); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *r) { if (pass()) return PMPI_Ibarrier(c, r); return coll(c, C_BARRIER, -1, Bytes(), nullptr, r); }
static int bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r)
{
  Bytes d; put_u64(d, tsize(t) * (uint64_t)n);
  bool me = vc(c).rank == root;
  if (me) pack(b, n, t, d);
  return coll(c, C_BCAST, root, d, [=](const unsigned char *p, size_t s) { if (!me) unpack(p, s, b, n, t); }, r);
}
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { if (pass()) return PMPI_Bcast(b, n, t, root, c); if (ONE(c)) return MPI_SUCCESS; return bcast(b, n, t, root, c, nullptr); }
int MPI_Ibcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c, MPI_Request *r) { if (pass()) return PMPI_Ibcast(b, n, t, root, c, r); return bcast(b, n, t, root, c, r); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c)
{ if (pass() || ONE(c)) return PMPI_Reduce(s, r, n, t, op, root, pass() ? c : MPI_COMM_SELF); return reduce_like(C_REDUCE, s, r, n, t, op, root, c, nullptr); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm c, MPI_Request *q)
{ if (pass()) return PMPI_Ireduce(s, r, n, t, op, root, c, q); return reduce_like(C_REDUCE, s, r, n, t, op, root, c, q); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ if (pass() || ONE(c)) return PMPI_Allreduce(s, r, n, t, op, pass() ? c : MPI_COMM_SELF); return reduce_like(C_ALLREDUCE, s, r, n, t, op, -1, c, nullptr); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, MPI_Request *q)
{ if (pass()) return PMPI_Iallreduce(s, r, n, t, op, c, q); return reduce_like(C_ALLREDUCE, s, r, n, t, op, -1, c, q); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ if (pass() || ONE(c)) return PMPI_Scan(s, r, n, t, op, pass() ? c : MPI_COMM_SELF); return reduce_like(C_SCAN, s, r, n, t, op, -1, c, nullptr); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{ if (pass()) return PMPI_Exscan(s, r, n, t, op, c); if (ONE(c)) return MPI_SUCCESS; return reduce_like(C_EXSCAN, s, r, n, t, op, -1, c, nullptr); }
int MPI_Reduce_scatter_block(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  if (pass()) return PMPI_Reduce_scatter_block(s, r, n, t, op, c);
  int N = (int)vc(c).w.size(), me = vc(c).rank;
  std::vector<unsigned char> tmp(text(t) * (size_t)n * N + 64);
  if (s == MPI_IN_PLACE) fatal("Reduce_scatter_block in place");
  MPI_Allreduce(s, tmp.data(), n * N, t, op, c);
  Bytes o; pack(tmp.data() + text(t) * (size_t)n * me, n, t, o); unpack(o.data(), o.size(), r, n, t); return MPI_SUCCESS;
}
int MPI_Reduce_scatter(const void *s, void *r, const int cn[], MPI_Datatype t, MPI_Op op, MPI_Comm c)
{
  if (pass()) return PMPI_Reduce_scatter(s, r, cn, t, op, c);
  int N = (int)vc(c).w.size(), me = vc(c).rank, tot = 0, off = 0;
  for (int i = 0; i < N; ++i) { if (i < me) off += cn[i]; tot += cn[i]; }
  std::vector<unsigned char> tmp(text(t) * (size_t)tot + 64);
  const void *src = s;
  if (s == MPI_IN_PLACE) src = r;
  MPI_Allreduce(src, tmp.data(), tot, t, op, c);
  Bytes o; pack(tmp.data() + text(t) * (size_t)off, cn[me], t, o); unpack(o.data(), o.size(), r, cn[me], t); return MPI_SUCCESS;
}
// reply for gathers: for each source rank in comm order: [len][bytes]
static int gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int *rn, const int *disp, int rn1, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q)
{
  VComm &v = vc(c); bool all = root < 0, mine = all || v.rank == root; int N = (int)v.w.size(), me = v.rank;
  Bytes d;
  MPI_Aint e = mine ? text(rt) : 0;
  if (s == MPI_IN_PLACE) {
    size_t off = disp ? disp[me] : (size_t)me * rn1;
    pack((char *)r + off * e, rn ? rn[me] : rn1, rt, d);
  } else pack(s, sn, st, d);
  std::vector<int> cn(N), dp(N);
  if (mine) for (int i = 0; i < N; ++i) { cn[i] = rn ? rn[i] : rn1; dp[i] = disp ? disp[i] : i * rn1; }
  return coll(c, all ? C_ALLGATHER : C_GATHER, root, d, [=](const unsigned char *p, size_t n) {
    if (!mine || !n) return;
    size_t at = 0;
    for (int i = 0; i < N; ++i) { uint64_t l = get_u64(p, at); unpack(p + at, l, (char *)r + dp[i] * e, cn[i], rt); at += (l + 7) & ~size_t(7); }
  }, q);
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ if (pass()) return PMPI_Gather(s, sn, st, r, rn, rt, root, c); return gatherv(s, sn, st, r, nullptr, nullptr, rn, rt, root, c, nullptr); }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int rn[], const int dp[], MPI_Datatype rt, int root, MPI_Comm c)
{ if (pass()) return PMPI_Gatherv(s, sn, st, r, rn, dp, rt, root, c); return gatherv(s, sn, st, r, rn, dp, 0, rt, root, c, nullptr); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{ if (pass()) return PMPI_Allgather(s, sn, st, r, rn, rt, c); return gatherv(s, sn, st, r, nullptr, nullptr, rn, rt, -1, c, nullptr); }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int rn[], const int dp[], MPI_Datatype rt, MPI_Comm c)
{ if (pass()) return PMPI_Allgatherv(s, sn, st, r, rn, dp, rt, c); return gatherv(s, sn, st, r, rn, dp, 0, rt, -1, c, nullptr); }
int MPI_Igather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q)
{ if (pass()) return PMPI_Igather(s, sn, st, r, rn, rt, root, c, q); return gatherv(s, sn, st, r, nullptr, nullptr, rn, rt, root, c, q); }
int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q)
{ if (pass()) return PMPI_Iallgather(s, sn, st, r, rn, rt, c, q); return gatherv(s, sn, st, r, nullptr, nullptr, rn, rt, -1, c, q); }
int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int rn[], const int dp[], MPI_Datatype rt, MPI_Comm c, MPI_Request *q)
{ if (pass()) return PMPI_Iallgatherv(s, sn, st, r, rn, dp, rt, c, q); return gatherv(s, sn, st, r, rn, dp, 0, rt, -1, c, q); }
static int scatterv(const void *s, const int *sn, const int *dp, int sn1, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{
  VComm &v = vc(c); Bytes d; int N = (int)v.w.size(); bool me = v.rank == root;
  if (me) {
    MPI_Aint e = text(st);
    for (int i = 0; i < N; ++i) {
      Bytes x; pack((const char *)s + (dp ? dp[i] : (size_t)i * sn1) * e, sn ? sn[i] : sn1, st, x);
      put_u64(d, x.size()); d.insert(d.end(), x.begin(), x.end()); while (d.size() & 7) d.push_back(0);
    }
  }
  return coll(c, C_SCATTER, root, d, [=](const unsigned char *p, size_t n) { if (r != MPI_IN_PLACE) unpack(p, n, r, rn, rt); }, nullptr);
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ if (pass()) return PMPI_Scatter(s, sn, st, r, rn, rt, root, c); return scatterv(s, nullptr, nullptr, sn, st, r, rn, rt, root, c); }
int MPI_Scatterv(const void *s, const int sn[], const int dp[], MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c)
{ if (pass()) return PMPI_Scatterv(s, sn, dp, st, r, rn, rt, root, c); return scatterv(s, sn, dp, 0, st, r, rn, rt, root, c); }
static int a2a(const void *s, const int *sn, const int *sd, int sn1, MPI_Datatype st, void *r, const int *rn, const int *rd, int rn1, MPI_Datatype rt, MPI_Comm c)
{
  VComm &v = vc(c); int N = (int)v.w.size(); Bytes d; MPI_Aint e = text(st), re = text(rt);
  if (s == MPI_IN_PLACE) fatal("alltoall in place");
  for (int i = 0; i < N; ++i) {
    Bytes x; pack((const char *)s + (sd ? sd[i] : (size_t)i * sn1) * e, sn ? sn[i] : sn1, st, x);
    put_u64(d, x.size()); d.insert(d.end(), x.begin(), x.end()); while (d.size() & 7) d.push_back(0);
  }
  return coll(c, C_ALLTOALL, -1, d, [=](const unsigned char *p, size_t) {
    size_t at = 0;
    for (int i = 0; i < N; ++i) { uint64_t l = get_u64(p, at); unpack(p + at, l, (char *)r + (rd ? rd[i] : (size_t)i * rn1) * re, rn ? rn[i] : rn1, rt); at += (l + 7) & ~size_t(7); }
  }, nullptr);
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c)
{ if (pass()) return PMPI_Alltoall(s, sn, st, r, rn, rt, c); return a2a(s, nullptr, nullptr, sn, st, r, nullptr, nullptr, rn, rt, c); }
int MPI_Alltoallv(const void *s, const int sn[], const int sd[], MPI_Datatype st, void *r, const int rn[], const int rd[], MPI_Datatype rt, MPI_Comm c)
{ if (pass()) return PMPI_Alltoallv(s, sn, sd, st, r, rn, rd, rt, c); return a2a(s, sn, sd, 0, st, r, rn, rd, 0, rt, c); }
// ---- not simulated: refuse loudly rather than run on the singleton world
#define NOSIM(name, sig, call) int name sig { if (pass()) return P##name call; fatal(#name); }
NOSIM(MPI_Win_create, (void *a, MPI_Aint b, int c, MPI_Info d, MPI_Comm e, MPI_Win *f), (a, b, c, d, e, f))
NOSIM(MPI_Win_allocate_shared, (MPI_Aint a, int b, MPI_Info c, MPI_Comm d, void *e, MPI_Win *f), (a, b, c, d, e, f))
NOSIM(MPI_Bsend, (const void *a, int b, MPI_Datatype c, int d, int e, MPI_Comm f), (a, b, c, d, e, f))
NOSIM(MPI_Rsend, (const void *a, int b, MPI_Datatype c, int d, int e, MPI_Comm f), (a, b, c, d, e, f))
NOSIM(MPI_Ibsend, (const void *a, int b, MPI_Datatype c, int d, int e, MPI_Comm f, MPI_Request *g), (a, b, c, d, e, f, g))
NOSIM(MPI_Irsend, (const void *a, int b, MPI_Datatype c, int d, int e, MPI_Comm f, MPI_Request *g), (a, b, c, d, e, f, g))
NOSIM(MPI_Comm_create_group, (MPI_Comm a, MPI_Group b, int c, MPI_Comm *d), (a, b, c, d))
NOSIM(MPI_Comm_idup, (MPI_Comm a, MPI_Comm *b, MPI_Request *c), (a, b, c))
NOSIM(MPI_Comm_dup_with_info, (MPI_Comm a, MPI_Info b, MPI_Comm *c), (a, b, c))
NOSIM(MPI_Iscatter, (const void *a, int b, MPI_Datatype c, void *d, int e, MPI_Datatype f, int g, MPI_Comm h, MPI_Request *i), (a, b, c, d, e, f, g, h, i))
NOSIM(MPI_Ialltoall, (const void *a, int b, MPI_Datatype c, void *d, int e, MPI_Datatype f, MPI_Comm g, MPI_Request *h), (a, b, c, d, e, f, g, h))
NOSIM(MPI_Dist_graph_create_adjacent, (MPI_Comm a, int b, const int c[], const int d[], int e, const int f[], const int g[], MPI_Info h, int i, MPI_Comm *j), (a, b, c, d, e, f, g, h, i, j))

// ---- MPI-IO: each rank opens the file on its own singleton world; the open,
// close and collective transfers keep their collective nature in the simulator.
static std::unordered_map<MPI_File, MPI_Comm> *g_files;
static void fsync_point(MPI_File f) { auto it = g_files ? g_files->find(f) : decltype(g_files->end())(); if (g_files && it != g_files->end() && !ONE(it->second)) coll(it->second, C_FILE, -1, Bytes(), nullptr, nullptr); }
// Outcome of a collective file call is agreed between its ranks only where MPI
// says so (open); transfers report per rank.
int MPI_File_open(MPI_Comm c, const char *name, int mode, MPI_Info info, MPI_File *f)
{
  if (pass()) return PMPI_File_open(c, name, mode, info, f);
  int err = PMPI_File_open(MPI_COMM_SELF, name, mode, MPI_INFO_NULL, f), worst = 0, bad = err != MPI_SUCCESS;
  worst = bad;
  if (!ONE(c)) MPI_Allreduce(&bad, &worst, 1, MPI_INT, MPI_MAX, c);
  if (worst && !bad) PMPI_File_close(f);
  if (worst) return bad ? err : MPI_ERR_FILE;
  if (!g_files) g_files = new std::unordered_map<MPI_File, MPI_Comm>();
  (*g_files)[*f] = c; return MPI_SUCCESS;
}
int MPI_File_close(MPI_File *f)
{
  if (pass()) return PMPI_File_close(f);
  fsync_point(*f); g_files->erase(*f); return PMPI_File_close(f);
}
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s)
{ if (!pass()) fsync_point(f); return PMPI_File_write_at(f, o, b, n, t, s); }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s)
{ if (!pass()) fsync_point(f); return PMPI_File_read_at(f, o, b, n, t, s); }
int MPI_File_set_size(MPI_File f, MPI_Offset sz)
{ // collective: all ranks enter before the size changes and leave after it
  if (pass()) return PMPI_File_set_size(f, sz);
  fsync_point(f); int e = PMPI_File_set_size(f, sz); fsync_point(f); return e;
}
int MPI_File_sync(MPI_File f) { if (pass()) return PMPI_File_sync(f); fsync_point(f); return PMPI_File_sync(f); }
int MPI_File_set_view(MPI_File f, MPI_Offset d, MPI_Datatype e, MPI_Datatype t, const char *rep, MPI_Info info)
{ if (!pass()) fsync_point(f); return PMPI_File_set_view(f, d, e, t, rep, info); }
}
