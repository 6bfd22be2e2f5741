#include "props.h"
namespace sim {
using KV = std::vector<std::pair<std::string, int64_t>>;
const std::vector<std::string> REAL_FEM = {"cafes headers of /repo, compiled as they are", "PETSc 3.19 (DMDA, DMComposite, VecScatter/SF, KSP, PC, Mat)", "datatype and reduction operators of Open MPI"};
const std::vector<std::string> STUB_ALL = {"MPI transport, matching, collectives, communicators, barrier and probe (simulated network)", "process scheduling (one rank image released at a time)", "clocks (simulated)", "heap contents of fresh memory (filled with a chosen byte)"};
const KV ENV_SIMPLIFY = {{"policy", 0}, {"rndv", 0}, {"spurious", 0}, {"collsync", 0}, {"redperm", 0}, {"twosided", 0}, {"fin", 0}, {"dirty", 0}, {"perturb", 0}, {"subb", 0}, {"extra", 0}, {"sub", 0}, {"np", 1}};
KV simplify(KV more) { KV r = more; r.insert(r.end(), ENV_SIMPLIFY.begin(), ENV_SIMPLIFY.end()); return r; }

void layout(int size, int M, int N, int &m, int &n)
{ // processor grid chosen by DMDACreate2d for PETSC_DECIDE
  m = (int)(0.5 + std::sqrt((double)M * (double)size / (double)N));
  if (!m) m = 1;
  while (m > 0) { n = size / m; if (m * n == size) break; m--; }
  if (M > N && m < n) std::swap(m, n);
}
bool layout_ok(int np, int npx, int npy) { int m, n; layout(np, npx, npy, m, n); return m <= npx && n <= npy; }
void gen_env(Rng &r, Params &p, const std::vector<int> &nps, bool dirtyok)
{
  p["np"] = nps[r.below((uint32_t)nps.size())];
  p["policy"] = r.below(10) < 2 ? P_CANON : (int64_t)r.range(1, P_NPOL - 1);
  static const int rv[] = {0, 0, 30, 70, 100};
  p["rndv"] = rv[r.below(5)];
  if (r.below(3) == 0) p["spurious"] = r.range(5, 60);
  p["collsync"] = r.below(2); p["redperm"] = r.below(2);
  p["twosided"] = r.below(3);
  if (r.below(4)) p["perturb"] = r.range(1, 255);
  if (dirtyok) p["dirty"] = r.below(4) != 0;
  if (r.below(6) == 0) p["fin"] = 1;
  // the program may be given only some of the processes of the job, in any order
  if (r.below(10) == 0) { p["sub"] = 1; p["subseed"] = r.range(1, 1000); if (p("np") < MAXRANKS) p["extra"] = r.below(3) ? r.range(1, std::min<int64_t>(2, MAXRANKS - p("np"))) : 0; }
}
bool gen_wide(Rng &r) { return r.below(40) == 0; }
const std::vector<int> &np_wide(bool wide, const std::vector<int> &nps) { static const std::vector<int> w = {1, 2, 4, 5, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 16}; return wide ? w : nps; }
void gen_grid(Rng &r, Params &p, const std::string &pre, int lo, int hi, int np, bool per_ok, int per_both)
{
  static const int ls[] = {1000, 1000, 500, 2000, 1370, 731, 4000, 250};
  for (int t = 0;; ++t) {
    p[pre + "mx"] = r.range(lo, hi); p[pre + "my"] = r.below(4) == 0 ? p[pre + "mx"] : r.range(lo, hi);
    p[pre + "lx"] = ls[r.below(8)]; p[pre + "ly"] = r.below(3) == 0 ? p[pre + "lx"] : ls[r.below(8)];
    p[pre + "xper"] = 0; p[pre + "yper"] = 0;
    if (per_ok) { int k = r.below(6); if (k == 1) p[pre + "xper"] = 1; if (k == 2) p[pre + "yper"] = 1; if (k == 3 && per_both) p[pre + "xper"] = p[pre + "yper"] = 1; }
    PP q = PP::get(p, pre);
    auto g = grid(q);
    if (layout_ok(np, g.npx, g.npy)) return;
    if (t > 50) hi++;
  }
}
ref::Grid grid(const PP &q) { return ref::Grid(q.mx, q.my, q.Lx, q.Ly, q.xper, q.yper); }
ref::Vec input(uint64_t seed, int64_t n) { ref::Vec v(n); for (int64_t i = 0; i < n; ++i) v[i] = hashval(seed, i); return v; }
std::string where(const ref::Grid &g, int64_t i)
{
  if (i < g.nu()) return fmt("velocity component %d at node (%d,%d)", (int)(i % 2), (int)(i / 2 % g.nux), (int)(i / 2 / g.nux));
  i -= g.nu(); return fmt("pressure at node (%d,%d)", (int)(i % g.npx), (int)(i / g.npx));
}
Violation compare(const Field &f, const ref::Vec &want, double tol, const std::string &cls, const std::string &what, const ref::Grid *g, int64_t from, int64_t to, double floor)
{
  if (to < 0) to = (int64_t)want.size();
  auto at = [&](int64_t i) { return g ? where(*g, i) : fmt("entry %lld", (long long)i); };
  if (f.out_of_range) return {cls, fmt("%s: %lld values belong to nodes outside the grid", what.c_str(), (long long)f.out_of_range)};
  if (f.dup) return {cls, fmt("%s: %lld values are owned by more than one process", what.c_str(), (long long)f.dup)};
  double sc = 0; for (int64_t i = from; i < to; ++i) sc = std::max(sc, std::fabs(want[i]));
  int64_t worst = -1; double wd = -1; int64_t nbad = 0;
  for (int64_t i = from; i < to; ++i) {
    if (!f.seen[i]) return {cls, fmt("%s: no process owns the value of %s", what.c_str(), at(i).c_str())};
    double d = std::fabs(f.v[i] - want[i]);
    if (!(d <= tol * (sc + floor))) { nbad++; if (std::isnan(d)) d = 1e300; if (d > wd) { wd = d; worst = i; } }
  }
  if (worst >= 0) return {cls, fmt("%s: %lld values differ; %s is %.10g, expected %.10g", what.c_str(), (long long)nbad, at(worst).c_str(), f.v[worst], want[worst])};
  return {};
}
bool sane(const Result &r, Violation &v, const std::string &cls)
{
  if (r.cls.empty()) return true;
  v = {cls.empty() ? r.cls : cls, r.detail}; return false;
}
Violation statuses(Ctx &c, const Params &p)
{
  for (int r = 0; r < (int)p("np", 1); ++r)
    for (auto &x : records(c.sh, r, TAG_STATUS)) if (x.val != 0) return {"status", fmt("operation %lld returned %g on rank %d: %s", (long long)x.idx, x.val, r, mailbox(c.sh, r).errmsg)};
  return {};
}
Violation untouched(Ctx &c, const Params &p, int op)
{
  for (int r = 0; r < (int)p("np", 1); ++r) { double b = record(c.sh, r, TAG_AUX + op, -1, 0); if (b != 0) return {"operand-changed", fmt("operation %d changed %g entries of the vector it was given on rank %d", op, b, r)}; }
  return {};
}
void ref_rhs(const PP &q, const ref::Grid &g, ref::Vec &rhs)
{
  ref::Vec f(g.n(), 0.);
  for (int j = 0; j < g.nuy; ++j) for (int i = 0; i < g.nux; ++i) for (int d = 0; d < 2; ++d) if (rhscomp(q, d)) f[g.iu(i, j, d)] = rhsval(q, d, i * g.hx, j * g.hy);
  rhs = ref::mass(g, f);
  ref::set_bc(g, rhs, q.m(), [&](int b, int d, double x, double y) { return bcval(q, b, d, x, y); });
}
const std::vector<Property> &properties()
{
  static std::vector<Property> all = [] {
    std::vector<Property> v;
    for (auto f : {props_fem, props_part, props_io, props_sys}) for (auto &p : f()) v.push_back(p);
    std::sort(v.begin(), v.end(), [](const Property &a, const Property &b) { return a.id < b.id; });
    return v;
  }();
  return all;
}
}
