// Body of a rank image: drives cafes through its public interface.
#include <execinfo.h>
#include <map>
#include <set>
#include <cafes.hpp>
#include <petsc.h>
#include <petscviewerhdf5.h>
#include <functional>
#include <dirent.h>
#include <new>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include "../sim/rank.h"
#include "field.h"

namespace sim { static int64_t g_blocks = 0, g_news = 0, g_bytes = 0, g_newbytes = 0; }    // live blocks of PETSc's allocator and of operator new
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
// reports go to the simulator
extern "C" const char *__asan_default_options() { return "detect_leaks=0:halt_on_error=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1:max_malloc_fill_size=1000000000:quarantine_size_mb=16:malloc_context_size=12:detect_stack_use_after_return=1:handle_abort=0:color=never"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=66:color=never"; }
static void on_report(const char *t) { auto *m = sim::g_mb; if (m && !m->san[0]) snprintf(m->san, sizeof m->san, "%s", t); }
extern "C" void __ubsan_get_current_report_data(const char **kind, const char **msg, const char **file, unsigned *line, unsigned *col, char **addr);
extern "C" void __ubsan_on_report()
{
  const char *k, *m, *f; unsigned l, c; char *a; __ubsan_get_current_report_data(&k, &m, &f, &l, &c, &a);
  char b[1000]; snprintf(b, sizeof b, "ERROR: %s: %s\n    #0 0x0 in ? %s:%u\n", k, m, f, l); on_report(b);
}
static void guard(void *p, bool on) { if (on) __asan_poison_memory_region(p, 16); else __asan_unpoison_memory_region(p, 16); }
#else
static void guard(void *, bool) {}
// the size asked for is kept in front of the block
void *operator new(std::size_t n) { std::size_t *p = (std::size_t *)malloc(n + 16); if (!p) throw std::bad_alloc(); *p = n; ++sim::g_news; sim::g_newbytes += n; return p + 2; }
void operator delete(void *p) noexcept { if (p) { std::size_t *q = (std::size_t *)p - 2; --sim::g_news; sim::g_newbytes -= *q; free(q); } }
void operator delete(void *p, std::size_t) noexcept { operator delete(p); }
#endif
extern "C" bool rank_sanitized()
{
#ifdef __SANITIZE_ADDRESS__
  return true;
#else
  return false;
#endif
}
namespace sim {
static PP G[2];
template<int K, int B, int D> void bcf(const PetscReal x[], PetscScalar *u) { *u = bcval(G[K], B, D, x[0], x[1]); }
template<int K, int D> void rhf(const PetscReal x[], PetscScalar *u) { *u = rhsval(G[K], D, x[0], x[1]); }

static PetscErrorCode on_error(MPI_Comm, int line, const char *fun, const char *file, PetscErrorCode n, PetscErrorType t, const char *mess, void *)
{
  const char *base = file ? strrchr(file, '/') : nullptr;
  if (!g_mb->nerr++) snprintf(g_mb->errmsg, sizeof g_mb->errmsg, "PETSc error %d in %s (%s:%d): %s", (int)n, fun ? fun : "?", file ? file : "?", line, mess ? mess : "");
  else { // how far it was passed on
    size_t l = strlen(g_mb->errmsg);
    snprintf(g_mb->errmsg + l, sizeof g_mb->errmsg - l, "%s%s:%d", t == PETSC_ERROR_INITIAL ? " | " : " < ", base ? base + 1 : file ? file : "?", line);
  }
  return n;
}
// ---- failing allocations: the k-th request of an armed stage fails
static int64_t g_fail_at = 0; static bool g_armed = false;
static PetscErrorCode (*g_malloc)(size_t, PetscBool, int, const char[], const char[], void **);
static PetscErrorCode (*g_realloc)(size_t, int, const char[], const char[], void **);
static PetscErrorCode (*g_free)(void *, int, const char[], const char[]);
// where requests come from: the first, the last and some other one of every
// path through the library (PETSc's own frames do not distinguish paths)
struct Site { int64_t first, last, other, n; };
static bool g_sites = false; static std::map<uint64_t, Site> g_site;
extern "C" char __executable_start, etext;
static void note_site()
{
  void *f[48]; int n = backtrace(f, 48); uint64_t h = 1469598103934665603ull;
  for (int i = 2; i < n; ++i) if ((char *)f[i] >= &__executable_start && (char *)f[i] < &etext) h = (h ^ (uint64_t)f[i]) * 1099511628211ull;
  int64_t k = (int64_t)g_mb->alloc_count; auto &s = g_site.emplace(h, Site{k, k, k, 0}).first->second;
  s.last = k; s.n++; if ((uint64_t)k * 0x9e3779b97f4a7c15ull % (uint64_t)s.n == 0) s.other = k;
}
static bool alloc_hit()
{
  if (!g_armed) return false;
  g_mb->alloc_count++;
  if (g_sites) { g_armed = false; note_site(); g_armed = true; }
  if (g_fail_at && (int64_t)g_mb->alloc_count == g_fail_at) { g_mb->alloc_fired = 1; return true; }
  return false;
}
static PetscErrorCode x_malloc(size_t n, PetscBool c, int line, const char fn[], const char file[], void **r)
{
  if (n && alloc_hit()) { *r = nullptr; return PetscError(PETSC_COMM_SELF, line, fn, file, PETSC_ERR_MEM, PETSC_ERROR_INITIAL, "injected allocation failure of %zu bytes", n); }
  if (!n) { *r = nullptr; return 0; }
  // same alignment rule as PETSc's default allocator
  void *p = nullptr;
  if (posix_memalign(&p, 16, n + 16)) { *r = nullptr; return PETSC_ERR_MEM; }
  *(size_t *)p = n; guard(p, true); ++g_blocks; g_bytes += n;
  *r = (char *)p + 16;
  if (c) memset(*r, 0, n);
  return 0;
}
static PetscErrorCode x_free(void *p, int, const char[], const char[]) 
{
  if (!p) return 0;
  size_t *q = (size_t *)p - 2; guard(q, false); --g_blocks; g_bytes -= *q; free(q); return 0;
}
static PetscErrorCode x_realloc(size_t n, int line, const char fn[], const char file[], void **r)
{
  if (alloc_hit()) return PetscError(PETSC_COMM_SELF, line, fn, file, PETSC_ERR_MEM, PETSC_ERROR_INITIAL, "injected allocation failure of %zu bytes", n);
  if (!n) { PetscErrorCode e = x_free(*r, line, fn, file); *r = nullptr; return e; }
  size_t *q = *r ? (size_t *)*r - 2 : nullptr; if (q) guard(q, false); size_t old = q ? *q : 0;
  q = (size_t *)realloc(q, n + 16); if (!q) return PETSC_ERR_MEM;
  if (!*r) ++g_blocks;
  g_bytes += (int64_t)n - (int64_t)old; *q = n; guard(q, true); *r = q + 2; return 0;
}

// everything a process holds: what repeated work must not increase
static int64_t open_files() { int64_t n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) ++n; closedir(d); } return n; }
static void census(int cycle)     // relative to the start; -1: start here
{
  static int64_t base[7];
  int64_t v[] = {g_blocks, g_news, open_files(), live_comms(), live_requests(), g_bytes, g_newbytes};
  for (int k = 0; k < 7; ++k) if (cycle < 0) base[k] = v[k]; else out(TAG_LIVE, 10 * cycle + k, (double)(v[k] - base[k]));
}

[[noreturn]] static void quit(int code) { MPI_Abort(PETSC_COMM_WORLD, code); _exit(code); }
// a status-returning operation: its status is recorded and, as any caller
// would, the job is given up when it is not zero
// a program that handles errors itself: each process stops at the first one it is told of
static bool g_soft, g_stop;
static void check_status(int op, PetscErrorCode ierr)
{
  out(TAG_STATUS, op, (double)ierr);
  if (ierr && g_soft) { g_stop = true; return; }
  if (ierr) quit(50);
}
#define MUST(e) do { PetscErrorCode e_ = (e); if (e_) { if (!g_mb->errmsg[0]) snprintf(g_mb->errmsg, sizeof g_mb->errmsg, "status %d from %s", (int)e_, #e); quit(60); } } while (0)

struct Lay { DM d; DMDALocalInfo i; };
static Lay lay(DM c, int e) { DM a, b; MUST(DMCompositeGetEntries(c, &a, &b)); Lay l; l.d = e ? b : a; MUST(DMDAGetLocalInfo(l.d, &l.i)); return l; }
template<class F> static void each(DM c, Vec v, bool write, F f)
{
  Lay u = lay(c, 0), p = lay(c, 1);
  Vec vu, vp; MUST(DMCompositeGetAccess(c, v, &vu, &vp));
  int64_t off = 2ll * u.i.mx * u.i.my;
  for (int e = 0; e < 2; ++e) {
    Lay &l = e ? p : u; Vec w = e ? vp : vu; PetscScalar ***a;
    if (write) MUST(DMDAVecGetArrayDOF(l.d, w, &a)); else MUST(DMDAVecGetArrayDOFRead(l.d, w, &a));
    for (int j = l.i.ys; j < l.i.ys + l.i.ym; ++j) for (int i = l.i.xs; i < l.i.xs + l.i.xm; ++i) for (int d = 0; d < l.i.dof; ++d)
      f((e ? off : 0) + (int64_t)l.i.dof * ((int64_t)j * l.i.mx + i) + d, a[j][i][d]);
    if (write) MUST(DMDAVecRestoreArrayDOF(l.d, w, &a)); else MUST(DMDAVecRestoreArrayDOFRead(l.d, w, &a));
  }
  MUST(DMCompositeRestoreAccess(c, v, &vu, &vp));
}
static void emit(DM c, Vec v, int tag) { each(c, v, false, [&](int64_t i, PetscScalar &x) { out(tag, i, x); }); }
static void fill(DM c, Vec v, uint64_t seed) { each(c, v, true, [&](int64_t i, PetscScalar &x) { x = hashval(seed, i); }); }
static void poison(Vec v) { PetscScalar *a; PetscInt n; MUST(VecGetLocalSize(v, &n)); MUST(VecGetArray(v, &a)); for (PetscInt i = 0; i < n; ++i) a[i] = NAN; MUST(VecRestoreArray(v, &a)); }
// leaves rubbish in every work vector the library may be handed
static void poison_pools(DM c)
{
  for (int pass = 0; pass < 3; ++pass) {
    DM d = c; if (pass) d = lay(c, pass - 1).d;
    Vec g[3], l[3];
    for (int k = 0; k < 3; ++k) { MUST(DMGetGlobalVector(d, &g[k])); poison(g[k]); if (pass) { MUST(DMGetLocalVector(d, &l[k])); poison(l[k]); } }
    for (int k = 0; k < 3; ++k) { MUST(DMRestoreGlobalVector(d, &g[k])); if (pass) MUST(DMRestoreLocalVector(d, &l[k])); }
  }
}
static void opt(const char *n, const std::string &v) { MUST(PetscOptionsSetValue(nullptr, n, v.c_str())); }
static void noopt(const char *n) { MUST(PetscOptionsClearValue(nullptr, n)); }

using Stokes = cafes::problem::stokes<2>;
static std::unique_ptr<Stokes> make_problem(int k)
{
  const PP &q = G[k];
  // what has its default may also be left to it
  auto value = [&](const char *n, const std::string &v, bool def) { if (def) noopt(n); else opt(n, v); };
  value("-mx", std::to_string(q.mx), q.mx == 17); value("-my", std::to_string(q.my), q.my == 17);
  value("-Lx", fmt("%.17g", q.Lx), q.Lx == 1); value("-Ly", fmt("%.17g", q.Ly), q.Ly == 1);
  auto flag = [&](const char *n, bool on) { if (on) opt(n, "1"); else if (q.mx % 2) opt(n, "0"); else noopt(n); };
  flag("-xperiod", q.xper); flag("-yperiod", q.yper); flag("-strain_tensor", q.strain); flag("-assembling", q.asmb); flag("-PMM", q.pmm);
  auto m = q.m();
  using fn = cafes::condition_fn;
  auto bcof = [&](auto kk) {
    constexpr int K = decltype(kk)::value;
    return cafes::make_bc<2>({ {{m[0][0] ? (fn)bcf<K, 0, 0> : nullptr, m[0][1] ? (fn)bcf<K, 0, 1> : nullptr}},
                               {{m[1][0] ? (fn)bcf<K, 1, 0> : nullptr, m[1][1] ? (fn)bcf<K, 1, 1> : nullptr}},
                               {{m[2][0] ? (fn)bcf<K, 2, 0> : nullptr, m[2][1] ? (fn)bcf<K, 2, 1> : nullptr}},
                               {{m[3][0] ? (fn)bcf<K, 3, 0> : nullptr, m[3][1] ? (fn)bcf<K, 3, 1> : nullptr}} });
  };
  auto rhof = [&](auto kk) {
    constexpr int K = decltype(kk)::value;
    return cafes::make_rhs<2>({{rhscomp(q, 0) ? (fn)rhf<K, 0> : nullptr, rhscomp(q, 1) ? (fn)rhf<K, 1> : nullptr}});
  };
  using i0 = std::integral_constant<int, 0>; using i1 = std::integral_constant<int, 1>;
  if (k == 0) return std::make_unique<Stokes>(cafes::make_stokes<2>(bcof(i0{}), rhof(i0{})));
  return std::make_unique<Stokes>(cafes::make_stokes<2>(bcof(i1{}), rhof(i1{})));
}
static int g_fluidit = 3000;
static void solver_options(int k)
{
  for (const char *o : {"-stokes_ksp_type", "-stokes_pc_type", "-stokes_redundant_pc_type", "-stokes_redundant_pc_factor_shift_type", "-stokes_ksp_rtol", "-stokes_ksp_atol", "-stokes_ksp_max_it", "-stokes_ksp_gmres_restart", "-stokes_ksp_gmres_cgs_refinement_type"}) noopt(o);
  if (getenv("SIM_OPTS")) MUST(PetscOptionsInsertString(nullptr, getenv("SIM_OPTS")));
  opt("-stokes_ksp_max_it", fmt("%d", g_fluidit)); opt("-stokes_ksp_rtol", "1e-11"); opt("-stokes_ksp_atol", "1e-13");
  switch (G[k].solver) {
  case 1: opt("-stokes_ksp_type", "preonly"); opt("-stokes_pc_type", "lu"); break;
  case 2: opt("-stokes_ksp_type", "gmres"); opt("-stokes_ksp_gmres_restart", "100"); opt("-stokes_pc_type", "redundant"); opt("-stokes_redundant_pc_type", "lu"); break;
  case 3: case 4: opt("-stokes_ksp_type", "gmres"); opt("-stokes_pc_type", "none"); opt("-stokes_ksp_gmres_restart", "400"); opt("-stokes_ksp_gmres_cgs_refinement_type", "refine_always"); break;
  // the coarse smoother need not run to its own tolerance
  case 5: opt("-stokes_ksp_rtol", "1e-6"); opt("-stokes_fieldsplit_0_mg_coarse_ksp_max_it", "40"); break;
  case 6: opt("-stokes_ksp_type", "minres"); break;
  }
}

static Vec other(Stokes &s) { Vec v; MUST(VecDuplicate(s.sol, &v)); return v; }

static void halo(Stokes &s, uint64_t seed, bool dirty)
{
  fill(s.ctx->dm, s.rhs, seed);
  if (dirty) poison_pools(s.ctx->dm);
  for (int e = 0; e < 2; ++e) {
    Lay l = lay(s.ctx->dm, e);
    auto v = cafes::petsc::petsc_vec<2>(s.ctx->dm, s.rhs, e);
    MUST(v.global_to_local(INSERT_VALUES));
    for (int j = l.i.gys; j < l.i.gys + l.i.gym; ++j) for (int i = l.i.gxs; i < l.i.gxs + l.i.gxm; ++i) for (int d = 0; d < l.i.dof; ++d)
      out(TAG_HALO, (((int64_t)e << 48) | ((int64_t)(j + 16) << 26) | ((int64_t)(i + 16) << 4) | d), v.at(cafes::geometry::position<int, 2>{i, j})[d]);
  }
  // contributions of every rank to shared nodes add up
  Vec t = other(s); MUST(VecSet(t, 0.));
  for (int e = 0; e < 2; ++e) {
    Lay l = lay(s.ctx->dm, e);
    auto v = cafes::petsc::petsc_vec<2>(s.ctx->dm, t, e, false);
    MUST(v.fill(0.));
    for (int j = l.i.gys; j < l.i.gys + l.i.gym; ++j) for (int i = l.i.gxs; i < l.i.gxs + l.i.gxm; ++i) for (int d = 0; d < l.i.dof; ++d)
      v.at(cafes::geometry::position<int, 2>{i, j})[d] = 1 + d;
    MUST(v.local_to_global(ADD_VALUES));
  }
  emit(s.ctx->dm, t, TAG_AUX);
}
static void partition(Stokes &s)
{
  for (int e = 0; e < 2; ++e) {
    Lay l = lay(s.ctx->dm, e); int b = 100 * e;
    double v[] = {(double)l.i.xs, (double)l.i.ys, (double)l.i.xm, (double)l.i.ym, (double)l.i.mx, (double)l.i.my, (double)l.i.dof, (double)l.i.bx, (double)l.i.by, (double)l.i.gxs, (double)l.i.gys, (double)l.i.gxm, (double)l.i.gym};
    for (int k = 0; k < 13; ++k) out(TAG_INFO, b + k, v[k]);
  }
  out(TAG_INFO, 200, s.ctx->h[0]); out(TAG_INFO, 201, s.ctx->h[1]);
  auto bx = cafes::fem::get_DM_bounds<2>(s.ctx->dm, 0, false); auto bi = cafes::fem::get_DM_bounds<2>(s.ctx->dm, 0);
  for (int d = 0; d < 2; ++d) { out(TAG_INFO, 210 + d, bx.bottom_left[d]); out(TAG_INFO, 212 + d, bx.upper_right[d]); out(TAG_INFO, 220 + d, bi.bottom_left[d]); out(TAG_INFO, 222 + d, bi.upper_right[d]); }
}
struct Run { std::unique_ptr<Stokes> s[2]; bool ksp[2] = {false, false}; bool dirty; };

static void do_op(Run &R, const Params &p, int n, int64_t code, const char *scratch)
{
  int kind = opkind(code), k = p("shared") ? 0 : opprob(code); uint64_t seed = opseed(code);
  Stokes &s = *R.s[k];
  Vec x, y;
  if (R.dirty && kind != K_SAVE) poison_pools(s.ctx->dm);
  switch (kind) {
  case K_MULTA: case K_MULTP: case K_MASS:
    if (p("reuse")) { x = s.sol; y = s.rhs; } else { x = other(s); y = other(s); }
    fill(s.ctx->dm, x, seed); if (R.dirty) poison(y); else MUST(VecSet(y, 0.));
    check_status(n, kind == K_MASS ? cafes::fem::apply_mass_matrix<2>(s.ctx->dm, x, y, s.ctx->h) : MatMult(kind == K_MULTA ? s.A : s.P, x, y));
    emit(s.ctx->dm, y, TAG_OP + n);
    // the operand is only read
    { double bad = 0; each(s.ctx->dm, x, false, [&](int64_t i, PetscScalar &v) { if (v != hashval(seed, i)) bad++; }); out(TAG_AUX + n, -1, bad); }
    if (!p("reuse")) { MUST(VecDestroy(&x)); MUST(VecDestroy(&y)); }
    break;
  case K_RHS:
    MUST(VecSet(s.rhs, 0.));
    check_status(n, s.setup_RHS()); emit(s.ctx->dm, s.rhs, TAG_OP + n); break;
  case K_SOLVE: {
    MUST(VecSet(s.rhs, 0.));
    if (R.dirty) { if (seed & 1) fill(s.ctx->dm, s.sol, seed); }
    check_status(n * 10 + 1000, s.setup_RHS());
    if (!R.ksp[k] || p("resetup")) { solver_options(k); check_status(n * 10 + 1001, s.setup_KSP()); R.ksp[k] = true; }
    stage(4);
    check_status(n, s.solve());
    stage(3);
    KSPConvergedReason r; PetscInt its; MUST(KSPGetConvergedReason(s.ksp, &r)); MUST(KSPGetIterationNumber(s.ksp, &its));
    out(TAG_REASON, n, r); out(TAG_ITS, n, its);
    emit(s.ctx->dm, s.sol, TAG_OP + n); break;
  }
  case K_DIAGP:
    y = other(s); if (R.dirty) poison(y);
    check_status(n, MatGetDiagonal(s.P, y)); emit(s.ctx->dm, y, TAG_OP + n); MUST(VecDestroy(&y)); break;
  case K_SAVE: {
    y = other(s); fill(s.ctx->dm, y, seed);
    // one subdirectory per file set
    std::string dir = std::string(scratch) + "/" + fmt("d%d", p("samedir") ? 0 : k);
    int rank; MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
    if (rank == 0 && !p("nodir")) mkdir(dir.c_str(), 0700);
    if (rank == 0 && p("nodesc")) mkdir(fmt("%s/f%d.xdmf", dir.c_str(), (int)p(fmt("fn%d", n), p("fname"))).c_str(), 0700);
    MPI_Barrier(PETSC_COMM_WORLD);
    stage(5); g_io_on = true;
    PetscErrorCode e = cafes::io::save_hdf5(dir.c_str(), fmt("f%d", (int)p(fmt("fn%d", n), p("fname"))).c_str(), y, s.ctx->dm, s.ctx->h);
    stage(3); g_io_on = false;
    check_status(n, e);
    // the vector handed in is unchanged
    double bad = 0; each(s.ctx->dm, y, false, [&](int64_t i, PetscScalar &v) { if (v != hashval(seed, i)) bad++; }); out(TAG_AUX + n, -1, bad);
    MUST(VecDestroy(&y)); break;
  }
  case K_INTERP: {
    y = other(s);
    // linear or arbitrary fields
    fill(s.ctx->dm, y, seed);
    DM dr; Vec sr; std::array<int, 2> rf{(int)p("rx", 2), (int)p("ry", 2)};
    check_status(n, cafes::posttraitement::linear_interpolation(s.ctx->dm, y, dr, sr, rf, s.ctx->h));
    for (int e = 0; e < 2; ++e) { Lay l = lay(dr, e); out(TAG_INFO, 1000 + 10 * e, l.i.mx); out(TAG_INFO, 1001 + 10 * e, l.i.my); out(TAG_INFO, 1002 + 10 * e, l.i.dof); }
    emit(dr, sr, TAG_OP + n);
    if (p("saveref")) {
      std::string dir = std::string(scratch) + "/" + fmt("d%d", p("samedir") ? 0 : k);
      int rank; MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
      if (rank == 0) mkdir(dir.c_str(), 0700);
      MPI_Barrier(PETSC_COMM_WORLD);
      std::array<double, 2> hr{s.ctx->h[0] / rf[0], s.ctx->h[1] / rf[1]};
      stage(5); g_io_on = true;
      PetscErrorCode e = cafes::io::save_hdf5(dir.c_str(), fmt("f%d", (int)p(fmt("fn%d", n), p("fname"))).c_str(), sr, dr, hr);
      stage(3); g_io_on = false;
      check_status(n, e);
    }
    double bad = 0; each(s.ctx->dm, y, false, [&](int64_t i, PetscScalar &v) { if (v != hashval(seed, i)) bad++; }); out(TAG_AUX + n, -1, bad);
    MUST(VecDestroy(&y)); MUST(VecDestroy(&sr)); MUST(DMDestroy(&dr));
    break;
  }
  case K_PART: partition(s); break;
  case K_HALO: halo(s, seed, R.dirty); break;
  }
}

// ---------------------------------------------------------------- particles
using Circle = decltype(cafes::make_circle({0., 0.}, 1.));
// the program's own shape, built on the library's as its circle is
struct Ellipse : public cafes::geometry::super_ellipsoid<double, 2> {
  PartP q;
  Ellipse(PartP const &p, cafes::geometry::super_ellipsoid<double, 2> const &s) : cafes::geometry::super_ellipsoid<double, 2>(s), q(p) {}
  double volume() const { return q.vol(); }
  double surface_area() const { return q.area(); }
  double Cd_R() const { return q.cd(); }
  double Ci_R() const { return q.ci(); }
};
static Circle make_shape(const PartP &q, Circle *) { return q.rot != 0 ? cafes::make_circle({q.cx, q.cy}, q.R, {q.rot}) : cafes::make_circle({q.cx, q.cy}, q.R); }
static Ellipse make_shape(const PartP &q, Ellipse *) { return {q, cafes::make_ellipsoid<2>({q.cx, q.cy}, {{q.a, q.b}}, q.e, q.rot != 0 ? cafes::geometry::quaternion{q.rot} : cafes::geometry::quaternion{})}; }
template<class Sh> static std::vector<cafes::particle<Sh>> make_parts(const Params &p, const std::string &pre, bool force)
{
  std::vector<cafes::particle<Sh>> v;
  for (auto &q : parts(p, pre)) {
    auto c = make_shape(q, (Sh *)nullptr);
    if (force) v.push_back(cafes::make_particle_with_force(c, {q.fx, q.fy}, q.rho));
    else v.push_back(cafes::make_particle_with_velocity(c, {q.vx, q.vy}, q.om));
  }
  return v;
}
// natural (particle, velocity dof) index of every local unknown
template<class Part> static std::vector<int64_t> unknowns(Stokes &s, std::vector<Part> const &ps)
{
  std::vector<int64_t> id;
  Lay l = lay(s.ctx->dm, 0);
  auto box = cafes::fem::get_DM_bounds<2>(s.ctx->dm, 0);
  int64_t nu = 2ll * l.i.mx * l.i.my;
  for (std::size_t k = 0; k < ps.size(); ++k) {
    auto pb = ps[k].bounding_box(s.ctx->h);
    if (!cafes::geometry::intersect(box, pb)) continue;
    auto nb = cafes::geometry::overlap_box(box, pb);
    for (auto &q : cafes::find_fluid_points_insides(ps[k], nb, s.ctx->h))
      for (int d = 0; d < 2; ++d) id.push_back((int64_t)k * nu + 2ll * ((int64_t)q[1] * l.i.mx + q[0]) + d);
  }
  return id;
}
static void emitx(Vec v, const std::vector<int64_t> &id, int tag)
{
  PetscScalar const *a; PetscInt n; MUST(VecGetLocalSize(v, &n)); MUST(VecGetArrayRead(v, &a));
  out(TAG_INFO, 5000 + tag, (double)n - (double)id.size());
  for (PetscInt i = 0; i < n && i < (PetscInt)id.size(); ++i) out(tag, id[i], a[i]);
  MUST(VecRestoreArrayRead(v, &a));
}
static void fillx(Vec v, const std::vector<int64_t> &id, uint64_t seed, double amp)
{
  PetscScalar *a; PetscInt n; MUST(VecGetLocalSize(v, &n)); MUST(VecGetArray(v, &a));
  for (PetscInt i = 0; i < n; ++i) a[i] = i < (PetscInt)id.size() ? amp * hashval(seed, id[i]) : NAN;
  MUST(VecRestoreArray(v, &a));
}
template<class S> static void report(S &s, Stokes &st, const std::vector<int64_t> &id)
{
  for (auto i : id) out(TAG_PARTPTS, i, 1);
  for (std::size_t k = 0; k < s.parts_.size(); ++k) {
    out(TAG_PARTINFO, 2 * (int64_t)k, s.num_[k]); out(TAG_PARTINFO, 2 * (int64_t)k + 1, s.nb_surf_points_[k]);
    for (std::size_t i = 0; i < s.surf_points_[k].size(); ++i) {
      auto &q = s.surf_points_[k][i]; auto &r = s.radial_vec_[k][i];
      int64_t b = ((int64_t)k << 32) | ((int64_t)i << 3);
      out(TAG_SURF, b, q.first[0]); out(TAG_SURF, b + 1, q.first[1]); out(TAG_SURF, b + 2, q.second[0]); out(TAG_SURF, b + 3, q.second[1]); out(TAG_SURF, b + 4, r[0]); out(TAG_SURF, b + 5, r[1]);
    }
  }
}
// only the solver with forces has these
template<class S> static void extra(S &, const Params &, int, int, const std::vector<int64_t> &, uint64_t, ...) {}
template<class Sh, std::size_t D, class Pb> static void extra(cafes::problem::SEM<Sh, D, Pb> &s, const Params &p, int n, int kind, const std::vector<int64_t> &id, uint64_t seed, int)
{
  if (kind == Q_VEL) {
    check_status(3000 + n, s.get_new_velocities());
    for (std::size_t k = 0; k < s.parts_.size(); ++k) for (int d = 0; d < 2; ++d) out(TAG_VELO, 1000 * n + 2 * (int64_t)k + d, s.parts_[k].velocity_[d]);
  } else if (kind == Q_FT) {
    fillx(s.sol, id, seed, 1.);
    std::vector<cafes::geometry::vector<double, 2>> f(s.parts_.size()); std::vector<double> t(s.parts_.size());
    // results of an earlier computation may still be in there
    if (p("dirty")) for (std::size_t k = 0; k < f.size(); ++k) { f[k][0] = 1 + hashval(seed, 3 * k); f[k][1] = 2 + hashval(seed, 3 * k + 1); t[k] = 3 + hashval(seed, 3 * k + 2); }
    check_status(3000 + n, s.get_new_forces_torques(f, t));
    for (std::size_t k = 0; k < s.parts_.size(); ++k) { out(TAG_FORCE, 1000 * n + 2 * (int64_t)k, f[k][0]); out(TAG_FORCE, 1000 * n + 2 * (int64_t)k + 1, f[k][1]); out(TAG_TORQUE, 1000 * n + (int64_t)k, t[k]); }
  }
}
using Drive = std::function<void(int, int64_t)>;
// creates operators and vectors; what is returned performs one operation
template<class S> static Drive drive(std::shared_ptr<S> sp, Stokes &st, const Params &p, int k, bool dirty)
{
  DM dm = st.ctx->dm; S &s = *sp;
  g_armed = p("fail_stage") == 2;
  if (dirty) poison_pools(dm);
  check_status(2000 + k, s.create_Mat_and_Vec());
  auto ids = std::make_shared<std::vector<int64_t>>(unknowns(st, s.parts_));
  MUST(VecSet(s.sol, 0.));
  auto ksp = std::make_shared<bool>(false), moved = std::make_shared<bool>(false);
  return [=, &st](int n, int64_t code) {
    S &s = *sp; auto const &id = *ids;
    int kind = opkind(code); uint64_t seed = opseed(code);
    if (dirty) poison_pools(dm);
    switch (kind) {
    case Q_REPORT: report(s, st, id); break;
    case Q_AGAIN: {
      *moved = !*moved;
      auto at = parts(p, k ? "b_" : "", *moved);
      for (std::size_t i = 0; i < at.size(); ++i) s.parts_[i].center_ = {at[i].cx, at[i].cy};
      check_status(3000 + n, s.create_Mat_and_Vec()); MUST(VecSet(s.sol, 0.));
      *ids = unknowns(st, s.parts_); *ksp = false; break;
    }
    case Q_RHS:
      if (dirty) poison(s.rhs);
      check_status(3000 + n, s.setup_RHS()); emitx(s.rhs, id, TAG_POP + n); break;
    case Q_MULT: {
      Vec x, y; MUST(MatCreateVecs(s.A, &x, &y)); fillx(x, id, seed, 1e-3 * p("amp", 1000)); if (dirty) poison(y);
      if (p("mult_rhs")) { s.ctx->compute_rhs = true; } else { s.ctx->compute_rhs = false; s.ctx->add_rigid_motion = false; s.ctx->compute_singularity = false; }
      check_status(3000 + n, MatMult(s.A, x, y)); emitx(y, id, TAG_POP + n);
      MUST(VecDestroy(&x)); MUST(VecDestroy(&y)); break;
    }
    case Q_SOLVE: {
      if (dirty && (seed & 1)) fill(dm, st.sol, seed);
      if (!*ksp) { check_status(4000 + n, s.setup_KSP()); *ksp = true; }
      stage(4);
      check_status(3000 + n, s.solve());
      stage(3);
      KSPConvergedReason r; PetscInt its; MUST(KSPGetConvergedReason(s.ksp, &r)); MUST(KSPGetIterationNumber(s.ksp, &its));
      out(TAG_REASON, 1000 + n, r); out(TAG_ITS, 1000 + n, its);
      emitx(s.sol, id, TAG_POP + n); emit(dm, st.sol, TAG_FINAL + n);
      break;
    }
    default: extra(s, p, n, kind, id, seed, 0);
    }
  };
}

template<class Sh> static Drive control(Stokes &st, const Params &p, int k, const std::string &pre, double dpart, bool dirty)
{
  auto ps = make_parts<Sh>(p, pre, !p(pre + "dton"));
  if (p(pre + "dton")) {
    using D = decltype(cafes::make_DtoN(ps, st, dpart));
    auto s = std::shared_ptr<D>(new D(cafes::make_DtoN(ps, st, dpart))); s->use_sing = p(pre + "sing"); s->scale_ = (std::size_t)p(pre + "scale", 4);
    return drive(s, st, p, k, dirty);
  }
  using D = decltype(cafes::make_SEM(ps, st, dpart));
  auto s = std::shared_ptr<D>(new D(cafes::make_SEM(ps, st, dpart))); s->scale_ = (std::size_t)p(pre + "scale", 4);
  return drive(s, st, p, k, dirty);
}

// The program's own traffic on the communicator of the whole job, which the
// library has no business with: receives posted before it starts and completed
// after it ends, whatever it does in between.
struct Bystander {
  std::vector<int> peer; std::vector<double> in; std::vector<MPI_Request> rq; int me = 0; bool on = false;
  static double token(int from, int to) { return 1000 * from + to + 0.5; }
  void post(const Params &p, int rank, int group)
  {
    if (!p("sub")) return;
    on = true; me = rank;
    int np = (int)p("np", 1), ex = (int)p("extra");
    for (int i = 0; i < (group ? np : ex); ++i) peer.push_back(job_rank(p, i, 1 - group));
    in.assign(peer.size(), 0); rq.resize(peer.size());
    for (std::size_t i = 0; i < peer.size(); ++i) MPI_Irecv(&in[i], 1, MPI_DOUBLE, peer[i], 0, MPI_COMM_WORLD, &rq[i]);
    if (group) tell();
  }
  void tell() { for (int q : peer) { double t = token(me, q); MPI_Send(&t, 1, MPI_DOUBLE, q, 0, MPI_COMM_WORLD); } }
  void finish(int group)
  {
    if (!on) return;
    if (!group) tell();
    MPI_Waitall((int)rq.size(), rq.data(), MPI_STATUSES_IGNORE);
    for (std::size_t i = 0; i < peer.size(); ++i) if (in[i] != token(peer[i], me)) { snprintf(g_mb->errmsg, sizeof g_mb->errmsg, "a message of the program itself from process %d arrived as %g", peer[i], in[i]); quit(62); }
  }
};

int rank_main(const Params &p, int rank, const char *job_scratch)
{
#ifdef __SANITIZE_ADDRESS__
  __asan_set_error_report_callback(on_report);
#endif
  std::string scr = job_scratch; int group = 0, me = rank; Bystander by;
  if (p("sub")) {
    for (int g = 0; g < 2; ++g) for (int i = 0; i < (int)(g ? p("extra") : p("np", 1)); ++i) if (job_rank(p, i, g) == rank) { group = g; me = i; }
    MPI_Comm mine; MPI_Comm_split(MPI_COMM_WORLD, group, me, &mine);
    PETSC_COMM_WORLD = mine;
    by.post(p, rank, group);
    if (group) { // the rest of the job: something else, or a program of its own
      for (int i = 0; i < 3; ++i) { double a = rank, b; MPI_Allreduce(&a, &b, 1, MPI_DOUBLE, MPI_SUM, mine); }
      if (!p("subb")) { by.finish(group); return 0; }
      scr += "/g1"; if (me == 0) mkdir(scr.c_str(), 0700);
      MPI_Barrier(mine);
      me = -1;       // faults are for the other program
    }
  }
  const char *scratch = scr.c_str();
  snprintf(g_scratch, sizeof g_scratch, "%s", scratch);
  stage(1); census(-1); g_soft = p("soft");
  G[0] = PP::get(p, ""); G[1] = PP::get(p, "b_");
  std::vector<std::string> av{"sim", "-no_signal_handler", "-options_left", "no", "-nox", "-skip_petscrc"};
  static const char *tsf[] = {"allreduce", "ibarrier", "redscatter"};
  av.push_back("-build_twosided"); av.push_back(tsf[p("twosided") % 3]);
  if (p("sfneighbor")) {}
  std::vector<char *> argv; for (auto &s : av) argv.push_back(&s[0]); argv.push_back(nullptr);
  int argc = (int)av.size(); char **ap = argv.data();
  if (p("perturb") || p("fail_at") || p("cycles")) {
    // every allocation PETSc makes goes through the simulator
    PetscMallocSet(x_malloc, x_free, x_realloc);
  }
  PetscErrorCode ie = PetscInitialize(&argc, &ap, nullptr, nullptr);
  if (ie) { snprintf(g_mb->errmsg, sizeof g_mb->errmsg, "PetscInitialize returned %d", ie); quit(61); }
  PetscPushErrorHandler(on_error, nullptr);
  g_fail_at = (p("fail_rank") == me) ? p("fail_at") : 0; g_sites = g_fail_at == int64_t(1) << 40;
  if (g_sites) { void *f[4]; backtrace(f, 4); }
  g_fluidit = (int)p("fluidit", 3000);
  Run R; R.dirty = p("dirty");
  stage(2);
  int nprob = p("two") ? 2 : 1; bool shared = p("shared");    // one fluid for both sets of particles
  g_armed = p("fail_stage") == 3;
  for (int k = 0; k < (shared ? 1 : nprob); ++k) R.s[k] = make_problem(k);
  stage(3);
  g_armed = p("fail_stage") == 1;
  Drive dr[2];
  auto make1 = [&](int k) {
      std::string pre = k ? "b_" : ""; if (!p(pre + "npart") && !p(pre + "none")) return;
      Stokes &st = *R.s[shared ? 0 : k];
      solver_options(k); if (G[k].solver == 5) opt("-stokes_ksp_rtol", "1e-9");
      opt("-sem_ksp_type", p("semtype") ? "fgmres" : "gmres"); opt("-sem_ksp_rtol", "1e-9"); opt("-sem_ksp_atol", "1e-12"); opt("-sem_ksp_max_it", fmt("%d", (int)p("semit", 60)));
      opt("-dton_ksp_type", "gmres"); opt("-dton_ksp_rtol", "1e-9"); opt("-dton_ksp_atol", "1e-12"); opt("-dton_ksp_max_it", fmt("%d", (int)p("semit", 60)));
      double dpart = 1e-6 * p(pre + "dpart", 50000);
      dr[k] = p(pre + "shape") ? control<Ellipse>(st, p, k, pre, dpart, R.dirty) : control<Circle>(st, p, k, pre, dpart, R.dirty);
  };
  auto make = [&] { if (!p("steps")) for (int k = 0; k < nprob; ++k) make1(k); };
  // in a time loop each step has a particle problem of its own, and the last one goes
  int alive = -1;
  auto part = [&](int n) {
    int64_t c = p(fmt("pop%d", n)); int k = opprob(c);
    if (p("steps") && alive != k) { dr[0] = dr[1] = nullptr; make1(k); alive = k; }
    if (dr[k]) dr[k](n, c);
  };
  // all operations on the fluid, then those on the particles; or by turns
  bool mix = p("mix");
  if (mix) make();
  // the script, once or over and over
  for (int cycle = 0; cycle <= (int)p("cycles"); ++cycle) {
    g_mute = cycle > 0;
    for (int n = 0; p(fmt("op%d", n)) || (mix && p(fmt("pop%d", n))); ++n) {
      if (g_stop) break;
      if (p(fmt("op%d", n))) do_op(R, p, n, p(fmt("op%d", n)), scratch);
      if (mix && p(fmt("pop%d", n))) part(n);
    }
    if (!mix) {
      if (!cycle) make();
      for (int n = 0; p(fmt("pop%d", n)); ++n) part(n);
    }
    g_mute = false;
    if (p("cycles")) census(cycle);
  }
  g_armed = false;
  { std::map<int64_t, Site> s; for (auto &k : g_site) s[k.second.first] = k.second;      // in the order of their first request
    int64_t n = 0; for (auto &k : s) { out(TAG_SITE, n, (double)k.second.first); out(TAG_SITE, n + 1, (double)k.second.last); out(TAG_SITE, n + 2, (double)k.second.other); n += 3; } }
  stage(6);
  if (p("fin")) { PetscPopErrorHandler(); MUST(PetscFinalize()); }
  by.finish(group);
  return 0;
}
} // namespace sim
