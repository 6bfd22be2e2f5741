// Discretisation, solver, schedule and history properties.
#include "props.h"
#include <memory>
namespace sim {
static const std::vector<std::pair<std::string, int64_t>> GRID_S = {{"unit", 0}, {"resetup", 0}, {"mx", 3}, {"my", 3}, {"lx", 1000}, {"ly", 1000}, {"xper", 0}, {"yper", 0}, {"strain", 0}, {"asm", 0}, {"rhsmode", 0}, {"bcmode", 3}, {"op1", 0}, {"op2", 0}};
// lengths far from one
static void gen_unit(Rng &r, Params &p, bool small) { static const int us[] = {-6, -4, -2, 2, 4}; if (r.below(5) == 0) p["unit"] = us[r.below(small ? 3 : 5)]; }
static void gen_mask(Rng &r, Params &p, bool full) { p["mask"] = full || r.below(2) ? 255 : (int64_t)r.below(256); }


// factorised reference problems are reused while the worker lives
static std::shared_ptr<ref::Solver> solver_for(const PP &q)
{
  static std::map<std::string, std::shared_ptr<ref::Solver>> cache;
  auto g = grid(q);
  std::string key = fmt("%d %d %g %g %d %d %d %d", q.mx, q.my, q.Lx, q.Ly, q.xper, q.yper, q.strain, q.mask);
  if (cache.size() > 200) cache.clear();
  auto &s = cache[key]; if (!s) s = std::make_shared<ref::Solver>(g, q.strain, q.m());
  return s;
}
std::shared_ptr<ref::Solver> reference_solver(const PP &q) { return solver_for(q); }
Violation check_solution(const Field &f, const PP &q, const ref::Grid &g, const ref::Vec &want, double tol, const std::string &what, double vscale)
{
  Field h = f;
  if (f.n == g.n() && !f.dup && !f.out_of_range) { ref::Vec x = f.v; ref::demean(g, x); h.v = x; }
  ref::Vec w = want; ref::demean(g, w);
  Violation v = compare(h, w, tol, "velocity", what + " velocity", &g, 0, g.nu(), std::max(1e-3, vscale)); if (!v.cls.empty()) return v;
  // the prescribed values hold to solver accuracy on the boundary itself
  // pressure scales with the velocity gradients even where it vanishes
  double su = vscale; for (int64_t i = 0; i < g.nu(); ++i) su = std::max(su, std::fabs(w[i]));
  double hm = std::min(g.hx, g.hy);
  return compare(h, w, 10 * tol, "pressure", what + " pressure", &g, g.nu(), g.n(), su * std::max(g.hx, g.hy) / (hm * hm));
}
// Every operation of a script against its reference.
Violation check_solves(Ctx &c, const Params &p)
{
  Violation v; Result r = c.run(p);
  if (!sane(r, v)) return v;
  v = statuses(c, p); if (!v.cls.empty()) return v;
  return verify_solves(c, p);
}
Violation verify_solves(Ctx &c, const Params &p)
{
  Violation v;
  for (int n = 0; p(fmt("op%d", n)); ++n) {
    int64_t code = p(fmt("op%d", n)); int kind = opkind(code), k = opprob(code); uint64_t seed = opseed(code);
    PP q = PP::get(p, k ? "b_" : ""); auto g = grid(q);
    Field f = collect(c.sh, (int)p("np"), TAG_OP + n, g.n());
    ref::Vec y;
    switch (kind) {
    case K_MULTA: y = ref::applyA(g, input(seed, g.n()), q.strain, q.m()); v = compare(f, y, 1e-11, "product", fmt("operation %d: operator times vector", n), &g); break;
    case K_MULTP: y = ref::applyP(g, input(seed, g.n()), q.strain, q.m()); v = compare(f, y, 1e-11, "product", fmt("operation %d: preconditioner times vector", n), &g); break;
    case K_RHS: ref_rhs(q, g, y); v = compare(f, y, 1e-11, "rhs", fmt("operation %d: right-hand side", n), &g); break;
    case K_DIAGP: break;
    case K_MASS: { ref::Vec x = input(seed, g.n()); y = ref::mass(g, x); ref::Vec z = ref::applyP(g, x, q.strain, q.m()); for (int64_t i = g.nu(); i < g.n(); ++i) y[i] = z[i]; v = compare(f, y, 1e-11, "mass", fmt("operation %d: mass matrix times vector", n), &g); break; }
    case K_SOLVE: {
      double reason = record(c.sh, 0, TAG_REASON, n, 0);
      for (int rk = 0; rk < (int)p("np"); ++rk) if (record(c.sh, rk, TAG_REASON, n, 0) != reason) return {"reason", "processes disagree on the outcome of the solve"};
      if (reason <= 0) return {"not-converged", fmt("operation %d: the solver stopped with reason %g after %g iterations", n, reason, record(c.sh, 0, TAG_ITS, n, 0))};
      auto S = solver_for(q); if (!S->ok) return {};
      ref::Vec b; ref_rhs(q, g, b);
      // iterations stop relative to the data, also where the load is balanced by the pressure alone
      double fs = 0, L = std::min(g.Lx, g.Ly); for (int d = 0; d < 2; ++d) if (rhscomp(q, d)) for (double x : {0., g.Lx}) for (double z : {0., g.Ly}) fs = std::max(fs, std::fabs(rhsval(q, d, x, z)));
      v = check_solution(f, q, g, S->solve(b), q.pmm ? 1e-3 : q.solver == 1 ? 2e-2 : 2e-6, fmt("operation %d: solution", n), 0.02 * fs * L * L);
      break;
    }
    }
    if (!v.cls.empty()) return v;
    if (kind == K_MULTA || kind == K_MULTP || kind == K_MASS) { v = untouched(c, p, n); if (!v.cls.empty()) return v; }
  }
  return {};
}

// multigrid needs grids that can be halved once per level
static void mg_grid(Rng &r, Params &p, const std::string &pre, int hi, int np)
{
  for (;;) {
    gen_grid(r, p, pre, 3, hi, np, true, 0);
    PP q = PP::get(p, pre); auto g = grid(q); int k = std::min(g.nux, g.nuy), f = 1; while (k > 8) { k >>= 1; f *= 2; }
    int ex = g.nux - !q.xper, ey = g.nuy - !q.yper; double hr = g.hx / g.hy;
    if (hr > 0.6 && hr < 1.7 && ex % f == 0 && ey % f == 0 && layout_ok(np, g.npx / f, g.npy / f)) return;
  }
}
// how a program goes about solving: perhaps with a new solver each time
static void again(Rng &r, Params &p) { p["resetup"] = r.below(4) == 0; }
std::vector<Property> props_fem()
{
  std::vector<Property> v;
  {
    Property P; P.id = "C02"; P.title = "Stokes operator equals the discrete operator";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; bool w = gen_wide(r); gen_env(r, p, np_wide(w, th ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{1, 1, 2, 2, 3, 4, 4, 6}));
      gen_grid(r, p, "", 3, w ? 40 : th ? 14 : 9, (int)p("np"), true, 1); gen_unit(r, p, false);
      p["strain"] = r.below(2); p["asm"] = r.below(2); gen_mask(r, p, p("asm"));
      p["reuse"] = r.below(3) == 0;
      int n = (int)r.range(1, 2);
      for (int i = 0; i < n; ++i) p[fmt("op%d", i)] = K_MULTA + 100 * r.range(1, 1000);
      p["cfg"] = p("strain") + 2 * p("asm") + 4 * p("xper") + 8 * p("yper");
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v; PP q = PP::get(p, ""); auto g = grid(q);
      Result r = c.run(p);
      if (!sane(r, v)) return v;
      for (int n = 0; p(fmt("op%d", n)); ++n) {
        ref::Vec x = input(p(fmt("op%d", n)) / 100, g.n()), y = ref::applyA(g, x, q.strain, q.m());
        for (int e = 0; e < 2; ++e) { v = compare(collect(c.sh, (int)p("np"), TAG_OP + n, g.n()), y, 1e-11, q.asmb ? "assembled" : "matrix-free", "operator times vector", &g, e ? g.nu() : 0, e ? g.n() : g.nu()); if (!v.cls.empty()) return v; }
        v = untouched(c, p, n); if (!v.cls.empty()) return v;
      }
      return {};
    };
    P.simplify = simplify(GRID_S); P.rule = "a run whose full product vector was compared"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  {
    Property P; P.id = "C01"; P.title = "Mesh ownership and halo exchange";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; bool w = gen_wide(r); gen_env(r, p, np_wide(w, std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8}));
      gen_grid(r, p, "", 3, w ? 80 : th ? 40 : 14, (int)p("np"), true, 1); gen_unit(r, p, false);
      p["asm"] = 0; setops(p, {K_PART, K_HALO + 100 * r.range(1, 1000)});
      p["cfg"] = p("xper") + 2 * p("yper");
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v; PP q = PP::get(p, ""); auto g = grid(q); int np = (int)p("np");
      if (!sane(c.run(p), v)) return v;
      struct B { int xs, ys, xm, ym, gxs, gys, gxm, gym; };
      std::vector<B> bx[2];
      for (int e = 0; e < 2; ++e) {
        int M = e ? g.npx : g.nux, N = e ? g.npy : g.nuy;
        std::vector<int> own(M * N, -1);
        for (int r = 0; r < np; ++r) {
          auto I = [&](int k) { return (int)record(c.sh, r, TAG_INFO, 100 * e + k, -1); };
          if (I(4) != M || I(5) != N || I(6) != (e ? 1 : 2)) return {"size", fmt("%s grid is %dx%d with %d components on rank %d, expected %dx%d with %d", e ? "pressure" : "velocity", I(4), I(5), I(6), r, M, N, e ? 1 : 2)};
          if (I(7) != (q.xper ? 3 : 0) || I(8) != (q.yper ? 3 : 0)) { // DM_BOUNDARY_PERIODIC is 3
            return {"periodicity", fmt("boundary types %d,%d on rank %d", I(7), I(8), r)};
          }
          B b{I(0), I(1), I(2), I(3), I(9), I(10), I(11), I(12)}; bx[e].push_back(b);
          for (int j = b.ys; j < b.ys + b.ym; ++j) for (int i = b.xs; i < b.xs + b.xm; ++i) {
            if (i < 0 || j < 0 || i >= M || j >= N) return {"ownership", fmt("rank %d owns (%d,%d) outside the %s grid", r, i, j, e ? "pressure" : "velocity")};
            if (own[j * M + i] >= 0) return {"ownership", fmt("%s node (%d,%d) is owned by ranks %d and %d", e ? "pressure" : "velocity", i, j, own[j * M + i], r)};
            own[j * M + i] = r;
          }
          // one layer of neighbours, corners included
          int lo[2] = {b.xs - 1, b.ys - 1}, hi[2] = {b.xs + b.xm, b.ys + b.ym};
          if (!q.xper) { lo[0] = std::max(lo[0], 0); hi[0] = std::min(hi[0], M - 1); }
          if (!q.yper) { lo[1] = std::max(lo[1], 0); hi[1] = std::min(hi[1], N - 1); }
          if (b.gxs > lo[0] || b.gys > lo[1] || b.gxs + b.gxm - 1 < hi[0] || b.gys + b.gym - 1 < hi[1]) return {"halo-width", fmt("rank %d cannot see its neighbours on the %s grid", r, e ? "pressure" : "velocity")};
        }
        for (int k = 0; k < M * N; ++k) if (own[k] < 0) return {"ownership", fmt("%s node (%d,%d) is owned by nobody", e ? "pressure" : "velocity", k % M, k / M)};
      }
      for (int r = 0; r < np; ++r) {
        B &a = bx[0][r], &b = bx[1][r];
        // every pressure cell that starts on this rank has its velocity nodes on it or in its halo
        bool nest = a.xs == 2 * b.xs && a.ys == 2 * b.ys;
        int ex = 2 * b.xm - (!q.xper && b.xs + b.xm == g.npx), ey = 2 * b.ym - (!q.yper && b.ys + b.ym == g.npy);
        if (!nest || a.xm != ex || a.ym != ey) return {"nesting", fmt("rank %d owns velocity [%d,%d)x[%d,%d) but pressure [%d,%d)x[%d,%d)", r, a.xs, a.xs + a.xm, a.ys, a.ys + a.ym, b.xs, b.xs + b.xm, b.ys, b.ys + b.ym)};
        double h[2] = {record(c.sh, r, TAG_INFO, 200, 0), record(c.sh, r, TAG_INFO, 201, 0)};
        if (std::fabs(h[0] - g.hx) > 1e-14 * g.hx || std::fabs(h[1] - g.hy) > 1e-14 * g.hy) return {"spacing", fmt("rank %d: spacing %.17g,%.17g expected %.17g,%.17g", r, h[0], h[1], g.hx, g.hy)};
        int all[4] = {a.xs, a.ys, a.xs + a.xm, a.ys + a.ym}, in[4] = {a.xs, a.ys, a.xs + a.xm - (!q.xper && a.xs + a.xm == g.nux), a.ys + a.ym - (!q.yper && a.ys + a.ym == g.nuy)};
        for (int k = 0; k < 4; ++k) {
          if (record(c.sh, r, TAG_INFO, 210 + k, -1) != all[k]) return {"bounds", fmt("rank %d: bound %d of the owned box is wrong", r, k)};
          if (record(c.sh, r, TAG_INFO, 220 + k, -1) != in[k]) return {"bounds", fmt("rank %d: bound %d of the box of owned cells is wrong", r, k)};
        }
      }
      uint64_t seed = p("op1") / 100;
      ref::Vec cnt(g.n(), 0.);
      for (int e = 0; e < 2; ++e) for (int r = 0; r < np; ++r) {
        B &b = bx[e][r]; int M = e ? g.npx : g.nux, N = e ? g.npy : g.nuy, dof = e ? 1 : 2;
        for (int j = b.gys; j < b.gys + b.gym; ++j) for (int i = b.gxs; i < b.gxs + b.gxm; ++i) for (int d = 0; d < dof; ++d) {
          int I = ((i % M) + M) % M, J = ((j % N) + N) % N;
          cnt[(e ? g.nu() : 0) + (int64_t)dof * (J * M + I) + d] += 1 + d;
        }
      }
      for (int r = 0; r < np; ++r) {
        auto h = records(c.sh, r, TAG_HALO); size_t at = 0;
        for (int e = 0; e < 2; ++e) {
          B &b = bx[e][r]; int M = e ? g.npx : g.nux, N = e ? g.npy : g.nuy, dof = e ? 1 : 2;
          for (int j = b.gys; j < b.gys + b.gym; ++j) for (int i = b.gxs; i < b.gxs + b.gxm; ++i) for (int d = 0; d < dof; ++d, ++at) {
            int I = ((i % M) + M) % M, J = ((j % N) + N) % N;
            double want = hashval(seed, (e ? g.nu() : 0) + (int64_t)dof * (J * M + I) + d);
            if (at >= h.size() || h[at].val != want) return {"halo", fmt("rank %d sees %.17g at (%d,%d) component %d of the %s grid, its owner holds %.17g", r, at < h.size() ? h[at].val : NAN, i, j, d, e ? "pressure" : "velocity", want)};
          }
        }
      }
      return compare(collect(c.sh, np, TAG_AUX, g.n()), cnt, 1e-14, "accumulate", "sum of the contributions of all processes", &g);
    };
    P.simplify = simplify({{"unit", 0}, {"mx", 3}, {"my", 3}, {"lx", 1000}, {"ly", 1000}, {"xper", 0}, {"yper", 0}}); P.rule = "a run in which ownership, boxes, ghost values and accumulation were all checked"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  {
    Property P; P.id = "C03"; P.title = "Load vector and boundary values";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; bool w = gen_wide(r); gen_env(r, p, np_wide(w, th ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{1, 2, 2, 3, 4, 6}));
      gen_grid(r, p, "", 3, w ? 48 : th ? 16 : 10, (int)p("np"), true, 1); gen_unit(r, p, true);
      gen_mask(r, p, false); p["bcseed"] = r.range(1, 100000); p["rhsseed"] = r.range(1, 100000); p["rhsmode"] = r.below(5);
      p["bcmode"] = r.below(3) == 0 ? 1 + r.below(3) : 0;
      setops(p, {K_RHS + 100}); if (r.below(2)) p["op1"] = r.below(2) ? K_RHS + 200 : mkop(K_MASS, 0, r.range(1, 1000));
      p["cfg"] = p("rhsmode") + 8 * p("xper") + 16 * p("yper");
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v; PP q = PP::get(p, ""); auto g = grid(q);
      if (!sane(c.run(p), v)) return v;
      for (int n = 0; p(fmt("op%d", n)); ++n) {
        if (opkind(p(fmt("op%d", n))) == K_MASS) continue;
        Field f = collect(c.sh, (int)p("np"), TAG_OP + n, g.n());
        ref::Vec want; ref_rhs(q, g, want); auto m = q.m();
        // where borders meet, any of their values will do
        if (!q.xper && !q.yper) for (int bx = 0; bx < 2; ++bx) for (int by = 2; by < 4; ++by) for (int d = 0; d < 2; ++d) {
          int i = bx ? g.nux - 1 : 0, j = by == 3 ? g.nuy - 1 : 0; int64_t k = g.iu(i, j, d);
          for (int b : {bx, by}) if (m[b][d]) { double x = bcval(q, b, d, i * g.hx, j * g.hy); if (std::fabs(f.v[k] - x) < 1e-13) want[k] = x; }
        }
        // boundary values and load are judged on their own scale
        v = compare(f, want, 1e-11, "rhs", "right-hand side", &g); if (!v.cls.empty()) return v;
        double sc = 0; for (int64_t k = 0; k < g.nu(); ++k) { int i = (int)(k / 2 % g.nux), j = (int)(k / 2 / g.nux); if (!g.dir(i, j, k % 2, m)) sc = std::max(sc, std::fabs(want[k])); }
        for (int64_t k = 0; k < g.n(); ++k) {
          int i = (int)(k / 2 % g.nux), j = (int)(k / 2 / g.nux);
          if (k < g.nu() && g.dir(i, j, k % 2, m)) { if (f.v[k] != want[k] && std::fabs(f.v[k] - want[k]) > 1e-13 * (1 + std::fabs(want[k]))) return {"boundary-value", fmt("%s is %.17g, prescribed %.17g", where(g, k).c_str(), f.v[k], want[k])}; }
          else if (std::fabs(f.v[k] - want[k]) > 1e-11 * sc) return {"load", fmt("%s is %.12g, expected %.12g", where(g, k).c_str(), f.v[k], want[k])};
        }
      }
      Params q2 = p; for (int n = 0; p(fmt("op%d", n)); ++n) if (opkind(p(fmt("op%d", n))) != K_MASS) q2[fmt("op%d", n)] = K_DIAGP;
      return verify_solves(c, q2);
    };
    P.simplify = simplify(GRID_S); P.rule = "a run whose full right-hand side was compared"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  {
    Property P; P.id = "C16"; P.title = "Preconditioner blocks and their diagonal";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; bool w = gen_wide(r); gen_env(r, p, np_wide(w, th ? std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{1, 1, 2, 2, 3, 4, 4, 6}));
      gen_grid(r, p, "", 3, w ? 32 : th ? 10 : 7, (int)p("np"), true, 1); gen_unit(r, p, false);
      p["strain"] = r.below(2); p["asm"] = r.below(2); gen_mask(r, p, p("asm"));
      p["reuse"] = r.below(3) == 0;
      int k = r.below(3);
      if (k == 0) setops(p, {K_MULTP + 100 * r.range(1, 1000)}); else if (k == 1) setops(p, {K_DIAGP}); else setops(p, {K_DIAGP, K_MULTP + 100 * r.range(1, 1000)});
      p["cfg"] = p("strain") + 2 * p("asm") + 4 * p("xper") + 8 * p("yper");
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v; PP q = PP::get(p, ""); auto g = grid(q);
      if (!sane(c.run(p), v)) return v;
      for (int n = 0; p(fmt("op%d", n)); ++n) {
        ref::Vec y;
        bool diag = opkind(p(fmt("op%d", n))) == K_DIAGP;
        if (diag) {
          y.assign(g.n(), 0.);
          // columns far enough apart do not overlap: probe in colours
          ref::Vec x(g.n());
          for (int64_t k = 0; k < g.n(); ++k) { std::fill(x.begin(), x.end(), 0.); x[k] = 1; if (g.n() > 700) break; y[k] = ref::applyP(g, x, q.strain, q.m())[k]; }
          if (g.n() > 700) continue;
        } else { ref::Vec x = input(p(fmt("op%d", n)) / 100, g.n()); y = ref::applyP(g, x, q.strain, q.m()); }
        Field f = collect(c.sh, (int)p("np"), TAG_OP + n, g.n());
        std::string cls = std::string(diag ? "diagonal" : "product") + (q.asmb ? "-assembled" : "-matrix-free");
        if (diag && !q.asmb) {
          // the matrix-free preconditioner approximates its diagonal on prescribed
          // rows, and uses the gradient form's for the strain form: there only
          // that it can be divided by is required
          auto m = q.m();
          for (int64_t k = 0; k < g.nu(); ++k) {
            int i = (int)(k / 2 % g.nux), j = (int)(k / 2 / g.nux);
            if (!q.strain && !g.dir(i, j, (int)(k % 2), m)) continue;
            if (!(f.v[k] > 0 && f.v[k] < 1e6)) return {cls, fmt("preconditioner diagonal of %s is %g", where(g, k).c_str(), f.v[k])};
            y[k] = f.v[k];
          }
        }
        v = compare(f, y, 1e-11, cls, diag ? "preconditioner diagonal, velocity" : "velocity block times vector", &g, 0, g.nu()); if (!v.cls.empty()) return v;
        v = compare(f, y, 1e-11, cls + "-pressure", diag ? "preconditioner diagonal, pressure" : "pressure mass times vector", &g, g.nu(), g.n()); if (!v.cls.empty()) return v;
        if (!diag) { v = untouched(c, p, n); if (!v.cls.empty()) return v; }
      }
      return {};
    };
    P.simplify = simplify(GRID_S); P.rule = "a run whose full product or diagonal was compared"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  {
    Property P; P.id = "C04"; P.title = "Solve returns the discrete solution";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; gen_env(r, p, th ? std::vector<int>{1, 2, 3, 4, 5, 6, 8} : std::vector<int>{1, 1, 2, 2, 3, 4});
      int s = r.below(20); // 1 direct, 2 redundant, 3 assembled gmres, 4 matrix-free gmres, 5 multigrid
      int sol = s < 4 ? 1 : s < 10 ? 2 : s < 12 ? 3 : s < 18 ? 4 : 5;
      if (sol == 1) p["np"] = 1;
      if (sol == 5) { p["np"] = std::min<int64_t>(p("np"), th ? 4 : 2); p["stepcap"] = 6000000; }
      if (sol == 5) mg_grid(r, p, "", th ? 17 : 9, (int)p("np"));
      else gen_grid(r, p, "", 3, sol < 3 ? (th ? 10 : 7) : 5, (int)p("np"), true, 0);
      p["solver"] = sol; p["asm"] = sol <= 3; p["pmm"] = sol == 5; p["strain"] = r.below(2);
      p["bcmode"] = r.range(1, 3); p["bcseed"] = r.range(1, 100000); p["rhsseed"] = r.range(1, 100000); p["rhsmode"] = r.below(5);
      int n = (sol != 5 || p("np") == 1) && r.below(4) == 0 ? 2 : 1; again(r, p);
      for (int i = 0; i < n; ++i) p[fmt("op%d", i)] = K_SOLVE + 100 * r.range(1, 1000);
      p["cfg"] = 10 * sol + p("strain") + 2 * p("xper") + 4 * p("yper");
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation { return check_solves(c, p); };
    P.simplify = simplify(GRID_S); P.rule = "a run whose solution was compared with the reference solution"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  {
    Property P; P.id = "C15"; P.title = "Results do not depend on history";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; gen_env(r, p, th ? std::vector<int>{1, 2, 3, 4, 6} : std::vector<int>{1, 2, 2, 3, 4});
      p["two"] = 1; int np = (int)p("np");
      for (std::string pre : {"", "b_"}) {
        int sol = r.below(3) == 0 ? 2 : 4; if (np == 1 && r.below(3) == 0) sol = 1;
        if (np == 1 && r.below(5) == 0) sol = 5;
        if (sol == 5) { mg_grid(r, p, pre, th ? 9 : 5, np); p["stepcap"] = 6000000; } else gen_grid(r, p, pre, 3, sol == 4 ? 4 : 6, np, true, 0);
        p[pre + "solver"] = sol; p[pre + "asm"] = sol < 4; p[pre + "pmm"] = sol == 5; p[pre + "strain"] = r.below(2);
        p[pre + "bcmode"] = r.range(1, 3); p[pre + "bcseed"] = r.range(1, 100000); p[pre + "rhsseed"] = r.range(1, 100000); p[pre + "rhsmode"] = r.below(5);
      }
      p["reuse"] = r.below(2); p["dirty"] = r.below(5) != 0; again(r, p);
      int n = (int)r.range(3, th ? 9 : 6);
      static const int ks[] = {K_MULTA, K_MULTA, K_MULTP, K_RHS, K_RHS, K_SOLVE, K_DIAGP, K_MASS};
      for (int i = 0; i < n; ++i) p[fmt("op%d", i)] = mkop(ks[r.below(8)], r.below(2), r.range(1, 1000));
      if (r.below(3) == 0) history_particles(r, p, th);
      p["cfg"] = n;
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation { Violation v = check_solves(c, p); return v.cls.empty() ? verify_particles(c, p) : v; };
    auto sm = GRID_S; for (auto &k : GRID_S) if (k.first[0] != 'o') sm.push_back({"b_" + k.first, k.second}); for (int i = 8; i > 1; --i) sm.push_back({fmt("op%d", i), 0}); for (int i = 4; i >= 0; --i) sm.push_back({fmt("pop%d", i), 0});
    P.simplify = simplify(sm); P.rule = "a run in which every operation of the script was compared with its reference"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  {
    Property P; P.id = "C11"; P.title = "Refined interpolation";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; bool w = gen_wide(r); gen_env(r, p, np_wide(w, th ? std::vector<int>{1, 2, 3, 4, 5, 6, 8} : std::vector<int>{1, 1, 2, 3, 4}));
      gen_grid(r, p, "", 3, w ? 14 : th ? 9 : 6, (int)p("np"), true, 1); gen_unit(r, p, false);
      p["rx"] = r.range(1, w ? 9 : 4); p["ry"] = r.below(2) ? p("rx") : r.range(1, w ? 9 : 4);
      setops(p, {K_INTERP + 100 * r.range(1, 1000)}); if (r.below(3) == 0) p["op1"] = K_INTERP + 100 * r.range(1, 1000);
      p["cfg"] = p("rx") + 8 * p("ry") + 64 * p("xper") + 128 * p("yper");
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v; PP q = PP::get(p, ""); auto g = grid(q); int rx = (int)p("rx", 2), ry = (int)p("ry", 2), np = (int)p("np");
      if (!sane(c.run(p), v)) return v;
      int MU = q.xper ? g.nux * rx : (g.nux - 1) * rx + 1, NU = q.yper ? g.nuy * ry : (g.nuy - 1) * ry + 1;
      int MP = q.xper ? g.npx * rx : (g.npx - 1) * rx + 1, NP = q.yper ? g.npy * ry : (g.npy - 1) * ry + 1;
      int64_t n = 2ll * MU * NU + 1ll * MP * NP;
      for (int e = 0; e < 2; ++e) {
        int m = (int)record(c.sh, 0, TAG_INFO, 1000 + 10 * e, -1), nn = (int)record(c.sh, 0, TAG_INFO, 1001 + 10 * e, -1);
        if (m != (e ? MP : MU) || nn != (e ? NP : NU)) return {"refined-size", fmt("refined %s grid is %dx%d, expected %dx%d", e ? "pressure" : "velocity", m, nn, e ? MP : MU, e ? NP : NU)};
      }
      for (int o = 0; p(fmt("op%d", o)); ++o) {
        ref::Vec x = input(p(fmt("op%d", o)) / 100, g.n()), y(n);
        auto lin = [&](int I, int J, int M, int N, std::function<double(int, int)> f) {
          int i = I / rx, j = J / ry; double a = (double)(I % rx) / rx, b = (double)(J % ry) / ry;
          int i1 = (i + 1) % M, j1 = (j + 1) % N;
          return (1 - a) * (1 - b) * f(i, j) + (a > 0 ? a * (1 - b) * f(i1, j) : 0) + (b > 0 ? (1 - a) * b * f(i, j1) : 0) + (a > 0 && b > 0 ? a * b * f(i1, j1) : 0);
        };
        for (int J = 0; J < NU; ++J) for (int I = 0; I < MU; ++I) for (int d = 0; d < 2; ++d) y[2 * (1ll * J * MU + I) + d] = lin(I, J, g.nux, g.nuy, [&](int i, int j) { return x[g.iu(i, j, d)]; });
        for (int J = 0; J < NP; ++J) for (int I = 0; I < MP; ++I) y[2ll * MU * NU + 1ll * J * MP + I] = lin(I, J, g.npx, g.npy, [&](int i, int j) { return x[g.ip(i, j)]; });
        Field f = collect(c.sh, np, TAG_OP + o, n);
        v = compare(f, y, 1e-11, "velocity", "refined velocity", nullptr, 0, 2ll * MU * NU); if (!v.cls.empty()) return v;
        v = compare(f, y, 1e-11, "pressure", "refined pressure", nullptr, 2ll * MU * NU, n); if (!v.cls.empty()) return v;
        v = untouched(c, p, o); if (!v.cls.empty()) return v;
      }
      return {};
    };
    P.simplify = simplify({{"unit", 0}, {"mx", 3}, {"my", 3}, {"lx", 1000}, {"ly", 1000}, {"xper", 0}, {"yper", 0}, {"rx", 1}, {"ry", 1}, {"op1", 0}}); P.rule = "a run whose refined fields were compared"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  return v;
}
}
