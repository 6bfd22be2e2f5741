// Immersed particles: footprint, control operators, solves, forces.
#include "props.h"
#include <cstring>
#include <set>
namespace sim {
namespace {
using std::vector;
struct SP { int ci, cj; double lx, ly, rx, ry; bool on = false; };       // cell, position in it, radius vector; on a grid line
struct RPart { PartP p; vector<std::array<int, 2>> nodes; int64_t nsub = 0; vector<SP> surf; bool edge = false; int sc = 4; std::set<std::array<int, 2>> touch; };   // nodes on the circle, to rounding
// the particles of a job on its grid, from their definition
static vector<RPart> rparts(const Params &p, const ref::Grid &g, const std::string &pre = "", bool moved = false)
{
  vector<RPart> v;
  double K = 1e-6 * p(pre + "dpart", 50000); bool exact = p(pre + "exact"); int sc = (int)p(pre + "scale", 4);
  for (auto &q : parts(p, pre, moved)) {
    RPart r; r.p = q; r.sc = sc;
    auto in = [&](double x, double y) { double a = x - q.cx, b = y - q.cy, s = q.cut(x, y);
      // straight above, below or beside the centre the comparison is exact
      if (std::fabs(s - 1) < 1e-6 && !(exact && (a == 0 || b == 0))) r.edge = true;
      return s < 1; };
    int cx = q.R / g.hx + 2, cy = q.R / g.hy + 2, i0 = q.cx / g.hx, j0 = q.cy / g.hy;
    for (int j = std::max(0, j0 - cy); j < std::min(g.nuy, j0 + cy + 2); ++j) for (int i = std::max(0, i0 - cx); i < std::min(g.nux, i0 + cx + 2); ++i) { if (std::fabs(q.cut(i * g.hx, j * g.hy) - 1) < 1e-9) r.touch.insert({i, j}); if (in(i * g.hx, j * g.hy)) r.nodes.push_back({i, j}); }
    for (int j = std::max(0, j0 - cy); j <= j0 + cy; ++j) for (int i = std::max(0, i0 - cx); i <= i0 + cx; ++i) for (int b = 0; b < sc; ++b) for (int a = 0; a < sc; ++a) if (in((i + (double)a / sc) * g.hx, (j + (double)b / sc) * g.hy)) r.nsub++;
    // the requested spacing is an angle; each octant starts on an axis
    vector<double> eta; double e = 0, eps = 2 / q.e;
    if (std::fabs(M_PI / 4 / K - std::round(M_PI / 4 / K)) < 1e-6) r.edge = true;
    while (e < M_PI / 4) {
      eta.push_back(e);
      // equal spacing along a superellipse, by the chord's first order; near the axis by inversion
      if (eps == 1) e += K;
      else if (e == 0) e = std::pow(K, 1 / eps);
      else if (e < 1e-2) e = std::pow(K + std::pow(e, eps), 1 / eps);
      else { double c = std::cos(e), s = std::sin(e); e += K / eps * c * s / std::sqrt(std::pow(c, 2 * eps) * std::pow(s, 4) + std::pow(s, 2 * eps) * std::pow(c, 4)); }
      if (std::fabs(e - M_PI / 4) < 1e-7 || std::fabs(e - 1e-2) < 1e-9) r.edge = true;
    }
    vector<std::array<double, 2>> pts;
    for (int quad = 0; quad < 4; ++quad) {
      vector<double> t;
      for (double x : eta) t.push_back(x);
      for (size_t k = eta.size(); k-- > 1;) t.push_back(M_PI / 2 - eta[k]);
      for (double x : t) { // [0, pi/2) of this quadrant
        double a = quad * M_PI / 2 + x + (q.shape ? 0 : q.rot);
        if (!q.shape) { pts.push_back({q.R * std::cos(a), q.R * std::sin(a)}); continue; }
        auto pw = [&](double t) { return std::copysign(std::pow(std::fabs(t), eps), t); };
        double c = std::cos(q.rot), s = std::sin(q.rot), X = q.a * pw(std::cos(a)), Y = q.b * pw(std::sin(a));
        if (x == 0) (quad % 2 ? X : Y) = 0;
        pts.push_back({c * X - s * Y, s * X + c * Y});
      }
    }
    for (auto &s : pts) {
      double X = (q.cx + s[0]) / g.hx, Y = (q.cy + s[1]) / g.hy;
      SP o;
      if (std::fabs(X - std::round(X)) < 1e-7 || std::fabs(Y - std::round(Y)) < 1e-7) { if (exact) o.on = true; else r.edge = true; }
      o.ci = (int)std::floor(X); o.cj = (int)std::floor(Y); o.lx = q.cx + s[0] - o.ci * g.hx; o.ly = q.cy + s[1] - o.cj * g.hy; o.rx = s[0]; o.ry = s[1];
      r.surf.push_back(o);
    }
    v.push_back(r);
  }
  return v;
}
static bool parts_ok(const Params &p, const ref::Grid &g, const std::string &pre = "", bool moved = false)
{
  auto ps = parts(p, pre, moved);
  for (size_t a = 0; a < ps.size(); ++a) {
    auto &q = ps[a];
    if (q.cx - q.ext(0) < 0.02 * g.hx || q.cy - q.ext(1) < 0.02 * g.hy || q.cx + q.ext(0) > g.Lx - 0.02 * g.hx || q.cy + q.ext(1) > g.Ly - 0.02 * g.hy) return false;
    for (size_t b = 0; b < a; ++b) if (std::hypot(q.cx - ps[b].cx, q.cy - ps[b].cy) < (q.R + ps[b].R) * 1.001) return false;
  }
  bool touch = p(pre + "touch"), any = !touch || !p(pre + "npart");
  for (auto &r : rparts(p, g, pre, moved)) { any |= !r.touch.empty(); if ((r.edge && !touch) || (r.nodes.empty() && !p(pre + "tiny"))) return false; }
  return any || moved;
}
static void gen_parts(Rng &r, Params &p, int maxp)
{
  auto g = grid(PP::get(p, ""));
  double hm = std::max(g.hx, g.hy), L = std::min(g.Lx, g.Ly);
  int n = (int)r.range(1, maxp); bool tiny = p("tiny");
  // integration points per cell and direction
  if (r.below(3) == 0) p["scale"] = p("exact") ? 1 << r.below(4) : r.range(1, 8);
  // shapes of the program's own, lying at any angle
  p["shape"] = !p("exact") && !p("touch") && r.below(4) == 0; int64_t sh = p("shape");
  // or no particle at all
  if (r.below(40) == 0) { p["npart"] = 0; p["none"] = 1; p["tiny"] = p["shape"] = p["touch"] = 0; return; }
  for (int t = 0;; ++t) {
    if (t % 40 == 39 && n > 1) n--;
    if (t == 400) p["touch"] = 0;
    p["npart"] = n; p["tiny"] = tiny && t < 40;
    double rmin = 0.8 * hm, rmax = std::min(0.46 * L, std::max(rmin * 1.01, (n == 1 ? 0.4 : n < 5 ? 0.25 : 0.12) * L));
    if (rmax < rmin) rmin = 0.5 * rmax;
    for (int i = 0; i < n; ++i) {
      std::string s = "p" + std::to_string(i);
      double R = rmin + (rmax - rmin) * 1e-3 * r.range(0, 1000);
      if (tiny && t < 40 && r.below(3) == 0) R = hm * 1e-3 * r.range(150, 800);
      double cx = R + (g.Lx - 2 * R) * 1e-4 * r.range(1, 9999), cy = R + (g.Ly - 2 * R) * 1e-4 * r.range(1, 9999);
      if (r.below(8) == 0) { cx = g.hx * r.range(1, g.nux); cy = g.hy * r.range(1, g.nuy); cx += 3e-6; cy += 2e-6; }  // close to a node
      p[s + "q"] = !p("exact") && r.below(sh ? 2 : 4) == 0 ? r.range(1, 6283185) : 0;
      if (sh) { static const int es[] = {20, 20, 20, 10, 15, 30, 40, 60}; p[s + "e"] = es[r.below(8)]; p[s + "a"] = r.below(2) ? r.range(350, 1000) : r.range(1000, 2800); }
      if (p("exact")) { // nodes and sampling points come to lie on the circle
        auto unit = [&](double h) { int k = 1 << r.below(3); while (k > 1 && std::fabs(1e6 * h / k - std::round(1e6 * h / k)) > 1e-6) k /= 2; return h / k; };
        double ux = unit(g.hx), uy = unit(g.hy), u = unit(std::min(g.hx, g.hy));
        R = u * std::max(1., std::round(R / u)); cx = ux * std::round(cx / ux); cy = uy * std::round(cy / uy);
      }
      if (p("touch")) { // ordinary numbers: nodes lie on the circle as far as rounding lets them
        double u = std::min(g.hx, g.hy); if (r.below(3) == 0) u /= 2;
        R = u * std::max(1., std::round(R / u)); cx = g.hx / 2 * std::round(2 * cx / g.hx); cy = g.hy / 2 * std::round(2 * cy / g.hy);
        if (r.below(2)) { cx = g.hx * std::round(cx / g.hx); cy = g.hy * std::round(cy / g.hy); }
      }
      p[s + "R"] = (int64_t)std::round(1e6 * R); p[s + "cx"] = (int64_t)std::round(1e6 * cx); p[s + "cy"] = (int64_t)std::round(1e6 * cy);
    }
    double R = 1e-6 * p("p0R");
    // surface points about as far apart as the nodes, now and then much closer
    double K = std::min(0.7, (t < 60 && r.below(5) == 0 ? 0.08 + 0.3e-3 * r.range(0, 1000) : 0.4 + 1.1e-3 * r.range(0, 1000)) * hm / R);
    p["dpart"] = (int64_t)(1e6 * K);
    if (parts_ok(p, g)) break;
  }
  for (int i = 0; i < n; ++i) {
    std::string s = "p" + std::to_string(i);
    p[s + "fx"] = r.range(-2000, 2000); p[s + "fy"] = r.range(-2000, 2000); p[s + "rho"] = r.range(100, 3000);
    p[s + "vx"] = r.range(-2000, 2000); p[s + "vy"] = r.range(-2000, 2000); p[s + "om"] = r.below(4) ? r.range(-2000, 2000) : 0;
  }
}
} // namespace
void gen_particles(Rng &r, Params &p, bool th, const vector<int> &nps, int lo, int hi, int maxp)
{
  gen_env(r, p, nps);
  if (p("touch")) p["tiny"] = 0; else if (r.below(5) == 0) p["exact"] = 1;
  for (;;) {
    gen_grid(r, p, "", lo, hi, (int)p("np"), true, 0);
    auto g = grid(PP::get(p, ""));
    if (p("exact")) {
      static const int ms[] = {5, 9, 17};
      p["mx"] = ms[r.below(hi >= 24 ? 3 : hi >= 9 ? 2 : 1)]; p["my"] = ms[r.below(hi >= 24 ? 3 : hi >= 9 ? 2 : 1)];
      static const int ls[] = {1000, 500, 2000}; p["lx"] = ls[r.below(3)]; p["ly"] = ls[r.below(3)];
      g = grid(PP::get(p, "")); if (!layout_ok((int)p("np"), g.npx, g.npy)) continue;
    }
    if (p("touch")) {
      static const int hs[] = {100, 50, 200, 60, 70, 30}; int h = hs[r.below(6)];
      p["lx"] = 2 * h * (p("mx") - 1); p["ly"] = (r.below(4) ? 2 * h : 2 * hs[r.below(6)]) * (p("my") - 1); g = grid(PP::get(p, ""));
    }
    if (g.Lx / g.Ly > 2.1 || g.Ly / g.Lx > 2.1 || g.hx / g.hy > 2.1 || g.hy / g.hx > 2.1) continue;
    break;
  }
  p["solver"] = 2; p["asm"] = 1; p["strain"] = r.below(2);
  if (p("mx") <= 4 && p("my") <= 4 && r.below(3) == 0) { p["solver"] = 4; p["asm"] = 0; p["fluidit"] = 1000; }
  p["bcmode"] = r.range(1, 3); p["bcseed"] = r.range(1, 100000); p["rhsseed"] = r.range(1, 100000); p["rhsmode"] = r.below(5);
  gen_parts(r, p, maxp);
}
// where the particles are after they have moved
static void gen_move(Rng &r, Params &p, const std::string &pre = "")
{
  auto g = grid(PP::get(p, pre));
  Params q = p;
  for (int t = 0; t < 30 && p(pre + "npart"); ++t) {
    for (int i = 0; i < (int)p(pre + "npart"); ++i) for (int d = 0; d < 2; ++d) {
      int64_t h = (int64_t)(1e6 * (d ? g.hy : g.hx));
      q[pre + fmt("p%d", i) + (d ? "ty" : "tx")] = p(pre + "exact") || p(pre + "touch") ? h * r.range(-2, 2) : h * r.range(-3000, 3000) / 1000;
    }
    if (parts_ok(q, g, pre, true)) { p = q; return; }
  }
  for (int i = 0; i < (int)p(pre + "npart"); ++i) p[pre + fmt("p%dtx", i)] = p[pre + fmt("p%dty", i)] = 0;
}
// the fluid solved by multigrid
static bool mg_ok(const ref::Grid &g, const PP &q)
{
  int k = std::min(g.nux, g.nuy), f = 1; while (k > 8) { k >>= 1; f *= 2; }
  return !((g.nux - !q.xper) % f || (g.nuy - !q.yper) % f || g.hx / g.hy < 0.6 || g.hx / g.hy > 1.7);
}
static void gen_with_solver(Rng &r, Params &p, bool th, const vector<int> &nps, int lo, int hi, int maxp)
{
  if (r.below(12)) return gen_particles(r, p, th, nps, lo, hi, maxp);
  Params start = p;
  for (;;) {
    p = start; gen_particles(r, p, th, {1}, lo, hi, maxp);
    PP q = PP::get(p, ""); if (mg_ok(grid(q), q)) break;
  }
  p["solver"] = 5; p["asm"] = 0; p["pmm"] = 1; p["stepcap"] = 6000000;
}
static const char *const FLUID_KEYS[] = {"mx", "my", "lx", "ly", "xper", "yper", "unit", "solver", "asm", "strain", "bcmode", "bcseed", "rhsseed", "rhsmode"};
void history_particles(Rng &r, Params &p, bool th)
{
  static const std::set<std::string> env = {"np", "policy", "rndv", "spurious", "collsync", "redperm", "twosided", "perturb", "dirty", "fin", "sub", "subseed", "extra"};
  for (std::string pre : {"", "b_"}) {
    Params q; gen_particles(r, q, th, {(int)p("np")}, 4, th ? 6 : 5, 2);
    q["solver"] = 2; q["asm"] = 1; q["dton"] = r.below(2);
    if (r.below(3) == 0) { Params t = q; if (close_pair(r, t, false)) q = t; }
    for (auto &k : q.v) if (!env.count(k.first)) p[pre + k.first] = k.second;
  }
  // or both sets of particles in the same fluid: side by side, or one after the other as in a time loop
  if (r.below(3) == 0) {
    for (const char *k : FLUID_KEYS) p[std::string("b_") + k] = p(k);
    Params q; for (const char *k : FLUID_KEYS) q[k] = p(k);
    gen_parts(r, q, 2); q["dton"] = r.below(2);
    // moved as in a time loop, or under other forces only
    int how = r.below(3); auto g = grid(PP::get(p, ""));
    if (how && p("npart")) {
      Params t = q; for (const char *k : {"exact", "tiny", "none", "npart", "dpart", "shape"}) t[k] = p(k);
      t["scale"] = p("scale", 4); t["dton"] = p("dton");
      for (int tries = 0; tries < 30; ++tries) {
        for (int i = 0; i < (int)p("npart"); ++i) for (const char *k : {"R", "cx", "cy", "q", "a", "e", "fx", "fy", "rho", "vx", "vy", "om"}) {
          std::string n = fmt("p%d", i) + k; bool place = k[0] == 'c', motion = !strchr("Rqae", k[0]) && !place;
          t[n] = p(n); if (motion) t[n] = k[0] == 'r' ? r.range(100, 3000) : r.range(-2000, 2000);
          if (place && how == 2) { int64_t d = (int64_t)(1e6 * (k[1] == 'x' ? g.hx : g.hy)); t[n] += p("exact") ? d * r.range(-2, 2) : d * r.range(-2000, 2000) / 1000; }
        }
        if (parts_ok(t, g)) { q = t; break; }
      }
    }
    for (const char *k : {"exact", "tiny", "none", "scale", "sing", "shape"}) p[std::string("b_") + k] = q(k, std::string(k) == "scale" ? 4 : 0);
    for (auto &k : q.v) p["b_" + k.first] = k.second;
    p["shared"] = 1; p["steps"] = r.below(3) != 0;
  }
  int n = (int)r.range(2, th ? 5 : 4), last = -1; if (p("steps")) n++;
  static const int ks[] = {Q_RHS, Q_MULT, Q_MULT, Q_SOLVE, Q_FT, Q_AGAIN};
  for (std::string pre : {"", "b_"}) if (!p(pre + "sing") && r.below(4)) gen_move(r, p, pre);
  bool was[2] = {false, false}; int solves = 0;
  for (int i = 0; i < n; ++i) {
    int b = r.below(2), k = ks[r.below(6)];
    if (p("steps") && b != last) was[0] = was[1] = false;
    last = b;
    if (k == Q_SOLVE && (!was[b] || solves)) k = Q_RHS;      // its right-hand side comes first
    if (k == Q_FT && p(b ? "b_dton" : "dton")) k = Q_MULT;
    was[b] = k == Q_RHS; if (k == Q_SOLVE) solves++;
    p[fmt("pop%d", i)] = mkop(k, b, r.range(1, 1000));
  }
  p["mix"] = 1; p["semit"] = 8; p["stepcap"] = 30000000;
}
namespace { bool close_field(const vector<RPart> &pt, const ref::Grid &g, bool weak, ref::Vec &b); }
// a pair almost in contact (and perhaps a third particle), with its treatment on
bool close_pair(Rng &r, Params &p, bool more)
{
  p["shape"] = 0;
  auto g = grid(PP::get(p, ""));
  for (int t = 0; t < 400; ++t) {
    double L = std::min(g.Lx, g.Ly), lo = 1.5 * std::max(g.hx, g.hy), hi = 0.26 * L;
    if (lo > hi) return false;
    double R[3] = {lo + (hi - lo) * 1e-3 * r.range(0, 1000), 0, 0}; R[1] = r.below(2) ? R[0] : lo + (hi - lo) * 1e-3 * r.range(0, 1000);
    static const double gaps[] = {0.01, 0.03, 0.1, 0.2, 0.5};
    double gap = gaps[r.below(5)] * std::min(R[0], R[1]), a = r.below(3) == 0 ? M_PI / 2 * r.below(4) + 1e-4 : 2e-3 * M_PI * r.range(0, 1000);
    double D = R[0] + R[1] + gap, dx = D * std::cos(a), dy = D * std::sin(a);
    double x0 = g.Lx * 1e-3 * r.range(1, 999), y0 = g.Ly * 1e-3 * r.range(1, 999);
    int64_t c[6] = {(int64_t)(1e6 * x0), (int64_t)(1e6 * y0), (int64_t)(1e6 * (x0 + dx)), (int64_t)(1e6 * (y0 + dy))};
    // a third particle, in any place of the list
    int n = 2, at[3] = {0, 1, 2}; double R3 = lo + (hi - lo) * 1e-3 * r.range(0, 1000);
    if (more && t < 300 && r.below(2)) { n = 3; R[2] = R3; c[4] = (int64_t)(1e6 * g.Lx * 1e-3 * r.range(1, 999)); c[5] = (int64_t)(1e6 * g.Ly * 1e-3 * r.range(1, 999)); std::swap(at[2], at[r.below(3)]); if (r.below(2)) std::swap(at[0], at[1]); }
    p["npart"] = n;
    for (int i = 0; i < n; ++i) {
      std::string s = fmt("p%d", at[i]); p[s + "R"] = (int64_t)(1e6 * R[i]); p[s + "cx"] = c[2 * i]; p[s + "cy"] = c[2 * i + 1];
      p[s + "vx"] = r.range(-2000, 2000); p[s + "vy"] = r.range(-2000, 2000); p[s + "om"] = r.below(3) ? r.range(-2000, 2000) : 0; p[s + "q"] = 0;
    }
    double K = std::min(0.7, (0.4 + 1.1e-3 * r.range(0, 1000)) * std::max(g.hx, g.hy) / R[0]);
    p["dpart"] = (int64_t)(1e6 * K);
    if (!parts_ok(p, g)) continue;
    { ref::Vec t(g.n(), 0.); if (!close_field(rparts(p, g), g, true, t)) continue; }
    p["dton"] = 1; p["sing"] = 1; p["exact"] = 0; p["tiny"] = 0;
    return true;
  }
  return false;
}
namespace {
// ---- close pairs
// value, first and second derivatives in the coordinates (z across the gap, r along it)
struct Jet {
  double v, z, r, zz, zr, rr;
  Jet(double a = 0, double b = 0, double c = 0, double d = 0, double e = 0, double f = 0) : v(a), z(b), r(c), zz(d), zr(e), rr(f) {}
  Jet compose(double f, double f1, double f2) const { return {f, f1 * z, f1 * r, f1 * zz + f2 * z * z, f1 * zr + f2 * z * r, f1 * rr + f2 * r * r}; }
};
static Jet operator+(const Jet &a, const Jet &b) { return {a.v + b.v, a.z + b.z, a.r + b.r, a.zz + b.zz, a.zr + b.zr, a.rr + b.rr}; }
static Jet operator*(const Jet &a, const Jet &b) { return {a.v * b.v, a.z * b.v + a.v * b.z, a.r * b.v + a.v * b.r, a.zz * b.v + 2 * a.z * b.z + a.v * b.zz, a.zr * b.v + a.z * b.r + a.r * b.z + a.v * b.zr, a.rr * b.v + 2 * a.r * b.r + a.v * b.rr}; }
static Jet inv(const Jet &a) { return a.compose(1 / a.v, -1 / (a.v * a.v), 2 / (a.v * a.v * a.v)); }
// lubrication field of two discs that approach each other along the line of centres
struct Gap {
  double H, M, a, cut, U, ex, ey, ox, oy; bool on, edge = false; const PartP *p1, *p2; int box[4];
  Gap(const PartP &q1, const PartP &q2, const ref::Grid &g) : p1(&q1), p2(&q2)
  {
    double D = std::hypot(q2.cx - q1.cx, q2.cy - q1.cy);
    H = 1 / q1.R; M = 1 / q2.R; a = D - q1.R - q2.R; on = a < 1;
    ex = (q2.cx - q1.cx) / D; ey = (q2.cy - q1.cy) / D; ox = q1.cx + q1.R * ex; oy = q1.cy + q1.R * ey;
    U = (q2.vx - q1.vx) * ex + (q2.vy - q1.vy) * ey;
    cut = std::max(std::sqrt(2.) * g.hx, std::min(4 * std::sqrt(a / (.5 * (H + M))), std::min(q1.R, q2.R)));
    if (cut > std::min(q1.R, q2.R) * (1 - 1e-9)) cut == std::min(q1.R, q2.R) ? void() : void(edge = true);
    // cells around the gap: its four corners
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
    for (int k = 0; k < 4; ++k) {
      double R = k < 2 ? q1.R : q2.R, w = R - std::sqrt(std::max(0., R * R - cut * cut)), z = k < 2 ? -w : a + w, r = k % 2 ? cut : -cut;
      double c[2] = {(ox + z * ex - r * ey) / g.hx, (oy + z * ey + r * ex) / g.hy};
      for (int d = 0; d < 2; ++d) { lo[d] = std::min(lo[d], c[d]); hi[d] = std::max(hi[d], c[d]); }
    }
    for (int d = 0; d < 2; ++d) { box[d] = (int)std::floor(lo[d]); box[2 + d] = (int)std::ceil(hi[d]); if (std::fabs(lo[d] - std::round(lo[d])) < 1e-9 || std::fabs(hi[d] - std::round(hi[d])) < 1e-9) edge = true; }
  }
  struct Val { double u[2], du[2][2], p; };
  bool at(double x, double y, Val &o)
  {
    for (auto *q : {p1, p2}) { double s = ((x - q->cx) * (x - q->cx) + (y - q->cy) * (y - q->cy)) / (q->R * q->R); if (std::fabs(s - 1) < 1e-10) edge = true; if (s < 1) return false; }
    double z0 = (x - ox) * ex + (y - oy) * ey, r0 = -(x - ox) * ey + (y - oy) * ex;
    if (std::fabs(r0) > cut) return false;
    Jet z(z0, 1), r(r0, 0, 1), r2 = r * r, G = Jet(2 * a) + Jet(H + M) * r2, s = Jet(2) * z + Jet(H) * r2;
    // cut-off: smooth in r^2 from one at the centre to zero at the width
    double e = .5 * cut * cut;
    Jet X = (r2 + Jet(-e)) * Jet(1 / e), X2 = X * X, X3 = X * X2, X5 = X3 * X2, X7 = X5 * X2, X9 = X7 * X2;
    Jet al = Jet(315. / 128) * (Jet(1. / 9) * X9 + Jet(-4. / 7) * X7 + Jet(6. / 5) * X5 + Jet(-4. / 3) * X3 + X);
    Jet chi = Jet(.5) * (Jet(1) + Jet(-1) * al);
    // stream function: zero on the first disc, the full flux on the second; the motion is shared between both discs
    Jet t = s * inv(G), F = Jet(-U) * r * chi * t * t * (Jet(3) + Jet(-2) * t);
    double b[2][2] = {{ex, ey}, {-ey, ex}}, w[2] = {-F.r - .5 * U * chi.v, F.z}, dw[2][2] = {{-F.zr, -F.rr - .5 * U * chi.r}, {F.zz, F.zr}};
    for (int i = 0; i < 2; ++i) { o.u[i] = b[0][i] * w[0] + b[1][i] * w[1]; for (int j = 0; j < 2; ++j) { o.du[i][j] = 0; for (int m = 0; m < 2; ++m) for (int n = 0; n < 2; ++n) o.du[i][j] += b[m][i] * b[n][j] * dw[m][n]; } }
    o.p = -24 * U * chi.v / ((H + M) * G.v * G.v);
    return true;
  }
  // ten by ten points in every cell around the gap: f(cell, position in it, field)
  template<class T> void sample(const ref::Grid &g, T f)
  {
    for (int j = std::max(0, box[1]); j < std::min(box[3], g.nuy - !g.py); ++j) for (int i = std::max(0, box[0]); i < std::min(box[2], g.nux - !g.px); ++i)
      for (int js = 0; js < 10; ++js) for (int is = 0; is < 10; ++is) { Val o; if (at((i + .1 * is) * g.hx, (j + .1 * js) * g.hy, o)) f(i, j, .1 * is, .1 * js, o); }
  }
};
// weak form of the pairs' fields (weak), or their means around each node
bool close_field(const vector<RPart> &pt, const ref::Grid &g, bool weak, ref::Vec &b)
{
  bool edge = false;
  for (size_t k = 0; k < pt.size(); ++k) for (size_t l = k + 1; l < pt.size(); ++l) {
    Gap G(pt[k].p, pt[l].p, g); if (!G.on) continue;
    G.sample(g, [&](int i, int j, double s, double t, const Gap::Val &o) {
      // what happens where a third particle lies in the gap is not specified
      for (size_t m = 0; m < pt.size(); ++m) if (m != k && m != l && std::hypot((i + s) * g.hx - pt[m].p.cx, (j + t) * g.hy - pt[m].p.cy) < pt[m].p.R * 1.001) edge = true;
      for (int e = 0; e < 4; ++e) {
        int I = (i + e % 2) % g.nux, J = (j + e / 2) % g.nuy; double fs = e % 2 ? s : 1 - s, ft = e / 2 ? t : 1 - t, dx = (e % 2 ? 1 : -1) * ft / g.hx, dy = (e / 2 ? 1 : -1) * fs / g.hy, w = .01 * g.hx * g.hy;
        for (int d = 0; d < 2; ++d) b[g.iu(I, J, d)] += weak ? w * (-o.du[d][0] * dx - o.du[d][1] * dy + o.p * (d ? dy : dx)) : .01 * o.u[d] * fs * ft;
      }
    });
    edge |= G.edge;
  }
  return !edge;
}
} // namespace
// still a run its generator could have drawn?
bool in_domain(const Params &p)
{
  if (job_size(p) > MAXRANKS) return false;
  if (p("shared")) for (const char *k : FLUID_KEYS) if (p(k) != p(std::string("b_") + k)) return false;
  if (p("sub") && p("subb") && p("extra")) { Params q = p; q["np"] = p("extra"); q["sub"] = 0; if (!in_domain(q)) return false; }
  for (std::string pre : {"", "b_"}) {
    if (!p(pre + "mx") || (!pre.empty() && !p("two"))) continue;
    PP q = PP::get(p, pre); auto g = grid(q);
    if (!layout_ok((int)p("np", 1), g.npx, g.npy)) return false;
    if (q.pmm && p("np", 1) > 1) { int k = std::min(g.nux, g.nuy), f = 1; while (k > 8) { k >>= 1; f *= 2; } if (!layout_ok((int)p("np"), g.npx / f, g.npy / f)) return false; }
    if (q.pmm && !mg_ok(g, q)) return false;
    if (!p(pre + "npart")) continue;
    if (!parts_ok(p, g, pre) || !parts_ok(p, g, pre, true)) return false;
    if (p(pre + "sing")) { ref::Vec t(g.n(), 0.); if (!close_field(rparts(p, g, pre), g, true, t)) return false; }
  }
  return true;
}
namespace {
// ---- reference
struct Ref {
  PP q; ref::Grid g; vector<RPart> pt; std::shared_ptr<ref::Solver> S; bool dton, sing;
  Ref(const Params &p, const std::string &pre = "", bool moved = false) : q(PP::get(p, pre)), g(grid(q)), pt(rparts(p, g, pre, moved)), dton(p(pre + "dton")), sing(p(pre + "sing")) {}
  bool solver() { S = reference_solver(q); return S->ok; }
  int64_t key(int k, int i, int j, int d) const { return (int64_t)k * g.nu() + g.iu(i, j, d); }
  int64_t size() const { return (int64_t)pt.size() * g.nu(); }
  // fluid problem with this control
  ref::Vec fluid_rhs(const ref::Vec &x, bool rhs, bool forces) const
  {
    ref::Vec f(g.n(), 0.);
    for (size_t k = 0; k < pt.size(); ++k) for (auto &n : pt[k].nodes) for (int d = 0; d < 2; ++d) f[g.iu(n[0], n[1], d)] = x[key(k, n[0], n[1], d)] + (forces ? pt[k].p.rho * (d ? pt[k].p.fy : pt[k].p.fx) : 0);
    ref::Vec b = ref::mass(g, f);
    if (rhs) { ref::Vec l; ref_rhs(q, g, l); for (int64_t i = 0; i < g.n(); ++i) b[i] += l[i]; if (sing) close_field(pt, g, true, b); ref::set_bc(g, b, q.m(), [&](int bb, int d, double xx, double y) { return bcval(q, bb, d, xx, y); }); }
    else ref::set_bc0(g, b, q.m());
    return b;
  }
  double bil(const ref::Vec &u, const SP &s, int d) const
  {
    double a = s.lx / g.hx, b = s.ly / g.hy; int i1 = (s.ci + 1) % g.nux, j1 = (s.cj + 1) % g.nuy;
    return (1 - a) * (1 - b) * u[g.iu(s.ci, s.cj, d)] + a * (1 - b) * u[g.iu(i1, s.cj, d)] + (1 - a) * b * u[g.iu(s.ci, j1, d)] + a * b * u[g.iu(i1, j1, d)];
  }
  ref::Vec layer(const vector<vector<std::array<double, 2>>> &gg) const
  {
    ref::Vec b(g.n(), 0.);
    for (size_t k = 0; k < pt.size(); ++k) {
      double w = pt[k].p.area() / pt[k].surf.size();
      for (size_t i = 0; i < pt[k].surf.size(); ++i) {
        auto &s = pt[k].surf[i]; double a = s.lx / g.hx, c = s.ly / g.hy; int i1 = (s.ci + 1) % g.nux, j1 = (s.cj + 1) % g.nuy;
        for (int d = 0; d < 2; ++d) { double v = gg[k][i][d] * w; b[g.iu(s.ci, s.cj, d)] += v * (1 - a) * (1 - c); b[g.iu(i1, s.cj, d)] += v * a * (1 - c); b[g.iu(s.ci, j1, d)] += v * (1 - a) * c; b[g.iu(i1, j1, d)] += v * a * c; }
      }
    }
    ref::set_bc0(g, b, q.m());
    return b;
  }
  // the control operator; x has the particle numbering
  ref::Vec apply(const ref::Vec &x, bool rhs, bool rigid, double *scale) const
  {
    ref::Vec u = S->solve(fluid_rhs(x, rhs, rhs && !dton));
    vector<vector<std::array<double, 2>>> gg(pt.size());
    for (size_t k = 0; k < pt.size(); ++k) {
      double m[2] = {0, 0}, c = 0; int nb = (int)pt[k].surf.size();
      for (auto &s : pt[k].surf) {
        double a = bil(u, s, 0), b = bil(u, s, 1); gg[k].push_back({a, b});
        m[0] += a / nb; m[1] += b / nb; c += (s.rx * b - s.ry * a) / nb * pt[k].p.cd();
      }
      for (int i = 0; i < nb; ++i) {
        auto &s = pt[k].surf[i];
        if (!dton) { gg[k][i][0] -= m[0] - c * s.ry; gg[k][i][1] -= m[1] + c * s.rx; }
        else if (rigid) { gg[k][i][0] -= pt[k].p.vx - pt[k].p.om * s.ry; gg[k][i][1] -= pt[k].p.vy + pt[k].p.om * s.rx; }
      }
    }
    double gs = 0; for (auto &a : gg) for (auto &b : a) gs = std::max({gs, std::fabs(b[0]), std::fabs(b[1])});
    ref::Vec w = S->solve(layer(gg)), y(size(), 0.);
    double ws = 0; for (int64_t i = 0; i < g.nu(); ++i) ws = std::max(ws, std::fabs(w[i]));
    double us = 0; for (int64_t i = 0; i < g.nu(); ++i) us = std::max(us, std::fabs(u[i]));
    if (scale) *scale = std::max(ws, us);
    for (size_t k = 0; k < pt.size(); ++k) {
      auto &P = pt[k].p; double m[2] = {0, 0}, c = 0; int sc = pt[k].sc;
      if (!dton) {
        int cx = P.R / g.hx + 2, cy = P.R / g.hy + 2, i0 = P.cx / g.hx, j0 = P.cy / g.hy;
        for (int j = std::max(0, j0 - cy); j <= std::min(j0 + cy, g.nuy - 1 + (q.yper ? 0 : -1)); ++j) for (int i = std::max(0, i0 - cx); i <= std::min(i0 + cx, g.nux - 1 + (q.xper ? 0 : -1)); ++i) for (int b = 0; b < sc; ++b) for (int a = 0; a < sc; ++a) {
          double X = (i + (double)a / sc) * g.hx - P.cx, Y = (j + (double)b / sc) * g.hy - P.cy;
          if (P.cut(X + P.cx, Y + P.cy) >= 1) continue;
          SP s{i, j, a * g.hx / sc, b * g.hy / sc, X, Y};
          double v0 = bil(w, s, 0), v1 = bil(w, s, 1);
          m[0] += v0 / pt[k].nsub; m[1] += v1 / pt[k].nsub; c += (X * v1 - Y * v0) / pt[k].nsub;
        }
        c *= P.ci();
      }
      for (auto &n : pt[k].nodes) {
        double X = n[0] * g.hx - P.cx, Y = n[1] * g.hy - P.cy;
        y[key(k, n[0], n[1], 0)] = w[g.iu(n[0], n[1], 0)] - (m[0] - c * Y);
        y[key(k, n[0], n[1], 1)] = w[g.iu(n[0], n[1], 1)] - (m[1] + c * X);
      }
    }
    return y;
  }
};
// the unknowns are exactly the grid nodes inside the particles
static Violation check_ids(Ctx &c, const Params &p, const Ref &R, int tag, ref::Vec *val)
{
  std::map<int64_t, int> want; for (size_t k = 0; k < R.pt.size(); ++k) for (auto &n : R.pt[k].nodes) for (int d = 0; d < 2; ++d) want[R.key(k, n[0], n[1], d)] = 0;
  if (val) val->assign(R.size(), 0.);
  auto name = [&](int64_t i) { int k = (int)(i / R.g.nu()); int64_t j = i % R.g.nu() / 2; return fmt("particle %d node (%d,%d) component %d", k, (int)(j % R.g.nux), (int)(j / R.g.nux), (int)(i % 2)); };
  for (int r = 0; r < (int)p("np"); ++r) {
    if (tag != TAG_PARTPTS) { double d = record(c.sh, r, TAG_INFO, 5000 + tag, 0); if (d != 0) return {"unknowns", fmt("rank %d: the control vector has %g entries more than there are velocity values inside particles on that rank", r, d)}; }
    for (auto &x : records(c.sh, r, tag)) {
      auto it = want.find(x.idx);
      if (it == want.end()) return {"unknowns", fmt("%s is not inside the particle but is an unknown on rank %d", name(x.idx).c_str(), r)};
      if (it->second++) return {"unknowns", fmt("%s is an unknown on two ranks", name(x.idx).c_str())};
      if (val) (*val)[x.idx] = x.val;
    }
  }
  for (auto &w : want) if (!w.second) return {"unknowns", fmt("%s is inside the particle but on no rank an unknown", name(w.first).c_str())};
  return {};
}
static Violation compare_x(const Ref &R, const ref::Vec &got, const ref::Vec &want, double tol, double scale, const std::string &cls, const std::string &what)
{
  double wd = -1; int64_t wi = -1;
  for (int64_t i = 0; i < R.size(); ++i) { double d = std::fabs(got[i] - want[i]); if (!(d <= tol * scale)) { if (std::isnan(d)) d = 1e300; if (d > wd) { wd = d; wi = i; } } }
  if (wi < 0) return {};
  int64_t j = wi % R.g.nu() / 2;
  return {cls, fmt("%s: particle %d node (%d,%d) component %d is %.10g, expected %.10g (scale %.3g)", what.c_str(), (int)(wi / R.g.nu()), (int)(j % R.g.nux), (int)(j / R.g.nux), (int)(wi % 2), got[wi], want[wi], scale)};
}
static Violation check_footprint(Ctx &c, const Params &p, const Ref &R)
{
  Violation v = check_ids(c, p, R, TAG_PARTPTS, nullptr); if (!v.cls.empty()) return v;
  int np = (int)p("np");
  for (size_t k = 0; k < R.pt.size(); ++k) {
    for (int r = 0; r < np; ++r) {
      double num = record(c.sh, r, TAG_PARTINFO, 2 * k, -1), nb = record(c.sh, r, TAG_PARTINFO, 2 * k + 1, -1);
      if (num != R.pt[k].nsub) return {"integration-count", fmt("rank %d: particle %d has %g integration points, %lld lie inside it", r, (int)k, num, (long long)R.pt[k].nsub)};
      if (nb != (double)R.pt[k].surf.size()) return {"surface-count", fmt("rank %d: particle %d has %g surface points, expected %d", r, (int)k, nb, (int)R.pt[k].surf.size())};
    }
    vector<int> hit(R.pt[k].surf.size(), 0);
    for (int r = 0; r < np; ++r) {
      std::map<int64_t, std::array<double, 6>> s; for (auto &x : records(c.sh, r, TAG_SURF)) if ((size_t)(x.idx >> 32) == k) s[(x.idx & 0xffffffff) >> 3][x.idx & 7] = x.val;
      int a[4]; for (int e = 0; e < 2; ++e) { a[2 * e] = (int)record(c.sh, r, TAG_INFO, e, -1); a[2 * e + 1] = a[2 * e] + (int)record(c.sh, r, TAG_INFO, 2 + e, -1); }
      for (auto &e : s) {
        auto &w = e.second; int m = -1;
        for (size_t i = 0; i < hit.size(); ++i) if (std::hypot(w[4] - R.pt[k].surf[i].rx, w[5] - R.pt[k].surf[i].ry) < 1e-9 && (m < 0 || hit[m])) m = (int)i;
        if (m < 0) return {"surface-point", fmt("rank %d: particle %d has a surface point at (%.12g,%.12g) from its centre", r, (int)k, w[4], w[5])};
        auto &o = R.pt[k].surf[m];
        if (hit[m]++) return {"surface-point", fmt("surface point %d of particle %d is taken by two ranks", m, (int)k)};
        if (o.on) { // either of the cells it lies between
          double X = w[0] * R.g.hx + w[2], Y = w[1] * R.g.hy + w[3];
          if (std::fabs(X - o.ci * R.g.hx - o.lx) > 1e-9 || std::fabs(Y - o.cj * R.g.hy - o.ly) > 1e-9 || w[2] < -1e-9 || w[2] > R.g.hx + 1e-9 || w[3] < -1e-9 || w[3] > R.g.hy + 1e-9) return {"surface-cell", fmt("rank %d: surface point %d of particle %d is placed in cell (%g,%g) at (%g,%g), expected (%d,%d) at (%g,%g)", r, m, (int)k, w[0], w[1], w[2], w[3], o.ci, o.cj, o.lx, o.ly)};
          if (w[0] < a[0] || w[0] >= a[1] || w[1] < a[2] || w[1] >= a[3]) return {"surface-owner", fmt("rank %d holds surface point %d of particle %d, whose cell it does not own", r, m, (int)k)};
          continue;
        }
        if (w[0] != o.ci || w[1] != o.cj || std::fabs(w[2] - o.lx) > 1e-9 || std::fabs(w[3] - o.ly) > 1e-9) return {"surface-cell", fmt("rank %d: surface point %d of particle %d is placed in cell (%g,%g) at (%g,%g), expected (%d,%d) at (%g,%g)", r, m, (int)k, w[0], w[1], w[2], w[3], o.ci, o.cj, o.lx, o.ly)};
        if (o.ci < a[0] || o.ci >= a[1] || o.cj < a[2] || o.cj >= a[3]) return {"surface-owner", fmt("rank %d holds surface point %d of particle %d, whose cell it does not own", r, m, (int)k)};
      }
    }
    for (size_t i = 0; i < hit.size(); ++i) if (hit[i] != 1) return {"surface-point", fmt("surface point %d of particle %d is on no rank", (int)i, (int)k)};
  }
  return {};
}
static double rec0(Ctx &c, int tag, int64_t i) { return record(c.sh, 0, tag, i, NAN); }
static Violation agree(Ctx &c, const Params &p, int tag, const std::string &what)
{
  auto a = records(c.sh, 0, tag);
  for (int r = 1; r < (int)p("np"); ++r) {
    auto b = records(c.sh, r, tag);
    if (a.size() != b.size()) return {"disagree", what + ": processes report different numbers of values"};
    for (size_t i = 0; i < a.size(); ++i) if (a[i].idx != b[i].idx || !(std::fabs(a[i].val - b[i].val) <= 1e-10 * (1 + std::fabs(a[i].val)))) return {"disagree", fmt("%s: rank 0 has %.12g, rank %d has %.12g", what.c_str(), a[i].val, r, b[i].val)};
  }
  return {};
}
} // namespace
// every operation of a particle script against the reference; the job has run
Violation verify_particles(Ctx &c, const Params &p)
{
  Violation v;
  std::unique_ptr<Ref> refs[2][2]; bool moved[2] = {false, false}; int last = -1; ref::Vec field[2]; int solved[2] = {-1, -1};
  for (int n = 0; p(fmt("pop%d", n)); ++n) {
    int64_t code = p(fmt("pop%d", n)); int kind = opkind(code), pk = opprob(code); uint64_t seed = opseed(code);
    if (p("steps") && pk != last) moved[0] = moved[1] = false;
    last = pk;
    if (kind == Q_AGAIN) { moved[pk] = !moved[pk]; solved[pk] = -1; continue; }
    auto &rp = refs[pk][moved[pk]];
    if (!rp) rp.reset(new Ref(p, pk ? "b_" : "", moved[pk]));
    Ref &R = *rp;
    if (kind <= Q_SOLVE && !R.S && !R.solver()) continue;
    if (kind <= Q_SOLVE && !R.S->ok) continue;
    ref::Vec got, want, control; double sc = 1, tol = 1e-6;
    auto rnd = [&](double amp) { ref::Vec r(R.size(), 0.); for (size_t k = 0; k < R.pt.size(); ++k) for (auto &m : R.pt[k].nodes) for (int d = 0; d < 2; ++d) { int64_t i = R.key(k, m[0], m[1], d); r[i] = amp * hashval(seed, i); } return r; };
    switch (kind) {
    case Q_REPORT: v = check_footprint(c, p, R); break;
    case Q_RHS:
      v = check_ids(c, p, R, TAG_POP + n, &got); if (!v.cls.empty()) return v;
      want = R.apply(ref::Vec(R.size(), 0.), true, true, &sc); for (auto &y : want) y = -y;
      v = compare_x(R, got, want, tol, sc + 1e-9, "control-rhs", fmt("operation %d: right-hand side of the control problem", n)); break;
    case Q_MULT:
      v = check_ids(c, p, R, TAG_POP + n, &got); if (!v.cls.empty()) return v;
      want = R.apply(rnd(1e-3 * p("amp", 1000)), p("mult_rhs"), false, &sc);
      v = compare_x(R, got, want, tol, sc + 1e-9, "control-operator", fmt("operation %d: control operator times vector", n)); break;
    case Q_SOLVE: {
      double reason = rec0(c, TAG_REASON, 1000 + n);
      for (int r = 0; r < (int)p("np"); ++r) if (record(c.sh, r, TAG_REASON, 1000 + n, 0) != reason) return {"disagree", "processes disagree on the outcome of the solve"};
      v = check_ids(c, p, R, TAG_POP + n, &control); if (!v.cls.empty()) return v;
      Field f = collect(c.sh, (int)p("np"), TAG_FINAL + n, R.g.n());
      double s0, s1; ref::Vec r0 = R.apply(ref::Vec(R.size(), 0.), true, true, &s0), r1 = R.apply(control, true, true, &s1);
      ref::Vec b = R.fluid_rhs(control, true, !R.dton);
      ref::Vec u = R.S->solve(b); if (R.sing) close_field(R.pt, R.g, false, u);
      v = check_solution(f, R.q, R.g, u, 1e-5, fmt("operation %d: field with the computed control", n), s0); if (!v.cls.empty()) return v;
      // the control has to satisfy the condition it was computed from
      double n0 = 0, n1 = 0; for (int64_t i = 0; i < R.size(); ++i) { n0 += r0[i] * r0[i]; n1 += r1[i] * r1[i]; }
      if (reason > 0 && !(std::sqrt(n1) <= 1e-4 * std::sqrt(n0) + 1e-6 * (s1 + s0 + 1e-6))) return {"residual", fmt("operation %d: the solver reports convergence but the computed control leaves a residual of %.3g (%.3g without control)", n, std::sqrt(n1), std::sqrt(n0))};
      if (!(std::sqrt(n1) <= 1.01 * std::sqrt(n0) + 1e-6 * (s1 + s0 + 1e-6))) return {"residual", fmt("operation %d: the computed control leaves a residual of %.3g, more than without control (%.3g)", n, std::sqrt(n1), std::sqrt(n0))};
      solved[pk] = n; field[pk] = f.v; break;
    }
    case Q_VEL: {
      // still the field of that solve?
      if (solved[pk] < 0) break;
      bool stale = false; for (int m = solved[pk] + 1; m <= n; ++m) { int64_t o = p(fmt("op%d", m)), q = p(fmt("pop%d", m)); stale |= p("mix") && o && opprob(o) == pk; stale |= m < n && opprob(q) == pk && opkind(q) <= Q_SOLVE; }
      if (stale) break;
      v = agree(c, p, TAG_VELO, "velocities of the particles"); if (!v.cls.empty()) return v;
      double us = 1e-3; for (int64_t i = 0; i < R.g.nu(); ++i) us = std::max(us, std::fabs(field[pk][i]));
      for (size_t k = 0; k < R.pt.size(); ++k) for (int d = 0; d < 2; ++d) {
        double m = 0; for (auto &s : R.pt[k].surf) m += R.bil(field[pk], s, d) / R.pt[k].surf.size();
        double o = rec0(c, TAG_VELO, 1000 * n + 2 * k + d);
        if (!(std::fabs(o - m) <= 1e-9 * us)) return {"velocity", fmt("operation %d: particle %d moves with velocity component %d = %.12g, the fluid at its surface with %.12g", n, (int)k, d, o, m)};
      }
      break;
    }
    case Q_FT: {
      v = agree(c, p, TAG_FORCE, "forces"); if (v.cls.empty()) v = agree(c, p, TAG_TORQUE, "torques"); if (!v.cls.empty()) return v;
      ref::Vec y = rnd(1.);
      for (size_t k = 0; k < R.pt.size(); ++k) {
        auto &P = R.pt[k].p; double F[3] = {0, 0, 0}, w = P.vol() / std::max<size_t>(1, R.pt[k].nodes.size());
        for (auto &m : R.pt[k].nodes) { double a = y[R.key(k, m[0], m[1], 0)], b = y[R.key(k, m[0], m[1], 1)]; F[0] += w * a; F[1] += w * b; F[2] += w * ((m[0] * R.g.hx - P.cx) * b - (m[1] * R.g.hy - P.cy) * a); }
        double o[3] = {rec0(c, TAG_FORCE, 1000 * n + 2 * k), rec0(c, TAG_FORCE, 1000 * n + 2 * k + 1), rec0(c, TAG_TORQUE, 1000 * n + k)};
        double s = P.vol();
        for (int d = 0; d < 3; ++d) if (!(std::fabs(o[d] - F[d]) <= 1e-10 * s * (d == 2 ? P.R : 1))) return {d == 2 ? "torque" : "force", fmt("operation %d: particle %d has %s %.12g, the control inside it integrates to %.12g", n, (int)k, d == 2 ? "torque" : d ? "force y" : "force x", o[d], F[d])};
      }
      break;
    }
    }
    if (!v.cls.empty()) return v;
  }
  return {};
}
namespace {
static Violation check_particles(Ctx &c, const Params &p)
{
  Violation v;
  if (!sane(c.run(p), v)) return v;
  v = statuses(c, p); if (!v.cls.empty()) return v;
  return verify_particles(c, p);
}
// nodes on the circle to rounding: inside or not, but on every split of the grid alike
struct Footprint {
  std::set<int64_t> ids; std::map<int64_t, double> info; vector<std::array<double, 7>> surf;
  Violation read(Ctx &c, const Params &p)
  {
    for (int r = 0; r < (int)p("np"); ++r) {
      for (auto &x : records(c.sh, r, TAG_PARTPTS)) if (!ids.insert(x.idx).second) return {"unknowns", fmt("unknown %lld is on two ranks", (long long)x.idx)};
      for (auto &x : records(c.sh, r, TAG_PARTINFO)) { auto it = info.emplace(x.idx, x.val).first; if (it->second != x.val) return {"disagree", fmt("particle %d: rank %d counts %g %s points, rank 0 %g", (int)(x.idx / 2), r, x.val, x.idx % 2 ? "surface" : "integration", it->second)}; }
      std::map<int64_t, std::array<double, 7>> m;
      for (auto &x : records(c.sh, r, TAG_SURF)) { auto &a = m[x.idx >> 3]; a[0] = (double)(x.idx >> 32); a[1 + (x.idx & 7)] = x.val; }
      for (auto &x : m) surf.push_back(x.second);
    }
    std::sort(surf.begin(), surf.end());
    return {};
  }
};
static Violation check_touch(Ctx &c, const Params &p)
{
  Violation v;
  if (!sane(c.run(p), v)) return v;
  v = statuses(c, p); if (!v.cls.empty()) return v;
  Footprint a, b; v = a.read(c, p); if (!v.cls.empty()) return v;
  bool moved = false; for (int n = 0; p(fmt("pop%d", n)); ++n) if (opkind(p(fmt("pop%d", n))) == Q_AGAIN) moved = !moved;
  Ref R(p, "", moved); auto &g = R.g;
  auto name = [&](int64_t i) { int64_t j = i % g.nu() / 2; return fmt("particle %d node (%d,%d)", (int)(i / g.nu()), (int)(j % g.nux), (int)(j / g.nux)); };
  std::set<int64_t> want, may;
  for (size_t k = 0; k < R.pt.size(); ++k) { for (auto &n : R.pt[k].nodes) if (!R.pt[k].touch.count(n)) for (int d = 0; d < 2; ++d) want.insert(R.key(k, n[0], n[1], d)); for (auto &n : R.pt[k].touch) for (int d = 0; d < 2; ++d) may.insert(R.key(k, n[0], n[1], d)); }
  for (auto i : want) if (!a.ids.count(i)) return {"unknowns", name(i) + " is inside the particle but on no rank an unknown"};
  for (auto i : a.ids) if (!want.count(i) && !may.count(i)) return {"unknowns", name(i) + " is not inside the particle but is an unknown"};
  for (size_t k = 0; k < R.pt.size(); ++k) { double n = 0; for (auto &s : a.surf) n += s[0] == (double)k; if (n != a.info[2 * k + 1]) return {"surface-count", fmt("particle %d: %g surface points are counted, %g are held", (int)k, a.info[2 * k + 1], n)}; }
  Params q = p; for (auto &k : ENV_SIMPLIFY) q[k.first] = k.second;
  if (!sane(c.run(q), v)) return {"alone-" + v.cls, v.detail};
  v = b.read(c, q); if (!v.cls.empty()) return v;
  for (auto i : a.ids) if (!b.ids.count(i)) return {"partition-dependent", name(i) + " is an unknown, but not on one process"};
  for (auto i : b.ids) if (!a.ids.count(i)) return {"partition-dependent", name(i) + " is an unknown on one process only"};
  for (auto &x : a.info) if (b.info[x.first] != x.second) return {"partition-dependent", fmt("particle %d has %g %s points, on one process %g", (int)(x.first / 2), x.second, x.first % 2 ? "surface" : "integration", b.info[x.first])};
  // a point on a grid line may be given to either of its cells
  vector<char> used(b.surf.size(), 0);
  for (auto &x : a.surf) {
    int m = -1; double px = x[1] * g.hx + x[3], py = x[2] * g.hy + x[4], e = 1e-9 * std::max(g.hx, g.hy);
    for (size_t i = 0; i < b.surf.size() && m < 0; ++i) { auto &y = b.surf[i]; if (!used[i] && y[0] == x[0] && std::hypot(x[5] - y[5], x[6] - y[6]) < e && std::hypot(px - y[1] * g.hx - y[3], py - y[2] * g.hy - y[4]) < e) m = (int)i; }
    if (m < 0 || x[3] < -e || x[3] > g.hx + e || x[4] < -e || x[4] > g.hy + e) return {"partition-dependent", fmt("particle %d: the surface point at (%.12g,%.12g) from its centre is placed at (%.12g,%.12g) in cell (%g,%g); on one process it is not", (int)x[0], x[5], x[6], x[3], x[4], x[1], x[2])};
    used[m] = 1;
  }
  return {};
}
static const vector<std::pair<std::string, int64_t>> PART_S = {{"shape", 0}, {"scale", 4}, {"pop3", 0}, {"pop2", 0}, {"pop1", 0}, {"npart", 1}, {"xper", 0}, {"yper", 0}, {"strain", 0}, {"rhsmode", 0}, {"bcmode", 3}};
static const vector<int> NPS = {1, 2, 2, 3, 4}, NPT = {1, 2, 3, 4, 5, 6, 8};
} // namespace

std::vector<Property> props_part()
{
  std::vector<Property> v;
  auto add = [&](const char *id, const char *title, const char *rule, std::function<Params(Rng &, bool, int64_t)> gen, std::function<Violation(Ctx &, const Params &)> chk) {
    Property P; P.id = id; P.title = title; P.gen = gen; P.check = chk; P.rule = rule; P.simplify = simplify(PART_S); P.real = REAL_FEM; P.stub = STUB_ALL; v.push_back(P);
  };
  add("C06", "Particle footprint does not depend on the partition", "a run in which unknowns, integration points and surface points of every particle were compared", [](Rng &r, bool th, int64_t) {
    Params p; bool w = gen_wide(r); if (r.below(4) == 0) p["tiny"] = 1; p["touch"] = r.below(5) == 0; gen_particles(r, p, th, np_wide(w, {1, 2, 3, 4, 5, 6, 7, 8}), 4, w ? 48 : th ? 24 : 12, w ? 12 : th ? 6 : 4);
    p["dton"] = r.below(2); setpops(p, {Q_REPORT});
    if (r.below(4) == 0) { gen_move(r, p); setpops(p, {Q_AGAIN, Q_REPORT}); if (r.below(3) == 0) setpops(p, {Q_AGAIN, Q_AGAIN, Q_REPORT}); }
    p["op0"] = K_PART; p["cfg"] = p("npart") + 8 * p("xper") + 16 * p("yper") + 32 * p("touch"); return p; }, [](Ctx &c, const Params &p) { return p("touch") ? check_touch(c, p) : check_particles(c, p); });
  add("C07", "Control operator of particles under forces", "a run in which every application of the control operator was compared", [](Rng &r, bool th, int64_t) {
    Params p; gen_with_solver(r, p, th, th ? NPT : NPS, 4, th ? 9 : 6, th ? 3 : 2);
    int k = r.below(4);
    if (k == 0) setpops(p, {Q_RHS}); else if (k == 1) setpops(p, {Q_MULT + 100 * r.range(1, 1000)}); else if (k == 2) setpops(p, {Q_RHS, Q_MULT + 100 * r.range(1, 1000)}); else { setpops(p, {Q_MULT + 100 * r.range(1, 1000), Q_RHS, Q_MULT + 100 * r.range(1, 1000)}); }
    if (k != 2 && r.below(3) == 0) p["mult_rhs"] = 1;
    p["amp"] = r.below(2) ? 1000 : 50000;
    p["cfg"] = p("npart") + 8 * k; return p; }, check_particles);
  add("C08", "State after the solve for particles under forces", "a run in which the final field, its residual and the particle velocities were compared", [](Rng &r, bool th, int64_t) {
    Params p; gen_with_solver(r, p, th, th ? NPT : NPS, 4, th ? 7 : 5, th ? 3 : 2);
    p["stepcap"] = 30000000; p["semit"] = p("solver") != 4 && r.below(3) ? 60 : 8;
    setpops(p, {Q_RHS, Q_SOLVE + 100 * r.range(1, 1000), Q_VEL});
    p["cfg"] = p("npart"); return p; }, check_particles);
  add("C09", "Particles with a prescribed rigid motion", "a run in which operator, right-hand side or solution were compared", [](Rng &r, bool th, int64_t) {
    Params p; gen_with_solver(r, p, th, th ? NPT : NPS, 4, th ? 8 : 6, th ? 3 : 2);
    p["dton"] = 1; p["stepcap"] = 30000000; p["semit"] = p("solver") != 4 && r.below(3) ? 60 : 8;
    int k = r.below(4);
    if (k == 0) setpops(p, {Q_RHS}); else if (k == 1) setpops(p, {Q_MULT + 100 * r.range(1, 1000), Q_RHS}); else if (k == 2) setpops(p, {Q_RHS, Q_MULT + 100 * r.range(1, 1000)}); else setpops(p, {Q_RHS, Q_SOLVE + 100 * r.range(1, 1000)});
    p["cfg"] = p("npart") + 8 * k; return p; }, check_particles);
  add("C17", "Treatment of close pairs", "a run in which right-hand side, operator or final field with the treatment of close pairs were compared", [](Rng &r, bool th, int64_t) {
    Params p;
    for (;;) {
      p = Params(); gen_particles(r, p, th, th ? NPT : NPS, 5, th ? 10 : 7, 2);
      if (p("mx") * p("my") > (th ? 90 : 49)) continue;
      p["solver"] = 2; p["asm"] = 1; p["fluidit"] = 3000;
      auto g = grid(PP::get(p, "")); if (g.hx / g.hy > 1.6 || g.hy / g.hx > 1.6) continue;
      p["none"] = 0; if (r.below(40) == 0) { p["npart"] = 0; p["none"] = p["dton"] = p["sing"] = 1; p["exact"] = p["tiny"] = 0; break; }
      if (close_pair(r, p, true)) break;
    }
    p["stepcap"] = 30000000; p["semit"] = r.range(1, 60);
    int k = r.below(4); int64_t m = Q_MULT + 100 * r.range(1, 1000), s = Q_SOLVE + 100 * r.range(1, 1000);
    setpops(p, k == 0 ? vector<int64_t>{Q_RHS} : k == 1 ? vector<int64_t>{Q_RHS, m, Q_RHS} : k == 2 ? vector<int64_t>{Q_RHS, s} : vector<int64_t>{Q_RHS, s, m, Q_RHS});
    p["cfg"] = p("npart") + 8 * k; return p; }, check_particles);
  add("C10", "Forces and torques of particles", "a run in which the force and torque of every particle were compared", [](Rng &r, bool th, int64_t) {
    Params p; bool w = gen_wide(r); if (r.below(4) == 0) p["tiny"] = 1; gen_particles(r, p, th, np_wide(w, {1, 2, 3, 4, 5, 6, 7, 8}), 4, w ? 40 : th ? 20 : 12, w ? 12 : th ? 5 : 3);
    setpops(p, {Q_FT + 100 * r.range(1, 1000)}); if (r.below(3) == 0) p["pop1"] = Q_FT + 100 * r.range(1, 1000);
    p["cfg"] = p("npart"); return p; }, check_particles);
  return v;
}
} // namespace sim
