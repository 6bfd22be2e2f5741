#include "ref.h"
#include <algorithm>
#include <cmath>
extern "C" {
void dgbtrf_(int *, int *, int *, int *, double *, int *, int *, int *);
void dgbtrs_(const char *, int *, int *, int *, int *, double *, int *, int *, double *, int *, int *);
}
namespace ref {
Grid::Grid(int mx_, int my_, double Lx_, double Ly_, bool px_, bool py_) : mx(mx_), my(my_), Lx(Lx_), Ly(Ly_), px(px_), py(py_)
{
  npx = px ? mx - 1 : mx; npy = py ? my - 1 : my;
  nux = px ? 2 * (mx - 1) : 2 * mx - 1; nuy = py ? 2 * (my - 1) : 2 * my - 1;
  hx = Lx / (mx - 1) / 2; hy = Ly / (my - 1) / 2;
}
bool Grid::dir(int i, int j, int d, const Mask &m) const
{
  if (!px && i == 0 && m[0][d]) return true;
  if (!px && i == nux - 1 && m[1][d]) return true;
  if (!py && j == 0 && m[2][d]) return true;
  if (!py && j == nuy - 1 && m[3][d]) return true;
  return false;
}
// one-dimensional Q1 matrices on [0,h]
struct E1 { double M[2][2], K[2][2], C[2][2]; };   // C[i][j] = int phi_i phi_j'
static E1 e1(double h) { return E1{{{h / 3, h / 6}, {h / 6, h / 3}}, {{1 / h, -1 / h}, {-1 / h, 1 / h}}, {{-.5, .5}, {-.5, .5}}}; }

static void visc(const Grid &g, const Vec &x, Vec &y, bool strain)
{
  E1 X = e1(g.hx), Y = e1(g.hy);
  int ex = 2 * (g.mx - 1), ey = 2 * (g.my - 1);
  for (int J = 0; J < ey; ++J)
    for (int I = 0; I < ex; ++I)
      for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 4; ++b) {
          int ax = a & 1, ay = a >> 1, bx = b & 1, by = b >> 1;
          int ia = (I + ax) % g.nux, ja = (J + ay) % g.nuy, ib = (I + bx) % g.nux, jb = (J + by) % g.nuy;
          double kx = X.K[ax][bx] * Y.M[ay][by], ky = X.M[ax][bx] * Y.K[ay][by];
          double u = x[g.iu(ib, jb, 0)], v = x[g.iu(ib, jb, 1)];
          if (!strain) {
            y[g.iu(ia, ja, 0)] += (kx + ky) * u;
            y[g.iu(ia, ja, 1)] += (kx + ky) * v;
          } else {
            double c01 = X.C[ax][bx] * Y.C[by][ay];   // int dx(phi_b) dy(phi_a)
            double c10 = X.C[bx][ax] * Y.C[ay][by];   // int dy(phi_b) dx(phi_a)
            y[g.iu(ia, ja, 0)] += (2 * kx + ky) * u + c01 * v;
            y[g.iu(ia, ja, 1)] += (kx + 2 * ky) * v + c10 * u;
          }
        }
}
// coarse hat functions on the fine nodes of one macro element
static const double PSI[2][3] = {{1, .5, 0}, {0, .5, 1}};
static void pmat(double h, double G[2][3], double M[2][3])
{ // G[p][v] = int psi_p phi_v', M[p][v] = int psi_p phi_v
  E1 E = e1(h);
  for (int p = 0; p < 2; ++p) for (int v = 0; v < 3; ++v) G[p][v] = M[p][v] = 0;
  for (int p = 0; p < 2; ++p)
    for (int e = 0; e < 2; ++e)
      for (int n = 0; n < 2; ++n)
        for (int v = 0; v < 2; ++v) { G[p][e + v] += PSI[p][e + n] * E.C[n][v]; M[p][e + v] += PSI[p][e + n] * E.M[n][v]; }
}
static void divgrad(const Grid &g, const Vec &x, Vec &y)
{
  double Gx[2][3], Mx[2][3], Gy[2][3], My[2][3];
  pmat(g.hx, Gx, Mx); pmat(g.hy, Gy, My);
  for (int J = 0; J < g.my - 1; ++J)
    for (int I = 0; I < g.mx - 1; ++I)
      for (int p = 0; p < 4; ++p) {
        int pi = (I + (p & 1)) % g.npx, pj = (J + (p >> 1)) % g.npy;
        for (int v = 0; v < 9; ++v) {
          int vx = v % 3, vy = v / 3, ui = (2 * I + vx) % g.nux, uj = (2 * J + vy) % g.nuy;
          double bx = Gx[p & 1][vx] * My[p >> 1][vy], by = Mx[p & 1][vx] * Gy[p >> 1][vy];
          y[g.ip(pi, pj)] += bx * x[g.iu(ui, uj, 0)] + by * x[g.iu(ui, uj, 1)];
          y[g.iu(ui, uj, 0)] -= bx * x[g.ip(pi, pj)];
          y[g.iu(ui, uj, 1)] -= by * x[g.ip(pi, pj)];
        }
      }
}
static void rows_identity(const Grid &g, const Vec &x, Vec &y, const Mask &m)
{
  for (int j = 0; j < g.nuy; ++j) for (int i = 0; i < g.nux; ++i) for (int d = 0; d < 2; ++d) if (g.dir(i, j, d, m)) y[g.iu(i, j, d)] = x[g.iu(i, j, d)];
}
Vec applyA(const Grid &g, const Vec &x, bool strain, const Mask &m)
{
  Vec y(g.n(), 0.); visc(g, x, y, strain); divgrad(g, x, y); rows_identity(g, x, y, m); return y;
}
static void massp(const Grid &g, const Vec &x, Vec &y)
{
  E1 X = e1(2 * g.hx), Y = e1(2 * g.hy);
  for (int J = 0; J < g.my - 1; ++J) for (int I = 0; I < g.mx - 1; ++I)
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b)
      y[g.ip((I + (a & 1)) % g.npx, (J + (a >> 1)) % g.npy)] += X.M[a & 1][b & 1] * Y.M[a >> 1][b >> 1] * x[g.ip((I + (b & 1)) % g.npx, (J + (b >> 1)) % g.npy)];
}
Vec applyP(const Grid &g, const Vec &x, bool strain, const Mask &m)
{
  Vec y(g.n(), 0.); visc(g, x, y, strain); massp(g, x, y); rows_identity(g, x, y, m); return y;
}
Vec mass(const Grid &g, const Vec &f)
{
  Vec y(g.n(), 0.);
  E1 X = e1(g.hx), Y = e1(g.hy);
  for (int J = 0; J < 2 * (g.my - 1); ++J) for (int I = 0; I < 2 * (g.mx - 1); ++I)
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b)
      for (int d = 0; d < 2; ++d)
        y[g.iu((I + (a & 1)) % g.nux, (J + (a >> 1)) % g.nuy, d)] += X.M[a & 1][b & 1] * Y.M[a >> 1][b >> 1] * f[g.iu((I + (b & 1)) % g.nux, (J + (b >> 1)) % g.nuy, d)];
  return y;
}
void set_bc(const Grid &g, Vec &r, const Mask &m, const BFun &val)
{
  // border after border, x-borders first: corners take the y-border's value
  auto put = [&](int b, int i, int j) { for (int d = 0; d < 2; ++d) if (m[b][d]) r[g.iu(i, j, d)] = val(b, d, i * g.hx, j * g.hy); };
  if (!g.px) { for (int j = 0; j < g.nuy; ++j) put(0, 0, j); for (int j = 0; j < g.nuy; ++j) put(1, g.nux - 1, j); }
  if (!g.py) { for (int i = 0; i < g.nux; ++i) put(2, i, 0); for (int i = 0; i < g.nux; ++i) put(3, i, g.nuy - 1); }
}
void set_bc0(const Grid &g, Vec &r, const Mask &m) { set_bc(g, r, m, [](int, int, double, double) { return 0.; }); }
void demean(const Grid &g, Vec &x)
{
  double s = 0; for (int64_t i = g.nu(); i < g.n(); ++i) s += x[i];
  s /= g.np(); for (int64_t i = g.nu(); i < g.n(); ++i) x[i] -= s;
}
Solver::Solver(const Grid &gr, bool strain, const Mask &m) : g(gr)
{
  // order unknowns by position along the longer non-periodic direction
  n = (int)g.n();
  std::vector<std::pair<std::pair<double, double>, int>> key(n);
  bool byy = g.px ? true : (g.py ? false : g.nuy >= g.nux);
  for (int j = 0; j < g.nuy; ++j) for (int i = 0; i < g.nux; ++i) for (int d = 0; d < 2; ++d) key[g.iu(i, j, d)] = {{byy ? j : i, byy ? i + .1 * d : j + .1 * d}, (int)g.iu(i, j, d)};
  for (int j = 0; j < g.npy; ++j) for (int i = 0; i < g.npx; ++i) key[g.ip(i, j)] = {{byy ? 2. * j : 2. * i, byy ? 2 * i + .5 : 2 * j + .5}, (int)g.ip(i, j)};
  std::sort(key.begin(), key.end());
  perm.assign(n, 0);
  for (int k = 0; k < n; ++k) perm[key[k].second] = k;
  pinned = g.ip(g.npx / 2, g.npy / 2);
  // columns by probing: couplings reach at most 2 velocity cells, so unit
  // vectors are applied one at a time (sizes here are small)
  std::vector<std::vector<std::pair<int, double>>> cols(n);
  kl = ku = 0;
  // element-wise assembly through a sparse map of triplets
  struct T { int r, c; double v; };
  std::vector<T> t;
  E1 X = e1(g.hx), Y = e1(g.hy);
  for (int J = 0; J < 2 * (g.my - 1); ++J) for (int I = 0; I < 2 * (g.mx - 1); ++I)
    for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) {
      int ax = a & 1, ay = a >> 1, bx = b & 1, by = b >> 1;
      int ia = (I + ax) % g.nux, ja = (J + ay) % g.nuy, ib = (I + bx) % g.nux, jb = (J + by) % g.nuy;
      double kx = X.K[ax][bx] * Y.M[ay][by], ky = X.M[ax][bx] * Y.K[ay][by];
      if (!strain) for (int d = 0; d < 2; ++d) t.push_back({(int)g.iu(ia, ja, d), (int)g.iu(ib, jb, d), kx + ky});
      else {
        t.push_back({(int)g.iu(ia, ja, 0), (int)g.iu(ib, jb, 0), 2 * kx + ky});
        t.push_back({(int)g.iu(ia, ja, 1), (int)g.iu(ib, jb, 1), kx + 2 * ky});
        t.push_back({(int)g.iu(ia, ja, 0), (int)g.iu(ib, jb, 1), X.C[ax][bx] * Y.C[by][ay]});
        t.push_back({(int)g.iu(ia, ja, 1), (int)g.iu(ib, jb, 0), X.C[bx][ax] * Y.C[ay][by]});
      }
    }
  double Gx[2][3], Mx[2][3], Gy[2][3], My[2][3];
  pmat(g.hx, Gx, Mx); pmat(g.hy, Gy, My);
  for (int J = 0; J < g.my - 1; ++J) for (int I = 0; I < g.mx - 1; ++I)
    for (int p = 0; p < 4; ++p) for (int v = 0; v < 9; ++v) {
      int pp = (int)g.ip((I + (p & 1)) % g.npx, (J + (p >> 1)) % g.npy);
      int vx = v % 3, vy = v / 3, ui = (2 * I + vx) % g.nux, uj = (2 * J + vy) % g.nuy;
      double b[2] = {Gx[p & 1][vx] * My[p >> 1][vy], Mx[p & 1][vx] * Gy[p >> 1][vy]};
      for (int d = 0; d < 2; ++d) { int q = (int)g.iu(ui, uj, d); t.push_back({pp, q, b[d]}); t.push_back({q, pp, -b[d]}); }
    }
  std::vector<char> fix(n, 0);
  for (int j = 0; j < g.nuy; ++j) for (int i = 0; i < g.nux; ++i) for (int d = 0; d < 2; ++d) if (g.dir(i, j, d, m)) fix[g.iu(i, j, d)] = 1;
  fix[pinned] = 1;
  for (auto &e : t) if (!fix[e.r]) { int dlt = perm[e.r] - perm[e.c]; kl = std::max(kl, dlt); ku = std::max(ku, -dlt); }
  int ld = 2 * kl + ku + 1;
  ab.assign((size_t)ld * n, 0.);
  auto at = [&](int r, int c) -> double & { return ab[(size_t)c * ld + kl + ku + r - c]; };
  for (auto &e : t) if (!fix[e.r]) at(perm[e.r], perm[e.c]) += e.v;
  for (int i = 0; i < n; ++i) if (fix[i]) at(perm[i], perm[i]) = 1;
  piv.assign(n, 0);
  int info = 0;
  dgbtrf_(&n, &n, &kl, &ku, ab.data(), &ld, piv.data(), &info);
  ok = info == 0;
}
Vec Solver::solve(const Vec &rhs) const
{
  Vec b(n), x(n);
  for (int i = 0; i < n; ++i) b[perm[i]] = rhs[i];
  b[perm[pinned]] = 0;
  int one = 1, info = 0, ld = 2 * kl + ku + 1, nn = n, l = kl, u = ku;
  dgbtrs_("N", &nn, &l, &u, &one, const_cast<double *>(ab.data()), &ld, const_cast<int *>(piv.data()), b.data(), &nn, &info);
  for (int i = 0; i < n; ++i) x[i] = b[perm[i]];
  Vec y(x); demean(g, y);
  return y;
}
}
