// Reference model: the same discrete problem written independently, on one
// natural numbering, with one-dimensional element matrices.
#pragma once
#include <array>
#include <cstdint>
#include <functional>
#include <vector>
namespace ref {
struct Grid {
  int mx, my; double Lx, Ly; bool px, py;
  int nux, nuy, npx, npy;           // points per direction (velocity, pressure)
  double hx, hy;                    // velocity spacing
  Grid(int mx, int my, double Lx, double Ly, bool px, bool py);
  int64_t nu() const { return 2ll * nux * nuy; }
  int64_t np() const { return 1ll * npx * npy; }
  int64_t n() const { return nu() + np(); }
  int64_t iu(int i, int j, int d) const { return 2ll * (1ll * j * nux + i) + d; }
  int64_t ip(int i, int j) const { return nu() + 1ll * j * npx + i; }
  // is velocity component d at node (i,j) prescribed; mask[border][d], borders left right bottom top
  bool dir(int i, int j, int d, const std::array<std::array<int, 2>, 4> &mask) const;
};
using Mask = std::array<std::array<int, 2>, 4>;
using Vec = std::vector<double>;
// y = A x ; P (block preconditioner)
Vec applyA(const Grid &g, const Vec &x, bool strain, const Mask &m);
Vec applyP(const Grid &g, const Vec &x, bool strain, const Mask &m);
Vec mass(const Grid &g, const Vec &f);      // velocity mass matrix times nodal field (pressure part 0)
// boundary values: val(border,d,x,y)
using BFun = std::function<double(int, int, double, double)>;
void set_bc(const Grid &g, Vec &r, const Mask &m, const BFun &val);
void set_bc0(const Grid &g, Vec &r, const Mask &m);
// Factorised Stokes operator with one pressure pinned; solutions have mean-free pressure.
struct Solver {
  Solver(const Grid &g, bool strain, const Mask &m);
  Vec solve(const Vec &rhs) const;
  bool ok = false;
  Grid g;
  std::vector<int> perm; std::vector<double> ab; std::vector<int> piv; int n, kl, ku; int64_t pinned;
};
void demean(const Grid &g, Vec &x);         // subtract the mean pressure
}
