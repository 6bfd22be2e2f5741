// What a simulated job is asked to do, shared by the rank images (which turn it
// into calls on cafes) and by the oracles (which recompute it independently).
#pragma once
#include "../sim/harness.h"
#include <array>
#include <cmath>
#include <string>
#include <vector>
namespace sim {
// one Stokes problem
struct PP {
  int mx, my; double Lx, Ly; bool xper, yper, strain, asmb, pmm;
  int mask;      // bit 2*border+component, borders left right bottom top
  int bcmode;    // 0 any polynomial, 1 linear divergence-free, 2 lids, 3 zero
  uint64_t bcseed; int rhsmode; uint64_t rhsseed; int solver;
  static PP get(const Params &p, const std::string &pre)
  {
    PP q;
    q.mx = (int)p(pre + "mx", 5); q.my = (int)p(pre + "my", 5);
    q.Lx = p(pre + "lx", 1000) / 1e3; q.Ly = p(pre + "ly", 1000) / 1e3;
    double u = std::pow(10., (double)p(pre + "unit")); q.Lx *= u; q.Ly *= u;
    q.xper = p(pre + "xper"); q.yper = p(pre + "yper"); q.strain = p(pre + "strain"); q.asmb = p(pre + "asm"); q.pmm = p(pre + "pmm");
    q.mask = (int)p(pre + "mask", 255); q.bcmode = (int)p(pre + "bcmode"); q.bcseed = p(pre + "bcseed", 1);
    q.rhsmode = (int)p(pre + "rhsmode"); q.rhsseed = p(pre + "rhsseed", 2); q.solver = (int)p(pre + "solver");
    return q;
  }
  std::array<std::array<int, 2>, 4> m() const { std::array<std::array<int, 2>, 4> r; for (int b = 0; b < 4; ++b) for (int d = 0; d < 2; ++d) r[b][d] = (mask >> (2 * b + d)) & 1; return r; }
};
inline double poly(uint64_t s, int base, double x, double y)
{
  double c[6]; for (int k = 0; k < 6; ++k) c[k] = hashval(s, base + k);
  return c[0] + c[1] * x + c[2] * y + c[3] * x * y + c[4] * x * x + c[5] * y * y;
}
inline double bcval(const PP &q, int b, int d, double x, double y)
{
  uint64_t s = q.bcseed;
  if (q.bcmode == 0) return poly(s, 100 * b + 10 * d, x, y);
  if (q.bcmode == 1) {
    double e = (q.xper || q.yper) ? 0 : hashval(s, 4);
    // with one periodic direction only the tangential profile may vary along it
    double bb = q.yper ? 0 : hashval(s, 1), dd = q.xper ? 0 : hashval(s, 3);
    return d == 0 ? hashval(s, 0) + bb * y + e * x : hashval(s, 2) + dd * x - e * y;
  }
  if (q.bcmode == 2) {
    double t = b < 2 ? y / q.Ly : x / q.Lx;
    bool tang = b < 2 ? d == 1 : d == 0;
    return tang ? 4 * hashval(s, b) * t * (1 - t) : 0;
  }
  return 0;
}
inline double rhsval(const PP &q, int d, double x, double y) { return q.rhsmode == 3 ? (d ? 1.0 : 0.5) * hashval(q.rhsseed, 1) : poly(q.rhsseed, 1000 + 10 * d, x, y); }
inline bool rhscomp(const PP &q, int d) { return q.rhsmode == 1 || q.rhsmode == 3 || (q.rhsmode == 2 && d == 0) || (q.rhsmode == 4 && d == 1); }

// a particle: a circle, or (shape) a superellipse of the program's own, |x/a|^e + |y/b|^e < 1 in its own frame; R bounds its distance from the centre
struct PartP {
  double cx, cy, R, fx, fy, rho, vx, vy, om, rot, a, b, e; bool shape;
  double cut(double x, double y) const      // below 1: inside
  {
    x -= cx; y -= cy;
    if (!shape) return (x / R) * (x / R) + (y / R) * (y / R);
    double c = std::cos(rot), s = std::sin(rot), u = c * x + s * y, v = c * y - s * x;
    return std::pow(std::fabs(u / a), e) + std::pow(std::fabs(v / b), e);
  }
  double vol() const { return shape ? 4 * a * b * std::tgamma(1 + 1 / e) * std::tgamma(1 + 1 / e) / std::tgamma(1 + 2 / e) : M_PI * R * R; }
  double area() const { return shape ? M_PI * (3 * (a + b) - std::sqrt((3 * a + b) * (a + 3 * b))) : 2 * M_PI * R; }
  double cd() const { return shape ? 2 / (a * a + b * b) : 1 / (R * R); }
  double ci() const { return shape ? 4 / (a * a + b * b) : 2 / (R * R); }
  double ext(int d) const                   // half its extent along an axis
  {
    if (!shape || e > 2) return R;
    double c = std::cos(rot), s = std::sin(rot), u = d ? s : c, v = d ? c : s;
    return std::sqrt(a * a * u * u + b * b * v * v);
  }
};
inline std::vector<PartP> parts(const Params &p, const std::string &pre = "", bool moved = false)
{
  std::vector<PartP> r;
  for (int i = 0; i < (int)p(pre + "npart"); ++i) {
    std::string s = pre + "p" + std::to_string(i);
    r.push_back({p(s + "cx") / 1e6, p(s + "cy") / 1e6, p(s + "R") / 1e6, 1e-3 * p(s + "fx"), 1e-3 * p(s + "fy"), 1e-3 * p(s + "rho"), 1e-3 * p(s + "vx"), 1e-3 * p(s + "vy"), 1e-3 * p(s + "om"), 1e-6 * p(s + "q"), 0, 0, 2, false});
    auto &q = r.back(); q.a = q.b = q.R;
    if (moved) { q.cx += p(s + "tx") / 1e6; q.cy += p(s + "ty") / 1e6; }
    if (p(pre + "shape")) {
      q.shape = true; q.e = 0.1 * p(s + "e", 20);
      int64_t ratio = p(s + "a", 1000); if (ratio <= 1000) q.b *= 1e-3 * ratio; else q.a *= 1e3 / ratio;
      q.R = q.e > 2 ? std::hypot(q.a, q.b) : std::max(q.a, q.b);
    }
  }
  return r;
}
// operations on a problem: op = kind + 10*problem + 100*seed for the first ten kinds
enum OpKind { K_NONE = 0, K_MULTA = 1, K_MULTP = 2, K_RHS = 3, K_SOLVE = 4, K_DIAGP = 5, K_SAVE = 6, K_INTERP = 7, K_PART = 8, K_HALO = 9, K_MASS = 10 };
inline int opkind(int64_t c) { return (int)(c % 10 + 10 * (c / 10 % 10 / 2)); }
inline int opprob(int64_t c) { return (int)(c / 10 % 2); }
inline uint64_t opseed(int64_t c) { return (uint64_t)(c / 100); }
inline int64_t mkop(int kind, int prob, int64_t seed) { return kind % 10 + 10 * (prob + 2 * (kind / 10)) + 100 * seed; }
// particle operations (script pop0, pop1, ...): kind + 10*problem + 100*seed
enum PopKind { Q_RHS = 1, Q_MULT = 2, Q_SOLVE = 3, Q_VEL = 4, Q_FT = 5, Q_REPORT = 6, Q_AGAIN = 7 };   // Q_AGAIN: set up again, the particles having moved (or moved back)
enum Tag { TAG_STATUS = 1, TAG_REASON = 2, TAG_INFO = 3, TAG_HALO = 4, TAG_ITS = 5, TAG_PARTPTS = 10, TAG_PARTINFO = 11, TAG_VELO = 12, TAG_FORCE = 13, TAG_TORQUE = 14, TAG_FILE = 15, TAG_STAGEOK = 16, TAG_SURF = 17, TAG_LIVE = 18, TAG_SITE = 19, TAG_FINAL = 90, TAG_OP = 100, TAG_POP = 200, TAG_AUX = 300 };
} // namespace sim
