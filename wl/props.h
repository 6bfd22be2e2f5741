// Shared by the property definitions: generators and comparisons.
#pragma once
#include "field.h"
#include "../sim/ref.h"
#include <algorithm>
namespace sim {
// schedule, network, allocator state
void gen_env(Rng &r, Params &p, const std::vector<int> &nps, bool dirtyok = true);
// now and then a much larger run: more processes, more nodes
bool gen_wide(Rng &r);
const std::vector<int> &np_wide(bool wide, const std::vector<int> &nps);
// grid sizes that the rank count can partition
void gen_grid(Rng &r, Params &p, const std::string &pre, int lo, int hi, int np, bool per_ok, int per_both);
ref::Grid grid(const PP &q);
bool layout_ok(int np, int npx, int npy);
void layout(int np, int npx, int npy, int &px, int &py);
ref::Vec input(uint64_t seed, int64_t n);
Violation compare(const Field &f, const ref::Vec &want, double tol, const std::string &cls, const std::string &what, const ref::Grid *g = nullptr, int64_t from = 0, int64_t to = -1, double floor = 1e-3);
Violation statuses(Ctx &c, const Params &p);       // nonzero status or recorded error
bool sane(const Result &r, Violation &v, const std::string &cls = "");
std::string where(const ref::Grid &g, int64_t i);
Violation untouched(Ctx &c, const Params &p, int op);
void ref_rhs(const PP &q, const ref::Grid &g, ref::Vec &rhs);     // load + boundary values
extern const std::vector<std::pair<std::string, int64_t>> ENV_SIMPLIFY;
std::vector<std::pair<std::string, int64_t>> simplify(std::vector<std::pair<std::string, int64_t>> more);
extern const std::vector<std::string> REAL_FEM, STUB_ALL;
std::shared_ptr<ref::Solver> reference_solver(const PP &q);
Violation check_solution(const Field &f, const PP &q, const ref::Grid &g, const ref::Vec &want, double tol, const std::string &what, double vscale = 0);
Violation check_solves(Ctx &c, const Params &p);
Violation verify_solves(Ctx &c, const Params &p);      // the same for a job that has run
Violation verify_particles(Ctx &c, const Params &p);
Violation check_saves(Ctx &c, const Params &p, const std::string &root);   // every file set a script leaves behind
void history_particles(Rng &r, Params &p, bool thorough); // particles in both problems, by turns with the fluid operations
std::vector<Property> props_fem();
std::vector<Property> props_part();
std::vector<Property> props_io();
std::vector<Property> props_sys();
void gen_particles(Rng &r, Params &p, bool thorough, const std::vector<int> &nps, int lo, int hi, int maxp);
bool close_pair(Rng &r, Params &p, bool more);   // two particles almost in contact, perhaps a third

inline void setops(Params &p, const std::vector<int64_t> &ops) { for (size_t i = 0; i < ops.size(); ++i) p["op" + std::to_string(i)] = ops[i]; }
inline void setpops(Params &p, const std::vector<int64_t> &ops) { for (size_t i = 0; i < ops.size(); ++i) p["pop" + std::to_string(i)] = ops[i]; }
}
