// Whole programs: progress, independence of timing and partition, failing
// allocations.
#include "props.h"
#include <map>
#include <set>
#include <sstream>
namespace sim {
namespace {
using std::vector;
using M = std::map<int64_t, double>;
// everything a program computed, by tag and natural index
struct Outcome { std::map<int, M> f; std::map<int, int64_t> dup; M reason; };
static bool global_tag(int t) { return t >= TAG_FINAL && t < TAG_AUX; }
static Outcome outcome(Ctx &c, const Params &p, int group = 0)
{
  Outcome o;
  for (int r = 0; r < (int)(group ? p("extra") : p("np")); ++r) {
    auto &mb = c.sh->mb[job_rank(p, r, group)];
    for (uint64_t i = 0; i < mb.nout; ++i) {
      auto &x = mb.out[i];
      if (global_tag(x.tag)) { if (!o.f[x.tag].emplace(x.idx, x.val).second) o.dup[x.tag]++; }
      else if (r == 0 && (x.tag == TAG_VELO || x.tag == TAG_FORCE || x.tag == TAG_TORQUE)) o.f[x.tag][x.idx] = x.val;
      else if (r == 0 && x.tag == TAG_REASON) o.reason[x.idx] = x.val;
    }
  }
  return o;
}
static double maxabs(const M &m) { double s = 0; for (auto &x : m) s = std::max(s, std::fabs(x.second)); return s; }
// pressures are determined up to a constant
static void demean(const ref::Grid &g, M &m)
{
  double s = 0; int64_t n = 0; for (auto &x : m) if (x.first >= g.nu()) { s += x.second; n++; }
  for (auto &x : m) if (x.first >= g.nu()) x.second -= s / std::max<int64_t>(1, n);
}
static Violation same(const M &a, const M &b, int64_t from, int64_t to, double tol, double scale, const std::string &what)
{
  double wd = -1; int64_t wi = 0; int64_t na = 0, nb = 0;
  for (auto &x : a) if (x.first >= from && x.first < to) {
    na++; auto it = b.find(x.first);
    if (it == b.end()) return {"partition-dependent", fmt("%s: entry %lld exists only when the program runs on several processes", what.c_str(), (long long)x.first)};
    double d = std::fabs(x.second - it->second);
    if (!(d <= tol * scale)) { if (std::isnan(d)) { if (std::isnan(x.second) && std::isnan(it->second)) continue; d = 1e300; } if (d > wd) { wd = d; wi = x.first; } }
  }
  for (auto &x : b) if (x.first >= from && x.first < to) nb++;
  if (na != nb) return {"partition-dependent", fmt("%s: %lld values, %lld on one process", what.c_str(), (long long)na, (long long)nb)};
  if (wd >= 0) return {"partition-dependent", fmt("%s: entry %lld is %.12g, on one process %.12g (scale %.3g)", what.c_str(), (long long)wi, a.at(wi), b.at(wi), scale)};
  return {};
}
static void solver_choice(Rng &r, Params &p, const std::string &pre)
{
  p[pre + "strain"] = r.below(2); p[pre + "bcmode"] = r.range(1, 3); p[pre + "bcseed"] = r.range(1, 100000); p[pre + "rhsseed"] = r.range(1, 100000); p[pre + "rhsmode"] = r.below(5);
}
// a program: operations on one or two problems, then perhaps particles
static Params gen_program(Rng &r, bool th, const vector<int> &nps, bool save)
{
  Params p;
  int kind = r.below(5);     // 0-2 fluid, 3 particles under forces, 4 prescribed motion
  if (kind < 3) {
    gen_env(r, p, nps); int np = (int)p("np");
    p["two"] = r.below(2);
    for (std::string pre : {"", "b_"}) {
      int sol = r.below(3) ? 2 : 4;
      gen_grid(r, p, pre, 3, sol == 4 ? 4 : th ? 9 : 6, np, true, 0);
      p[pre + "solver"] = sol; p[pre + "asm"] = sol < 4; solver_choice(r, p, pre);
    }
    p["reuse"] = r.below(2); p["rx"] = r.range(1, 3); p["ry"] = r.range(1, 3);
    int n = (int)r.range(2, th ? 7 : 4);
    static const int ks[] = {K_MULTA, K_MULTP, K_RHS, K_SOLVE, K_SOLVE, K_DIAGP, K_INTERP, K_SAVE};
    for (int i = 0; i < n; ++i) { int k = ks[r.below(save ? 8 : 7)]; if (k == K_SOLVE && i > 1 && r.below(2)) k = K_RHS; p[fmt("op%d", i)] = k + 10 * (p("two") ? r.below(2) : 0) + 100 * r.range(1, 1000); }
  } else {
    // nodes on the circle to rounding: all splits have to treat them alike
    p["touch"] = r.below(4) == 0;
    gen_particles(r, p, th, nps, 4, th ? 8 : 6, th ? 4 : 3);
    p["stepcap"] = 30000000; p["semit"] = r.range(1, 4);
    if (kind == 4) {
      p["dton"] = 1;
      if (!p("touch") && r.below(3)) {
        for (int t = 0; t < 20; ++t) {
          gen_grid(r, p, "", 5, th ? 9 : 7, (int)p("np"), true, 0);
          if (p("mx") * p("my") > 60) continue;
          auto g = grid(PP::get(p, ""));
          if (g.Lx / g.Ly > 2.1 || g.Ly / g.Lx > 2.1 || g.hx / g.hy > 1.6 || g.hy / g.hx > 1.6) continue;
          p["solver"] = 2; p["asm"] = 1;
          if (close_pair(r, p, th)) break;
        }
        // no pair fits: the particles of the old grid do not belong to the new one
        if (!p("sing")) { Params q; gen_particles(r, q, th, {(int)p("np")}, 4, 6, 3); q["stepcap"] = 30000000; q["semit"] = p["semit"]; q["dton"] = 1; p = q; }
      }
    }
    int k = r.below(4); int64_t m = Q_MULT + 100 * r.range(1, 1000), s = Q_SOLVE + 100 * r.range(1, 1000);
    vector<int64_t> ops = k == 0 ? vector<int64_t>{m, Q_RHS} : k == 1 ? vector<int64_t>{Q_RHS, m} : k == 2 ? vector<int64_t>{Q_RHS, s} : vector<int64_t>{Q_RHS, s, Q_RHS};
    if (kind == 3) { if (k >= 2) ops.push_back(Q_VEL); if (r.below(2)) ops.push_back(Q_FT + 100 * r.range(1, 1000)); }
    setpops(p, ops);
    if (r.below(3) == 0) p["op0"] = K_MULTA + 100 * r.range(1, 1000);
  }
  p["cfg"] = kind + 8 * p("sing");
  return p;
}
// one process, canonical schedule, clean memory
static Params alone(Params p)
{
  for (auto &k : ENV_SIMPLIFY) p[k.first] = k.second;
  for (const char *k : {"fail_at", "fail_frac", "fail_rank", "fail_stage", "fail_site"}) p[k] = 0;
  return p;
}
static Violation compare_outcomes(const Params &p, Outcome &a, Outcome &b)
{
  Violation v;
  for (auto &d : a.dup) return {"partition-dependent", fmt("result %d: %lld entries are owned by two processes", d.first, (long long)d.second)};
  for (auto &x : b.reason) if ((a.reason.count(x.first) ? a.reason[x.first] > 0 : false) != (x.second > 0)) return {"partition-dependent", fmt("the solve of operation %lld ends with reason %g, on one process with %g", (long long)x.first, a.reason.count(x.first) ? a.reason[x.first] : 0., x.second)};
  for (auto &t : a.f) if (!b.f.count(t.first)) return {"partition-dependent", fmt("result %d exists only on several processes", t.first)};
  for (auto &t : b.f) {
    int tag = t.first; M &y = t.second, &x = a.f[tag];
    std::string what; double tol = 1e-9, sc = maxabs(y) + 1e-3; bool field = false; PP q = PP::get(p, "");
    if (tag >= TAG_OP && tag < TAG_POP) {
      int64_t code = p(fmt("op%d", tag - TAG_OP)); what = fmt("operation %d (kind %d)", tag - TAG_OP, (int)(opkind(code)));
      if (opkind(code) == K_SOLVE) { field = true; tol = 2e-6; q = PP::get(p, opprob(code) ? "b_" : ""); }
      else if (opkind(code) == K_DIAGP || opkind(code) == K_MULTA || opkind(code) == K_MULTP || opkind(code) == K_RHS) tol = 1e-10;
    } else if (tag >= TAG_POP && tag < TAG_AUX) {
      int64_t code = p(fmt("pop%d", tag - TAG_POP)); what = fmt("particle operation %d (kind %d)", tag - TAG_POP, (int)(opkind(code)));
      tol = opkind(code) == Q_SOLVE ? 1e-4 : 2e-6; sc += 0.1;
      if (opkind(code) == Q_SOLVE) continue;      // the control itself may be ill conditioned: its field is compared
    } else if (tag >= TAG_FINAL && tag < TAG_OP) { what = "field after the solve"; field = true; tol = 2e-5; if (opprob(p(fmt("pop%d", tag - TAG_FINAL)))) q = PP::get(p, "b_"); }
    else { what = tag == TAG_VELO ? "particle velocities" : tag == TAG_FORCE ? "forces" : "torques"; tol = tag == TAG_VELO ? 2e-5 : 1e-9; if (tag == TAG_VELO) { sc = 1e-3; auto g = grid(q); for (auto &fl : b.f) if (fl.first >= TAG_FINAL && fl.first < TAG_OP) for (auto &z : fl.second) if (z.first < g.nu()) sc = std::max(sc, std::fabs(z.second)); } }
    if (field) {
      auto g = grid(q); demean(g, x); demean(g, y);
      double su = 1e-3; for (auto &z : y) if (z.first < g.nu()) su = std::max(su, std::fabs(z.second));
      double sp = 0; for (auto &z : y) if (z.first >= g.nu()) sp = std::max(sp, std::fabs(z.second));
      double hm = std::min(g.hx, g.hy);
      v = same(x, y, 0, g.nu(), tol, su, what + ", velocity"); if (!v.cls.empty()) return v;
      v = same(x, y, g.nu(), INT64_MAX, 10 * tol, sp + su * std::max(g.hx, g.hy) / (hm * hm), what + ", pressure"); if (!v.cls.empty()) return v;
    } else { v = same(x, y, 0, INT64_MAX, tol, sc, what); if (!v.cls.empty()) return v; }
  }
  return {};
}
} // namespace

std::vector<Property> props_sys()
{
  std::vector<Property> v;
  vector<std::pair<std::string, int64_t>> sm = {{"op6", 0}, {"op5", 0}, {"op4", 0}, {"op3", 0}, {"op2", 0}, {"op1", 0}, {"pop4", 0}, {"pop3", 0}, {"pop2", 0}, {"pop1", 0}, {"two", 0}, {"mx", 3}, {"my", 3}, {"lx", 1000}, {"ly", 1000}, {"npart", 1}, {"xper", 0}, {"yper", 0}, {"strain", 0}, {"rhsmode", 0}, {"bcmode", 3}, {"rx", 1}, {"ry", 1}, {"reuse", 0}, {"sing", 0}};
  {
    Property P; P.id = "C05"; P.title = "Progress and independence of timing and process count";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p = gen_program(r, th, th ? vector<int>{2, 3, 4, 5, 6, 8} : vector<int>{2, 2, 3, 4, 6}, true);
      if (r.below(3) == 0) p["fin"] = 1;
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v;
      if (!sane(c.run(p), v)) return v;
      v = statuses(c, p); if (!v.cls.empty()) return v;
      Outcome a = outcome(c, p);
      v = check_saves(c, p, c.scratch); if (!v.cls.empty()) return v;
      Params q = alone(p);
      if (!sane(c.run(q), v)) return {"alone-" + v.cls, v.detail};
      Outcome b = outcome(c, q);
      return compare_outcomes(p, a, b);
    };
    P.simplify = simplify(sm); P.rule = "a program that ran to its end on several processes and on one, with every computed field compared"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  {
    Property P; P.id = "C19"; P.title = "Repeated work accumulates nothing";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p = gen_program(r, th, th ? vector<int>{1, 2, 3, 4, 5, 6} : vector<int>{1, 2, 2, 3, 4}, true);
      p["cycles"] = 5; p["mix"] = p("npart") ? r.below(2) : 0; p["stepcap"] = 60000000;
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v;
      if (!sane(c.run(p), v)) return v;
      v = statuses(c, p); if (!v.cls.empty()) return v;
      static const char *what[] = {"blocks of PETSc's allocator", "blocks of operator new", "open files", "communicators", "requests", "bytes of PETSc's allocator", "bytes of operator new"};
      for (int r = 0; r < (int)p("np"); ++r) for (int k = 0; k < 7; ++k) {
        int n = (int)p("cycles"); auto at = [&](int i) { return record(c.sh, r, TAG_LIVE, 10 * i + k, 0); };
        bool grows = at(n) > at(2);
        if (k < 6) for (int i = 3; i <= n; ++i) if (at(i) <= at(i - 1)) grows = false;    // a cache that fills once is none
        if (grows) return {"accumulates", fmt("rank %d holds %g, %g, %g, %g %s after each repetition of the same operations", r, at(n - 3), at(n - 2), at(n - 1), at(n), what[k])};
      }
      return {};
    };
    P.simplify = simplify(sm); P.rule = "a program whose operations were repeated and whose holdings were counted after each repetition"; P.real = REAL_FEM; P.stub = STUB_ALL; P.stub.push_back("PETSc's allocator (blocks are counted)");
    v.push_back(P);
  }
  {
    Property P; P.id = "C20"; P.title = "Memory is used only where and while it is valid";
    // the runs of every other property, with the library's code built with sanitizers
    P.gen = [](Rng &r, bool th, int64_t) {
      auto &all = properties(); std::vector<int> ix;
      for (int i = 0; i < (int)all.size(); ++i) if (all[i].id != "C20") ix.push_back(i);
      int k = ix[r.below((uint32_t)ix.size())];
      Params p = all[k].gen(r, th && r.below(2), r.below(1000000));
      p["of"] = atoi(all[k].id.c_str() + 1);
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      if (!rank_sanitized()) return {"internal", "this program was built without sanitizers"};
      for (auto &q : properties()) if (atoi(q.id.c_str() + 1) == (int)p("of") && p("of") != 20) q.check(c, p);     // its verdict is not the question here
      if (c.san.empty()) return {};
      // what, and where in the library
      std::string what, wh; bool top = false; int frames = 0; std::istringstream is(c.san); std::string l;
      std::string who = c.san.substr(0, c.san.find(':') + 2);
      while (std::getline(is, l)) {
        size_t e = l.find("ERROR: "); if (e != std::string::npos && what.empty()) { what = l.substr(e + 7); e = what.find(" on address"); if (e == std::string::npos) e = what.find(" on unknown"); if (e != std::string::npos) what.resize(e); }
        if ((l.compare(0, 8, "READ of ") == 0 || l.compare(0, 9, "WRITE of ") == 0) && !frames) what += ", " + l.substr(0, l.find(" at "));
        if (l.compare(0, 5, "    #") != 0) { if (frames) break; else continue; }
        size_t s = l.rfind('/'); std::string f = s == std::string::npos ? l.substr(l.rfind(' ') + 1) : l.substr(s + 1);
        bool lib = l.find("/cafes/") != std::string::npos;
        if (!frames++) top = lib || l.find("wl.cpp") != std::string::npos;
        if (lib && std::count(wh.begin(), wh.end(), '<') < 4 && wh.find(f) == std::string::npos) wh += (wh.empty() ? "" : " < ") + f;
      }
      // what PETSC does after a failed request of its own is not the library's doing
      if (!top && p("of") == 14) return {};
      return {"memory", who + what + " at " + (wh.empty() ? "?" : wh)};
    };
    std::set<std::pair<std::string, int64_t>> seen;
    for (auto &l : {v, props_fem(), props_part(), props_io()}) for (auto &q : l) for (auto &x : q.simplify) if (seen.insert(x).second) P.simplify.push_back(x);
    P.rule = "a run of another property's generator with the library's accesses checked"; P.real = REAL_FEM; P.stub = STUB_ALL; P.stub.push_back("heap (redzones, quarantine, filled blocks)");
    v.push_back(P);
  }
  {
    Property P; P.id = "C18"; P.title = "The library keeps to the processes it is given";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p = gen_program(r, th, th ? vector<int>{1, 2, 3, 4, 5, 6} : vector<int>{1, 2, 2, 3, 4}, true);
      if (r.below(3) == 0) p["fin"] = 1;
      p["sub"] = 1; p["subseed"] = r.range(1, 100000); p["subb"] = 0;
      p["extra"] = r.below(5) ? r.range(1, std::min<int64_t>(th ? 4 : 3, MAXRANKS - p("np"))) : 0;
      if (p("extra") && r.below(2)) {
        Params q = p; q["np"] = p("extra");
        if (in_domain(q)) p["subb"] = 1;
      }
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v;
      if (!sane(c.run(p), v)) return v;
      v = statuses(c, p); if (!v.cls.empty()) return v;
      bool both = p("subb") && p("extra") > 0;
      v = check_saves(c, p, c.scratch); if (!v.cls.empty()) return v;
      if (both) { v = check_saves(c, p, c.scratch + "/g1"); if (!v.cls.empty()) { v.detail = "program on the remaining processes: " + v.detail; return v; } }
      Outcome a = outcome(c, p), o; if (both) o = outcome(c, p, 1);
      c.cnt.add(both ? "two programs side by side" : p("extra") ? "processes left to something else" : "processes renumbered");
      Params q = alone(p);
      if (!sane(c.run(q), v)) return {"alone-" + v.cls, v.detail};
      Outcome b = outcome(c, q), b2 = b;
      v = compare_outcomes(p, a, b); if (!v.cls.empty() || !both) return v;
      v = compare_outcomes(p, o, b2); if (!v.cls.empty()) v.detail = "program on the remaining processes: " + v.detail;
      return v;
    };
    P.simplify = simplify(sm); P.rule = "a program that ran to its end on some of a job's processes, in a drawn order, beside another one or unrelated traffic, with every computed field compared with its run alone"; P.real = REAL_FEM; P.stub = STUB_ALL;
    v.push_back(P);
  }
  {
    Property P; P.id = "C14"; P.title = "A failing allocation is never silent";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p = gen_program(r, th, th ? vector<int>{1, 2, 3, 4, 6} : vector<int>{1, 1, 2, 2, 3, 4}, true);
      p["fin"] = 0; p["perturb"] = p("perturb") ? p("perturb") : r.range(1, 255);
      p["fail_stage"] = r.below(5) == 0 ? 3 : p("npart") ? (r.below(4) ? 2 : 1) : 1;
      if (p("fail_stage") == 1 && !p("op0")) p["op0"] = K_MULTA + 100 * r.range(1, 1000);
      p["fail_rank"] = r.below((uint32_t)p("np")); p["fail_frac"] = r.range(0, 999999);
      // every call path of the library counts alike, however often it is taken; or any request
      p["fail_site"] = r.below(4) ? 1 + r.below(3) : 0;
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v; Params q = p;
      q["fail_at"] = int64_t(1) << 40; q["fname"] = 20;
      if (!sane(c.run(q), v)) return {"fault-free-" + v.cls, v.detail};
      v = statuses(c, q); if (!v.cls.empty()) return v;
      int fr = (int)p("fail_rank"); if (fr >= (int)p("np")) return {};
      int64_t count = (int64_t)mailbox(c.sh, fr).alloc_count; if (!count) return {};
      Outcome good = outcome(c, q);
      q["fail_at"] = p("fail_at") ? p("fail_at") : 1 + p("fail_frac") * count / 1000000;
      if (p("fail_site") && !p("fail_at")) {
        vector<int64_t> site; for (uint64_t i = 0; i < mailbox(c.sh, fr).nout; ++i) { auto &x = mailbox(c.sh, fr).out[i]; if (x.tag == TAG_SITE) site.push_back((int64_t)x.val); }
        int64_t n = (int64_t)site.size() / 3; c.cnt.add("call paths of requests", n); c.cnt.add("requests", count);
        if (n) q["fail_at"] = site[3 * (p("fail_frac") * n / 1000000) + p("fail_site") - 1];
      }
      q["fname"] = 0;
      Result r = c.run(q);
      auto &mb = mailbox(c.sh, fr);
      if (!mb.alloc_fired) return {};
      c.cnt.add("fault allocation failure");
      std::string what = fmt("request %lld of %lld of rank %d failed", (long long)q("fail_at"), (long long)count, fr);
      if (r.cls == "abort") { c.cnt.add("allocation failure reported"); return {}; }
      if (!r.cls.empty()) return {r.cls, what + " [" + mb.errmsg + "]: " + r.detail};
      v = statuses(c, q); if (!v.cls.empty()) { c.cnt.add("allocation failure reported"); return {}; }
      Outcome bad = outcome(c, q);
      v = compare_outcomes(p, bad, good);
      if (!v.cls.empty()) return {"silent", what + ", every process reports success, but: " + v.detail + " [" + mb.errmsg + "]"};
      v = check_saves(c, q, c.scratch); if (!v.cls.empty()) return {"silent-" + v.cls, what + ", every process reports success, but: " + v.detail + " [" + mb.errmsg + "]"};
      c.cnt.add("allocation failure without effect on the results");
      return {};
    };
    P.simplify = simplify(sm); P.rule = "a program in which an allocation failed, reported or with every result correct"; P.real = REAL_FEM; P.stub = STUB_ALL; P.stub.push_back("PETSc's allocator (one request fails)");
    v.push_back(P);
  }
  return v;
}
} // namespace sim
