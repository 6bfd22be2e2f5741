// Saved files: completeness, description, reporting of failures, crashes.
#include "props.h"
#include <cstring>
#include <fstream>
#include <hdf5.h>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
namespace sim {
namespace {
using std::string; using std::vector;
// ------------------------------------------------------------ data file
struct DS { bool ok = false; int rank = 0; int64_t dim[4] = {0, 0, 0, 0}; vector<double> v; };
constexpr size_t DMAX = 1 << 18;
struct Raw { int32_t ok[2], rank[2]; int64_t dim[2][4]; double v[2][DMAX]; };
// Reads both fields in a child process: a torn file may do anything to the reader.
static bool read_h5(const string &file, DS d[2], const string names[2])
{
  static Raw *raw = nullptr;
  if (!raw) { raw = (Raw *)mmap(nullptr, sizeof(Raw), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (raw == MAP_FAILED) { raw = nullptr; return false; } }
  for (int e = 0; e < 2; ++e) { raw->ok[e] = 0; raw->rank[e] = 0; }
  pid_t pid = fork();
  if (pid == 0) {
    alarm(20);
    H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f >= 0) for (int e = 0; e < 2; ++e) {
      hid_t ds = H5Dopen2(f, names[e].c_str(), H5P_DEFAULT); if (ds < 0) continue;
      hid_t sp = H5Dget_space(ds); hsize_t dm[8]; int rk = H5Sget_simple_extent_ndims(sp);
      if (rk < 1 || rk > 4) continue;
      H5Sget_simple_extent_dims(sp, dm, nullptr);
      size_t n = 1; for (int i = 0; i < rk; ++i) { raw->dim[e][i] = dm[i]; n *= dm[i]; }
      raw->rank[e] = rk; if (n > DMAX) continue;
      if (H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, raw->v[e]) >= 0) raw->ok[e] = 1;
    }
    _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  for (int e = 0; e < 2; ++e) {
    d[e].ok = raw->ok[e]; d[e].rank = raw->rank[e]; size_t n = 1;
    for (int i = 0; i < d[e].rank; ++i) { d[e].dim[i] = raw->dim[e][i]; n *= d[e].dim[i]; }
    if (d[e].ok) d[e].v.assign(raw->v[e], raw->v[e] + n);
  }
  return true;
}
// ------------------------------------------------------------ descriptor
struct Node { string name, text; std::map<string, string> at; vector<std::unique_ptr<Node>> ch; Node *up = nullptr; };
static std::unique_ptr<Node> parse_xml(const string &s)
{ // elements, attributes, text; null when the text is not one complete document
  std::unique_ptr<Node> root(new Node); Node *cur = root.get(); size_t i = 0; int top = 0;
  auto blank = [&](char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; };
  while (i < s.size()) {
    if (s[i] != '<') { if (cur == root.get() && !blank(s[i])) return nullptr; cur->text += s[i++]; continue; }
    if (s.compare(i, 4, "<!--") == 0) { size_t e = s.find("-->", i); if (e == string::npos) return nullptr; i = e + 3; continue; }
    if (i + 1 < s.size() && (s[i + 1] == '?' || s[i + 1] == '!')) { size_t e = s.find('>', i); if (e == string::npos) return nullptr; i = e + 1; continue; }
    if (i + 1 < s.size() && s[i + 1] == '/') {
      size_t e = s.find('>', i); if (e == string::npos) return nullptr;
      string n = s.substr(i + 2, e - i - 2); while (!n.empty() && blank(n.back())) n.pop_back();
      if (cur == root.get() || n != cur->name) return nullptr;
      cur = cur->up; i = e + 1; continue;
    }
    ++i; std::unique_ptr<Node> n(new Node); n->up = cur;
    while (i < s.size() && !blank(s[i]) && s[i] != '>' && s[i] != '/') n->name += s[i++];
    if (n->name.empty()) return nullptr;
    bool closed = false;
    for (;;) {
      while (i < s.size() && blank(s[i])) ++i;
      if (i >= s.size()) return nullptr;
      if (s[i] == '>') { ++i; break; }
      if (s[i] == '/') { if (i + 1 >= s.size() || s[i + 1] != '>') return nullptr; i += 2; closed = true; break; }
      string k; while (i < s.size() && s[i] != '=' && !blank(s[i]) && s[i] != '>') k += s[i++];
      while (i < s.size() && blank(s[i])) ++i;
      if (i >= s.size() || s[i] != '=') return nullptr;
      ++i; while (i < s.size() && blank(s[i])) ++i;
      if (i >= s.size() || (s[i] != '"' && s[i] != '\'')) return nullptr;
      char q = s[i++]; string v; while (i < s.size() && s[i] != q) v += s[i++];
      if (i >= s.size()) return nullptr;
      ++i; n->at[k] = v;
    }
    Node *p = n.get(); if (cur == root.get()) top++;
    cur->ch.push_back(std::move(n)); if (!closed) cur = p;
  }
  if (cur != root.get() || top != 1) return nullptr;
  return root;
}
static void walk(Node *n, const std::function<void(Node *)> &f) { f(n); for (auto &c : n->ch) walk(c.get(), f); }
static vector<double> nums(const string &s) { std::istringstream is(s); vector<double> v; double x; while (is >> x) v.push_back(x); return v; }
static string trim(const string &s) { size_t a = s.find_first_not_of(" \n\t\r"), b = s.find_last_not_of(" \n\t\r"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
static bool slurp(const string &f, string &o) { std::ifstream i(f, std::ios::binary); if (!i) return false; std::stringstream s; s << i.rdbuf(); o = s.str(); return true; }

// what one file set has to contain
struct Want { int nux, nuy, npx, npy; double hx, hy; ref::Vec x; };   // x: velocity then pressure, natural order
static string shape(const DS &d) { string s; for (int i = 0; i < d.rank; ++i) s += fmt("%s%lld", i ? "x" : "", (long long)d.dim[i]); return s; }
static Violation check_data(const string &dir, const string &name, const Want &w, DS d[2])
{
  string f = name + ".h5"; const string names[2] = {"velocity", "pressure"};
  struct stat st; if (stat((dir + "/" + f).c_str(), &st)) return {"file-missing", f + " does not exist"};
  if (!read_h5(dir + "/" + f, d, names)) return {"file-missing", "no reader"};
  for (int e = 0; e < 2; ++e) {
    if (!d[e].ok) return {"file-unreadable", f + " has no readable dataset " + names[e]};
    bool ok = e ? (d[e].rank == 2 || (d[e].rank == 3 && d[e].dim[2] == 1)) && d[e].dim[0] == w.npy && d[e].dim[1] == w.npx : d[e].rank == 3 && d[e].dim[0] == w.nuy && d[e].dim[1] == w.nux && d[e].dim[2] == 2;
    if (!ok) return {"file-shape", fmt("%s: dataset %s has shape %s for a grid of %dx%d nodes", f.c_str(), names[e].c_str(), shape(d[e]).c_str(), e ? w.npx : w.nux, e ? w.npy : w.nuy)};
    size_t off = e ? 2ull * w.nux * w.nuy : 0;
    for (size_t i = 0; i < d[e].v.size(); ++i) if (!(d[e].v[i] == w.x[off + i])) return {"file-values", fmt("%s: entry %zu of %s is %.17g, the vector holds %.17g", f.c_str(), i, names[e].c_str(), d[e].v[i], w.x[off + i])};
  }
  return {};
}
static Violation check_descriptor(const string &dir, const string &name, const Want &w)
{
  string f = name + ".xdmf", s;
  if (!slurp(dir + "/" + f, s)) return {"descriptor-missing", f + " does not exist"};
  auto root = parse_xml(s);
  if (!root) return {"descriptor-malformed", f + " is not a complete document"};
  for (int e = 0; e < 2; ++e) {
    string nm = e ? "pressure" : "velocity"; Node *at = nullptr;
    walk(root.get(), [&](Node *n) { if (n->name == "Attribute" && n->at["Name"] == nm) at = n; });
    if (!at) return {"descriptor-field", f + " does not describe the " + nm};
    Node *grid = at->up; while (grid && grid->name != "Grid") grid = grid->up;
    if (!grid) return {"descriptor-field", f + ": the " + nm + " belongs to no grid"};
    int M = e ? w.npx : w.nux, N = e ? w.npy : w.nuy; double sx = (e ? 2 : 1) * w.hx, sy = (e ? 2 : 1) * w.hy;
    Node *topo = nullptr, *geo = nullptr; for (auto &c : grid->ch) { if (c->name == "Topology") topo = c.get(); if (c->name == "Geometry") geo = c.get(); }
    if (!topo || !geo) return {"descriptor-grid", f + ": the grid of the " + nm + " has no topology or no geometry"};
    auto t = nums(topo->at.count("NumberOfElements") ? topo->at["NumberOfElements"] : topo->at["Dimensions"]);
    if (t.size() != 2 || t[0] != N || t[1] != M) return {"descriptor-topology", fmt("%s: the %s grid has %d rows of %d nodes, described as \"%s\" (slowest direction first)", f.c_str(), nm.c_str(), N, M, topo->at["NumberOfElements"].c_str())};
    vector<Node *> items; for (auto &c : geo->ch) if (c->name == "DataItem") items.push_back(c.get());
    if (items.size() != 2) return {"descriptor-geometry", f + ": no origin and spacing for the " + nm};
    auto o = nums(items[0]->text), h = nums(items[1]->text);
    if (o.size() != 2 || o[0] != 0 || o[1] != 0) return {"descriptor-geometry", f + ": origin of the " + nm + " is " + trim(items[0]->text)};
    if (h.size() != 2 || std::fabs(h[0] - sy) > 1e-5 * sy || std::fabs(h[1] - sx) > 1e-5 * sx) return {"descriptor-spacing", fmt("%s: the spacing of the %s grid is %g along x and %g along y, described as \"%s\" (slowest direction first)", f.c_str(), nm.c_str(), sx, sy, trim(items[1]->text).c_str())};
    Node *di = nullptr; for (auto &c : at->ch) if (c->name == "DataItem") di = c.get();
    if (!di) return {"descriptor-field", f + ": the " + nm + " has no data"};
    auto dm = nums(di->at["Dimensions"]);
    size_t nd = e ? 2 : 3;
    bool dok = (dm.size() == nd || (e && dm.size() == 3 && dm[2] == 1)) && dm[0] == N && dm[1] == M && (e || dm[2] == 2);
    if (!dok) return {"descriptor-dimensions", fmt("%s: the %s data have %d rows of %d nodes, described as \"%s\"", f.c_str(), nm.c_str(), N, M, di->at["Dimensions"].c_str())};
    string r = trim(di->text), good = name + ".h5:/" + nm;
    if (r != good && r != "./" + good && r != dir + "/" + good) return {"descriptor-reference", fmt("%s: the %s is looked up at \"%s\"", f.c_str(), nm.c_str(), r.c_str())};
    string prec = di->at.count("Precision") ? di->at["Precision"] : "4", ty = di->at.count("DataType") ? di->at["DataType"] : di->at["NumberType"];
    if (prec != "8" || ty != "Float") return {"descriptor-type", fmt("%s: the %s are 8-byte reals, described as %s-byte %s", f.c_str(), nm.c_str(), prec.c_str(), ty.c_str())};
    string typ = at->at["AttributeType"], want = e ? "Scalar" : "Vector";
    if (typ != want || at->at["Center"] != "Node") return {"descriptor-type", f + ": the " + nm + " is described as " + typ + " at " + at->at["Center"]};
  }
  return {};
}
static Violation check_set(const string &dir, const string &name, const Want &w)
{
  DS d[2]; Violation v = check_data(dir, name, w, d); if (!v.cls.empty()) return v;
  return check_descriptor(dir, name, w);
}
// the set is there, whole, with the right values
static Violation check_whole(const string &dir, const string &name, const Want &w)
{
  DS d[2]; Violation v = check_data(dir, name, w, d); if (!v.cls.empty()) return v;
  string s, f = name + ".xdmf";
  if (!slurp(dir + "/" + f, s)) return {"descriptor-missing", f + " does not exist"};
  auto root = parse_xml(s); int found = 0;
  if (!root) return {"descriptor-malformed", f + " is not a complete document"};
  for (string nm : {"velocity", "pressure"}) walk(root.get(), [&](Node *n) { if (n->name == "DataItem" && trim(n->text).find(".h5:/" + nm) != string::npos) found++; });
  if (found != 2) return {"descriptor-malformed", f + " does not refer to both fields"};
  return {};
}
// some process waits in a communicator that neither cafes nor PETSc use
static bool inside_hdf5(const Params &p, const string &d)
{
  const int own = 2 + (p("sub") != 0) + (p("sub") && p("extra"));   // the job's, the program's, PETSc's
  for (size_t i = d.find("(comm "); i != string::npos; i = d.find("(comm ", i + 1)) { int n = atoi(d.c_str() + i + 6); if (n >= own && n < 1000000) return true; }
  return false;
}
// content that operation n of a script writes
static Want want_of(const Params &p, int n)
{
  int64_t code = p(fmt("op%d", n)); int k = opprob(code); uint64_t seed = opseed(code);
  PP q = PP::get(p, k ? "b_" : ""); auto g = grid(q); Want w;
  ref::Vec x = input(seed, g.n());
  if (opkind(code) == K_SAVE) { w = {g.nux, g.nuy, g.npx, g.npy, g.hx, g.hy, x}; return w; }
  int rx = (int)p("rx", 2), ry = (int)p("ry", 2);
  w.nux = q.xper ? g.nux * rx : (g.nux - 1) * rx + 1; w.nuy = q.yper ? g.nuy * ry : (g.nuy - 1) * ry + 1;
  w.npx = q.xper ? g.npx * rx : (g.npx - 1) * rx + 1; w.npy = q.yper ? g.npy * ry : (g.npy - 1) * ry + 1;
  w.hx = g.hx / rx; w.hy = g.hy / ry;
  return w;
}
static string file_of(const Params &p, int n, string &name)
{
  int k = opprob(p(fmt("op%d", n)));
  name = fmt("f%d", (int)p(fmt("fn%d", n), p("fname")));
  return fmt("/d%d", p("samedir") ? 0 : k);
}
static void gen_saves(Rng &r, Params &p, bool th)
{
  bool w = gen_wide(r); gen_env(r, p, np_wide(w, std::vector<int>{1, 2, 3, 4, 5, 6, 7, 8})); int hi = w ? 60 : th ? 20 : 11;
  p["two"] = r.below(2); p["samedir"] = r.below(2);
  gen_grid(r, p, "", 3, hi, (int)p("np"), true, 1);
  for (string pre : {"", "b_"}) { static const int us[] = {-9, -6, -4, -2, 3, 6}; if (r.below(3) == 0) p[pre + "unit"] = us[r.below(6)]; }
  if (p("two")) gen_grid(r, p, "b_", 3, hi, (int)p("np"), true, 1);
}
} // namespace
// every file set a script leaves behind
Violation check_saves(Ctx &c, const Params &p, const string &root)
{
  Violation v; std::map<std::pair<string, string>, int> last; string name;
  for (int n = 0; n < 16; ++n) {
    int64_t code = p(fmt("op%d", n)); if (opkind(code) != K_SAVE && !(opkind(code) == K_INTERP && p("saveref"))) continue;
    string d = file_of(p, n, name); last[{d, name}] = n; v = untouched(c, p, n); if (!v.cls.empty()) return v;
  }
  for (auto &l : last) {
    Want w = want_of(p, l.second);
    if (w.x.empty()) { Field f = collect(c.sh, (int)p("np"), TAG_OP + l.second, 2ll * w.nux * w.nuy + 1ll * w.npx * w.npy); w.x = f.v; }
    v = check_set(root + l.first.first, l.first.second, w); if (!v.cls.empty()) return v;
  }
  return {};
}

std::vector<Property> props_io()
{
  vector<Property> v;
  vector<std::pair<string, int64_t>> S = {{"unit", 0}, {"b_unit", 0}, {"op3", 0}, {"op2", 0}, {"op1", 0}, {"two", 0}, {"samedir", 0}, {"mx", 3}, {"my", 3}, {"lx", 1000}, {"ly", 1000}, {"xper", 0}, {"yper", 0}, {"b_mx", 3}, {"b_my", 3}, {"b_lx", 1000}, {"b_ly", 1000}, {"b_xper", 0}, {"b_yper", 0}};
  auto real = REAL_FEM; real.push_back("HDF5 and the file layer of Open MPI, down to the system calls"); auto stub = STUB_ALL; stub.push_back("outcome of every open, write, truncate, sync and close below the scratch directory");
  {
    Property P; P.id = "C12"; P.title = "Saved fields are complete and correctly described";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; gen_saves(r, p, th);
      int n = (int)r.range(1, th ? 4 : 3);
      for (int i = 0; i < n; ++i) {
        p[fmt("op%d", i)] = K_SAVE + 10 * (p("two") ? r.below(2) : 0) + 100 * r.range(1, 100000);
        p[fmt("fn%d", i)] = r.below(2);
      }
      if (r.below(3) == 0) { int k = p("two") ? (int)r.below(2) : 0; p[fmt("op%d", n)] = K_INTERP + 10 * k + 100 * r.range(1, 1000); p["saveref"] = 1; p[fmt("fn%d", n)] = r.below(3); p["rx"] = r.range(1, 3); p["ry"] = r.range(1, 3); }
      p["cfg"] = n + 8 * p("xper") + 16 * p("yper") + 32 * p("saveref");
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v; if (!sane(c.run(p), v)) return v;
      v = statuses(c, p); if (!v.cls.empty()) return v;
      return check_saves(c, p, c.scratch);
    };
    P.simplify = simplify(S); P.rule = "a run in which every file set left behind was read back and compared value by value"; P.real = real; P.stub = stub;
    v.push_back(P);
  }
  {
    Property P; P.id = "C13"; P.title = "A failed save is reported; a crash leaves no misleading files";
    P.gen = [](Rng &r, bool th, int64_t) {
      Params p; gen_saves(r, p, th); p["two"] = 0; p["samedir"] = 0;
      int n = (int)r.range(1, 3);
      for (int i = 0; i < n; ++i) { p[fmt("op%d", i)] = K_SAVE + 100 * r.range(1, 100000); p[fmt("fn%d", i)] = i + 1; }
      p["overwrite"] = r.below(4) == 0;          // the first save replaces an older file set
      p["act"] = r.range(1, 6); p["io_sticky"] = r.below(2); p["io_sel"] = r.range(0, 1000000);
      p["plan"] = r.below(12) == 0 ? 1 : r.below(16) == 0 ? 2 : 0;      // 1: the directory does not exist, 2: the description cannot be written
      p["cfg"] = p("plan") ? 8 + p("plan") : p("act");
      return p;
    };
    P.check = [](Ctx &c, const Params &p) -> Violation {
      Violation v; string dir = c.scratch + "/d0"; int np = (int)p("np");
      if (p("plan") == 1) {
        Params q = p; q["nodir"] = 1;
        Result r = c.run(q);
        if (r.cls == "abort" && r.detail.find("aborted with code 50") != string::npos) return {};
        if (!r.cls.empty()) return {r.cls, r.detail};
        return {"missing-directory-silent", "saving into a directory that does not exist reports success on every process"};
      }
      if (p("plan") == 2) { // on one process only; all the others have to know
        Params q = p; q["nodesc"] = q["soft"] = 1;
        if (!sane(c.run(q), v)) return {"fault-" + v.cls, "the description of a field cannot be written: " + v.detail};
        for (int k = 0; k < np; ++k) if (record(c.sh, k, TAG_STATUS, 0, 0) == 0) return {"description-silent", fmt("the description of a field cannot be written, but rank %d is told of success", k)};
        c.cnt.add("failures_reported");
        return {};
      }
      // an older file set, and the number of disk operations of this script
      Params a = p; a["io_act"] = 0; a["io_stage"] = 5;
      Params old = a; for (int i = 1; i < 8; ++i) old[fmt("op%d", i)] = 0; old["op0"] = K_SAVE + 100 * 777; old["fn0"] = p("overwrite") ? 1 : 0;
      if (!sane(c.run(old), v)) return v;
      Want wo = want_of(old, 0); string oldname = p("overwrite") ? "f1" : "f0";
      v = check_whole(dir, oldname, wo); if (!v.cls.empty()) { v.cls = "before-" + v.cls; return v; }
      Params dry = a; for (int i = 0; p(fmt("op%d", i)); ++i) dry[fmt("fn%d", i)] = p(fmt("fn%d", i)) + 20;
      Result rd = c.run(dry);
      if (!sane(rd, v)) return v;
      if (rd.io_ops_armed < 1) return {"no-disk-operations", "a successful save performed no disk operation"};
      // the same with a fault
      Params q = a; q["io_act"] = p("act"); q["io_at"] = 1 + p("io_sel") % rd.io_ops_armed;
      Result r = c.run(q);
      bool crash = r.crashed;
      int done = 0; // saves that reported success on every process
      if (!crash && r.cls.empty()) while (p(fmt("op%d", done))) done++;
      else for (;; ++done) { if (!p(fmt("op%d", done))) break; bool all = true; for (int k = 0; k < np; ++k) if (record(c.sh, k, TAG_STATUS, done, 1) != 0) all = false; if (!all) break; }
      if (!crash && !r.cls.empty()) {
        bool reported = r.cls == "abort" && r.detail.find("aborted with code 50") != string::npos;
        // HDF5 itself loses step between its processes when one of them cannot write:
        // such a job stands still inside HDF5's own communicator, which is not cafes' doing
        if (!reported && r.io_fault_fired && (r.cls == "deadlock" || r.cls == "collective-mismatch") && inside_hdf5(q, r.detail)) { c.cnt.add("stalls_inside_hdf5_after_fault"); reported = true; }
        if (!reported) return {r.io_fault_fired ? "fault-" + r.cls : r.cls, fmt("after a disk fault (action %d at operation %d): ", (int)q("io_act"), (int)q("io_at")) + r.detail};
        if (!r.io_fault_fired) return {"spurious-failure", "a save without any disk fault fails: " + r.detail};
        c.cnt.add("failures_reported");
      }
      // every save that reported success is complete, whatever happened later
      for (int n = 0; n < done; ++n) {
        v = check_whole(dir, fmt("f%d", n + 1), want_of(p, n));
        if (!v.cls.empty()) return {crash ? "lost-" + v.cls : "silent-" + v.cls, fmt("save %d reported success on every process (disk fault action %d at operation %d of %d) but: ", n, (int)q("io_act"), (int)q("io_at"), (int)rd.io_ops_armed) + v.detail};
      }
      // older sets are left alone
      if (!p("overwrite")) { v = check_whole(dir, oldname, wo); if (!v.cls.empty()) return {"damaged-" + v.cls, "an older file set was damaged: " + v.detail}; }
      // a descriptor that can be read describes complete data
      for (int n = done; p(fmt("op%d", n)); ++n) {
        if (n == 0 && p("overwrite")) continue;
        string s, f = fmt("f%d", n + 1);
        if (!slurp(dir + "/" + f + ".xdmf", s) || !parse_xml(s)) continue;
        c.cnt.add("descriptors_found_after_failure");
        if (!crash) continue;
        v = check_whole(dir, f, want_of(p, n)); if (!v.cls.empty()) return {"misleading-" + v.cls, fmt("crash at disk operation %d leaves a complete descriptor, but: ", (int)q("io_at")) + v.detail};
      }
      // the next job can save over whatever was left behind
      if (p("io_sel") % 3 == 0) {
        Result r2 = c.run(a); if (!sane(r2, v, "restart-" + r2.cls)) return v;
        for (int n = 0; p(fmt("op%d", n)); ++n) { v = check_whole(dir, fmt("f%d", n + 1), want_of(p, n)); if (!v.cls.empty()) return {"restart-" + v.cls, "saving again after the failure: " + v.detail}; }
      }
      return {};
    };
    auto s2 = S; s2.push_back({"overwrite", 0}); s2.push_back({"io_sticky", 0});
    P.simplify = simplify(s2); P.rule = "a run in which a disk fault or a crash was placed at one disk operation of a save and its effect judged"; P.real = real; P.stub = stub;
    v.push_back(P);
  }
  return v;
}
} // namespace sim
