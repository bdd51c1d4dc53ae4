// Explores the distributed filter and the MPI programs under the controlled runtime.
#ifdef MEMCOUNT
#include "memcount.h"
#endif
#include "../rt/mpirt.h"
#include "hx.h"
#include "fcase.h"
#include "vtk.h"
#include <dlfcn.h>
#include <algorithm>
#include <set>
#include <fstream>
#include <sys/stat.h>
using namespace mpirt;
typedef std::vector<size_t> VS; typedef std::vector<int> VI;
// ---- one copy of the code under test per rank
struct Code {
  std::string bytes; std::vector<void*> h;
  Code(const std::string& so) { std::ifstream f(so.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); bytes = o.str(); if (bytes.empty()) { fprintf(stderr, "no %s\n", so.c_str()); exit(12); } }
  void* get(int r, const char* sym) {
    while ((int) h.size() <= r) {
      int fd = memfd_create("code", 0); size_t n = 0; while (n < bytes.size()) { ssize_t k = write(fd, bytes.data() + n, bytes.size() - n); if (k <= 0) exit(12); n += k; }
      std::string p = "/proc/self/fd/" + std::to_string(fd); void* d = dlopen(p.c_str(), RTLD_LAZY | RTLD_LOCAL);
      if (!d) { fprintf(stderr, "%s\n", dlerror()); exit(12); }
      h.push_back(d);
    }
    void* s = dlsym(h[r], sym); if (!s) { fprintf(stderr, "no symbol %s\n", sym); exit(12); }
    return s;
  }
};
static std::string g_taken; static std::map<int, size_t> g_pos;
extern "C" const char* mc_take_err() { size_t& p = g_pos[self()]; g_taken = err(self()).substr(p); p = err(self()).size(); return g_taken.c_str(); }

// ---- decompositions (independent of the code under test)
static void procGrids(int np, const VS& d, size_t k, VS& cur, std::vector<VS>& res) {
  if (k == d.size()) { if (np == 1) res.push_back(cur); return; }
  for (int p = 1; p <= np; ++p) if (np % p == 0 && d[k] % p == 0) { cur.push_back(p); procGrids(np / p, d, k + 1, cur, res); cur.pop_back(); }
}
static double cost(const VS& d, const VS& p) { double s = 0; for (size_t k = 0; k < d.size(); ++k) s += 1.0 / (double) (d[k] / p[k]); return s; }
static std::vector<VS> bestGrids(int np, const VS& d) {
  std::vector<VS> all, res; VS cur; procGrids(np, d, 0, cur, all);
  double m = 1e300; for (auto& p : all) m = std::min(m, cost(d, p));
  for (auto& p : all) if (cost(d, p) <= m * (1 + 1e-12)) res.push_back(p);
  return res;
}
// smallest sub-domain extent per axis
static VS extents(int np, const VS& d) { VS e = d; for (auto& p : bestGrids(np, d)) for (size_t k = 0; k < d.size(); ++k) e[k] = std::min(e[k], d[k] / p[k]); return e; }

// ---- the single-array model
struct Model {
  const FCase& c; size_t n; std::vector<double> in, out, inMag, outMag, bound; // magnitudes of what is added up, for rounding
  Model(const FCase& c_) : c(c_) { n = 1; for (size_t d : c.dims) n *= d; in.assign(n, 0); out = inMag = outMag = in; for (size_t k = 0; k < c.dims.size(); ++k) bound.push_back(std::fabs(c.xmin[k]) + std::fabs(c.xmax[k])); }
  double tol() const { return c.exact ? 0 : 1e-11; }
  VS inds(size_t i) const { VS r(c.dims.size()); for (size_t k = c.dims.size(); k-- > 0;) { r[k] = i % c.dims[k]; i /= c.dims[k]; } return r; }
  size_t flat(const VS& v) const { size_t i = 0; for (size_t k = 0; k < v.size(); ++k) i = i * c.dims[k] + v[k]; return i; }
  std::vector<double> pos(const VS& v) const { std::vector<double> p; for (size_t k = 0; k < v.size(); ++k) p.push_back(c.xmin[k] + (v[k] + 0.5) * ((c.xmax[k] - c.xmin[k]) / c.dims[k])); return p; }
  void op(char o) {
    for (size_t i = 0; i < n; ++i) {
      VS v = inds(i);
      if (o == 'S') in[i] = fpos1(pos(v)); if (o == 'T') in[i] = fpos2(pos(v)); if (o == 'I') in[i] = gind1(v); if (o == 'J') in[i] = gind2(v);
      if (o == 'S') inMag[i] = fpos1(bound); if (o == 'T') inMag[i] = fpos2(bound); if (o == 'I' || o == 'J') inMag[i] = std::fabs(in[i]);
      if (o == 'A') { double s = 0, q = 0; for (auto& b : c.stencil) { VS u = v; for (size_t k = 0; k < u.size(); ++k) { long d = (long) c.dims[k]; u[k] = (size_t) ((((long) v[k] + b.first[k]) % d + d) % d); } s += b.second * in[flat(u)]; q += std::fabs(b.second) * inMag[flat(u)]; } out[i] = s; outMag[i] = q; }
    }
    if (o == 'C') { in = out; inMag = outMag; }
  }
};
static std::string cellStr(const VS& v) { return hx::str(v); }
static double sum(const std::vector<double>& v) { double s = 0; for (double x : v) s += x; return s; }
// compares what the ranks report with the model; empty when all is well
static std::string verify(const FCase& c, const std::vector<FOut>& o, bool& antecedent) {
  Model m(c); size_t k = 0; antecedent = true;
  for (int r = 0; r < c.np; ++r) {
    if (!o[r].ran) return "rank " + std::to_string(r) + " did not run";
    if (!o[r].valid) return "no valid decomposition though there is one";
    if (o[r].rank != r || o[r].size != c.np) return "rank or number of processes reported wrongly on rank " + std::to_string(r);
    if (o[r].log.size() != o[0].log.size()) return "ranks disagree on the number of operations";
  }
  for (char op : c.ops) {
    m.op(op);
    if (!strchr("ioqpP", op)) continue;
    if (k >= o[0].log.size()) return "no report";
    if (op == 'i' || op == 'o') { double w = sum(op == 'i' ? m.in : m.out), g = o[0].log[k].value; if (!(g == w || std::fabs(g - w) <= m.tol() * sum(op == 'i' ? m.inMag : m.outMag))) { char b[200]; snprintf(b, sizeof b, "%s check sum is %.17g instead of %.17g", op == 'i' ? "input" : "output", g, w); return b; } }
    if (op == 'q') for (int r = 0; r < c.np; ++r) { VS g(c.dims.size()); for (size_t j = 0; j < g.size(); ++j) g[j] = c.dims[j] - 1 - (j < c.dims[j] ? j : 0); std::vector<double> w = m.pos(g); for (double x : m.pos(VS(c.dims.size(), 0))) w.push_back(x); bool same = o[r].log[k].pos.size() == w.size(); for (size_t j = 0; same && j < w.size(); ++j) same = o[r].log[k].pos[j] == w[j] || std::fabs(o[r].log[k].pos[j] - w[j]) <= m.tol() * m.bound[j % c.dims.size()]; if (!same) return "position of cell " + cellStr(g) + " is " + hx::str(o[r].log[k].pos) + " instead of " + hx::str(w); }
    if (op == 'p' || op == 'P') {
      std::vector<int> seen(m.n, -1);
      for (int r = 0; r < c.np; ++r) {
        VS lo(c.dims.size(), (size_t) -1), hi(c.dims.size(), 0);
        for (auto& cell : o[r].log[k].cells) {
          VS v; for (long x : cell.first) v.push_back((size_t) x);
          if (v.size() != c.dims.size()) return "rank " + std::to_string(r) + " reports a cell with " + std::to_string(v.size()) + " indices";
          for (size_t j = 0; j < v.size(); ++j) { if (v[j] >= c.dims[j]) return "rank " + std::to_string(r) + " reports cell " + cellStr(v); lo[j] = std::min(lo[j], v[j]); hi[j] = std::max(hi[j], v[j] + 1); }
          if (seen[m.flat(v)] >= 0) return "cell " + cellStr(v) + " is held twice"; seen[m.flat(v)] = r;
        }
        for (auto& b : c.stencil) for (size_t j = 0; j < c.dims.size(); ++j) if (o[r].log[k].cells.size() && (size_t) std::abs(b.first[j]) > hi[j] - lo[j]) { antecedent = false; return ""; }
      }
      for (int r = 0; r < c.np; ++r) for (auto& cell : o[r].log[k].cells) {
        VS v; for (long x : cell.first) v.push_back((size_t) x);
        double w = (op == 'p' ? m.in : m.out)[m.flat(v)];
        if (!(cell.second == w || std::fabs(cell.second - w) <= m.tol() * (op == 'p' ? m.inMag : m.outMag)[m.flat(v)])) { char b[300]; snprintf(b, sizeof b, "%s cell %s on rank %d is %.17g instead of %.17g", op == 'p' ? "input" : "output", cellStr(v).c_str(), r, cell.second, w); return b; }
      }
      for (size_t i = 0; i < m.n; ++i) if (seen[i] < 0) return "cell " + cellStr(m.inds(i)) + " is held by no rank";
    }
    ++k;
  }
  return "";
}
static std::string describe(const FCase& c) { std::ostringstream s; s << c.np << " procs, dims " << hx::str(c.dims) << " stencil"; for (auto& b : c.stencil) s << ' ' << hx::str(b.first) << '*' << b.second; s << " ops " << c.ops; return s.str(); }
// scheme 0: integer weights and a box in which everything is exact; otherwise inexact ones, very small and very large ones
static FCase mk(const VS& d, int np, const std::vector<VI>& offs, const std::string& ops, int scheme = 0) {
  FCase c; c.exact = scheme == 0; c.dims = d; c.np = np; c.ops = ops;
  double delta[] = {1, 0.5, 2, 4, 1, 1}, x0[] = {-3, 5, 10, 0, 1, 2};
  for (size_t k = 0; k < d.size(); ++k) { c.xmin.push_back(x0[k]); c.xmax.push_back(x0[k] + d[k] * delta[k]); }
  const double W[6][4] = {{0}, {0.1, -1.0 / 3, 0.7, 2.1}, {1.37e-20, -3.1e-21, 2e-19, 1e-20}, {3e9, -2147483649.0, 1.1e12, 4294967297.0}, {1e200, -1e150, 3e180, 1e199}, {0, 1.5, -0.0, -1e-3}};
  if (scheme) { double lo[] = {-0.1, 1e-3, 100, -7, 0.3, 0.2}, len[] = {0.7, 1e4, 0.1, 3.3, 1.1, 1.7}; for (size_t k = 0; k < d.size(); ++k) { c.xmin[k] = lo[(k + scheme) % 6]; c.xmax[k] = c.xmin[k] + len[(k + scheme) % 6]; } for (size_t i = 0; i < offs.size(); ++i) c.stencil.push_back({offs[i], W[scheme][(i + d[0]) % 4]}); return c; }
  for (size_t i = 0; i < offs.size(); ++i) c.stencil.push_back({offs[i], (i % 2 ? -1.0 : 1.0) * (3 * i + 1)});
  return c;
}
extern "C" { void mc_mem_in() { if (self() >= 0) ++g_rt[self()]; } void mc_mem_out() { if (self() >= 0) --g_rt[self()]; } long mc_received() { return received(self()); }
void mc_mem_use(long* bytes, long* blocks, long* peak, long* twice) {
#ifdef MEMCOUNT
  int o = 1 + self(); *bytes = mem::live[o]; *blocks = mem::blocks[o]; *peak = mem::peak[o]; *twice = mem::g_double; mem::peak[o] = mem::live[o]; mc_mem_in(); held(self(), bytes, blocks); mc_mem_out();
#endif
} }
typedef int (*FMain)(int, const FCase*, FOut*);
typedef int (*PMain)(int, char**);
static const std::vector<Mode> TWO = {{false, false, false}, {true, true, true}}, FOUR = {{false, false, false}, {true, true, true}, {true, false, false}, {false, true, true}};
static long g_cap = 0;
static void report(Result& r, bool sameOutcome) {
  if (!r.error.empty()) { printf("MCERROR %s\n", r.error.c_str()); fprintf(stderr, "%s [%s]\n", r.error.c_str(), hx::g_cur.c_str()); _exit(12); }
  hx::stat("schedules", r.executions); hx::stat("transitions", r.points + r.executions); hx::stat("traces", r.executions);
  hx::stat("distinct_outcomes", r.outcomes.size());
  if (r.capped) { printf("MCINCOMPLETE %s: stopped after %ld executions per mode\n", hx::oneline(hx::g_cur).c_str(), g_cap); }
  if (hx::g_ub && !r.msg.empty()) { const char* q[] = {"ends with status 99", "signal 4", "signal 6", "signal 7", "signal 8", "signal 11"}; for (auto x : q) if (r.msg.find(x) != std::string::npos) { hx::g_ub = false; r.msg = "undefined behaviour: " + r.msg; break; } }
  if (!r.msg.empty()) { std::string s; if (!r.schedule.empty()) s = " (after choices " + hx::str(std::vector<int>(r.schedule.begin(), r.schedule.end())) + ")"; char b[80]; snprintf(b, sizeof b, " [%s, %s transfers%s]", r.mode.strong ? "synchronising" : "not synchronising", r.mode.eager ? "early" : "late", r.mode.reversed ? ", reverse order" : ""); hx::violation(r.msg + b + s); }
  if (sameOutcome && r.outcomes.size() > 1) hx::violation("different schedules give different fields");
}
static void runCase(Code& code, const FCase& c, int dev, int mask, const std::vector<Mode>& modes, bool checkField, bool sameOutcome) {
  hx::progress(describe(c)); hx::stat("states");
  for (int r = 0; r < c.np; ++r) code.get(r, "mc_filter_main");
  Result res;
  auto body = [&](Shared* sh, Mode m) {
    std::vector<FOut> o(c.np);
    run(sh, c.np, m, dev > 0, [&](int r) { return ((FMain) code.get(r, "mc_filter_main"))(r, &c, &o[r]); });
    for (auto& x : o) for (auto& l : x.log) { if ((l.op == 'i' || l.op == 'o')) { if (&x == &o[0]) observe(&l.value, 8); } for (auto& q : l.cells) observe(&q.second, 8); }
    bool ante; std::string e = checkField ? verify(c, o, ante) : "";
    if (!e.empty()) fault(RESULT, e);
  };
  if (sameOutcome) { Result ref; explore(ref, {TWO[0]}, 0, 0, mask, 20, body); report(ref, false); explore(res, modes, dev, g_cap, mask, 20, body); for (uint64_t x : ref.outcomes) if (std::find(res.outcomes.begin(), res.outcomes.end(), x) == res.outcomes.end()) res.outcomes.push_back(x); }
  else explore(res, modes, dev, g_cap, mask, 20, body);
  report(res, sameOutcome);
}
// several fields at a time
typedef int (*DMain)(const std::vector<FCase>*, const std::string*, std::vector<FOut>*);
static void many(Code& code, int np, const std::vector<FCase>& cs, const std::string& script, int mask, const std::vector<Mode>& modes) {
  if (!hx::take()) return;
  std::string d; for (auto& c : cs) d += (d.empty() ? "" : " and ") + describe(c); hx::progress(d + "script " + script); hx::stat("states");
  for (int r = 0; r < np; ++r) code.get(r, "mc_filter_many");
  Result res; explore(res, modes, 0, 0, mask, 20, [&](Shared* sh, Mode m) {
    std::vector<std::vector<FOut>> o(np); run(sh, np, m, false, [&](int r) { return ((DMain) code.get(r, "mc_filter_many"))(&cs, &script, &o[r]); });
    if (!(mask & RESULT)) return;
    for (size_t k = 0; k < o[0].size(); ++k) {
      std::vector<FOut> l; for (int r = 0; r < np; ++r) { if (o[r].size() != o[0].size()) { fault(RESULT, "ranks disagree"); return; } l.push_back(o[r][k]); }
      FCase c = cs[l[0].id]; c.ops = l[0].ops; bool ante; std::string e = verify(c, l, ante);
      if (!e.empty()) fault(RESULT, "field " + std::to_string(l[0].id + 1) + " with operations " + c.ops + ": " + e); } });
  report(res, false);
}
// all scripts of n steps after both fields have been made and set
static void scripts(Code& code, int n, int mask) {
  auto ax = [](int nd) { std::vector<VI> r(1, VI(nd, 0)); for (int k = 0; k < nd; ++k) { VI v(nd, 0); v[k] = k % 2 ? 1 : -1; r.push_back(v); } if (nd == 1) r.push_back({2}); return r; };
  struct Cfg { int np; VS a; std::vector<VI> sa; VS b; std::vector<VI> sb; };
  for (auto& g : std::vector<Cfg>{{2, {4}, {{0}, {1}, {-1}}, {4}, {{-2}, {1}}}, {4, {4, 4}, {{1, 0}, {0, -1}}, {6, 2}, {{0, 0}, {0, 1}, {-1, 0}}}, {2, {2, 3}, {{0, 0}, {1, 0}}, {6}, {{1}, {-3}}}, {3, {3, 2, 2}, {{-1, 0, 0}, {0, 1, 0}}, {3, 3}, {{0, 0}, {-1, 0}}}, {1, {5}, {{1}}, {3, 2}, {{0, 1}, {-1, 0}}}}) {
    std::vector<FCase> cs = {mk(g.a, g.np, g.sa, ""), mk(g.b, g.np, g.sb, "")}; for (auto& c : cs) c.file = "out.vtk";
    for (auto& b : cs[1].stencil) b.second = -2 * b.second + 1;
    std::function<void(std::string, int, int, int, bool, bool)> rec = [&](std::string s, int left, int st1, int st2, bool out1, bool out2) { // st: 0 none, 1 made, 2 set
      int st[2] = {st1, st2}; bool out[2] = {out1, out2};
      if (!left) { for (int k = 0; k < 2; ++k) if (st[k] == 2) s += std::string(1, '1' + k) + (out[k] ? "pPio" : "pi"); many(code, g.np, cs, s, mask, std::vector<Mode>(1, TWO[s.size() % 2])); return; }
      for (int k = 0; k < 2; ++k) for (const char* t = k ? "NDSAC" : "NDJAC"; *t; ++t) {
        int n2[2] = {st1, st2}; bool o2[2] = {out1, out2};
        switch (*t) { case 'N': n2[k] = 1; o2[k] = false; break; case 'D': if (!st[k]) continue; n2[k] = 0; o2[k] = false; break; case 'S': case 'J': if (!st[k]) continue; n2[k] = 2; break; case 'A': if (st[k] < 2) continue; o2[k] = true; break; case 'C': if (!out[k]) continue; break; }
        rec(s + std::string(1, '1' + k) + *t, left - 1, n2[0], n2[1], o2[0], o2[1]); } };
    rec("1NI2NJ", n, 2, 2, false, false);
    rec("2NJ1NI", n - 1, 2, 2, false, false);
    for (const char* s : {"1NIACA2NJACA1pPio2pPio", "1NI2NJ1A2A1C2C1A2A1pP2pP1D2ACAP", "1NIA2NJA1NSA2C1P2pP1pD2AP", "1N2N1I2J1v2v1A2A1v2v1pP2pP", "1NIA2NJA1v2v1C2C1A2v1v1pP2pP"}) many(code, g.np, cs, s, mask, TWO);
  }
  // three fields
  std::vector<FCase> cs; for (VS d : std::vector<VS>{{4, 2}, {2, 2, 2}, {6}}) { cs.push_back(mk(d, 2, ax((int) d.size()), "")); cs.back().file = "out.vtk"; }
  for (const char* s : {"1NI2NJ3NS1A2A3A1C2C3C1A2A3A1pP2pP3pP", "3NIA2NIA1NIA3CA1CA2D1CA3CA1pPio3pPio", "1N2N3N3I2I1I3A2A1A2D3CA1CA2NJA1P2P3P", "1NIA1D2NIA2D3NIA3D1NIAP"}) many(code, 2, cs, s, mask, TWO);
}
// all grids of nd dimensions with extents in [1, m]
static std::vector<VS> grids(int nd, size_t m) { std::vector<VS> r; hx::tuples<size_t>(nd, 1, m, [&](const VS& v) { r.push_back(v); }); return r; }
static std::vector<VI> axisOffsets(int nd, int reach, bool zero) { std::vector<VI> r; if (zero) r.push_back(VI(nd, 0)); for (int k = 0; k < nd; ++k) for (int a = 1; a <= reach; ++a) for (int s = -1; s <= 1; s += 2) { VI v(nd, 0); v[k] = s * a; r.push_back(v); } return r; }
static bool fits(const VS& e, const std::vector<VI>& offs) { for (auto& o : offs) for (size_t k = 0; k < e.size(); ++k) if ((size_t) std::abs(o[k]) > e[k]) return false; return true; }
// all subsets of size [lo,hi]
static void subsets(const std::vector<VI>& a, size_t lo, size_t hi, const std::function<void(const std::vector<VI>&)>& f) {
  std::vector<VI> cur; std::function<void(size_t)> rec = [&](size_t i) { if (cur.size() >= lo) f(cur); if (cur.size() == hi) return; for (size_t j = i; j < a.size(); ++j) { cur.push_back(a[j]); rec(j + 1); cur.pop_back(); } }; rec(0);
}
static void forApply(const std::function<void(const VS&, int, const std::vector<VI>&)>& f) {
  bool T = hx::g_thorough;
  // 1-D: every set of up to 3 (4) offsets with reach 3, also none
  for (auto& d : grids(1, T ? 12 : 9)) for (int np = 1; np <= (T ? 12 : 6); ++np) { if (bestGrids(np, d).empty()) continue; VS e = extents(np, d); subsets(axisOffsets(1, 3, true), 0, T ? 4 : 3, [&](const std::vector<VI>& s) { if (fits(e, s)) f(d, np, s); }); }
  // 2-D
  for (auto& d : grids(2, T ? 7 : 6)) for (int np = 1; np <= (T ? 12 : 6); ++np) { if (bestGrids(np, d).empty()) continue; VS e = extents(np, d); subsets(axisOffsets(2, 2, true), 0, T ? 3 : 2, [&](const std::vector<VI>& s) { if (fits(e, s)) f(d, np, s); }); subsets(axisOffsets(2, 2, true), 9, 9, [&](const std::vector<VI>& s) { if (fits(e, s)) f(d, np, s); }); subsets(axisOffsets(2, 1, true), 5, 5, [&](const std::vector<VI>& s) { f(d, np, s); }); }
  // 3-D
  for (auto& d : grids(3, T ? 4 : 3)) for (int np = 1; np <= (T ? 12 : 8); ++np) { if (bestGrids(np, d).empty()) continue; VS e = extents(np, d); subsets(axisOffsets(3, 2, false), 0, T ? 2 : 1, [&](const std::vector<VI>& s) { if (fits(e, s)) f(d, np, s); }); subsets(axisOffsets(3, 1, true), 7, 7, [&](const std::vector<VI>& s) { f(d, np, s); }); subsets(axisOffsets(3, 2, true), 13, 13, [&](const std::vector<VI>& s) { if (fits(e, s)) f(d, np, s); }); }
  // larger ones
  std::vector<std::pair<VS, int>> big = {{{24}, 8}, {{30}, 10}, {{15}, 3}, {{14}, 7}, {{12, 10}, 6}, {{9, 15}, 15}, {{16, 16}, 16}, {{20, 6}, 12}, {{6, 10, 4}, 8}, {{9, 6, 5}, 9}, {{8, 8, 8}, 8}, {{6, 6, 6}, 12}, {{7, 4, 6}, 14}, {{5, 5}, 5}, {{40}, 5}, {{6, 35}, 7}, {{300}, 3}, {{2052}, 4}, {{130, 4}, 2}, {{3, 270}, 3}, {{2, 2, 129}, 3}};
  for (auto& g : big) { VS e = extents(g.second, g.first); int nd = (int) g.first.size(); for (int reach = 1; reach <= 8; ++reach) { auto a = axisOffsets(nd, reach, true); std::vector<VI> s; for (auto& o : a) { bool ok = fits(e, {o}); if (ok) s.push_back(o); } f(g.first, g.second, s); std::vector<VI> t; for (auto& o : s) { int m = 0; for (int x : o) m = std::max(m, std::abs(x)); if (m == reach) t.push_back(o); } if (!t.empty()) f(g.first, g.second, t); } }
  // 4-D
  for (auto& g : std::vector<std::pair<VS, int>>{{{2, 3, 2, 2}, 4}, {{4, 2, 1, 3}, 6}, {{2, 2, 2, 2}, 16}, {{3, 3, 2, 1}, 9}}) f(g.first, g.second, axisOffsets(4, 1, true));
}
int main(int argc, char** argv) {
  hx::init(argc, argv); hx::g_watch = 0; // explore() has its own limit per execution
  std::string mode = hx::opt("mode"); bool T = hx::g_thorough;
  g_cap = atol(hx::opt("cap", "0").c_str());
  Code code(hx::opt("so"));
  if (mode == "apply") {
    int every = atoi(hx::opt("every", "1").c_str()); long k = 0;
    forApply([&](const VS& d, int np, const std::vector<VI>& s) { if (k++ % every) return; if (!hx::take()) return; runCase(code, mk(d, np, s, "IAPCAPp"), 0, RESULT | STUCK, TWO, true, false); });
    k = 0; // inexact, tiny and huge weights, other boxes, both kinds of field
    forApply([&](const VS& d, int np, const std::vector<VI>& s) { if (k++ % (T ? 2 : 7)) return; if (!hx::take()) return; int sc = 1 + (k / (T ? 2 : 7)) % 5; runCase(code, mk(d, np, s, sc == 4 ? "SAPo" : "SAPqioCTAPpio", sc), 0, RESULT | STUCK, std::vector<Mode>(1, TWO[k % 2]), true, false); });
  } else if (mode == "hist") {
    struct Cfg { VS d; int np; std::vector<VI> s; };
    std::vector<Cfg> cfg = { {{4}, 2, {{0}, {1}, {-1}}}, {{6}, 3, {{-2}, {1}}}, {{3, 4}, 3, {{0, 0}, {-1, 0}, {0, 2}}}, {{4, 4}, 4, {{1, 0}, {0, -1}, {-2, 0}}}, {{2, 2, 3}, 4, {{0, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 0, 1}}}, {{5}, 1, {{1}, {-2}}}, {{2, 3}, 6, {{0, 1}, {1, 0}}}, {{4, 2}, 2, {{0, 0}}} };
    const char ops[] = "STIJACioqpP"; const char sets[] = "STIJ";
    int depth = T ? 5 : 4;
    for (auto& g : cfg) {
      std::function<void(const std::string&)> rec = [&](const std::string& h) {
        if ((int) h.size() == depth) { if (hx::take()) runCase(code, mk(g.d, g.np, g.s, h + "pPio"), 0, RESULT | STUCK, h.find('A') != std::string::npos ? TWO : std::vector<Mode>(1, TWO[0]), true, false); return; }
        for (const char* o = ops; *o; ++o) { if (h.empty() && !strchr(sets, *o)) continue;
          if (depth >= 5 && strchr("TJ", *o) && h.find(*o == 'T' ? 'S' : 'I') == std::string::npos) continue; // the second function of a kind only after the first
          rec(h + *o); }
      };
      rec("");
      for (const char* h : {"IACACACACA", "SACAASACIACA", "JAAACpAoCiASAPC", "TqACqJAqCA", "IAiCoAiCoAiCo"}) if (hx::take()) runCase(code, mk(g.d, g.np, g.s, std::string(h) + "pPio"), 0, RESULT | STUCK, FOUR, true, false);
      // long histories; the numbers are no longer exact
      auto rep = [](const std::string& u, int n) { std::string s; while (n--) s += u; return s; };
      for (const std::string& h : {"I" + rep("AC", 17) + "A", "S" + rep("A", 33), "J" + rep("iAoC", 9), "I" + rep("ApCIA", 11), "T" + rep("AoiqPC", T ? 70 : 24), rep("SATA", 20), "I" + rep("oiq", 40) + "A"}) if (hx::take()) { FCase c = mk(g.d, g.np, g.s, h + "pPio"); c.exact = false; for (auto& b : c.stencil) b.second = b.second / 16; runCase(code, c, 0, RESULT | STUCK, TWO, true, false); }
    }
    scripts(code, T ? 5 : 4, RESULT | STUCK);
  } else if (mode == "halo") {
    struct HRec { VI side; int from; std::vector<double> got; std::vector<VS> inds; std::vector<std::pair<std::vector<long>, double>> src, dst; };
    typedef int (*HMain)(const FCase*, const std::vector<VI>*, std::vector<HRec>*, std::vector<VS>*, std::vector<VI>*);
    auto one = [&](const VS& d, int np, const std::vector<VI>& st, const std::string& ops, const std::vector<Mode>& modes, int dev) {
      std::vector<VI> sides; std::map<VI, size_t> wid;
      for (auto& o : st) { VI s(d.size(), 0); size_t w = 0; for (size_t k = 0; k < d.size(); ++k) if (o[k]) { s[k] = o[k] > 0 ? -1 : 1; w = std::abs(o[k]); } if (!w) continue; if (!wid.count(s)) sides.push_back(s); wid[s] = std::max(wid[s], w); }
      if (sides.empty() || !hx::take()) return; FCase c = mk(d, np, st, ops); hx::progress(describe(c)); hx::stat("states"); for (int r = 0; r < np; ++r) code.get(r, "mc_filter_halo");
      Result res; explore(res, modes, dev, g_cap, RESULT | STUCK, 20, [&](Shared* sh, Mode m) {
        std::vector<std::vector<HRec>> o(np); std::vector<std::vector<VS>> own(np); std::vector<std::vector<VI>> q(np);
        run(sh, np, m, dev > 0, [&](int r) { return ((HMain) code.get(r, "mc_filter_halo"))(&c, &sides, &o[r], &own[r], &q[r]); });
        for (auto& x : o) for (auto& h : x) if (!h.got.empty()) observe(&h.got[0], 8 * h.got.size());
        char b[400]; for (int r = 0; r < np; ++r) {
          for (size_t i = 0; i < st.size(); ++i) { VI s(d.size(), 0); int g = 0; for (size_t k = 0; k < d.size(); ++k) if (st[i][k]) { s[k] = st[i][k] > 0 ? -1 : 1; g = std::abs(st[i][k]); } if (q[r].size() < 2 * st.size() || q[r][2 * i] != s || q[r][2 * i + 1] != VI{g}) { fault(RESULT, "side or thickness of branch " + hx::str(st[i]) + " is wrong"); return; } }
          Model M(c); size_t k = 0;
          for (char op : ops) { if (op != 'H') { M.op(op); continue; }
            for (auto& s : sides) for (int t = 0; t < 2; ++t) { if (k >= o[r].size()) { fault(RESULT, "no report"); return; } const HRec& h = o[r][k++];
              auto layer = [&](int rk, std::map<VS, int>& l) { VS lo = own[rk][0], hi = own[rk][1]; for (size_t j = 0; j < d.size(); ++j) { if (s[j] < 0) hi[j] = lo[j] + wid[s]; if (s[j] > 0) lo[j] = hi[j] - wid[s]; } for (size_t i = 0; i < M.n; ++i) { VS v = M.inds(i); bool in = true; for (size_t j = 0; j < d.size(); ++j) in = in && v[j] >= lo[j] && v[j] < hi[j]; if (in) l[v] = 1; } };
              std::string w = "process " + std::to_string(r) + " side " + hx::str(s) + ": ";
              std::map<VS, int> mine, theirs; layer(r, mine); layer(h.from, theirs);
              for (auto& x : h.src) { VS v(x.first.begin(), x.first.end()); if (!mine.count(v) || !mine[v]--) { fault(RESULT, w + "exposes cell " + hx::str(v)); return; } double e = M.in[M.flat(v)]; if (x.second != e) { snprintf(b, sizeof b, "%s exposes %.17g for cell %s, not %.17g", w.c_str(), x.second, cellStr(v).c_str(), e); fault(RESULT, b); return; } }
              for (auto& x : mine) if (x.second) { fault(RESULT, w + "does not expose cell " + hx::str(x.first)); return; }
              if (h.inds.size() != theirs.size() || h.got.size() != theirs.size()) { fault(RESULT, w + std::to_string(h.inds.size()) + " cells are listed for process " + std::to_string(h.from) + ", not " + std::to_string(theirs.size())); return; }
              for (size_t i = 0; i < h.inds.size(); ++i) { const VS& v = h.inds[i]; if (!theirs.count(v) || !theirs[v]--) { fault(RESULT, w + "cell " + hx::str(v) + " is listed for process " + std::to_string(h.from)); return; } double e = M.in[M.flat(v)]; if (h.got[i] != e) { snprintf(b, sizeof b, "%s gets %.17g for cell %s of process %d, not %.17g", w.c_str(), h.got[i], cellStr(v).c_str(), h.from, e); fault(RESULT, b); return; } }
              if (h.dst.size() != h.got.size()) { fault(RESULT, w + "prints " + std::to_string(h.dst.size()) + " of " + std::to_string(h.got.size()) + " values it got"); return; }
              for (size_t i = 0; i < h.dst.size(); ++i) if (h.dst[i].second != h.got[i]) { fault(RESULT, w + "prints other values than it got"); return; } } } } });
      report(res, dev > 0); };
    long k = 0; const char* H[] = {"IHACHSH", "SAHJHCH", "JHTAACH"};
    forApply([&](const VS& d, int np, const std::vector<VI>& s) { size_t n = 1; for (size_t x : d) n *= x; if (n > 2100) return; if (k++ % (T ? 1 : 3)) return; one(d, np, s, H[k / 3 % 3], std::vector<Mode>(1, FOUR[k % 4]), 0); });
    struct Cfg { VS d; int np; std::vector<VI> s; };
    for (auto& g : std::vector<Cfg>{{{4}, 2, {{0}, {1}, {-1}}}, {{6}, 3, {{-2}, {1}}}, {{3, 4}, 3, {{0, 0}, {-1, 0}, {0, 2}}}, {{4, 4}, 4, {{1, 0}, {0, -1}, {-2, 0}}}, {{2, 2, 3}, 4, {{0, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 0, 1}}}, {{5}, 1, {{1}, {-2}}}, {{2, 3}, 6, {{0, 1}, {1, 0}}}}) {
      std::string h; std::function<void()> rec = [&] { if ((int) h.size() == (T ? 5 : 4)) { if (h.find('H') != std::string::npos) one(g.d, g.np, g.s, h + "H", TWO, 0); return; } for (const char* o = "STIJACHv"; *o; ++o) { if (*o == 'v' || (h.empty() && !strchr("STIJ", *o)) || (*o == 'C' && h.find('A') == std::string::npos)) continue; h.push_back(*o); rec(); h.pop_back(); } };
      rec();
      if (g.d.size() < 3) for (auto& m : FOUR) one(g.d, g.np, g.s, "IH", {m}, g.np < 4 ? 1 + T : T); }
  } else if (mode == "sched" || mode == "res") {
    bool sched = mode == "sched"; int mask = sched ? (STUCK | RACE) : (STUCK | RESOURCE | USAGE);
    struct Cfg { VS d; int np; std::vector<VI> s; std::string ops; int dev, devT; };
    std::vector<Cfg> cfg = {
      {{2}, 2, {{0}, {1}}, "IAPCAPio", 3, 5}, {{4}, 2, {{-1}, {1}}, "IAPCAPo", 3, 4}, {{4}, 2, {{-2}, {-1}, {0}, {1}}, "SACAP", 2, 4}, {{3}, 3, {{-1}, {0}}, "IACAPo", 3, 4},
      {{6}, 3, {{-1}, {2}}, "IACJAP", 2, 3}, {{2, 2}, 4, {{0, 0}, {-1, 0}, {0, -1}}, "IACAPo", 2, 3}, {{2, 2}, 4, {{1, 0}, {-1, 0}, {0, 1}, {0, -1}}, "IAP", 2, 2}, {{2, 2}, 2, {{1, 0}, {-1, 0}, {0, 1}, {0, -1}}, "IACAP", 2, 3},
      {{2, 2, 2}, 2, {{0, 0, 0}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}}, "IioACioACioPv", 2, 3}, {{5}, 1, {{-1}, {1}}, "IACAPv", 2, 3}, {{4, 3}, 4, {{1, 0}, {0, 1}}, "IACAPv", 1, 2}, {{6}, 6, {{1}, {-1}}, "IACAP", 1, 2}, {{4}, 4, {{1}}, "IACACAPo", 2, 3} };
    for (auto& m : FOUR) for (auto& g : cfg) { if (!hx::take()) continue; FCase c = mk(g.d, g.np, g.s, g.ops); c.file = "out.vtk"; runCase(code, c, T ? g.devT : (sched ? g.dev : 1), mask, {m}, false, sched); }
    if (!sched) {
      scripts(code, T ? 4 : 3, mask);
      long k = 0;
      forApply([&](const VS& d, int np, const std::vector<VI>& s) { if (k++ % (T ? 3 : 9)) return; if (!hx::take()) return; FCase c = mk(d, np, s, "IAioCv"); c.file = "out.vtk"; runCase(code, c, 0, mask, TWO, false, false); });
      // no valid decomposition: with and without using the filter all the same
      for (auto& g : std::vector<std::pair<VS, int>>{{{3}, 2}, {{5}, 4}, {{3, 3}, 2}, {{5, 3}, 4}, {{1, 1, 1}, 2}, {{3, 5, 7}, 8}, {{4, 4}, 3}, {{7}, 12}})
        for (const char* ops : {"", "!P", "!ioP", "!SIACioPpv", "!v"}) { if (!hx::take()) continue; auto s = axisOffsets((int) g.first.size(), 1, true); FCase c = mk(g.first, g.second, s, ops); c.file = "out.vtk"; unlink("out.vtk");
          hx::progress(describe(c)); hx::stat("states"); for (int r = 0; r < c.np; ++r) code.get(r, "mc_filter_main");
          Result res; explore(res, FOUR, T ? 1 : 0, 0, mask | RESULT, 20, [&](Shared* sh, Mode m) {
            std::vector<FOut> o(c.np); run(sh, c.np, m, T, [&](int r) { return ((FMain) code.get(r, "mc_filter_main"))(r, &c, &o[r]); });
            std::string all; for (int r = 0; r < c.np; ++r) { all += err(r) + out(r); if (o[r].valid) fault(RESULT, "reported as valid"); for (auto& l : o[r].log) if (!l.cells.empty()) fault(RESULT, "cells are reported"); }
            if (all.find("decomposition") == std::string::npos) fault(RESULT, "the missing decomposition is not reported"); if (written("out.vtk")) fault(RESULT, "a file is written"); });
          report(res, false); }
    }
  } else if (mode == "vtk") {
    auto checkFile = [&](const std::string& fn, const VS& d, const std::vector<double>& a, const std::vector<double>& b, const std::vector<double>& field, const std::string& name) -> std::string { // field: first axis fastest
      VtkFile v; if (!v.read(fn)) return v.err; if (v.kind != "STRUCTURED_GRID") return "dataset " + v.kind;
      size_t n[3] = {1, 1, 1}; for (size_t k = 0; k < d.size(); ++k) n[k] = d[k];
      size_t nc = n[0] * n[1] * n[2]; if (v.ncell != nc) return "cells: " + std::to_string(v.ncell);
      for (size_t k = 0; k < d.size(); ++k) if (v.dims[k] != n[k] + 1) return "dimension " + std::to_string(k) + " is " + std::to_string(v.dims[k]);
      size_t q = 0; for (size_t z = 0; z < v.dims[2]; ++z) for (size_t y = 0; y < v.dims[1]; ++y) for (size_t x = 0; x < v.dims[0]; ++x) { size_t ix[3] = {x, y, z}; for (size_t k = 0; k < d.size(); ++k) { double w = a[k] + (b[k] - a[k]) * ix[k] / n[k]; if (std::fabs(v.pts[3 * q + k] - w) > 1e-5 * (std::fabs(a[k]) + std::fabs(b[k]))) { char s[200]; snprintf(s, sizeof s, "point %zu coordinate %zu is %g instead of %g", q, k, v.pts[3 * q + k], w); return s; } } ++q; }
      for (size_t i = 0; i < nc; ++i) if (!near(v.val[i], field[i], 1e-5)) { char s[200]; snprintf(s, sizeof s, "value %zu is %g instead of %g", i, v.val[i], field[i]); return s; }
      if (!name.empty() && v.name != name) return "field is called " + v.name;
      return ""; };
    // distributed fields
    long k = 0;
    auto one = [&](const VS& d, int np, const std::vector<VI>& s, bool box) {
      if (!hx::take()) return; FCase c = mk(d, np, s, "IAvPCJA"); c.file = "out.vtk";
      if (box) for (size_t j = 0; j < d.size(); ++j) { c.xmin[j] = -1.5 - j; c.xmax[j] = 2.25 + 3 * j * j; }
      if (k % 3 == 1) staleFile("out.vtk"); else unlink("out.vtk"); hx::progress(describe(c)); hx::stat("states"); for (int r = 0; r < np; ++r) code.get(r, "mc_filter_main");
      Result res; explore(res, TWO, 0, 0, RESULT | STUCK, 20, [&](Shared* sh, Mode m) {
        std::vector<FOut> o(np); run(sh, np, m, false, [&](int r) { return ((FMain) code.get(r, "mc_filter_main"))(r, &c, &o[r]); });
        if (!o[0].valid) { if (d.size() <= 3) fault(RESULT, "no valid decomposition though there is one"); return; }
        // the field as the ranks hold it: this property is about the file, not about the stencil
        Model M(c); std::vector<double> f; std::map<VS, double> held;
        for (int r = 0; r < np; ++r) for (auto& l : o[r].log) for (auto& q : l.cells) { VS v; for (long x : q.first) v.push_back(x); held[v] = q.second; }
        size_t tot = 1; for (size_t x : d) tot *= x;
        if (held.size() != tot) return;
        for (size_t i = 0; i < tot; ++i) { VS v(d.size()); size_t j = i; for (size_t a = 0; a < d.size(); ++a) { v[a] = j % d[a]; j /= d[a]; } f.push_back(held[v]); }
        if (d.size() > 3) { std::string e; for (int r = 0; r < np; ++r) e += err(r); if (written("out.vtk")) fault(RESULT, "a file is written for more than 3 dimensions"); else if (e.find("WARNING") == std::string::npos && e.find("arning") == std::string::npos) fault(RESULT, "no warning for more than 3 dimensions"); return; }
        std::string e = checkFile("out.vtk", d, c.xmin, c.xmax, f, ""); unlink("out.vtk"); if (!e.empty()) fault(RESULT, "file: " + e); });
      report(res, false); };
    for (int nd = 1; nd <= 3; ++nd) for (auto& d : grids(nd, nd == 1 ? 12 : nd == 2 ? (T ? 8 : 6) : (T ? 5 : 4))) for (int np = 1; np <= (nd == 1 || T ? 12 : 8); ++np) { if (bestGrids(np, d).empty()) continue; ++k; std::vector<VI> s(1, VI(nd, 0)); VI b(nd, 0); b[k % nd] = 1; s.push_back(b); one(d, np, s, k % 2); }
    for (auto& g : std::vector<std::pair<VS, int>>{{{2, 2, 2, 2}, 4}, {{3, 2, 1, 2}, 2}, {{2, 1, 1, 1, 2}, 2}}) one(g.first, g.second, {VI(g.first.size(), 0)}, false);
    for (auto& g : std::vector<std::pair<VS, int>>{{{40, 30}, 12}, {{12, 18, 10}, 12}, {{100}, 10}, {{64, 64}, 8}}) one(g.first, g.second, {VI(g.first.size(), 0)}, true);
    // the writer on its own
    typedef void (*W)(const char*, const VS&, const std::vector<double>&, const std::vector<double>&, const std::vector<double>&, const char*);
    for (int nd = 1; nd <= 3; ++nd) for (auto& d : grids(nd, nd == 1 ? 20 : nd == 2 ? 9 : (T ? 7 : 5))) for (int bx = 0; bx < 4; ++bx) {
      if (!hx::take()) continue; hx::progress("writeVTK dims " + hx::str(d) + " box " + std::to_string(bx)); hx::stat("states"); hx::stat("transitions"); hx::stat("traces");
      std::vector<double> a, b, f; size_t n = 1; for (size_t j = 0; j < d.size(); ++j) { n *= d[j]; double lo[] = {0, -2.5, 100, 1e-3}, len[] = {1, 7, 0.125, 1e4}; a.push_back(lo[bx] * (j + 1)); b.push_back(a.back() + len[bx] * (j + 2)); }
      for (size_t i = 0; i < n; ++i) f.push_back(bx == 0 ? (double) i : bx == 1 ? -1.5 * i + 0.25 : bx == 2 ? std::ldexp(1.0, (int) (i % 60) - 30) : 1e-200 * i);
      static W w = (W) code.get(0, "mc_write_vtk"); if (bx > 1) w("w2.vtk", VS{2, 3, 2}, {1, 2, 3}, {5, 7, 9}, std::vector<double>(12, 1.25), "other"); if (bx % 2) staleFile("w.vtk"); else unlink("w.vtk"); w("w.vtk", d, a, b, f, bx % 2 ? "temp" : "outData");
      std::string e = checkFile("w.vtk", d, a, b, f, bx % 2 ? "temp" : "outData"); if (!e.empty()) hx::violation("file: " + e); }
    for (size_t nd = 4; nd <= 6; ++nd) { if (!hx::take()) continue; hx::progress("writeVTK " + std::to_string(nd) + " dimensions"); hx::stat("states"); VS d(nd, 2); std::vector<double> a(nd, 0), b(nd, 1), f((size_t) 1 << nd, 1.0); unlink("w.vtk"); std::ostringstream e; std::streambuf* o = std::cerr.rdbuf(e.rdbuf()); ((W) code.get(0, "mc_write_vtk"))("w.vtk", d, a, b, f, "x"); std::cerr.rdbuf(o); if (written("w.vtk")) hx::violation("a file is written for more than 3 dimensions"); if (e.str().find("arning") == std::string::npos && e.str().find("WARNING") == std::string::npos) hx::violation("no warning for more than 3 dimensions"); }
#ifdef MEMCOUNT
  } else if (mode == "mem") {
    mem::owner = [] { int r = self(); return r >= 0 && !g_rt[r] ? 1 + r : 0; };
    typedef int (*MMain)(const FCase*, std::string*);
    struct Cfg { VS d; int np; std::vector<VI> s; };
    std::vector<Cfg> cfg = { {{5}, 1, {{1}, {-2}}}, {{6}, 3, {{-2}, {1}}}, {{3, 4}, 3, {{0, 0}, {-1, 0}, {0, 2}}}, {{4, 4}, 4, {{1, 0}, {0, -1}, {-2, 0}}}, {{2, 2, 3}, 4, {{0, 0, 0}, {1, 0, 0}, {0, -1, 0}, {0, 0, 1}}}, {{40, 30}, 2, {{0, 1}, {1, 0}, {-3, 0}, {0, -3}}} };
    auto one = [&](const Cfg& g, const std::string& h) {
      if (!hx::take()) return; FCase c = mk(g.d, g.np, g.s, h); c.file = "out.vtk"; hx::progress(describe(c)); hx::stat("states"); for (int r = 0; r < c.np; ++r) code.get(r, "mc_filter_mem");
      Result res; explore(res, TWO, 0, 0, RESULT | STUCK, 60, [&](Shared* sh, Mode m) {
        std::vector<std::string> e(c.np); mem::g_double = 0;
        run(sh, c.np, m, false, [&](int r) { return ((MMain) code.get(r, "mc_filter_mem"))(&c, &e[r]); });
        for (int r = 0; r < c.np; ++r) if (!e[r].empty()) fault(RESULT, "rank " + std::to_string(r) + ": " + e[r]); unlink("out.vtk"); });
      report(res, false); };
    for (auto& g : cfg) {
      const char ops[] = "SJACiov"; std::string h;
      std::function<void()> rec = [&] { if ((int) h.size() == (T ? 4 : 3)) { one(g, "I" + h); return; } for (const char* o = ops; *o; ++o) { h.push_back(*o); rec(); h.pop_back(); } };
      rec(); one(g, "");
    }
    // no valid decomposition
    for (const char* h : {"!", "!ioA", "!v"}) { one({{3}, 2, {{1}}}, h); one({{5, 3}, 4, {{1, 0}, {0, 1}}}, h); }
  } else if (mode == "memprog") {
    mem::owner = [] { int r = self(); return r >= 0 && !g_rt[r] ? 1 + r : 0; };
    struct U { long live, blocks, peak; }; static U* u = (U*) mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (int N : {2, 3, 8, 12}) for (int p = 1; p <= 8; ++p) for (int f = 0; f < 2; ++f) {
      if (bestGrids(p, VS(3, N)).empty()) continue; if (!hx::take()) continue; hx::progress(std::to_string(p) + " procs: -numCells " + std::to_string(N) + (f ? " -vtk" : "")); hx::stat("states");
      for (int r = 0; r < p; ++r) code.get(r, "mc_rank_main");
      U first[66]; const std::vector<int> steps = N == 2 ? std::vector<int>{2, 3, 40, 600} : std::vector<int>{2, 3, 40};
      for (size_t k = 0; k < steps.size(); ++k) {
        std::vector<std::string> a = {"prog", "-numCells", std::to_string(N), "-numSteps", std::to_string(steps[k])}; if (f) a.push_back("-vtk");
        Result res; explore(res, {TWO[0]}, 0, 0, RESULT | STUCK, 60, [&](Shared* sh, Mode m) {
          mem::g_double = 0; for (int r = 0; r < p; ++r) mem::peak[1 + r] = mem::live[1 + r] = 0;
          run(sh, p, m, false, [&](int r) { std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); mc_mem_in(); mc_mem_out(); long l0 = mem::live[1 + r], b0 = mem::blocks[1 + r]; mem::peak[1 + r] = l0; int rc = ((PMain) code.get(r, "mc_rank_main"))((int) a.size(), av.data()); u[r] = {mem::live[1 + r] - l0, mem::blocks[1 + r] - b0, mem::peak[1 + r] - l0}; return rc; });
          unlink("upMpi.vtk"); if (mem::g_double) fault(RESULT, "a block is released that is not in use"); });
        report(res, false);
        for (int r = 0; r < p; ++r) { char b[300];
          if (k == 0) first[r] = u[r];
          else if (u[r].peak > first[r].peak + 2048 || u[r].live > first[r].live + 256) { snprintf(b, sizeof b, "rank %d needs up to %ld bytes for %d steps and %ld for %d, %ld and %ld are left at the end", r, first[r].peak, steps[0], u[r].peak, steps[k], first[r].live, u[r].live); hx::violation(b); } }
      }
      hx::sample(hx::g_cur + ": rank 0 needs up to " + std::to_string(first[0].peak) + " bytes");
    }
  } else if (mode == "share" || mode == "shareprog") {
    mem::owner = [] { int r = self(); return r >= 0 && !g_rt[r] ? 1 + r : 0; };
    // cells of a sub-domain, of all its halos, and bytes an application may bring
    auto size = [&](const VS& d, int np, const std::vector<VI>& s, double& own, double& halo, double& bring) {
      own = halo = bring = 0; for (auto& p : bestGrids(np, d)) { double w = 1, h = 0, b = 0; std::map<int, int> wid; for (size_t k = 0; k < d.size(); ++k) w *= d[k] / p[k];
        for (auto& o : s) for (size_t k = 0; k < d.size(); ++k) if (o[k]) { int sd = (int) k * 2 + (o[k] > 0); wid[sd] = std::max(wid[sd], std::abs(o[k])); }
        for (auto& x : wid) h += x.second * w / (d[x.first / 2] / p[x.first / 2]);
        for (auto& o : s) for (size_t k = 0; k < d.size(); ++k) if (o[k]) b += 8 * wid[(int) k * 2 + (o[k] > 0)] * w / (d[k] / p[k]);
        own = std::max(own, w); halo = std::max(halo, h); bring = std::max(bring, b); } };
    if (mode == "share") {
      typedef int (*SMain)(const FCase*, std::vector<std::vector<long>>*);
      struct Cfg { VS d; int np; std::vector<VI> s; }; std::vector<Cfg> cfg;
      for (size_t n = 8; n <= (T ? 64 : 32); n += 4) for (int np = 1; np <= 8; ++np) for (auto& s : std::vector<std::vector<VI>>{{{1}}, {{-1}, {0}, {1}}, {{-2}, {1}, {2}}}) cfg.push_back({{n}, np, s});
      for (size_t n : {4, 6, 12}) for (size_t m : {4, 8, 12}) for (int np : {1, 2, 3, 4, 6, 8}) for (auto& s : std::vector<std::vector<VI>>{{{1, 0}, {0, -1}}, {{0, 0}, {-1, 0}, {0, 2}, {1, 0}}}) cfg.push_back({{n, m}, np, s});
      for (size_t n : {2, 4}) for (int np : {1, 2, 4, 8}) cfg.push_back({{n, 4, 8}, np, {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {0, 0, -1}, {0, 0, 0}}});
      const size_t big = cfg.size(); cfg.push_back({{131072}, 8, {{1}}}); cfg.push_back({{256, 256}, 4, {{1, 0}}}); cfg.push_back({{32, 64, 32}, 8, {{0, 0, 0}, {0, 1, 0}, {0, 0, -1}}}); cfg.push_back({{131072}, 16, {{-3}}});
      for (size_t q = 0; q < cfg.size(); ++q) { auto& g = cfg[q]; VS e = extents(g.np, g.d); if (bestGrids(g.np, g.d).empty() || !fits(e, g.s)) continue;
        for (const char* h : {"IACACioSA", "SoAiCvA"}) { if (q >= big && h[0] == 'S') continue; FCase c = mk(g.d, g.np, g.s, q >= big ? (g.np == 16 ? "IvACSA" : "IACSA") : h); c.file = "out.vtk";
          if (!hx::take()) continue; hx::progress(describe(c)); hx::stat("states"); for (int r = 0; r < c.np; ++r) code.get(r, "mc_filter_share");
          double own, halo, bring; size(g.d, g.np, g.s, own, halo, bring); size_t tot = 1; for (size_t x : g.d) tot *= x; std::string ops = "N" + c.ops;
          Result res; explore(res, q < big ? FOUR : std::vector<Mode>{TWO[0]}, 0, 0, RESULT | STUCK, 120, [&](Shared* sh, Mode m) {
            std::vector<std::vector<std::vector<long>>> o(c.np);
            run(sh, c.np, m, false, [&](int r) { return ((SMain) code.get(r, "mc_filter_share"))(&c, &o[r]); });
            char b[300]; for (int r = 0; r < c.np; ++r) for (size_t k = 0; k < o[r].size() && k < ops.size(); ++k) { char op = ops[k]; auto& x = o[r][k]; double lim = op == 'i' || op == 'o' ? 8 * c.np + 64 : op == 'v' ? (r ? 64 : 8 * tot + 64) : bring + 64;
              if (x[0] > own + halo) { snprintf(b, sizeof b, "process %d evaluates the input %ld times for %g cells and %g in its halos", r, x[0], own, halo); fault(RESULT, b); }
              if (x[1] > lim) { snprintf(b, sizeof b, "process %d receives %ld bytes in operation %zu (%c), more than %g", r, x[1], k, op, lim); fault(RESULT, b); }
              if ((op != 'v' || r) && std::max(x[2], x[3]) + obtained(r) > 4 * 8 * (own + halo) + 65536 + 512 * c.np) { snprintf(b, sizeof b, "process %d needs up to %ld bytes in operation %zu (%c) for %g cells and %g in its halos", r, std::max(x[2], x[3]), k, op, own, halo); fault(RESULT, b); } }
            unlink("out.vtk"); });
          report(res, false); } }
    } else {
      std::string prog = hx::opt("prog"); bool up = prog == "upwindMpi"; const char* file = up ? "upMpi.vtk" : "laplacian.vtk";
      struct U { long peak, recv; }; static U* u = (U*) mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      for (int N : up ? std::vector<int>{4, 6, 32} : std::vector<int>{8, 12, 128}) for (int p : {1, 2, 3, 4, 6, 8, 16}) for (int f = 0; f < 2; ++f) for (int steps : up ? std::vector<int>{1, 3} : std::vector<int>{10}) {
        VS d(up ? 3 : 2, N); std::vector<VI> s; for (size_t k = 0; k < d.size(); ++k) { VI o(d.size(), 0); o[k] = -1; s.push_back(o); if (!up) { o[k] = 1; s.push_back(o); } }
        if (bestGrids(p, d).empty() || (N >= 32 && (p < 4 || steps == 3))) continue; if (!hx::take()) continue;
        std::vector<std::string> a = {"prog", "-numCells", std::to_string(N)}; if (up) { a.push_back("-numSteps"); a.push_back(std::to_string(steps)); } if (f) a.push_back("-vtk");
        std::string t; for (size_t i = 1; i < a.size(); ++i) t += " " + a[i]; hx::progress(std::to_string(p) + " procs:" + t); hx::stat("states"); for (int r = 0; r < p; ++r) code.get(r, "mc_rank_main");
        double own, halo, bring; size(d, p, s, own, halo, bring); size_t tot = 1; for (size_t x : d) tot *= x;
        Result res; explore(res, N < 32 ? FOUR : std::vector<Mode>{TWO[0]}, 0, 0, RESULT | STUCK, 120, [&](Shared* sh, Mode m) {
          for (int r = 0; r < p; ++r) mem::peak[1 + r] = mem::live[1 + r] = 0;
          run(sh, p, m, false, [&](int r) { std::vector<char*> av; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); long l0 = mem::live[1 + r]; mem::peak[1 + r] = l0; int rc = ((PMain) code.get(r, "mc_rank_main"))((int) a.size(), av.data()); u[r] = {mem::peak[1 + r] - l0, received(r)}; return rc; });
          char b[300]; for (int r = 0; r < p; ++r) { double lim = steps * (bring + (r ? 64 : 24 * p)) + 64 * p + 256 + (f && !r ? 8.0 * tot : 0);
            if (u[r].recv > lim) { snprintf(b, sizeof b, "process %d receives %ld bytes in %d steps, more than %g", r, u[r].recv, steps, lim); fault(RESULT, b); }
            if (!(f && !r) && u[r].peak + obtained(r) > 4 * 8 * (own + halo) + 65536 + 512 * p) { snprintf(b, sizeof b, "process %d needs up to %ld bytes for %g cells and %g in its halos", r, u[r].peak, own, halo); fault(RESULT, b); } }
          unlink(file); });
        report(res, false);
        hx::sample(hx::g_cur + ": process 0 needs up to " + std::to_string(u[0].peak) + " bytes and receives " + std::to_string(u[0].recv));
      }
    }
#endif
  } else if (mode == "prog") {
#include "h_mpi_prog.inc"
  } else return 12;
  return hx::done();
}
