// C01, C02, C05, C15: explicit exploration of a solver's behaviours against the
// reference.  mode = formula | stats | vtk
#ifdef FORTRAN
#include "solver_fortran.h"
#else
#include "solver_cxx.h"
#endif
#include "hx.h"
#include "upref.h"
#include "vtk.h"
typedef std::vector<double> VD; typedef std::vector<size_t> VS;
static std::string mode;
static int pid() { static int p = getpid(); return p; }
static std::string vtkname() { return "o" + std::to_string(pid()) + ".vtk"; }
static void checkField(ISolver& s, const UpRef& r, const std::string& when) {
  std::string e = cmp_cells(s.field(), r);
  hx::stat("states");
  if (!e.empty()) hx::violation(when + ": " + e);
}
static void checkStats(ISolver& s, bool bounded, const std::string& when) {
  VD f = s.field(); double sum = 0, lo = 1e300, hi = -1e300, mag = 0;
  for (double x : f) { sum += x; mag += std::fabs(x); lo = std::min(lo, x); hi = std::max(hi, x); if (!(x == x)) hx::violation(when + ": a cell is not a number"); }
  hx::stat("states");
  double tol = 1e-12 * (1 + mag);
  if (std::fabs(sum - 1) > tol) { char b[100]; snprintf(b, 100, ": the total is %.15g", sum); hx::violation(when + b); }
  if (bounded && (lo < -1e-13 || hi > 1 + 1e-13)) { char b[100]; snprintf(b, 100, ": the field spans %.15g to %.15g", lo, hi); hx::violation(when + b); }
  if (s.has_checksum()) { double c = s.checksum(); if (!(std::fabs(c - sum) <= tol)) { char b[100]; snprintf(b, 100, ": check sum %.15g but the cells add up to %.15g", c, sum); hx::violation(when + b); } hx::stat("statistics"); }
  if (s.has_std()) {
    double m = sum / f.size(), q = 0; for (double x : f) q += (x - m) * (x - m); q = std::sqrt(q / f.size());
    double g = s.std_(); if (!(std::fabs(g - q) <= 1e-10 * (1 + mag))) { char b[100]; snprintf(b, 100, ": std %.15g instead of %.15g", g, q); hx::violation(when + b); } hx::stat("statistics");
  }
}
static void checkVtk(ISolver& s, const UpRef& r, const std::string& when) {
  std::string fn = vtkname();
  VD f = s.field();
  static long calls = 0, in = -1; if (in != hx::g_case) { in = hx::g_case; calls = in; } if (++calls % 2) staleFile(fn); // every other time the file exists already
  s.saveVTK(fn);
  VtkFile k; 
  if (!k.read(fn)) hx::violation(when + ": " + k.err);
  hx::stat("states"); hx::stat("files");
  if (k.kind != "RECTILINEAR_GRID") hx::violation(when + ": dataset " + k.kind);
  size_t nd = r.n.size();
  for (size_t a = 0; a < 3; ++a) { // a: X, Y, Z; the fastest axis is the last one
    size_t j = 2 - a; // axis of a 3-D grid
    bool used = j < nd;
    size_t want = used ? r.n[j] + 1 : 1;
    if (k.dims[a] != want) hx::violation(when + ": DIMENSIONS " + std::to_string(k.dims[0]) + ' ' + std::to_string(k.dims[1]) + ' ' + std::to_string(k.dims[2]) + " for grid " + hx::str(r.n));
    for (size_t i = 0; i < want; ++i) { double w = used ? r.l[j] / r.n[j] * i : 0; if (!near(k.ax[a][i], w, 2e-5)) hx::violation(when + ": coordinate " + std::to_string(i) + " of axis " + "XYZ"[a] + " is " + std::to_string(k.ax[a][i]) + " instead of " + std::to_string(w)); }
  }
  if (k.val.size() != f.size()) hx::violation(when + ": number of values");
  for (size_t i = 0; i < f.size(); ++i) if (!near(k.val[i], f[i], 2e-5)) { char b[100]; snprintf(b, 100, ": value %zu is %.10g instead of %.10g", i, k.val[i], f[i]); hx::violation(when + b); }
  unlink(fn.c_str());
}
static void observe(ISolver& s, const UpRef& r, bool bounded, const std::string& when) {
  if (mode == "formula") checkField(s, r, when);
  else if (mode == "stats") checkStats(s, bounded, when);
  else checkVtk(s, r, when);
}
static void config(const VS& n, const VD& v, const VD& l, double dt, const std::vector<std::vector<int>>& splits) {
  if (!hx::take()) return;
  hx::progress("cells=" + hx::str(n) + " velocity=" + hx::str(v) + " lengths=" + hx::str(l) + " dt=" + hx::str(VD{dt}));
  double c = 0; for (size_t j = 0; j < n.size(); ++j) c += std::fabs(v[j]) * dt * n[j] / l[j];
  bool bounded = dt >= 0 && c <= 1 + 1e-14;
  for (auto& sp : splits) {
    std::unique_ptr<ISolver> s = make_solver(v, l, n);
    UpRef r(v, l, n);
    observe(*s, r, bounded, "initially");
    int done = 0;
    for (int k : sp) { s->advect(k, dt); for (int i = 0; i < k; ++i) r.step(dt); done += k; hx::stat("transitions", k); observe(*s, r, bounded, "after " + std::to_string(done) + " steps (calls " + hx::str(sp) + ")"); }
    hx::stat("traces");
  }
  hx::sample(hx::g_cur + " calls " + hx::str(splits.back()));
}
// every sequence of operations on one or two objects
static void histories(const VS& n, const VD& v, const VD& l, double dt, int depth) {
  if (!hx::take()) return;
  hx::progress("histories cells=" + hx::str(n) + " velocity=" + hx::str(v) + " lengths=" + hx::str(l) + " dt=" + hx::str(VD{dt}));
  VS n2(n.rbegin(), n.rend()); VD v2(v); for (double& x : v2) x = -x;
  double cb = 0; for (size_t j = 0; j < n2.size(); ++j) cb += std::fabs(v2[j]) * dt * n2[j] / l[j];
  const bool bb = cb <= 1;
  hx::tuples<int>(depth, 0, 6, [&](const std::vector<int>& ops) {
    std::unique_ptr<ISolver> a = make_solver(v, l, n), b;
    UpRef ra(v, l, n), rb(v2, l, n2);
    for (size_t i = 0; i < ops.size(); ++i) {
      std::string when = "after operation " + std::to_string(i) + " of " + hx::str(ops);
      hx::stat("transitions");
      switch (ops[i]) {
        case 0: a->advect(1, dt); ra.step(dt); break;
        case 1: a->advect(2, dt * 0.5); ra.step(dt * 0.5); ra.step(dt * 0.5); break;
        case 2: if (a->has_checksum()) a->checksum(); if (a->has_std()) a->std_(); break;
        case 3: a->saveVTK(vtkname()); unlink(vtkname().c_str()); break;
        case 4: if (!b) { b = make_solver(v2, l, n2); rb = UpRef(v2, l, n2); } b->advect(1, dt); rb.step(dt); break;
        case 5: b.reset(); break;
        case 6: a->advect(0, dt); break;
      }
      observe(*a, ra, true, when);
      if (b) observe(*b, rb, bb, when + " (second object)");
    }
    hx::stat("traces");
  });
}
int main(int argc, char** argv) {
  hx::init(argc, argv);
  mode = hx::opt("mode");
  int T = hx::g_thorough;
  std::vector<std::vector<int>> splits = {{1, 1, 1, 1, 1}, {5}, {2, 3}, {0, 1, 3, 1}};
  if (T) splits = {{1, 1, 1, 1, 1, 1, 1, 1}, {8}, {1, 7}, {2, 6}, {3, 5}, {4, 4}, {0, 3, 3, 2}};
  bool vtk = mode == "vtk";
  if (vtk) splits = {{2, 2}};
  const double L[3][3] = {{1, 1, 1}, {1, 2, 0.5}, {0.7, 0.3, 11}};
  const double V[3] = {1, 0.75, 0.4};
  for (int nd = solver_min_dims(); nd <= 3; ++nd) {
    size_t mx = nd == 1 ? 12 : nd == 2 ? 6 : 4;
    if (T) mx += nd == 3 ? 1 : 4;
    if (vtk) mx = nd == 1 ? 12 : nd == 2 ? 5 : 3 + T;
    hx::tuples<size_t>(nd, 1, mx, [&](const VS& n) {
      hx::tuples<int>(nd, -1, 1, [&](const std::vector<int>& sg) {
        for (int il = 0; il < 3; ++il) {
          if (vtk && !(il == 1 || (il == 2 && sg[0] == 1))) continue;
          if (!T && il == 0 && sg[0] != 1) continue;
          VD v(nd), l(L[il], L[il] + nd);
          double tot = 0, mxc = 0;
          for (int j = 0; j < nd; ++j) { v[j] = sg[j] * V[j]; double c = std::fabs(v[j]) * n[j] / l[j]; tot += c; mxc = std::max(mxc, c); }
          if (tot == 0) { tot = mxc = 1; }
          std::vector<double> dts = {1 / tot, 0.4 / tot};
          if (mode != "stats") dts.push_back(0.6 / mxc);
          if (vtk) { dts = {0.9 / tot}; if (il == 2) { dts.push_back(1e-60 / tot); dts.push_back(1e-155 / tot); dts.push_back(1e30 / tot); } }
          for (double dt : dts) config(n, v, l, dt, splits);
        }
      });
    });
  }
  // long and large shapes
  std::vector<VS> big = {{300, 1, 1}, {1, 300, 1}, {1, 1, 300}, {130, 3, 2}, {2, 130, 3}, {3, 2, 130}, {17, 16, 15}, {41, 41, 41}};
  if (T) big.push_back({33, 65, 34});
  if (!vtk) { big.push_back({70000, 1, 1}); big.push_back({1, 70000, 1}); big.push_back({1, 1, 70000}); }
  // every length of one axis
  for (int nd = solver_min_dims(); nd <= 3; ++nd) for (int a = 0; a < nd; ++a) for (size_t k = 1; k <= (vtk ? 40 : T ? 300 : 135); ++k) hx::tuples<int>(nd, 0, 1, [&](const std::vector<int>& sg) {
    if (vtk && sg != std::vector<int>(nd, 0)) return;
    VS n(nd, 2); n[a] = k; if (nd > 1) n[a ? 0 : 1] = 3; VD l = {1, 2, 0.5}, v(nd); l.resize(nd); double tot = 0; for (int j = 0; j < nd; ++j) { v[j] = (sg[j] ? -1 : 1) * V[j]; tot += V[j] * n[j] / l[j]; }
    config(n, v, l, 0.9 / tot, {vtk ? std::vector<int>{1} : std::vector<int>{3}}); });
  for (auto& n : big) hx::tuples<int>(3, 0, 1, [&](const std::vector<int>& sg) {
    if (n[0] * n[1] * n[2] > 20000 && !(T || sg[0] == sg[1])) return;
    VD l = {1, 2, 0.5}, v(3); double tot = 0; for (int j = 0; j < 3; ++j) { v[j] = (sg[j] ? -1 : 1) * V[j]; tot += V[j] * n[j] / l[j]; }
    config(n, v, l, 0.9 / tot, {vtk ? std::vector<int>{1} : std::vector<int>{1, 2}}); });
  // tiny and huge velocities, lengths and time steps
  const double SC[9][3] = {{1e-9, 1e-9, 1e-9}, {1e8, 1e8, 1e8}, {1e-7, 1, 1e7}, {1, 1e-40, 1e40}, {1e-160, 1e-160, 1e-160}, {1, 1, 1e-5}, {1e5, 1, 1}, {1e12, 1e-12, 1}, {1, 1, 1}};
  for (int nd = solver_min_dims(); nd <= 3; ++nd) for (int is = 0; is < 9; ++is) for (int il = 0; il < 9; ++il) {
    if (!T && is != il && is != 8 && il != 8) continue;
    hx::tuples<int>(nd, -1, 1, [&](const std::vector<int>& sg) {
      VS n = {3, 2, 4}; n.resize(nd); VD v(nd), l(nd); double tot = 0;
      for (int j = 0; j < nd; ++j) { v[j] = sg[j] * V[j] * SC[is][j]; l[j] = L[1][j] * SC[il][j]; tot += std::fabs(v[j]) * n[j] / l[j]; }
      if (vtk && (SC[il][nd - 1] < 1e-30 || SC[il][0] < 1e-30)) return;
      if (tot == 0) tot = 1;
      config(n, v, l, 0.9 / tot, {{1, 2}});
      if (is == 8 && il == 8) { config(n, v, l, 0, {{1, 2}}); config(n, v, l, -0.3 / tot, {{1, 2}}); }
    });
  }
  if (!vtk) { // many steps
    for (int nd = solver_min_dims(); nd <= 3; ++nd) hx::tuples<size_t>(nd, 2, 3, [&](const VS& n) {
      VD l(L[1], L[1] + nd), v(V, V + nd); double tot = 0; for (int j = 0; j < nd; ++j) tot += V[j] * n[j] / l[j];
      config(n, v, l, 0.9 / tot, {{100, 100}, {260, 1}}); });
    for (int nd = solver_min_dims(); nd <= 3; ++nd) { VS n = {2, 1, 1}; n.resize(nd); VD v = {1e-4, 1e-5, 1e-5}, l(nd, 1.0); v.resize(nd); config(n, v, l, 0.1, {{70000, 2}}); }
  }
  for (int nd = solver_min_dims(); nd <= 3; ++nd) for (int k = 0; k < 2 + T; ++k) {
    VS n = {(size_t) 2 + k, 3, (size_t) (k ? 1 : 2)}; VD v = {1, -0.75, 0.4}, l = {1, 2, 0.5}; n.resize(nd); v.resize(nd); l.resize(nd);
    double tot = 0; for (int j = 0; j < nd; ++j) tot += V[j] * n[j] / l[j];
    histories(n, v, l, 0.9 / tot, 3 + T + (vtk ? 0 : 1));
  }
  return hx::done();
}
