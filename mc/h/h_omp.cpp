// C04, C05, C15, C21, C22: thread schedules of the OpenMP solvers under the controlled runtime.
// mode = field | stats | vtk | report | device
#ifdef FORTRAN
#include "solver_fortran.h"
extern "C" { void mcf_flush(); int mc_f_main(int, char**); void _gfortran_set_args(int, char**); void _gfortran_set_options(int, int*); }
#else
#include "solver_cxx.h"
#endif
#include "hx.h"
#include "upref.h"
#include "vtk.h"
#include "../rt/omprt.h"
using namespace omprt;
typedef std::vector<double> VD; typedef std::vector<size_t> VS;
static const char* grainName[] = {"OpenMP calls", "racing accesses", "accesses to shared memory"};
static std::vector<Mode> modes(bool all) { std::vector<Mode> m; for (int i = 0; i < 8; ++i) if (all || i == 0 || i == 1 || i == 2 || i == 4 || i == 7) m.push_back({(i & 1) != 0, (i & 2) != 0, (i & 4) != 0}); return m; }
static void report(const Result& r) {
  hx::stat("schedules", r.executions); hx::stat("transitions", r.points + r.executions); hx::stat("states", r.switches + r.executions); hx::stat("traces", r.executions); hx::stat("memory_accesses", r.accesses);
  hx::stat("racing_sites", r.racy); if (r.capped) hx::stat("configurations_capped");
  if (!r.error.empty()) hx::violation(r.error + " [schedule: " + r.schedule + "]");
}
struct Cfg { VS n; VD v; std::vector<int> calls; int threads, maxt; Grain g; int dev; };
static std::string mode;
static void field(const Cfg& k, bool device, int teams) {
  if (!hx::take()) return;
  VD l = {1, 2, 0.5}; l.resize(k.n.size());
  double tot = 0; for (size_t j = 0; j < k.n.size(); ++j) tot += std::fabs(k.v[j]) * k.n[j] / l[j];
  double dt = 0.9 / tot;
  hx::progress("cells=" + hx::str(k.n) + " velocity=" + hx::str(k.v) + " calls=" + hx::str(k.calls) + " " + std::to_string(k.threads) + " threads" + (teams > 1 ? ", " + std::to_string(teams) + " teams" : "") + ", switches at " + grainName[k.g] + ", up to " + std::to_string(k.dev) + " departures");
  UpRef ref(k.v, l, k.n); for (int c : k.calls) for (int i = 0; i < c; ++i) ref.step(dt);
  std::unique_ptr<ISolver> s;
  const bool stats = mode == "stats", vtk = mode == "vtk"; std::vector<double> sums, stds;
  double sum = 0, sd = 0; for (double x : ref.f) sum += x; for (double x : ref.f) sd += (x - sum / ref.f.size()) * (x - sum / ref.f.size()); sd = std::sqrt(sd / ref.f.size());
  Config c; c.threads = k.threads; c.maxThreads = k.maxt; c.device = device; c.teams = teams;
  Result r;
  explore(r, c, modes(hx::g_thorough), k.g, k.dev, hx::g_thorough ? 2000000 : 60000,
    [&] {
      s = make_solver(k.v, l, k.n); sums.clear(); stds.clear();
      for (int x : k.calls) { s->advect(x, dt); if (stats && s->has_checksum()) sums.push_back(s->checksum()); if (stats && s->has_std()) stds.push_back(s->std_()); }
      if (vtk) s->saveVTK("o.vtk"); },
    [&]() -> std::string {
      hx::kick(); char b[200];
      for (double x : sums) if (!(std::fabs(x - sum) <= 1e-12)) { snprintf(b, sizeof b, "check sum %.15g instead of %.15g", x, sum); return b; }
      if (!stds.empty() && !(std::fabs(stds.back() - sd) <= 1e-11)) { snprintf(b, sizeof b, "std %.15g instead of %.15g", stds.back(), sd); return b; }
      if (vtk) {
        VtkFile f; if (!f.read("o.vtk")) return f.err;
        if (f.val.size() != ref.f.size()) return "number of values in the file";
        for (size_t a = 0; a < 3; ++a) { size_t j = 2 - a, want = j < k.n.size() ? k.n[j] + 1 : 1; if (f.dims[a] != want) return "dimensions in the file"; for (size_t i = 0; i < want; ++i) if (!near(f.ax[a][i], j < k.n.size() ? l[j] / k.n[j] * i : 0, 2e-5)) return "coordinates in the file"; }
        for (size_t i = 0; i < ref.f.size(); ++i) if (!near(f.val[i], ref.f[i], 2e-5)) { snprintf(b, sizeof b, "value %zu in the file is %.10g instead of %.10g", i, f.val[i], ref.f[i]); return b; }
        unlink("o.vtk");
      }
      std::string e = cmp_field(s->field(), ref.f, 1e-12); s.reset(); return e.empty() ? e : "after " + hx::str(k.calls) + " steps " + e; });
  report(r);
  hx::sample(hx::g_cur + ": " + std::to_string(r.executions) + " executions, at most " + std::to_string(r.maxpoints) + " switch points");
}
// ---- how the work is shared: every thread takes part when all advance at the same pace
static void share(const VS& n, int threads, int steps, bool device, int teams) {
  if (!hx::take()) return;
  hx::progress("cells=" + hx::str(n) + " " + std::to_string(threads) + " threads" + (device ? ", " + std::to_string(teams) + " teams on a device" : "") + ", " + std::to_string(steps) + " steps");
  VD l = {1, 2, 0.5}, v = {1, -0.75, 0.4}; l.resize(n.size()); v.resize(n.size());
  std::unique_ptr<ISolver> s; Config c; c.threads = c.maxThreads = threads; c.device = device; c.teams = teams; Result r;
  std::vector<long> load(16 * MAXT); const int all = threads * teams;
  std::vector<Mode> m = {{false, true, false}, {true, true, false}, {false, true, true}, {true, true, true}}; std::string last;
  explore(r, c, m, SYNC, 0, 100,
    [&] { s = make_solver(v, l, n); load.assign(load.size(), 0); g_load = load.data(); s->advect(steps, 1e-4); g_load = nullptr; },
    [&]() -> std::string {
      g_load = nullptr; hx::kick(); long tot = 0, lo = -1, hi = 0; for (long x : load) tot += x;
      for (int t = 0; t < teams; ++t) for (int i = 0; i < threads; ++i) { long x = load[t * MAXT + i]; hi = std::max(hi, x); if (lo < 0 || x < lo) lo = x; }
      s.reset(); char b[300]; const double even = 1.0 / all;
      snprintf(b, sizeof b, "of %ld memory accesses the busiest of %d threads makes %.1f%%, the idlest %.1f%%", tot, all, 100.0 * hi / tot, 100.0 * lo / tot); last = b;
      if (!tot) return "no work has been seen";
      size_t cells = 1; for (size_t x : n) cells *= x;
      const bool few = cells < 8u * all; // what is done once per step counts for more
      if (hi > (even + (few ? 0.45 : 0.25)) * tot || lo < (few ? 0.25 : 0.5) * even * tot) return std::string("the work is not shared: ") + b;
      return ""; });
  g_load = nullptr; report(r);
  hx::sample(hx::g_cur + ": " + last);
}
// ---- the report of the program
static std::string slurp(int fd) { std::string s; char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n); return s; }
static int count(const std::string& s, const std::string& k) { int n = 0; for (size_t p = 0; (p = s.find(k, p)) != std::string::npos; p += k.size()) ++n; return n; }
static void program(int cells, int steps, int threads, int maxt, Grain g, int dev) {
  if (!hx::take()) return;
  hx::progress("program with " + std::to_string(cells) + " cells per axis, " + std::to_string(steps) + " steps, team of " + std::to_string(threads) + " of at most " + std::to_string(maxt) + " threads, switches at " + grainName[g] + ", up to " + std::to_string(dev) + " departures");
  static int fd = -1, save = -1; if (fd < 0) { fd = memfd_create("out", 0); fflush(stdout); save = dup(1); }
  Config c; c.threads = threads; c.maxThreads = maxt; Result r;
  std::string a1 = std::to_string(cells), a2 = std::to_string(steps);
#ifdef FORTRAN
  std::vector<std::string> args = {"prog", a1, a2};
#else
  std::vector<std::string> args = {"prog", "-numCells", a1, "-numSteps", a2};
#endif
  std::vector<char*> av; for (auto& x : args) av.push_back(&x[0]); av.push_back(nullptr);
  const int ac = (int) args.size();
  bool first = true;
  explore(r, c, modes(hx::g_thorough), g, dev, hx::g_thorough ? 2000000 : 40000,
    [&] {
      if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); fflush(stdout); dup2(fd, 1);
#ifdef FORTRAN
      mc_f_main(ac, av.data());
#else
      repo_main(ac, av.data());
#endif
    },
    [&]() -> std::string {
      hx::kick();
#ifdef FORTRAN
      mcf_flush();
#endif
      std::cout.flush(); fflush(stdout);
      std::string o = slurp(fd); dup2(save, 1);
      auto fail = [&](const std::string& w) { return w + ": " + o.substr(0, 300); };
      size_t p = o.find("number of threads:");
      if (count(o, "max number of threads:") != 1) return fail("the thread report is printed " + std::to_string(count(o, "max number of threads:")) + " times");
      int a = -1, b = -1;
      size_t q = o.find("max number of threads:"); b = atoi(o.c_str() + q + 22); if (p == q + 4) return fail("no number of threads"); a = atoi(o.c_str() + p + 18);
      if (count(o, "number of threads:") != 2) return fail("the number of threads is printed " + std::to_string(count(o, "number of threads:") - 1) + " times");
      if (a != threads) return fail("reports " + std::to_string(a) + " threads instead of " + std::to_string(threads));
      if (b != maxt) return fail("reports at most " + std::to_string(b) + " threads instead of " + std::to_string(maxt));
      if (count(o, "Running with OpenMP enabled") != 1) return fail("OpenMP reported " + std::to_string(count(o, "Running with OpenMP enabled")) + " times");
      if (count(o, "check sum") != 1) return fail("the program did not finish");
      if (first) { first = false; }
      return "";
    });
  report(r);
  hx::sample(hx::g_cur + ": " + std::to_string(r.executions) + " executions, at most " + std::to_string(r.maxpoints) + " switch points");
}
int main(int argc, char** argv) {
  hx::init(argc, argv);
  mode = hx::opt("mode"); bool T = hx::g_thorough;
#ifdef FORTRAN
  int opts[7] = {68, 8191, 0, 1, 1, 0, 31}; _gfortran_set_args(argc, argv); _gfortran_set_options(7, opts);
#endif
  if (mode == "report") {
    for (int t = 1; t <= (T ? 8 : 5); ++t) for (int m = t; m <= t + 2; m += 2) {
      program(1, 0, t, m, SYNC, t <= 3 ? 3 : 2); program(1, 0, t, m, RACES, t <= 2 ? 4 : t <= 3 ? 3 : 2); program(1, 1, t, m, SHARED, t <= 3 ? 2 : 1); program(2, 1, t, m, RACES, 1); }
    program(1, 0, 16, 16, RACES, 1); program(1, 0, 2, 8, RACES, 2); program(1, 0, 23, 24, RACES, 1);
    return hx::done();
  }
  if (mode == "share" || mode == "devshare") {
    const bool d = mode == "devshare";
    for (int nd = std::max(1, solver_min_dims()); nd <= 3; ++nd) for (int t = 1; t <= (T ? 32 : 16); t = t < 8 ? t + 1 : t * 2) for (int teams = 1; teams <= (d ? 4 : 1); teams *= 2) {
      const size_t u = (size_t) t * teams, top = nd == 1 ? (T ? 16 : 8) : nd == 2 ? (T ? 6 : 4) : u > 8 ? 1 : 2;
      if (nd == 3 && u > 16) continue;
      hx::tuples<size_t>(nd, 1, top, [&](const VS& k) { VS n; size_t tot = 1; for (size_t x : k) { n.push_back(x * u); tot *= x * u; } if (tot > (T ? 40000 : 9000)) return; for (int steps = 1; steps <= 3; steps += 2) share(n, t, steps, d, teams); });
    }
    return hx::done();
  }
  bool dev = mode == "device";
  std::vector<std::pair<VS, VD>> grids;
  auto add = [&](VS n, VD v) { if ((int) n.size() >= solver_min_dims()) grids.push_back({n, v}); };
  add({2}, {1}); add({3}, {-1}); add({5}, {1});
  add({1, 2}, {1, 1}); add({2, 2}, {1, -0.75}); add({3, 2}, {-1, 0.75});
  add({1, 1, 1}, {1, 1, 1}); add({1, 1, 2}, {1, 1, 1}); add({2, 1, 1}, {-1, 1, 1}); add({1, 3, 1}, {1, -1, 1}); add({2, 1, 2}, {1, -0.75, 0.4}); add({1, 2, 3}, {-1, 0.75, 0.4}); add({2, 2, 2}, {1, 0.75, -0.4});
  if (T) { add({4, 3}, {1, 1}); add({3, 2, 2}, {-1, -0.75, -0.4}); add({1, 1, 7}, {1, 1, 1}); }
  if (mode == "stats" || mode == "vtk") {
    const bool st = mode == "stats";
    for (auto& g : grids) for (int t = 1; t <= (T ? 6 : 4); ++t) {
      field({g.first, g.second, {1}, t, t, SYNC, st && t <= 2 ? 2 + T : 1 + T}, false, 1);
      field({g.first, g.second, {1, 1}, t, t, RACES, st && t <= 3 ? 2 : 1}, false, 1);
    }
    for (int t : {2, 3, 8}) field({{3, 4, 5}, {1, -0.75, 0.4}, {2, 1}, t, t, RACES, 1}, false, 1);
    return hx::done();
  }
  for (auto& g : grids) {
    size_t tot = 1; for (size_t x : g.first) tot *= x;
    for (int t = 1; t <= (T ? 6 : 4); ++t) {
      field({g.first, g.second, {2}, t, t, SYNC, t <= 2 ? 3 : T ? 3 : 2}, dev, 1);
      field({g.first, g.second, {1, 1}, t, t, RACES, t <= 2 ? 3 : 2}, dev, 1);
      field({g.first, g.second, {3}, t, t + 1, RACES, 1 + T}, dev, 1);
      if (tot <= (T ? 6 : 4) && t > 1) field({g.first, g.second, {tot <= 2 ? 2 : 1}, t, t, SHARED, tot <= 2 && t == 2 ? 2 + T : 1 + T}, dev, 1);
      if (dev) field({g.first, g.second, {2}, t, t, RACES, 1}, true, 3);
    }
    for (int t : {31, 32, 33, 64, 65, 130}) if (T || (dev ? tot == 6 && (t == 33 || t == 130) : tot == 3 || tot == 6)) { field({g.first, g.second, {2}, t, t, RACES, 0}, dev, 1); if ((t == 33 && !dev) || T) field({g.first, g.second, {1}, t, t, SYNC, 1}, dev, 1); }
    for (int t : {7, 16}) field({g.first, g.second, {2}, t, t, RACES, 1}, dev, 1);
  }
  // larger grids, every team size
  for (int t = 1; t <= (T ? 24 : 8); ++t) {
    if (solver_min_dims() == 1) { field({{13}, {-1}, {1, 2}, t, t, RACES, 1}, dev, 1); field({{4, 5}, {1, -1}, {2, 1}, t, t, RACES, 1}, dev, 1); }
    field({{3, 4, 5}, {1, -0.75, 0.4}, {2, 1}, t, t, RACES, 1}, dev, 1); field({{4, 4, 4}, {1, 1, 1}, {3}, t, t, SYNC, 1}, dev, 1); field({{2, 3, 4}, {-1, -0.75, -0.4}, {1, 2}, t, t, RACES, 1}, dev, dev ? 2 : 1);
  }
  return hx::done();
}
