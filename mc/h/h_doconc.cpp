// C24: the do concurrent loops, restated as loops whose order comes from here, in every
// order of their iterations (all permutations up to a size, structured orders beyond).
#include "hx.h"
#include <algorithm>
#include <numeric>
typedef std::vector<int> VI; typedef std::vector<double> VD; typedef std::vector<size_t> VS;
#include "doconc_dep.h"
#ifdef DEP
static const bool g_dep = true;
#else
static const bool g_dep = false;
#endif
static std::vector<VI> g_orders; static size_t g_loop = 0; static long g_asked = 0;
static VI g_cur;
// each execution of a loop of n iterations takes the next order of the list, which is given for that n
static int g_n = 0; static std::function<int(int, int)> g_rule;
static int which(int k, int n) {
  if (n == g_n && !g_orders.empty()) return g_orders[(g_loop - 1) % g_orders.size()][k];
  return g_rule ? g_rule(k, n) : k;
}
extern "C" __attribute__((noinline)) int mc_order_at(int k, int n) {
  ++g_asked;
  if (k == 0) ++g_loop;
  int r = which(k, n); dep_at(k, r, (char*) __builtin_frame_address(0)); return r;
}
extern "C" void mc_order_end() { dep_end(); }
static void allOrders(int n, const std::function<void(const VI&)>& f) {
  VI p(n); std::iota(p.begin(), p.end(), 0);
  if (g_dep) { f(p); if (n > 1) f(VI(p.rbegin(), p.rend())); return; } // the accesses of the iterations are observed, whatever their order
  do f(p); while (std::next_permutation(p.begin(), p.end()));
}
// orders of n iterations: forwards, backwards, every rotation of both, every stride, every
// single iteration moved to the front or to the end, every pair swapped, blocks of w threads in turns
static std::vector<VI> structured(int n) {
  std::vector<VI> r; VI id(n); std::iota(id.begin(), id.end(), 0); auto add = [&](const VI& v) { r.push_back(v); };
  add(id); VI b(id.rbegin(), id.rend()); add(b); if (g_dep) return r;
  for (int k = 1; k < n; k += n > 60 ? 7 : 1) { VI x(id); std::rotate(x.begin(), x.begin() + k, x.end()); add(x); VI y(b); std::rotate(y.begin(), y.begin() + k, y.end()); add(y);
    VI z; z.push_back(k); for (int i = 0; i < n; ++i) if (i != k) z.push_back(i); add(z); z.clear(); for (int i = 0; i < n; ++i) if (i != k) z.push_back(i); z.push_back(k); add(z); }
  for (int s = 2; s < n && s <= 16; ++s) { VI x, y; for (int o = 0; o < s; ++o) for (int i = o; i < n; i += s) x.push_back(i); add(x); int w = (n + s - 1) / s; for (int i = 0; i < w; ++i) for (int t = 0; t < s; ++t) if (t * w + i < n) y.push_back(t * w + i); add(y); std::reverse(y.begin(), y.end()); add(y); }
  if (n <= 16) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) { VI x(id); std::swap(x[i], x[j]); add(x); }
  return r;
}
#ifdef SOLVER
#include "solver_fortran.h"
#include "upref.h"
static void one(const VS& n, const VD& v, const VD& l, double dt, int steps, const std::vector<VI>& orders) {
  int tot = 1; for (size_t x : n) tot *= (int) x;
  std::unique_ptr<ISolver> s = make_solver(v, l, n); UpRef r(v, l, n);
  g_n = tot; g_orders = orders; g_loop = 0;
  for (int k = 0; k < steps; ++k) { s->advect(1, dt); r.step(dt); hx::stat("transitions"); std::string e = cmp_cells(s->field(), r); hx::stat("states");
    if (!e.empty()) { std::string o; for (auto& x : orders) o += ' ' + hx::str(x); hx::violation("after " + std::to_string(k + 1) + " steps: " + e + " with the iterations in the order" + o.substr(0, 400)); } }
  hx::stat("traces"); hx::stat("orders");
}
int main(int argc, char** argv) {
  hx::init(argc, argv); int T = hx::g_thorough;
  const double L[3] = {1, 2, 0.5}, V[3] = {1, 0.75, 0.4};
  auto config = [&](const VS& n, const std::vector<int>& sg, int full, int steps) {
    if (!hx::take()) return;
    int nd = (int) n.size(), tot = 1; VD v(nd), l(L, L + nd); double c = 0; for (int j = 0; j < nd; ++j) { v[j] = sg[j] * V[j]; c += V[j] * n[j] / l[j]; tot *= (int) n[j]; }
    hx::progress("cells=" + hx::str(n) + " velocity=" + hx::str(v)); double dt = 0.9 / c; long a0 = g_asked;
    if (tot <= full) { allOrders(tot, [&](const VI& p) { VI q(p.rbegin(), p.rend()); one(n, v, l, dt, steps, {p}); one(n, v, l, dt, steps, {p, q}); });
      if (tot <= 4) allOrders(tot, [&](const VI& p) { allOrders(tot, [&](const VI& q) { one(n, v, l, dt, steps, {p, q}); }); }); }
    else { auto o = structured(tot); for (size_t k = 0; k < o.size(); ++k) { one(n, v, l, dt, steps, {o[k]}); one(n, v, l, dt, steps, {o[k], o[(k + 1) % o.size()]}); } }
    hx::stat("iterations", g_asked - a0); hx::sample(hx::g_cur);
  };
  int full = 7 + T;
  for (int nd = 1; nd <= 3; ++nd) hx::tuples<size_t>(nd, 1, nd == 1 ? 9 : nd == 2 ? 4 : 3, [&](const VS& n) { size_t t = 1; for (size_t x : n) t *= x; hx::tuples<int>(nd, 0, 1, [&](const std::vector<int>& s) { std::vector<int> sg; for (int x : s) sg.push_back(x ? -1 : 1); if ((int) t == full && nd == 3 && !T && s[0]) return; config(n, sg, full, 2 + ((int) t < full)); }); });
  for (auto& n : std::vector<VS>{{40, 1, 1}, {1, 40, 1}, {1, 1, 40}, {4, 5, 6}, {7, 6, 5}, {64}, {12, 12}}) config(n, n.size() == 3 ? VI{1, -1, 1} : VI(n.size(), 1), full, 2);
  return hx::done();
}
#else
extern "C" { void mcm_init(int, int, int, int, double*, double*); void mcm_mul(int, int, int, int, int, const double*, const double*, double*); }
int main(int argc, char** argv) {
  hx::init(argc, argv); int T = hx::g_thorough;
  auto mult = [&](int n, int m, int l, const std::vector<VI>& orders, int on) {
    VD a((n + 2) * (m + 2)), b((m + 2) * (l + 2)), c((n + 2) * (l + 2)); auto at = [](VD& x, int ld, int i, int j) -> double& { return x[(i + 1) + (size_t) (j + 1) * (ld + 2)]; };
    auto fa = [&](int i, int j) { return (double) (1 + i * 3 + j * 7 % 11); }; auto fb = [&](int i, int j) { return (double) (i * 5 - j * 4 + 2); };
    for (int which = 0; which < 2; ++which) {
      for (double& x : c) x = std::nan(""); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) at(a, n, i, j) = fa(i, j); for (int i = 0; i < m; ++i) for (int j = 0; j < l; ++j) at(b, m, i, j) = fb(i, j);
      g_n = on; g_orders = orders; g_loop = 0; mcm_mul(which, n, m, l, 1, a.data(), b.data(), c.data()); hx::stat("transitions"); hx::stat("states"); hx::stat("traces"); hx::stat("orders");
      for (int i = 0; i < n; ++i) for (int k = 0; k < l; ++k) { double w = 0; for (int j = 0; j < m; ++j) w += fa(i, j) * fb(j, k); if (!(at(c, n, i, k) == w)) hx::violation("matmult" + std::to_string(which) + ": element (" + std::to_string(i + 1) + "," + std::to_string(k + 1) + ") is " + std::to_string(at(c, n, i, k)) + " instead of " + std::to_string(w) + " with the iterations in the order " + hx::str(orders[0])); }
    }
  };
  int full = 6 + T;
  hx::tuples<int>(3, 1, 5, [&](const std::vector<int>& d) { if (!hx::take()) return; hx::progress("n,m,l=" + hx::str(d)); long a0 = g_asked;
    std::vector<int> sizes = {d[0], d[1], d[2], d[0] * d[2], d[0] * d[1], d[1] * d[2]}; std::sort(sizes.begin(), sizes.end()); sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
    for (int on : sizes) { if (on <= full) allOrders(on, [&](const VI& p) { mult(d[0], d[1], d[2], {p}, on); if (on <= 3) allOrders(on, [&](const VI& q) { mult(d[0], d[1], d[2], {p, q}, on); }); }); else for (auto& p : structured(on)) mult(d[0], d[1], d[2], {p}, on); }
    hx::stat("iterations", g_asked - a0); hx::sample(hx::g_cur); });
  for (auto& d : std::vector<VI>{{40, 3, 50}, {3, 70, 65}, {8, 8, 8}}) { if (!hx::take()) continue; hx::progress("n,m,l=" + hx::str(d)); for (auto& p : structured(d[2])) mult(d[0], d[1], d[2], {p}, d[2]); for (auto& p : structured(d[0])) mult(d[0], d[1], d[2], {p}, d[0]); }
  return hx::done();
}
#endif
