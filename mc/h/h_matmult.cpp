// C20: both products and the initialisation, for every shape up to a bound and
// every contents over a small set of values, against the definition.
#include "hx.h"
extern "C" { void mcm_init(int, int, int, int, double*, double*); void mcm_mul(int, int, int, int, int, const double*, const double*, double*); }
struct W { // matrix embedded in a guarded array, column major
  int n, m, s; std::vector<double> w;
  W(int n_, int m_, int s_, double fill) : n(n_), m(m_), s(s_), w((size_t) (s * n + 2) * (s * m + 2), fill) {}
  size_t at(int i, int j) const { return (size_t) (1 + s * i) + (size_t) (1 + s * j) * (s * n + 2); }
  double& operator()(int i, int j) { return w[at(i, j)]; }
};
static const double G = 12345.678;
static void guard(W& x, const char* nm, const std::vector<double>* before) {
  W mask(x.n, x.m, x.s, 0); for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.m; ++j) mask(i, j) = 1;
  for (size_t k = 0; k < x.w.size(); ++k) if ((before || mask.w[k] == 0) && x.w[k] != (before ? (*before)[k] : G)) hx::violation(std::string("memory of ") + nm + " changed outside the result");
}
static void mult(int n, int m, int l, int s, const std::function<double(int, int)>& fa, const std::function<double(int, int)>& fb) {
  for (int which = 0; which < 2; ++which) {
    W a(n, m, s, G), b(m, l, s, G), c(n, l, s, G);
    for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a(i, j) = fa(i, j);
    for (int i = 0; i < m; ++i) for (int j = 0; j < l; ++j) b(i, j) = fb(i, j);
    for (int i = 0; i < n; ++i) for (int j = 0; j < l; ++j) c(i, j) = std::nan("");
    std::vector<double> a0 = a.w, b0 = b.w;
    mcm_mul(which, n, m, l, s, a.w.data(), b.w.data(), c.w.data());
    hx::stat("transitions"); hx::stat("traces");
    guard(a, "a", &a0); guard(b, "b", &b0); guard(c, "c", nullptr);
    for (int i = 0; i < n; ++i) for (int j = 0; j < l; ++j) {
      double w = 0; for (int k = 0; k < m; ++k) w += fa(i, k) * fb(k, j);
      if (!(c(i, j) == w)) hx::violation("matmult" + std::to_string(which) + ": element (" + std::to_string(i + 1) + "," + std::to_string(j + 1) + ") is " + std::to_string(c(i, j)) + " instead of " + std::to_string(w));
    }
  }
  hx::stat("states");
}
int main(int argc, char** argv) {
  hx::init(argc, argv);
  int T = hx::g_thorough, mx = 6 + 3 * T;
  hx::tuples<int>(3, 0, mx, [&](const std::vector<int>& d) {
    for (int s = 1; s <= 2; ++s) {
      if (!hx::take()) continue;
      int n = d[0], m = d[1], l = d[2];
      hx::progress("n,m,l=" + hx::str(d) + " stride=" + std::to_string(s));
      W a(n, m, s, G), b(m, l, s, G);
      mcm_init(n, m, l, s, a.w.data(), b.w.data());
      guard(a, "a", nullptr); guard(b, "b", nullptr);
      double k = 1;
      for (int j = 0; j < m; ++j) for (int i = 0; i < n; ++i) { if (a(i, j) != k) hx::violation("initmat: left (" + std::to_string(i + 1) + "," + std::to_string(j + 1) + ") is " + std::to_string(a(i, j))); ++k; }
      for (int j = 0; j < l; ++j) for (int i = 0; i < m; ++i) { if (b(i, j) != k) hx::violation("initmat: right (" + std::to_string(i + 1) + "," + std::to_string(j + 1) + ") is " + std::to_string(b(i, j))); ++k; }
      hx::stat("states"); hx::stat("transitions");
      mult(n, m, l, s, [&](int i, int j) { return 1 + i + j * n; }, [&](int i, int j) { return 1 + n * m + i + j * m; });
      mult(n, m, l, s, [&](int i, int j) { return (i * 7 + j * 13) % 11 - 5; }, [&](int i, int j) { return (i * 5 - j * 3) % 7; });
      // every pair of unit matrices: each product of basis elements on its own
      if (s == 1 && n * m * l <= 64) for (int p = 0; p < n * m; ++p) for (int q = 0; q < m * l; ++q)
        mult(n, m, l, s, [&](int i, int j) { return i + j * n == p ? 3 : 0; }, [&](int i, int j) { return i + j * m == q ? -2 : 0; });
      hx::sample(hx::g_cur);
    }
  });
  // every contents over {-1,0,2}
  int sh[][3] = {{1, 1, 1}, {2, 1, 2}, {1, 2, 1}, {2, 2, 1}, {1, 2, 2}, {2, 2, 2}};
  for (auto& d : sh) {
    int n = d[0], m = d[1], l = d[2];
    hx::tuples<int>(n * m, -1, 1, [&](const std::vector<int>& x) {
      if (!hx::take()) return;
      hx::progress("contents " + hx::str(x) + " shape " + std::to_string(n) + "x" + std::to_string(m) + "x" + std::to_string(l));
      hx::tuples<int>(m * l, -1, 1, [&](const std::vector<int>& y) {
        mult(n, m, l, 1, [&](int i, int j) { int v = x[i + j * n]; return v == 1 ? 2 : v; }, [&](int i, int j) { int v = y[i + j * m]; return v == 1 ? 2 : v; }); });
    });
  }
  int big[][3] = {{40, 30, 20}, {1, 200, 1}, {200, 1, 3}, {2, 3, 150}, {33, 65, 17}, {129, 66, 131}, {64, 64, 64}, {3, 1030, 2}};
  for (auto& d : big) { if (!hx::take()) continue; int n = d[0], m = d[1]; hx::progress("large " + std::to_string(n) + "x" + std::to_string(m) + "x" + std::to_string(d[2]));
    mult(n, m, d[2], 1, [&](int i, int j) { return 1 + i + j * n; }, [&](int i, int j) { return i - 3 * j + n * m; }); }
  return hx::done();
}
