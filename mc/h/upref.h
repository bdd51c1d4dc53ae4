// The reference: the first-order upwind scheme, written independently.
#pragma once
#include <vector>
#include <cmath>
#include <algorithm>
#include <string>
struct UpRef {
  std::vector<double> v, l, f, mag; // mag: what has been added up to each cell, a bound for rounding
  std::vector<size_t> n;
  UpRef(const std::vector<double>& v_, const std::vector<double>& l_, const std::vector<size_t>& n_) : v(v_), l(l_), n(n_) {
    size_t t = 1; for (size_t x : n) t *= x;
    f.assign(t, 0.0); f[0] = 1.0; mag = f;
  }
  size_t stride(size_t j) const { size_t s = 1; for (size_t k = j + 1; k < n.size(); ++k) s *= n[k]; return s; }
  void step(double dt) {
    std::vector<double> g(f), q(mag);
    for (size_t i = 0; i < f.size(); ++i)
      for (size_t j = 0; j < n.size(); ++j) {
        size_t s = stride(j), x = i / s % n[j];
        size_t y = v[j] < 0 ? (x + 1) % n[j] : (x + n[j] - 1) % n[j];
        size_t up = i - x * s + y * s;
        double c = std::fabs(v[j]) * dt * n[j] / l[j];
        g[i] += c * (f[up] - f[i]); q[i] += std::fabs(c) * (mag[up] + mag[i]);
      }
    f.swap(g); mag.swap(q);
  }
};
// every cell to rounding: relative to the largest value and to what has been added up to the cell itself
inline std::string cmp_cells(const std::vector<double>& got, const UpRef& r) {
  if (got.size() != r.f.size()) return "field has " + std::to_string(got.size()) + " cells instead of " + std::to_string(r.f.size());
  double scale = 1; for (double w : r.f) scale = std::max(scale, std::fabs(w));
  for (size_t i = 0; i < got.size(); ++i)
    if (!(std::fabs(got[i] - r.f[i]) <= 1e-12 * std::min(scale, r.mag[i]) + 1e-290)) { char b[200]; snprintf(b, sizeof b, "cell %zu is %.15g instead of %.15g", i, got[i], r.f[i]); return b; }
  return "";
}
inline std::string cmp_field(const std::vector<double>& got, const std::vector<double>& want, double tol) {
  if (got.size() != want.size()) return "field has " + std::to_string(got.size()) + " cells instead of " + std::to_string(want.size());
  double scale = 1; for (double w : want) if (std::fabs(w) > scale) scale = std::fabs(w);
  for (size_t i = 0; i < got.size(); ++i)
    if (!(std::fabs(got[i] - want[i]) <= tol * scale)) { char b[200]; snprintf(b, sizeof b, "cell %zu is %.15g instead of %.15g", i, got[i], want[i]); return b; }
  return "";
}
