// Adapter for the C++ solvers: includes the program's own source (SRC) with main renamed.
#pragma once
#define main repo_main
#include SRC
#undef main
#include "solver_if.h"
#include "hx.h"
#include <type_traits>
namespace ad {
template <size_t N> Upwind<N>* mk(const std::vector<double>& v, const std::vector<double>& l, const std::vector<size_t>& n, std::true_type) { return new Upwind<N>(v, l, n); }
template <size_t N> Upwind<N>* mk(const std::vector<double>& v, const std::vector<double>& l, const std::vector<size_t>& n, std::false_type) { std::vector<int> m(n.begin(), n.end()); return new Upwind<N>(v, l, m); }
template <class U> auto adv(U& u, int n, double dt, int) -> decltype(u.advect(n, dt), void()) { u.advect(n, dt); }
template <class U> void adv(U& u, int n, double dt, long) { for (int i = 0; i < n; ++i) u.advect(dt); }
template <class U> auto hs(U& u, int) -> decltype(u.std(), bool()) { return true; }
template <class U> bool hs(U&, long) { return false; }
template <class U> auto sd(U& u, int) -> decltype(u.std()) { return u.std(); }
template <class U> double sd(U&, long) { return 0; }
template <size_t N> struct Impl : ISolver {
  std::unique_ptr<Upwind<N>> u;
  void advect(int n, double dt) override { adv(*u, n, dt, 0); }
  std::vector<double> field() override {
    std::string s; { hx::Capture c; u->print(); s = c.str(); }
    std::vector<double> r; const char* p = s.c_str(); char* e;
    for (;;) { long i = strtol(p, &e, 10); if (e == p) break; p = e; double x = strtod(p, &e); if (e == p) hx::violation("print: no value for cell " + std::to_string(i)); p = e; if (i != (long) r.size()) hx::violation("print: cell " + std::to_string(i) + " follows cell " + std::to_string((long) r.size() - 1)); r.push_back(x); }
    return r;
  }
  bool has_checksum() override { return true; }
  double checksum() override { return u->checksum(); }
  bool has_std() override { return hs(*u, 0); }
  double std_() override { return sd(*u, 0); }
  void saveVTK(const std::string& f) override { std::streamsize p = std::cout.precision(); u->saveVTK(f); std::cout.precision(p); }
};
template <size_t N> std::unique_ptr<ISolver> make(const std::vector<double>& v, const std::vector<double>& l, const std::vector<size_t>& n) {
  auto p = new Impl<N>; std::unique_ptr<ISolver> r(p);
  p->u.reset(mk<N>(v, l, n, std::is_constructible<Upwind<N>, const std::vector<double>&, const std::vector<double>&, const std::vector<size_t>&>()));
  return r;
}
}
std::unique_ptr<ISolver> make_solver(const std::vector<double>& v, const std::vector<double>& l, const std::vector<size_t>& n) {
#ifndef ONLY3D
  if (v.size() == 1) return ad::make<1>(v, l, n);
  if (v.size() == 2) return ad::make<2>(v, l, n);
#endif
  return ad::make<3>(v, l, n);
}
#ifdef ONLY3D
int solver_min_dims() { return 3; }
#else
int solver_min_dims() { return 1; }
#endif
