#pragma once
#include "solver_if.h"
#include "hx.h"
extern "C" {
void* mcf_new(int, const double*, const double*, const int*);
void mcf_advect(void*, double); int mcf_size(void*); void mcf_field(void*, double*);
void mcf_save(void*, const char*, int); void mcf_del(void*);
}
struct FImpl : ISolver {
  void* h;
  ~FImpl() override { mcf_del(h); }
  void advect(int n, double dt) override { for (int i = 0; i < n; ++i) mcf_advect(h, dt); }
  std::vector<double> field() override { std::vector<double> r(mcf_size(h)); mcf_field(h, r.data()); return r; }
  void saveVTK(const std::string& f) override { mcf_save(h, f.c_str(), (int) f.size()); }
};
std::unique_ptr<ISolver> make_solver(const std::vector<double>& v, const std::vector<double>& l, const std::vector<size_t>& n) {
  auto p = new FImpl; std::unique_ptr<ISolver> r(p);
  std::vector<int> m(n.begin(), n.end());
  p->h = mcf_new((int) v.size(), v.data(), l.data(), m.data());
  return r;
}
int solver_min_dims() { return 1; }
