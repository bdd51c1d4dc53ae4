// A uniform interface to the upwind solvers, so that every solver is driven by the
// same exploration.
#pragma once
#include <memory>
#include <vector>
#include <string>
struct ISolver {
  virtual ~ISolver() {}
  virtual void advect(int n, double dt) = 0;
  virtual std::vector<double> field() = 0;
  virtual bool has_checksum() { return false; }
  virtual double checksum() { return 0; }
  virtual bool has_std() { return false; }
  virtual double std_() { return 0; }
  virtual void saveVTK(const std::string&) = 0;
};
std::unique_ptr<ISolver> make_solver(const std::vector<double>& v, const std::vector<double>& l, const std::vector<size_t>& n);
int solver_min_dims();
