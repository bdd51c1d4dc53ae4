// A case for the distributed filter and what a rank reports.
#pragma once
#include <string>
#include <vector>
#include <map>
struct FCase {
  std::vector<size_t> dims; std::vector<double> xmin, xmax;
  std::vector<std::pair<std::vector<int>, double>> stencil;
  std::string ops; int np = 1; bool exact = true; std::string file;
};
struct FRec { char op; double value = 0; std::vector<std::pair<std::vector<long>, double>> cells; std::vector<double> pos; };
struct FOut { int id = 0; std::string ops; bool valid = false, ran = false; int rank = -1, size = -1; std::vector<FRec> log; };
// input functions (exact in floating point for the domains used)
inline double fpos1(const std::vector<double>& p) { double r = 0, w = 4; for (double x : p) { r += w * x; w *= 100; } return r; }
inline double fpos2(const std::vector<double>& p) { double r = 7, w = 1; for (double x : p) { r += 2 * x * 2 * x * w; w += 3; } return r; }
inline double gind1(const std::vector<size_t>& n) { double r = 1, w = 1; for (size_t x : n) { r += w * x; w *= 100; } return r; }
inline double gind2(const std::vector<size_t>& n) { long r = 3, w = 31; for (size_t x : n) { r += w * (long) x; w -= 7; } return (double) (r % 11 - 5); }
