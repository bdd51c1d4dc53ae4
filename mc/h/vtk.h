// Strict reader for the legacy VTK files the programs write.
#pragma once
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <cmath>
struct VtkFile {
  std::string err, kind, name; size_t dims[3]; std::vector<double> ax[3], pts, val; size_t ncell = 0;
  std::vector<std::string> tok; size_t p = 0;
  bool fail(const std::string& s) { if (err.empty()) err = s; return false; }
  bool word(std::string& s) { if (p >= tok.size()) return fail("file ends early"); s = tok[p++]; return true; }
  bool expect(const char* w) { std::string s; if (!word(s)) return false; if (s != w) return fail(std::string("expected ") + w + " but found '" + s + "'"); return true; }
  bool num(double& x) { std::string s; if (!word(s)) return false; char* e; x = strtod(s.c_str(), &e); if (e == s.c_str() || *e) return fail("'" + s + "' is not a number"); return true; }
  bool count(size_t& x) { std::string s; if (!word(s)) return false; if (s.empty() || s.find_first_not_of("0123456789") != std::string::npos) return fail("'" + s + "' is not a count"); x = strtoul(s.c_str(), 0, 10); return true; }
  bool read(const std::string& fn) {
    std::ifstream f(fn.c_str());
    if (!f) return fail("no file " + fn);
    std::string l;
    std::getline(f, l); if (l.compare(0, 22, "# vtk DataFile Version") != 0) return fail("first line is '" + l + "'");
    std::getline(f, l); if (l.size() > 255) return fail("title too long");
    std::string w; while (f >> w) tok.push_back(w);
    if (!expect("ASCII") || !expect("DATASET")) return false;
    if (!word(kind) || !expect("DIMENSIONS")) return false;
    for (int i = 0; i < 3; ++i) if (!count(dims[i])) return false;
    for (int i = 0; i < 3; ++i) if (dims[i] < 1) return fail("dimension below 1");
    if (kind == "RECTILINEAR_GRID") {
      const char* nm[3] = {"X_COORDINATES", "Y_COORDINATES", "Z_COORDINATES"};
      for (int i = 0; i < 3; ++i) {
        size_t n; std::string t;
        if (!expect(nm[i]) || !count(n) || !word(t)) return false;
        if (t != "double" && t != "float") return fail("coordinate type " + t);
        if (n != dims[i]) return fail(std::string(nm[i]) + " has " + std::to_string(n) + " values but the declared dimension is " + std::to_string(dims[i]));
        ax[i].resize(n); for (double& x : ax[i]) if (!num(x)) return false;
      }
    } else if (kind == "STRUCTURED_GRID") {
      size_t n; std::string t; if (!expect("POINTS") || !count(n) || !word(t)) return false;
      if (n != dims[0] * dims[1] * dims[2]) return fail("POINTS " + std::to_string(n) + " does not match the dimensions");
      pts.resize(3 * n); for (double& x : pts) if (!num(x)) return false;
    } else return fail("dataset " + kind);
    std::string t;
    if (!expect("CELL_DATA") || !count(ncell)) return false;
    size_t want = 1; for (int i = 0; i < 3; ++i) want *= dims[i] > 1 ? dims[i] - 1 : 1;
    if (ncell != want) return fail("CELL_DATA " + std::to_string(ncell) + " but the grid has " + std::to_string(want) + " cells");
    if (!expect("SCALARS") || !word(name) || !word(t)) return false;
    if (t != "double" && t != "float") return fail("value type " + t);
    if (p < tok.size() && tok[p] == "1") ++p;
    if (!expect("LOOKUP_TABLE") || !expect("default")) return false;
    val.resize(ncell); for (double& x : val) if (!num(x)) return false;
    if (p != tok.size()) return fail("'" + tok[p] + "' after the last value");
    return true;
  }
};
// a file of an earlier run that is in the way
inline void staleFile(const std::string& fn) { std::ofstream f(fn.c_str()); for (int i = 0; i < 800; ++i) f << "a line of an older file\n"; }
inline bool written(const std::string& fn) { std::ifstream f(fn.c_str()); if (!f) return false; std::string l; return !(std::getline(f, l) && l == "a line of an older file" && f.seekg(0, std::ios::end) && (long) f.tellg() == 800 * 24); }
inline bool near(double a, double b, double rel) { return a == b || std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)) + 1e-305; }
