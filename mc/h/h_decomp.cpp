// C07, C08, C09: bounded-exhaustive exploration of CubeDecomp against a
// brute-force oracle.  mode = tile | optimal | neighbor
#include "hx.h"
#include "CubeDecomp.h"
typedef std::vector<size_t> VS;
struct Model { bool ok; double cost; VS any; };
static double cost_of(const VS& dims, const VS& d) {
  double vol = 1; for (size_t i = 0; i < dims.size(); ++i) vol *= dims[i] / d[i];
  double s = 0; for (size_t i = 0; i < dims.size(); ++i) s += vol / (dims[i] / d[i]);
  return s / vol;
}
static void rec(const VS& dims, size_t i, size_t rest, VS& cur, Model& m) {
  if (i == dims.size()) {
    if (rest != 1) return;
    double c = cost_of(dims, cur);
    if (!m.ok || c < m.cost) { m.ok = true; m.cost = c; m.any = cur; }
    return;
  }
  for (size_t k = 1; k <= rest && k <= dims[i]; ++k)
    if (rest % k == 0 && dims[i] % k == 0) { cur[i] = k; rec(dims, i + 1, rest / k, cur, m); }
}
static Model model(int np, const VS& dims) { Model m{false, 0, {}}; VS cur(dims.size(), 1); rec(dims, 0, np, cur, m); return m; }
static VS rankInds(const VS& dec, size_t r) { VS v(dec.size()); for (int i = (int) dec.size() - 1; i >= 0; --i) { v[i] = r % dec[i]; r /= dec[i]; } return v; }
static std::string mode;

static void check(CubeDecomp& d, bool rep, int np, const VS& dims) {
  size_t nd = dims.size();
  VS dec = d.getDecomp();
  if (mode == "optimal") {
    Model m = model(np, dims);
    if (rep != m.ok) hx::violation(m.ok ? "decomposition " + hx::str(m.any) + " exists but none was found" : "decomposition " + hx::str(dec) + " reported although none exists");
    if (rep != (dec.size() != 0)) hx::violation("build returned " + std::to_string(rep) + " but getDecomp is " + hx::str(dec));
    if (rep) {
      size_t prod = 1; for (size_t x : dec) prod *= x;
      if (dec.size() != nd || prod != (size_t) np) hx::violation("decomposition " + hx::str(dec));
      for (size_t i = 0; i < nd; ++i) if (dec[i] == 0 || dims[i] % dec[i]) hx::violation("decomposition " + hx::str(dec) + " does not divide the grid");
      double c = cost_of(dims, dec);
      if (c > m.cost * (1 + 1e-9)) hx::violation("decomposition " + hx::str(dec) + " has surface/volume " + std::to_string(c) + " but " + hx::str(m.any) + " has " + std::to_string(m.cost));
      hx::stat("feasible");
    } else hx::stat("infeasible");
    return;
  }
  if (!rep) { hx::stat("infeasible"); return; }
  hx::stat("feasible");
  size_t prod = 1; for (size_t x : dec) prod *= x;
  if (dec.size() != nd || prod != (size_t) np) hx::violation("decomposition " + hx::str(dec) + " does not have one sub-domain per process");
  VS loc(nd); for (size_t i = 0; i < nd; ++i) { if (dec[i] == 0 || dims[i] % dec[i]) hx::violation("decomposition " + hx::str(dec) + " does not divide the grid"); loc[i] = dims[i] / dec[i]; }
  if (mode == "tile") {
    double vol = 1; for (size_t x : dims) vol *= x;
    std::vector<int> owner;
    if (vol < 1e5) owner.assign((size_t) vol, -1);
    // every rank, asked in every order of (begin, end) and with another rank asked in between
    for (int r = 0; r < np; ++r) {
      VS ri = rankInds(dec, r);
      for (int s = 0; s < np; s += (np > 12 ? np / 4 : 1)) {
        VS b = d.getBegIndices(r); (void) d.getEndIndices(s); VS e = d.getEndIndices(r); (void) d.getBegIndices(s); VS b2 = d.getBegIndices(r);
        (void) d.getNeighborRank(s, std::vector<int>(nd, 1)); VS e2 = d.getEndIndices(r);
        hx::stat("transitions", 7);
        if (b != b2 || e != e2) hx::violation("answers for rank " + std::to_string(r) + " change after asking about rank " + std::to_string(s));
        for (size_t i = 0; i < nd; ++i) if (b[i] != ri[i] * loc[i] || e[i] != (ri[i] + 1) * loc[i])
          hx::violation("rank " + std::to_string(r) + " has box " + hx::str(b) + "-" + hx::str(e) + " in decomposition " + hx::str(dec));
      }
      hx::stat("states");
      if (owner.size()) {
        VS b = d.getBegIndices(r), e = d.getEndIndices(r), x(b);
        for (;;) {
          size_t k = 0; for (size_t i = 0; i < nd; ++i) { if (x[i] >= dims[i]) hx::violation("rank " + std::to_string(r) + " reaches outside the grid"); k = k * dims[i] + x[i]; }
          if (owner[k] >= 0) hx::violation("cell owned by ranks " + std::to_string(owner[k]) + " and " + std::to_string(r));
          owner[k] = r;
          int i = nd - 1; while (i >= 0 && ++x[i] >= e[i]) { x[i] = b[i]; --i; }
          if (i < 0) break;
        }
      }
    }
    for (int o : owner) if (o < 0) hx::violation("a cell belongs to no process");
  } else {
    long reach = std::stol(hx::opt("reach", "3"));
    const long big[] = {-100, 100, 127, 128, -129, 255, 256, 32768, 65536, -65537, 16777217, -16777219, 1 << 30, -(1 << 30)};
    for (int r = 0; r < np; ++r) {
      VS ri = rankInds(dec, r);
      auto one = [&](const std::vector<int>& dir) {
        int g = d.getNeighborRank(r, dir);
        size_t want = 0;
        for (size_t i = 0; i < nd; ++i) { long n = dec[i]; long x = (((long) ri[i] + dir[i]) % n + n) % n; want = want * n + x; }
        hx::stat("transitions");
        if (g != (int) want) hx::violation("neighbour of rank " + std::to_string(r) + " in direction " + hx::str(dir) + " is " + std::to_string(g) + " instead of " + std::to_string(want) + " (decomposition " + hx::str(dec) + ")");
        std::vector<int> back(dir); for (int& x : back) x = -x;
        if (d.getNeighborRank(g, back) != r) hx::violation("going there and back from rank " + std::to_string(r) + " along " + hx::str(dir) + " does not return");
      };
      hx::tuples<int>(nd, (int) -(nd > 4 ? 1 : reach), (int) (nd > 4 ? 1 : reach), one);
      for (long b : big) for (size_t i = 0; i < nd; ++i) { std::vector<int> dir(nd, 0); dir[i] = (int) b; one(dir); for (size_t j = 0; j < nd; ++j) if (j != i) for (int x : {-1, 2, 1000003, -999}) { std::vector<int> two(dir); two[j] = x; one(two); } }
      for (long b : big) { std::vector<int> dir(nd); for (size_t i = 0; i < nd; ++i) dir[i] = (int) (i % 2 ? -b + (long) i : b - (long) i); one(dir); }
      hx::stat("states");
    }
  }
}
static void config(int np, const VS& dims) {
  if (!hx::take()) return;
  hx::progress("procs=" + std::to_string(np) + " dims=" + hx::str(dims));
  CubeDecomp d;
  bool rep = d.build(np, dims);
  check(d, rep, np, dims);
  if (mode == "optimal") { hx::stat("states"); hx::stat("transitions"); }
  hx::stat("traces");
  // the other constructor, and an object that held another decomposition before
  CubeDecomp e(np, dims);
  if (e.getDecomp() != d.getDecomp()) hx::violation("constructor and build disagree");
  CubeDecomp f; f.build(6, {6, 4, 2}); f.build(5, {3, 3});
  bool rep2 = f.build(np, dims);
  if (rep2 != rep || f.getDecomp() != d.getDecomp()) hx::violation("rebuilding an object gives another decomposition");
  if (rep) for (int r = 0; r < np; r += (np > 8 ? np - 1 : 1)) if (f.getBegIndices(r) != d.getBegIndices(r) || f.getEndIndices(r) != d.getEndIndices(r)) hx::violation("rebuilding an object gives other boxes");
  if (rep) hx::sample("procs=" + std::to_string(np) + " dims=" + hx::str(dims) + " -> " + hx::str(d.getDecomp()));
}
int main(int argc, char** argv) {
  hx::init(argc, argv);
  mode = hx::opt("mode");
  int T = hx::g_thorough;
  int maxnp = mode == "neighbor" ? 12 + 12 * T : 24 + 40 * T;
  int m1 = 40 + 60 * T, m2 = mode == "neighbor" ? 8 + 4 * T : 12 + 12 * T, m3 = (mode == "neighbor" ? 4 : 6) + 2 * T, m4 = 3;
  for (int np = 1; np <= maxnp; ++np) {
    hx::tuples<size_t>(1, 1, m1, [&](const VS& v) { config(np, v); });
    hx::tuples<size_t>(2, 1, m2, [&](const VS& v) { config(np, v); });
    hx::tuples<size_t>(3, 1, m3, [&](const VS& v) { config(np, v); });
    if (mode != "neighbor" || np <= 8) hx::tuples<size_t>(4, 1, m4, [&](const VS& v) { config(np, v); });
  }
  // more axes
  for (int np = 1; np <= (T ? 24 : 8); ++np) for (int nd = 5; nd <= 6; ++nd) hx::tuples<size_t>(nd, 1, 2 + (nd == 5 && np <= 4), [&](const VS& v) { config(np, v); });
  for (const VS& v : std::vector<VS>{{2, 2, 2, 2, 2, 2, 2}, {1, 3, 1, 2, 4, 1, 2, 6}, {4, 2, 6, 1, 1, 3}, {5, 1, 1, 7, 2}, {2, 3, 5, 7, 4}}) for (int np = 1; np <= 36; ++np) config(np, v);
  // realistic sizes
  VS big = {16, 30, 32, 48, 60, 97, 100, 120, 128};
  int nps[] = {2, 3, 4, 6, 8, 12, 16, 24, 32, 36, 48, 60, 64, 96, 128};
  for (int np : nps) {
    if (mode == "neighbor" && np > 36) { config(np, {(size_t) np}); config(np, {60, 96}); config(np, {128, 128}); config(np, {24, 16, 60}); continue; }
    for (size_t a : big) { config(np, {a}); for (size_t b : big) { config(np, {a, b}); if (np <= 64) for (size_t c : {a, (size_t) 10, (size_t) 64}) config(np, {a, b, c}); } }
  }
  // many processes
  if (mode != "neighbor" || T) for (int np : {125, 127, 144, 200, 256, 257, 300, 512, 1000}) for (const VS& v : std::vector<VS>{{(size_t) np}, {100, 100}, {96, 1024}, {128, 127, 4}, {20, 30, 50}, {64, 64, 64}, {257, 3}}) config(np, v);
  // products of the processor grid beyond 32 bits
  if (mode != "neighbor") { config(9, {48145, 89209}); config(11, {69, 62245903}); config(1, {641, 6700417}); config(4, {65536, 65536}); config(8, {65536, 65536, 65536}); }
  // very large grids, candidates that differ little
  if (mode != "neighbor") for (int np : {2, 3, 4, 6}) { for (size_t n : {1000000, 1048576, 15000000, 15000004}) for (size_t e : {0, 2, 6, 12}) { config(np, {n, n + e}); config(np, {n + e, n}); } config(np, {1048576, 1048570, 1048588}); }
  return hx::done();
}
