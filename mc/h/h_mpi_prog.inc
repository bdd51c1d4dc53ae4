    // included in main(): the MPI programs from their command lines
    std::string prog = hx::opt("prog"), purpose = hx::opt("purpose"); bool res_ = purpose == "res", time_ = purpose == "time";
    int mask = res_ ? (STUCK | RESOURCE | USAGE | RESULT) : (STUCK | RESULT);
    auto cube = [](size_t n, int d) { return VS(d, n); };
    auto numbers = [](const std::string& s, const std::string& key) { std::vector<std::vector<double>> r; size_t p = 0; while ((p = s.find(key, p)) != std::string::npos) { p += key.size(); std::string l = s.substr(p, s.find('\n', p) - p); std::vector<double> v; const char* q = l.c_str(); while (*q) { char* e; if ((*q >= '0' && *q <= '9') || *q == '-' || *q == '.' || !strncmp(q, "nan", 3) || !strncmp(q, "inf", 3)) { double x = strtod(q, &e); if (e == q) { ++q; continue; } v.push_back(x); q = e; } else ++q; } r.push_back(v); } return r; };
    bool timed = true;
    auto runProg = [&](int np, const std::vector<std::string>& args, int dev, const std::vector<Mode>& modes, const std::function<std::string(int)>& check, const char* file) {
      if (time_ && !timed) return; if (!hx::take()) return;
      std::string a; for (auto& s : args) a += " " + s;
      hx::progress(std::to_string(np) + " procs:" + a); hx::stat("states");
      for (int r = 0; r < np; ++r) code.get(r, "mc_rank_main");
      Result res; explore(res, modes, dev, g_cap, mask, 30, [&](Shared* sh, Mode m) {
        if (m.reversed) staleFile(file); else unlink(file);
        run(sh, np, m, dev > 0, [&](int r) { std::vector<std::string> s(1, prog); s.insert(s.end(), args.begin(), args.end()); std::vector<char*> av; for (auto& x : s) av.push_back(&x[0]); av.push_back(nullptr); return ((PMain) code.get(r, "mc_rank_main"))((int) s.size(), av.data()); });
        for (int r = 0; r < np; ++r) { if (r == 0) { std::string o = out(0); observe(o.data(), o.size()); } std::string e = err(r); observe(e.data(), e.size()); }
        std::string e = check(np); if (!e.empty()) fault(RESULT, e);
        unlink(file);
      });
      report(res, !res_);
    };
    // the times reported are those the processes measured, around all transfers
    auto times = [&](int np) -> std::string {
      auto a = numbers(out(0), "min/max/avg:"); if (a.size() != 1 || a[0].size() != 3) return "times not reported";
      bool any = false; for (int r = 0; r < np; ++r) any = any || !timing(r).t.empty();
      if (!any) return ""; // measured with another clock: nothing to compare with
      double lo[2] = {1e300, 1e300}, hi[2] = {-1, -1}, av[2] = {0, 0};
      for (int r = 0; r < np; ++r) {
        const Timing& t = timing(r); if (t.t.size() < 2) return "rank " + std::to_string(r) + " asks for the time " + std::to_string(t.t.size()) + " times";
        if (t.before[0] > 0) return "rank " + std::to_string(r) + " starts its clock after " + std::to_string(t.before[0]) + " transfers"; if (t.before.back() < t.transfers) return "rank " + std::to_string(r) + " stops its clock before " + std::to_string(t.transfers - t.before.back()) + " of its transfers";
        double w[2] = {t.t.back() - t.t[0], 0}; for (size_t i = 1; i < t.t.size(); i += 2) w[1] += t.t[i] - t.t[i - 1]; // as a whole, or in pieces
        for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], w[k]); hi[k] = std::max(hi[k], w[k]); av[k] += w[k] / np; } }
      for (int k = 0; k < 2; ++k) { double w[3] = {lo[k], hi[k], av[k]}; bool ok = true; for (int i = 0; i < 3; ++i) ok = ok && std::fabs(a[0][i] - w[i]) <= 1e-5 * w[i]; if (ok) return ""; }
      return "times reported: " + hx::str(a[0]) + " instead of " + hx::str(std::vector<double>{lo[0], hi[0], av[0]}); };
    auto statusOk = [&](int np) -> std::string { for (int r = 0; r < np; ++r) if (status(r) != 0) return "rank " + std::to_string(r) + " ends with status " + std::to_string(status(r)); return ""; };
    // the root alone prints to standard output: how many processes, which grid and processor grid, once
    auto onlyRoot = [&](int np, size_t n, int nd) -> std::string {
      for (int r = 1; r < np; ++r) if (!out(r).empty()) return "rank " + std::to_string(r) + " prints: " + out(r).substr(0, 100);
      auto a = numbers(out(0), "Number of procs:"), b = numbers(out(0), "global dimensions:"), c = numbers(out(0), "Domain decomp");
      if (a != std::vector<std::vector<double>>{{(double) np}}) return "number of processes not reported";
      if (b != std::vector<std::vector<double>>{std::vector<double>(nd, (double) n)}) return "grid not reported";
std::vector<VS> all; VS cur; procGrids(np, VS(nd, n), 0, cur, all); if (c.size() == 1 && std::count(all.begin(), all.end(), VS(c[0].begin(), c[0].end()))) return "";
      return "processor grid reported: " + (c.empty() ? std::string("none") : hx::str(c[0])); };
    const char* file = prog == "laplacian" ? "laplacian.vtk" : prog == "testStencil2d" ? "stencil2d.vtk" : "upMpi.vtk";
    // field: indexed with the first axis fastest
    auto checkVtk = [&](bool want, int nd, size_t n, const std::vector<double>& f, double rel, double abs_) -> std::string {
      bool have = written(file); if (!want) return have ? "a file is written though not asked for" : ""; if (!have) return "no file";
      VtkFile v; if (!v.read(file)) return "file: " + v.err; if (v.ncell != f.size()) return "file: " + std::to_string(v.ncell) + " cells"; for (int k = 0; k < nd; ++k) if (v.dims[k] != n + 1) return "file: wrong dimensions";
      for (size_t i = 0; i < f.size(); ++i) if (!(std::fabs(v.val[i] - f[i]) <= rel * std::fabs(f[i]) + abs_)) { char b[200]; snprintf(b, sizeof b, "file: value %zu is %g instead of %g", i, v.val[i], f[i]); return b; }
      return ""; };
    auto none = [&](int np) -> std::string { // nothing computed, nothing written
      std::string all; for (int r = 0; r < np; ++r) all += out(r) + "\n" + err(r) + "\n"; if (all.find("heck sum") != std::string::npos || all.find("outData =") != std::string::npos) return "something is computed"; if (written(file)) return "a file is written"; return ""; };
    auto invalid = [&](int np) -> std::string { if (time_) return ""; std::string e = none(np); if (!e.empty()) return e; if (err(0).find("ecomposition") == std::string::npos && out(0).find("ecomposition") == std::string::npos) return "the missing decomposition is not reported"; return statusOk(np); };
    auto usage = [&](int np) -> std::string { std::string e = none(np); if (!e.empty()) return e; if (out(0).find("-numCells") == std::string::npos && err(0).find("-numCells") == std::string::npos) return "no usage printed"; return ""; };
    auto S = [](long x) { return std::to_string(x); };
    typedef std::vector<std::string> VSt;
    int maxN = T ? 8 : 6, maxP = T ? 12 : 8;
    if (prog == "upwindMpi") {
      auto field = [&](size_t n, int steps) { std::vector<double> f(n * n * n, 0.0); f[0] = 1; for (int s = 0; s < steps; ++s) { std::vector<double> o(f); size_t i = 0; for (size_t z = 0; z < n; ++z) for (size_t y = 0; y < n; ++y) for (size_t x = 0; x < n; ++x, ++i) { auto at = [&](size_t a, size_t b, size_t c) { return o[(c * n + b) * n + a]; }; f[i] += 0.1 * (at((x + n - 1) % n, y, z) - o[i]) + 0.1 * (at(x, (y + n - 1) % n, z) - o[i]) + 0.1 * (at(x, y, (z + n - 1) % n) - o[i]); } } return f; };
      auto valid = [&](int N, int M, bool vtk) { return [=, &out1 = onlyRoot, &times](int np) -> std::string {
        std::string e = statusOk(np); if (!e.empty() || res_) return e; if (time_) return times(np); e = out1(np, N, 3); if (!e.empty()) return e;
        auto c = numbers(out(0), "Check sum:"); if (c.size() != 1 || c[0].size() != 1 || std::fabs(c[0][0] - 1) > 2e-5) return "check sum reported: " + (c.empty() ? std::string("none") : hx::str(c[0]));
        auto it = numbers(out(0), "check sum  in/out ="); if (it.size() != 0 && (int) it.size() != M) return S(it.size()) + " iterations reported instead of " + S(M); for (auto& l : it) if (l.size() != 2 || std::fabs(l[0] - 1) > 2e-5 || std::fabs(l[1] - 1) > 2e-5) return "check sums reported: " + hx::str(l);
        return checkVtk(vtk, 3, N, field(N, M), 2e-5, 1e-14); }; };
      for (int N = 1; N <= maxN; ++N) for (int p = 1; p <= maxP; ++p) {
        bool ok = !bestGrids(p, cube(N, 3)).empty();
        if (ok) for (int M : (T ? std::vector<int>{1, 2, 3, 5, 10} : std::vector<int>{1, 3})) { runProg(p, {"-numCells", S(N), "-numSteps", S(M), "-vtk"}, 0, TWO, valid(N, M, true), file); if (M == 1) runProg(p, {"-numSteps", "2", "-numCells", S(N)}, 0, TWO, valid(N, 2, false), file); }
        else { runProg(p, {"-numCells", S(N), "-numSteps", "2"}, 0, TWO, invalid, file); runProg(p, {"-vtk", "-numCells", S(N), "-numSteps", "2"}, 0, TWO, invalid, file); }
      }
      for (auto& m : FOUR) { runProg(2, {"-numCells", "2", "-numSteps", "2", "-vtk"}, T ? 2 : 1, {m}, valid(2, 2, true), file); runProg(3, {"-numCells", "3", "-numSteps", "1", "-vtk"}, T ? 2 : 1, {m}, valid(3, 1, true), file); runProg(4, {"-numCells", "4", "-numSteps", "1", "-vtk"}, T ? 2 : 1, {m}, valid(4, 1, true), file); runProg(2, {"-numCells", "3", "-numSteps", "1", "-vtk"}, 2, {m}, invalid, file); }
      for (int p : {1, 2, 3, 4, 8}) { runProg(p, {"-numCells", "12", "-numSteps", "13", "-vtk"}, 0, TWO, valid(12, 13, true), file); runProg(p, {"-numCells", "24"}, 0, TWO, valid(24, 10, false), file); }
      for (int p : {1, 2, 8}) runProg(p, {"-numCells", "2", "-numSteps", "300", "-vtk"}, 0, {TWO[p % 2]}, valid(2, 300, true), file);
      runProg(1, {"-numCells", "1", "-numSteps", "70000"}, 0, {TWO[0]}, valid(1, 70000, false), file);
    } else if (prog == "laplacian") {
      auto field = [&](size_t n, int nd) { size_t tot = 1; for (int k = 0; k < nd; ++k) tot *= n; std::vector<double> f(tot, 1.0); for (size_t i = 0; i < tot; ++i) { size_t j = i; for (int k = 0; k < nd; ++k) { f[i] *= std::sin(2.0 * M_PI * ((j % n + 0.5) / n)); j /= n; } }
        for (int s = 0; s < 10; ++s) { std::vector<double> o(f); for (size_t i = 0; i < tot; ++i) { double q = -2.0 * nd * o[i]; size_t st = 1; for (int k = 0; k < nd; ++k) { size_t x = i / st % n; q += o[i - x * st + (x + 1) % n * st] + o[i - x * st + (x + n - 1) % n * st]; st *= n; } f[i] = q; } } return f; };
      auto valid = [&](int N, int nd, bool vtk) { return [=, &out1 = onlyRoot, &times](int np) -> std::string {
        std::string e = statusOk(np); if (!e.empty() || res_) return e; if (time_) return times(np); e = out1(np, N, nd); if (!e.empty()) return e;
        std::vector<double> f = field(N, nd); double sc = 0; for (double x : f) sc += std::fabs(x); double noise = 1e-13 * std::pow(4.0 * nd, 10), want = sum(f);
        auto a = numbers(out(0), "input ="); auto b = numbers(out(0), "output =");
        if (a.size() != 1 || b.size() != 1 || a[0].size() < 1 || b[0].size() < 1) return "check sums not reported once";
        for (double x : {a[0][0], b[0][0]}) if (!(std::fabs(x - want) <= 1e-9 * sc + noise)) { char s[100]; snprintf(s, sizeof s, "check sum %g reported instead of %g", x, want); return s; }
        if (vtk && nd > 3) return written(file) ? "file written" : "";
        return checkVtk(vtk, nd, N, f, 2e-5, noise + 1e-12 * sc); }; };
      for (int nd = 1; nd <= 3; ++nd) for (int N = 1; N <= (nd == 1 ? 12 : nd == 2 ? maxN + 2 : maxN - 1); ++N) for (int p = 1; p <= maxP; ++p) {
        bool ok = !bestGrids(p, cube(N, nd)).empty();
        if (ok) { runProg(p, {"-numCells", S(N), "-numDims", S(nd), "-vtk"}, 0, TWO, valid(N, nd, true), file); if (T || (N + p) % 2) runProg(p, {"-numDims", S(nd), "-numCells", S(N)}, 0, TWO, valid(N, nd, false), file); }
        else { runProg(p, {"-numCells", S(N), "-numDims", S(nd), "-vtk"}, 0, TWO, invalid, file); }
      }
      for (auto& m : FOUR) { runProg(2, {"-numCells", "4", "-numDims", "1", "-vtk"}, 1, {m}, valid(4, 1, true), file); runProg(4, {"-numCells", "4", "-vtk"}, 1, {m}, valid(4, 2, true), file); runProg(2, {"-numCells", "3", "-numDims", "3"}, 2, {m}, invalid, file); }
      for (int p : {1, 3, 5}) { runProg(p, {"-numCells", "300", "-numDims", "1", "-vtk"}, 0, TWO, valid(300, 1, true), file); runProg(p, {"-numCells", "60", "-vtk"}, 0, TWO, valid(60, 2, true), file); }
      for (int p : {1, 2, 4, 8}) { runProg(p, {"-numCells", "16", "-vtk"}, 0, TWO, valid(16, 2, true), file); runProg(p, {"-numCells", "3", "-numDims", "4", "-vtk"}, 0, TWO, 3 % p ? std::function<std::string(int)>(invalid) : valid(3, 4, true), file); runProg(p, {"-numCells", "2", "-numDims", "4", "-vtk"}, 0, TWO, valid(2, 4, true), file); }
    } else {
      auto valid = [&](int N, bool vtk) { return [=, &out1 = onlyRoot, &times](int np) -> std::string {
        std::string e = statusOk(np); if (!e.empty() || res_) return e; if (time_) return times(np); e = out1(np, N, 2); if (!e.empty()) return e;
        size_t n = N; std::vector<double> f(n * n); auto in = [](size_t x, size_t y) { return x * y == 0 ? 1.0 : 0.0; };
        for (size_t y = 0; y < n; ++y) for (size_t x = 0; x < n; ++x) f[y * n + x] = in((x + 1) % n, y) - in(x, (y + n - 1) % n);
        std::vector<int> seen(n * n, 0);
        for (int r = 0; r < np; ++r) { std::string s = err(r); size_t p = 0; while ((p = s.find("inds =", p)) != std::string::npos) { long x = -1, y = -1; double v = 0; if (sscanf(s.c_str() + p, "inds = %ld %ld outData = %lf", &x, &y, &v) == 3) { if (x < 0 || y < 0 || x >= N || y >= N) return "cell (" + S(x) + "," + S(y) + ") printed"; if (seen[y * n + x]++) return "cell (" + S(x) + "," + S(y) + ") printed twice"; if (v != f[y * n + x]) return "cell (" + S(x) + "," + S(y) + ") is " + std::to_string(v) + " instead of " + std::to_string(f[y * n + x]); } p += 6; } }
        for (size_t i = 0; i < n * n; ++i) if (!seen[i]) return "cell (" + S(i % n) + "," + S(i / n) + ") not printed";
        return checkVtk(vtk, 2, n, f, 2e-5, 1e-14); }; };
      for (int N = 1; N <= maxN + 4; ++N) for (int p = 1; p <= maxP; ++p) {
        bool ok = !bestGrids(p, cube(N, 2)).empty();
        if (ok) { runProg(p, {"-numCells", S(N), "-vtk"}, 0, TWO, valid(N, true), file); runProg(p, {"-numCells", S(N)}, 0, TWO, valid(N, false), file); }
        else runProg(p, {"-vtk", "-numCells", S(N)}, 0, TWO, invalid, file);
      }
      for (auto& m : FOUR) { runProg(2, {"-numCells", "2"}, 2, {m}, valid(2, false), file); runProg(4, {"-numCells", "4", "-vtk"}, T ? 2 : 1, {m}, valid(4, true), file); runProg(3, {"-numCells", "3"}, T ? 3 : 2, {m}, valid(3, false), file); runProg(2, {"-numCells", "3", "-vtk"}, 2, {m}, invalid, file); }
      runProg(16, {"-numCells", "16"}, 0, TWO, valid(16, false), file); runProg(4, VSt{}, 0, TWO, valid(8, false), file);
    }
    timed = false;
    for (int p : {1, 2, 3, 4}) for (auto& a : std::vector<VSt>{{"-h"}, {"-nope"}, {"-numCells", "4", "-h"}, {"-numcells", "4"}, {"-vtk", "-nope", "3"}, {"--vtk"}, {"-h", "-nope"}}) { if (a == VSt{"-numCells", "4", "-h"} && false) continue; runProg(p, a, p == 2 ? 2 : 0, FOUR, usage, file); }
