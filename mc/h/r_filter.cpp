// Runs on every rank: drives the real Filter through a sequence of operations.
#include "Filter.h"
#include "fcase.h"
#include <iostream>
#include <cstdlib>
#include <cstring>
#include <memory>
extern "C" const char* mc_take_err(); // what this rank printed since the last call
static void cells(FRec& r) {
  std::string s = mc_take_err(); const char* p = s.c_str();
  for (;;) {
    const char* q = strstr(p, "inds ="); if (!q) break;
    q += 6; char* e; std::vector<long> ix;
    for (;;) { while (*q == ' ') ++q; if (!((*q >= '0' && *q <= '9') || *q == '-')) break; ix.push_back(strtol(q, &e, 10)); q = e; }
    const char* eq = strchr(q, '='); const char* nl = strchr(q, '\n'); if (!eq || (nl && eq > nl)) break;
    r.cells.push_back({ix, strtod(eq + 1, &e)}); p = e;
  }
}
static void step(Filter& f, char op, const FCase* c, FOut* o) {
  FRec r; r.op = op;
  switch (op) {
    case 'S': f.setInData(fpos1); break;
    case 'T': f.setInData(fpos2); break;
    case 'I': f.setInDataByIndices(gind1); break;
    case 'J': f.setInDataByIndices(gind2); break;
    case 'A': f.applyFilter(); break;
    case 'C': f.copyOutToIn(); break;
    case 'i': r.value = f.computeCheckSum("input"); o->log.push_back(r); break;
    case 'o': r.value = f.computeCheckSum("output"); o->log.push_back(r); break;
    case 'q': { std::vector<size_t> g(c->dims.size()); for (size_t k = 0; k < g.size(); ++k) { g[k] = c->dims[k] - 1 - (k < c->dims[k] ? k : 0); } r.pos = f.getPosition(g); for (double x : f.getPosition(std::vector<size_t>(c->dims.size(), 0))) r.pos.push_back(x); o->log.push_back(r); break; }
    case 'p': mc_take_err(); f.printInData(); cells(r); o->log.push_back(r); break;
    case 'P': mc_take_err(); f.printOutData(); cells(r); o->log.push_back(r); break;
    case 'v': f.saveVTK(c->file); break;
    case '!': break;
  }
}
static Filter* make(const FCase* c) { std::map<std::vector<int>, double> st; for (auto& b : c->stencil) st[b.first] = b.second; return new Filter(c->dims, c->xmin, c->xmax, st); }
static void begin(const Filter& f, FOut* o) { o->valid = f.isDecompValid(); o->ran = true; if (o->valid) { o->rank = f.getRank(); o->size = f.getNumProcs(); } }
extern "C" int mc_filter_main(int, const FCase* c, FOut* o) {
  MPI_Init(nullptr, nullptr);
  std::cerr.precision(17);
  {
    std::unique_ptr<Filter> f(make(c));
    begin(*f, o);
    if (o->valid || c->ops.find('!') != std::string::npos) for (char op : c->ops) step(*f, op, c, o);
  }
  MPI_Finalize();
  return 0;
}
// several fields at a time: '1'-'3' say which one is meant, 'N' makes it (anew), 'D' destroys it; one FOut per life
extern "C" int mc_filter_many(const std::vector<FCase>* c, const std::string* script, std::vector<FOut>* o) {
  MPI_Init(nullptr, nullptr);
  std::cerr.precision(17);
  { std::unique_ptr<Filter> f[3]; size_t life[3]; int k = 0;
    for (char t : *script) switch (t) {
      case '1': case '2': case '3': k = t - '1'; break;
      case 'N': f[k].reset(); f[k].reset(make(&(*c)[k])); life[k] = o->size(); o->emplace_back(); o->back().id = k; begin(*f[k], &o->back()); break;
      case 'D': f[k].reset(); break;
      default: (*o)[life[k]].ops += t; if ((*o)[life[k]].valid) step(*f[k], t, &(*c)[k], &(*o)[life[k]]);
    } }
  MPI_Finalize();
  return 0;
}
// halos: what a process exposes, what its neighbours fetch, and the queries about offsets; one record per side looked at
struct HRec { std::vector<int> side; int from; std::vector<double> got; std::vector<std::vector<size_t>> inds; std::vector<std::pair<std::vector<long>, double>> src, dst; };
extern "C" int mc_filter_halo(const FCase* c, const std::vector<std::vector<int>>* sides, std::vector<HRec>* o, std::vector<std::vector<size_t>>* own, std::vector<std::vector<int>>* q) {
  MPI_Init(nullptr, nullptr);
  std::cerr.precision(17);
  { std::unique_ptr<Filter> f(make(c));
    CubeDecomp d; d.build(f->getNumProcs(), c->dims); *own = {d.getBegIndices(f->getRank()), d.getEndIndices(f->getRank())};
    for (auto& b : c->stencil) { q->push_back(f->getSideFromOffset(b.first)); q->push_back({(int) f->getNumberOfGhostsFromOffset(b.first)}); }
    FOut dummy; for (char op : c->ops) {
      if (op != 'H') { step(*f, op, c, &dummy); continue; }
      for (auto& s : *sides) { std::vector<int> dir(s); for (int& x : dir) x = -x;
        for (int k = 0; k < 2; ++k) { // from the process next door, then from a fixed distance in rank
          HRec r; r.side = s; r.from = k ? (f->getRank() + 1) % f->getNumProcs() : d.getNeighborRank(f->getRank(), dir);
          FRec a, b; mc_take_err(); f->printSrcDataWindow(s); cells(a); r.src = a.cells;
          MultiArrayIter it = f->getWindowIter(r.from, s); it.begin(); for (size_t i = 0; i < it.getNumberOfTerms(); ++i) { r.inds.push_back(it.getIndices()); it.next(); }
          const double* p = f->fetch(r.from, s); r.got.assign(p, p + r.inds.size());
          mc_take_err(); f->printDstDataWindow(s); cells(b); r.dst = b.cells;
          o->push_back(r); } } } }
  MPI_Finalize();
  return 0;
}
// the file writer on its own
extern "C" void mc_write_vtk(const char* fn, const std::vector<size_t>& d, const std::vector<double>& a, const std::vector<double>& b, const std::vector<double>& f, const char* name) { writeVTK(fn, d, a, b, f, name); }

// memory in use by a filter that goes through a sequence of operations again and again
extern "C" void mc_mem_use(long* bytes, long* blocks, long* peak, long* twice);
extern "C" int mc_filter_mem(const FCase* c, std::string* bad) {
  MPI_Init(nullptr, nullptr);
  auto ops = [&](Filter& f) {
    for (char op : c->ops) switch (op) {
      case 'S': f.setInData(fpos1); break; case 'T': f.setInData(fpos2); break; case 'I': f.setInDataByIndices(gind1); break; case 'J': f.setInDataByIndices(gind2); break;
      case 'A': f.applyFilter(); break; case 'C': f.copyOutToIn(); break; case 'i': f.computeCheckSum("input"); break; case 'o': f.computeCheckSum("output"); break; case 'v': f.saveVTK(c->file); break; }
  };
  // the same is in use after every round, from the third on
  auto plateau = [&](const char* what, const std::function<void()>& f) {
    long a = 0, n = 0, pk = 0, b, m, p, t;
    for (int k = 1; k <= 8; ++k) {
      mc_mem_use(&b, &m, &p, &t); f(); mc_mem_use(&b, &m, &p, &t);
      if (k == 3) { a = b; n = m; pk = p; }
      char s[300];
      if (t && bad->empty()) *bad = std::string(what) + ": a block is released that is not in use";
      if (k > 3 && bad->empty() && (b != a || m != n || p > pk + 2048)) { snprintf(s, sizeof s, "%s: %ld bytes in %ld blocks in use after 3 times (up to %ld), %ld in %ld after %d (up to %ld)", what, a, n, pk, b, m, k, p); *bad = s; }
    }
  };
  std::map<std::vector<int>, double> st; for (auto& b : c->stencil) st[b.first] = b.second;
  auto mk = [&] { return new Filter(c->dims, c->xmin, c->xmax, st); };
  { std::unique_ptr<Filter> f(mk()); plateau("one object", [&] { ops(*f); }); }
  plateau("objects made and destroyed", [&] { std::unique_ptr<Filter> f(mk()); ops(*f); });
  MPI_Finalize();
  return 0;
}

// what each operation costs this process: evaluations of the input function, bytes received, memory in use at most
extern "C" long mc_received();
static long g_evals;
static double cpos1(const std::vector<double>& p) { ++g_evals; return fpos1(p); }
static double cind1(const std::vector<size_t>& n) { ++g_evals; return gind1(n); }
extern "C" int mc_filter_share(const FCase* c, std::vector<std::vector<long>>* o) {
  MPI_Init(nullptr, nullptr);
  long b0, b, m, p, t; mc_mem_use(&b0, &m, &p, &t); mc_mem_use(&b0, &m, &p, &t);
  { std::unique_ptr<Filter> f; long n = mc_received();
    for (size_t k = 0; k <= c->ops.size(); ++k) {
      g_evals = 0;
      switch (k ? c->ops[k - 1] : 'N') { case 'N': f.reset(make(c)); break; case 'S': f->setInData(cpos1); break; case 'I': f->setInDataByIndices(cind1); break; case 'A': f->applyFilter(); break; case 'C': f->copyOutToIn(); break; case 'i': f->computeCheckSum("input"); break; case 'o': f->computeCheckSum("output"); break; case 'v': f->saveVTK(c->file); break; }
      long r = mc_received(); mc_mem_use(&b, &m, &p, &t); o->push_back({g_evals, r - n, b - b0, p - b0}); n = r;
    } }
  MPI_Finalize();
  return 0;
}
