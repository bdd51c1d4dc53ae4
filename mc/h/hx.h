// Shared by all harnesses: case numbering, sharding, progress record, statistics.
// A harness enumerates a finite space of cases in a fixed order.  Each case has a
// number; "--shard i n" runs the cases with number % n == i, "--only k" runs case k.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <map>
#include <vector>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <cmath>
#include <functional>
#include <exception>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <signal.h>
namespace hx {
static long g_case = -1, g_shard = 0, g_nshard = 1, g_only = -1;
static bool g_thorough = false;
static std::map<std::string, long> g_stat;
static std::map<std::string, std::string> g_opt;
static char* g_prog = nullptr;
static std::string g_cur;
static int g_nsample = 0;
// a case (an execution, where kick() is called after each) that takes this long does not end
static unsigned g_watch = 120;
static int g_out = 1;
static long g_each = 1; // every so many cases only
// only undefined behaviour counts: what else is found ends the shard quietly
static bool g_ub = getenv("MC_UB") != nullptr;
inline void init(int argc, char** argv) {
  if (g_ub) std::set_terminate([] { _exit(77); });
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--shard") { g_shard = atol(argv[i+1]); g_nshard = atol(argv[i+2]); i += 2; }
    else if (a == "--only") g_only = atol(argv[++i]);
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--each") g_each = atol(argv[++i]);
    else if (a == "--progress") {
      int fd = open(argv[++i], O_RDWR | O_CREAT, 0644);
      if (ftruncate(fd, 65536)) {}
      g_prog = (char*) mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      close(fd);
    }
    else if (a.compare(0, 2, "--") == 0 && i + 1 < argc) { g_opt[a.substr(2)] = argv[i+1]; ++i; }
  }
}
inline std::string opt(const char* k, const char* d = "") { auto i = g_opt.find(k); return i == g_opt.end() ? d : i->second; }
// true when this case is ours; records it as the current one
inline bool take() {
  ++g_case;
  if (g_only >= 0) return g_case == g_only;
  return g_case % g_each == 0 && g_case / g_each % g_nshard == g_shard;
}
inline void hang(int) {
  if (g_ub) { char b[4096]; int n = snprintf(b, sizeof b, "\nMCINCOMPLETE case %ld does not end\nMCDONE\n", g_case); if (write(g_out, b, (size_t) n)) {} _exit(0); }
  char b[4096]; int n = snprintf(b, sizeof b, "\nMCVIOLATION case=%ld [%.3000s] does not end within %u s\n", g_case, g_cur.c_str(), g_watch);
  for (int i = 1; i < n - 1; ++i) if (b[i] == '\n') b[i] = '|';
  if (write(g_out, b, (size_t) n)) {}
  _exit(10);
}
inline void kick() { if (g_watch) alarm(g_watch); }
inline void progress(const std::string& s) {
  g_cur = s;
  if (g_watch) { static bool first = true; if (first) { first = false; fflush(stdout); g_out = dup(1); signal(SIGALRM, hang); } kick(); }
  if (g_prog) { snprintf(g_prog, 65536, "%ld %s", g_case, s.c_str()); }
}
inline void stat(const char* k, long n = 1) { g_stat[k] += n; }
inline void sample(const std::string& s) { if (g_nsample++ < 2) { printf("MCSAMPLE %s\n", s.c_str()); } }
inline void finish_stats() { for (auto& k : g_stat) printf("MCSTAT %s %ld\n", k.first.c_str(), k.second); fflush(stdout); }
inline std::string oneline(std::string s) { for (char& c : s) if (c == '\n') c = '|'; return s; }
[[noreturn]] inline void violation(const std::string& what) {
  std::string s = oneline(what), c = oneline(g_cur);
  if (g_ub) { printf("MCINCOMPLETE %s: not explored further, another property fails\nMCDONE\n", c.c_str()); finish_stats(); fflush(stdout); _exit(0); }
  printf("MCVIOLATION case=%ld [%s] %s\n", g_case, c.c_str(), s.c_str());
  finish_stats();
  fflush(stdout);
  _exit(10);
}
inline int done() { alarm(0); printf("MCDONE cases=%ld\n", g_case + 1); finish_stats(); return 0; }
template <class V> std::string str(const V& v) { std::ostringstream o; o << std::setprecision(12); o << '('; bool f = true; for (auto& x : v) { if (!f) o << ','; o << x; f = false; } o << ')'; return o.str(); }
// all tuples of given length over [lo,hi]
template <class T> void tuples(int n, T lo, T hi, const std::function<void(const std::vector<T>&)>& f) {
  std::vector<T> v(n, lo);
  for (;;) {
    f(v);
    int i = n - 1;
    while (i >= 0 && v[i] == hi) { v[i] = lo; --i; }
    if (i < 0) return;
    ++v[i];
  }
}
struct Capture { // captures std::cout
  std::ostringstream os; std::streambuf* old;
  Capture() { os << std::setprecision(17); old = std::cout.rdbuf(os.rdbuf()); std::cout.precision(17); }
  ~Capture() { std::cout.rdbuf(old); }
  std::string str() { return os.str(); }
};
}
