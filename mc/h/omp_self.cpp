// Controls for rt/omprt.cpp: small programs whose outcome is known.  The runtime must
// find the broken ones broken and the correct ones correct.
#include "../rt/omprt.h"
#include <cstdio>
#include <omp.h>
#include <atomic>
using namespace omprt;
static int x, y, a[16], b[16]; static long sum; static std::atomic<int> at; static int tl; static thread_local int mine = 3;
#pragma omp threadprivate(tl)
static double dev(int n, bool map) {
  double* p = new double[n]; double* q = new double[n]; for (int i = 0; i < n; ++i) { p[i] = i; q[i] = 0; }
  if (map) {
    #pragma omp target teams distribute parallel for map(to: p[0:n]) map(from: q[0:n])
    for (int i = 0; i < n; ++i) q[i] = p[i] * 2;
  } else {
    #pragma omp target data map(to: p[0:n])
    {
    for (int i = 0; i < n; ++i) p[i] = 7; // not sent
    #pragma omp target teams distribute parallel for map(from: q[0:n])
    for (int i = 0; i < n; ++i) q[i] = p[i] * 2;
    }
  }
  double s = 0; for (int i = 0; i < n; ++i) s += q[i]; delete[] p; delete[] q; return s;
}
struct Case { const char* name; bool good; std::function<void()> run; std::function<bool()> ok; };
int main() {
  std::vector<Case> cs = {
    {"lost update", false, [] { x = 0;
      #pragma omp parallel
      x = x + 1; }, [] { return x == 3; }},
    {"critical", true, [] { x = 0;
      #pragma omp parallel
      {
      #pragma omp critical
      x = x + 1;
      } }, [] { return x == 3; }},
    {"omp atomic", true, [] { x = 0;
      #pragma omp parallel
      {
      #pragma omp atomic
      x += 2;
      } }, [] { return x == 6; }},
    {"double atomic", true, [] { static double d; d = 0;
      #pragma omp parallel
      {
      #pragma omp atomic
      d += 0.5;
      }
      x = (int) (d * 2); }, [] { return x == 3; }},
    {"std::atomic load and store", false, [] { at = 0;
      #pragma omp parallel
      { int v = at.load(); at.store(v + 1); } }, [] { return at == 3; }},
    {"std::atomic add", true, [] { at = 0;
      #pragma omp parallel
      at.fetch_add(1); }, [] { return at == 3; }},
    {"reduction", true, [] { sum = 0;
      #pragma omp parallel for reduction(+: sum)
      for (int i = 0; i < 7; ++i) sum += i; }, [] { return sum == 21; }},
    {"no reduction", false, [] { sum = 0;
      #pragma omp parallel for
      for (int i = 0; i < 7; ++i) sum += i; }, [] { return sum == 21; }},
    {"dynamic loops", true, [] {
      #pragma omp parallel
      {
      #pragma omp for schedule(dynamic, 2)
      for (int i = 0; i < 7; ++i) a[i] = i;
      #pragma omp for schedule(guided)
      for (int i = 0; i < 7; ++i) b[i] = a[6 - i];
      }
      sum = 0; for (int i = 0; i < 7; ++i) sum += b[i] * i; }, [] { return sum == 35; }},
    {"dynamic loop without barrier", false, [] { for (int i = 0; i < 7; ++i) a[i] = 0;
      #pragma omp parallel
      {
      #pragma omp for schedule(dynamic) nowait
      for (int i = 0; i < 7; ++i) a[i] = i;
      #pragma omp for schedule(dynamic)
      for (int i = 0; i < 7; ++i) b[i] = a[6 - i];
      }
      sum = 0; for (int i = 0; i < 7; ++i) sum += b[i] * i; }, [] { return sum == 35; }},
    {"dynamic loop, thread number", false, [] {
      #pragma omp parallel for schedule(dynamic)
      for (int i = 0; i < 3; ++i) a[i] = omp_get_thread_num();
      }, [] { return a[0] == 0 && a[1] == 1 && a[2] == 2; }},
    {"static loop, chunks", true, [] {
      #pragma omp parallel for schedule(static, 1)
      for (int i = 0; i < 6; ++i) a[i] = omp_get_thread_num();
      }, [] { return a[0] == 0 && a[1] == 1 && a[2] == 2 && a[3] == 0 && a[5] == 2; }},
    {"unsigned long loop", true, [] { sum = 0;
      #pragma omp parallel for schedule(dynamic) reduction(+: sum)
      for (unsigned long i = 0; i < 5; ++i) sum += i; }, [] { return sum == 10; }},
    {"downward loop", true, [] { sum = 0;
      #pragma omp parallel for schedule(dynamic, 2) reduction(+: sum)
      for (long i = 9; i > 0; i -= 2) sum += i; }, [] { return sum == 25; }},
    {"ordered", true, [] { x = 0; y = 1;
      #pragma omp parallel for ordered schedule(dynamic)
      for (int i = 0; i < 5; ++i) {
        #pragma omp ordered
        { if (x != i) y = 0; ++x; }
      } }, [] { return y == 1 && x == 5; }},
    {"single", true, [] { x = 0;
      #pragma omp parallel
      {
      #pragma omp single
      ++x;
      a[omp_get_thread_num()] = x;
      } }, [] { return x == 1 && a[0] == 1 && a[2] == 1; }},
    {"single nowait", false, [] { x = 0;
      #pragma omp parallel
      {
      #pragma omp single nowait
      ++x;
      a[omp_get_thread_num()] = x;
      } }, [] { return x == 1 && a[0] == 1 && a[2] == 1; }},
    {"single copyprivate", true, [] {
      #pragma omp parallel
      { int v = 0;
      #pragma omp single copyprivate(v)
      v = 5;
      a[omp_get_thread_num()] = v; } }, [] { return a[0] == 5 && a[1] == 5 && a[2] == 5; }},
    {"master without barrier", false, [] { x = 0;
      #pragma omp parallel
      {
      #pragma omp master
      x = 1;
      a[omp_get_thread_num()] = x;
      } }, [] { return a[0] && a[1] && a[2]; }},
    {"sections", true, [] { x = y = 0;
      #pragma omp parallel sections
      {
      #pragma omp section
      x = 1;
      #pragma omp section
      y = 2;
      } }, [] { return x == 1 && y == 2; }},
    {"locks", true, [] { static omp_lock_t l; omp_init_lock(&l); x = 0;
      #pragma omp parallel
      { omp_set_lock(&l); x++; omp_unset_lock(&l); } omp_destroy_lock(&l); }, [] { return x == 3; }},
    {"two locks", false, [] { static omp_lock_t l, m; omp_init_lock(&l); omp_init_lock(&m); x = 0;
      #pragma omp parallel num_threads(2)
      { bool f = omp_get_thread_num(); omp_set_lock(f ? &l : &m); omp_set_lock(f ? &m : &l); x++; omp_unset_lock(&m); omp_unset_lock(&l); } }, [] { return x == 2; }},
    {"barrier missed", false, [] {
      #pragma omp parallel
      { if (omp_get_thread_num() != 1) {
      #pragma omp barrier
      } x = 1; while (omp_get_thread_num() == 1 && false) {}
      #pragma omp single
      y = 1;
      } }, [] { return true; }},
    {"flag", true, [] { x = y = 0;
      #pragma omp parallel num_threads(2)
      { if (omp_get_thread_num()) { x = 4;
        #pragma omp atomic write
        y = 1;
      } else { int v = 0; while (!v) {
        #pragma omp atomic read
        v = y;
      } a[0] = x; } } }, [] { return a[0] == 4; }},
    {"tasks", true, [] { x = y = 0;
      #pragma omp parallel
      #pragma omp single
      {
      #pragma omp task
      x = 1;
      #pragma omp task
      y = 2;
      #pragma omp taskwait
      a[0] = x + y;
      } }, [] { return a[0] == 3; }},
    {"tasks without wait", false, [] { x = y = 0;
      #pragma omp parallel
      #pragma omp single
      {
      #pragma omp task
      x = 1;
      #pragma omp task
      y = 2;
      a[0] = x + y;
      } }, [] { return a[0] == 3; }},
    {"taskloop", true, [] { for (int i = 0; i < 6; ++i) a[i] = 0;
      #pragma omp parallel
      #pragma omp single
      #pragma omp taskloop
      for (int i = 0; i < 6; ++i) a[i] += i;
      sum = 0; for (int i = 0; i < 6; ++i) sum += a[i]; }, [] { return sum == 15; }},
    {"thread-local", true, [] {
      #pragma omp parallel
      { mine = omp_get_thread_num(); tl = mine;
      #pragma omp barrier
      a[omp_get_thread_num()] = mine + tl; } }, [] { return a[0] == 0 && a[1] == 2 && a[2] == 4; }},
    {"private", true, [] { int t = 0;
      #pragma omp parallel for private(t)
      for (int i = 0; i < 6; ++i) { t = i; a[i] = t; } sum = 0; for (int i = 0; i < 6; ++i) sum += a[i]; }, [] { return sum == 15; }},
    {"not private", false, [] { int t = 0;
      #pragma omp parallel for
      for (int i = 0; i < 6; ++i) { t = i; a[i] = t; } sum = 0; for (int i = 0; i < 6; ++i) sum += a[i]; }, [] { return sum == 15; }},
    {"same value race", true, [] {
      #pragma omp parallel
      x = omp_get_num_threads(); }, [] { return x == 3; }},
    {"nested", true, [] { sum = 0;
      #pragma omp parallel
      {
      #pragma omp parallel for
      for (int i = 0; i < 4; ++i) {
        #pragma omp atomic
        sum += i; } } }, [] { return sum == 18; }},
    {"device", true, [] { x = (int) dev(5, true); }, [] { return x == 20; }},
    {"device data region", true, [] { x = (int) dev(5, false); }, [] { return x == 20; }},
    {"device, not mapped", false, [] { double* p = new double[4]; double** pp = &p;
      #pragma omp target map(to: pp[0:1])
      (*pp)[0] = 1; delete[] p; }, [] { return true; }},
    {"device, not sent back", false, [] { int q[4] = {0, 0, 0, 0};
      #pragma omp target map(to: q)
      q[0] = 1;
      x = q[0]; }, [] { return x == 1; }},
    {"device, not sent", false, [] { int q[4] = {5, 5, 5, 5};
      #pragma omp target map(from: q)
      q[0] = q[1];
      x = q[0]; }, [] { return x == 5; }},
    {"device, nowait", false, [] { int q[4] = {5, 5, 5, 5};
      #pragma omp target map(tofrom: q) nowait
      q[0] = 1;
      x = q[0];
      #pragma omp taskwait
      }, [] { return x == 1; }},
    {"device, nowait and taskwait", true, [] { int q[4] = {5, 5, 5, 5};
      #pragma omp target map(tofrom: q) nowait
      q[0] = 1;
      #pragma omp taskwait
      x = q[0]; }, [] { return x == 1; }},
    {"device, update", true, [] { int q[4] = {5, 5, 5, 5};
      #pragma omp target data map(to: q)
      {
      q[1] = 8;
      #pragma omp target update to(q)
      #pragma omp target
      q[0] = q[1] + 1;
      #pragma omp target update from(q)
      x = q[0];
      } }, [] { return x == 9; }},
    {"device, enter and exit", true, [] { static int q[4]; q[0] = q[1] = 3;
      #pragma omp target enter data map(to: q)
      #pragma omp target
      q[0] = q[1] + 1;
      #pragma omp target exit data map(from: q)
      x = q[0]; }, [] { return x == 4; }},
    {"device, shared scratch", false, [] { int q[4]; int s[1];
      #pragma omp target teams distribute parallel for map(tofrom: q, s)
      for (int i = 0; i < 4; ++i) { s[0] = i; q[i] = s[0]; }
      x = q[0] + 10 * q[1] + 100 * q[2] + 1000 * q[3]; }, [] { return x == 3210; }},
  };
  int bad = 0; long n = 0; setvbuf(stdout, 0, _IOLBF, 0);
  for (auto& k : cs) {
    Result r; Config c; c.threads = 3; c.device = true; std::vector<Mode> m; for (int i = 0; i < 8; ++i) m.push_back({(i & 1) != 0, (i & 2) != 0, (i & 4) != 0});
    explore(r, c, m, RACES, 3, 200000, k.run, [&]() -> std::string { return k.ok() ? "" : "wrong"; });
    n += r.executions; if (getenv("VERBOSE")) printf("%s: %ld\n", k.name, r.executions);
    if (r.error.empty() != k.good) { printf("control '%s': %s after %ld executions\n", k.name, r.error.empty() ? "nothing found" : (r.error + " [" + r.schedule + "]").c_str(), r.executions); bad = 1; }
  }
  printf("%d controls, %ld executions\n", (int) cs.size(), n);
  return bad;
}
