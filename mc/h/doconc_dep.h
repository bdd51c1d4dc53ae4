// Observes the memory accesses of the iterations of a concurrent loop (code compiled with
// -fsanitize=thread, whose calls end here).  The standard's rule: what one iteration defines
// no other iteration may use, unless that one defines it itself first.
#pragma once
#include <unordered_map>
#include <map>
extern "C" void mc_addr_(void*) {}
#ifndef DEP
static void dep_at(int, int, char*) {} static void dep_end() {}
#else
#define NI __attribute__((no_instrument_function, no_sanitize("thread")))
struct DepByte { int it = -1, writer = -1, reader = -1; bool wrote = false; };
struct DepFrame { int it; char* sp; std::unordered_map<char*, DepByte> b; std::map<char*, char*> fresh; };
static std::vector<DepFrame*> g_frames; static bool g_depbusy = false;
struct Busy { Busy() { g_depbusy = true; } ~Busy() { g_depbusy = false; } };
static void dep_at(int k, int r, char* sp) { Busy busy; if (k == 0) { DepFrame* f = new DepFrame; f->sp = sp; g_frames.push_back(f); } g_frames.back()->it = r; }
static void dep_end() { Busy busy; if (!g_frames.empty()) { hx::stat("bytes_watched", (long) g_frames.back()->b.size()); delete g_frames.back(); g_frames.pop_back(); } }
#define CTL(n) extern "C" int __mc_order_MOD_mc_k##n __attribute__((weak)); extern "C" int __mc_order_MOD_mc_n##n __attribute__((weak)); extern "C" int __mc_order_MOD_mc_r##n __attribute__((weak));
CTL(1) CTL(2) CTL(3) CTL(4) CTL(5) CTL(6)
static bool dep_ctl(char* a) {
#define IS(n) if (a == (char*) &__mc_order_MOD_mc_k##n || a == (char*) &__mc_order_MOD_mc_n##n || a == (char*) &__mc_order_MOD_mc_r##n) return true;
  IS(1) IS(2) IS(3) IS(4) IS(5) IS(6) return false; }
static void dep_access(void* p, long n, bool w) {
  if (g_frames.empty() || g_depbusy) return;
  Busy busy;
  char* a = (char*) p; if (dep_ctl(a)) return;
  char here;
  for (DepFrame* f : g_frames) {
    if (a > &here && a < f->sp) continue; // frames of procedures called from the loop
    auto x = f->fresh.upper_bound(a); if (x != f->fresh.begin()) { --x; if (a < x->second) continue; } // allocated in the loop
    for (long i = 0; i < n; ++i) {
      DepByte& b = f->b[a + i]; if (b.it != f->it) { b.it = f->it; b.wrote = false; }
      if (w) { if (b.reader >= 0 && b.reader != f->it) { hx::violation("iteration " + std::to_string(f->it) + " defines what iteration " + std::to_string(b.reader) + " uses"); } b.writer = f->it; b.wrote = true; }
      else if (!b.wrote) { if (b.writer >= 0 && b.writer != f->it) { hx::violation("iteration " + std::to_string(f->it) + " uses what iteration " + std::to_string(b.writer) + " defines"); } if (b.reader < 0 || b.reader == f->it) b.reader = f->it; }
    }
  }
}
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t);
static void dep_fresh(void* p, size_t n) { if (g_frames.empty() || g_depbusy || !p) return; Busy busy; char *b = (char*) p, *e = b + n;
  for (DepFrame* f : g_frames) { auto x = f->fresh.lower_bound(b); if (x != f->fresh.begin() && std::prev(x)->second > b) --x; while (x != f->fresh.end() && x->first < e) x = f->fresh.erase(x); f->fresh[b] = e; } }
void* malloc(size_t n) { void* p = __libc_malloc(n); dep_fresh(p, n); return p; }
void* calloc(size_t m, size_t n) { void* p = __libc_calloc(m, n); dep_fresh(p, m * n); return p; }
void* realloc(void* q, size_t n) { void* p = __libc_realloc(q, n); dep_fresh(p, n); return p; }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
static void dep_go(void* a, long n, bool w) { if (!g_depbusy) dep_access(a, n, w); }
#define RW(n) void __tsan_read##n(void* a) { dep_go(a, n, false); } void __tsan_write##n(void* a) { dep_go(a, n, true); } void __tsan_unaligned_read##n(void* a) { dep_go(a, n, false); } void __tsan_unaligned_write##n(void* a) { dep_go(a, n, true); } \
  void __tsan_volatile_read##n(void* a) { dep_go(a, n, false); } void __tsan_volatile_write##n(void* a) { dep_go(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, long n) { dep_go(a, n, false); } void __tsan_write_range(void* a, long n) { dep_go(a, n, true); }
void __tsan_vptr_update(void** a, void*) { dep_go(a, 8, true); } void __tsan_vptr_read(void** a) { dep_go(a, 8, false); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { dep_go((void*) s, n, false); dep_go(d, n, true); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { dep_go((void*) s, n, false); dep_go(d, n, true); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int v, size_t n) { dep_go(d, n, true); return __real_memset(d, v, n); }
}
#endif
