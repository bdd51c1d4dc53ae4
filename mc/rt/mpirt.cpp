#include "mpirt.h"
#include "mpi/mpi.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <iostream>
#include <sstream>
#include <map>
#include <memory>
#include <set>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#define MC_ASAN 1
#endif
namespace mpirt {
static Shared* g_sh; static Mode g_mode; static bool g_explore; static int g_n = 0, g_cur = -1;
static const uint64_t NANBITS = 0x7ff8dead5eed5eedULL;
static void poison(void* p, size_t n) { char* c = (char*) p; for (size_t i = 0; i < n; ++i) c[i] = ((const char*) &NANBITS)[i % 8]; }
struct Rank {
  ucontext_t ctx; char* stack = nullptr; size_t ssize = 0; void* fake = nullptr;
  bool done = false, blocked = false, inited = false, finalized = false; int status = 0;
  std::function<bool()> cond; const char* where = "start";
  std::map<int, int> seq; std::string out, err; std::unique_ptr<std::ios> fo, fe;
  long calls = 0; Timing timing; // MPI calls so far: the clock of the rank
  long recv = 0, mpi = 0, mpiPeak = 0;
};
static std::vector<std::unique_ptr<Rank>> R;
static ucontext_t g_main;
#ifdef MC_ASAN
static void* g_mainfake; static const void* g_mainstk; static size_t g_mainsz;
#endif
static std::function<int(int)> g_body;
int self() { return g_cur; }
std::string& out(int r) { return R[r]->out; }
std::string& err(int r) { return R[r]->err; }
int status(int r) { return R[r]->status; }
const Timing& timing(int r) { return R[r]->timing; }
long received(int r) { return R[r]->recv; }
long obtained(int r) { return R[r]->mpiPeak; }
void observe(const void* p, size_t n) { const unsigned char* c = (const unsigned char*) p; for (size_t i = 0; i < n; ++i) g_sh->outcome = (g_sh->outcome ^ c[i]) * 1099511628211ULL; }
static int catIndex(int c) { return c == STUCK ? 0 : c == RACE ? 1 : c == RESOURCE ? 2 : c == RESULT ? 3 : 4; }
void fault(int cat, const std::string& msg) {
  if (!(g_sh->cats & cat)) { std::string m = msg; if (g_cur >= 0) m = "rank " + std::to_string(g_cur) + ": " + m; for (char& ch : m) if (ch == '\n') ch = '|'; snprintf(g_sh->msg[catIndex(cat)], 600, "%s", m.c_str()); }
  g_sh->cats |= cat;
}
[[noreturn]] static void finish() { g_sh->finished = 1; _exit(0); }
[[noreturn]] static void fatal(int cat, const std::string& msg) { fault(cat, msg); finish(); }
static int choose(int n) {
  if (!g_explore || n < 2) return 0;
  int p = g_sh->npoints;
  if (p >= MAXP) { g_sh->overflow = 1; return 0; }
  g_sh->npoints++;
  int c = p < g_sh->nprefix ? g_sh->prefix[p] : 0;
  if (c >= n) { g_sh->diverged = 1; c = 0; }
  g_sh->nalt[p] = (unsigned char) std::min(n, 255); g_sh->taken[p] = (unsigned char) c;
  return c;
}
// ---- streams: every rank has its own output and format state
int g_rt[66];
struct Buf : std::streambuf {
  bool e; Buf(bool e_) : e(e_) {}
  std::string* t() { return g_cur < 0 ? nullptr : e ? &R[g_cur]->err : &R[g_cur]->out; }
  int overflow(int c) override { if (c != EOF && t()) { ++g_rt[g_cur]; t()->push_back((char) c); --g_rt[g_cur]; } return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char* s, std::streamsize n) override { if (t()) { ++g_rt[g_cur]; t()->append(s, n); --g_rt[g_cur]; } return n; }
};
static void toMain() {
  Rank& r = *R[g_cur];
#ifdef MC_ASAN
  __sanitizer_start_switch_fiber(r.done ? nullptr : &r.fake, g_mainstk, g_mainsz);
#endif
  swapcontext(&r.ctx, &g_main);
#ifdef MC_ASAN
  __sanitizer_finish_switch_fiber(r.fake, &g_mainstk, &g_mainsz);
#endif
}
static void trampoline() {
  Rank& r = *R[g_cur];
#ifdef MC_ASAN
  __sanitizer_finish_switch_fiber(nullptr, &g_mainstk, &g_mainsz);
#endif
  r.status = g_body(g_cur);
  r.done = true; r.where = "ended";
  toMain();
}
static void point(const char* where) { Rank& r = *R[g_cur]; r.where = where; r.blocked = false; toMain(); }
static void block(const char* where, std::function<bool()> c) {
  Rank& r = *R[g_cur]; r.where = where;
  if (c()) return;
  r.cond = std::move(c); r.blocked = true; toMain(); r.blocked = false; r.cond = nullptr;
}
// ---- objects
struct Op { bool put; int origin, target; char* local; size_t off, len; int epoch; bool moved = false, dead = false; std::vector<char> src; };
struct Win { int id; std::vector<char*> base; std::vector<size_t> size; std::vector<int> disp; std::vector<bool> have, freed; std::vector<int> fences, lastAssert; std::vector<std::vector<char>> snap; std::vector<std::map<int, std::vector<bool>>> dirty; std::vector<Op> ops; };
struct Coll { std::string sig; int arrived = 0; std::vector<bool> in; std::vector<std::vector<char>> data; std::vector<int> a; int win = 0; };
struct Alloc { size_t n; int owner; bool freed; };
struct Msg { int src, dst, tag; std::vector<char> data; bool taken = false; };
static std::map<std::pair<int, int>, Coll> g_coll; static std::vector<std::unique_ptr<Win>> g_win; static std::map<char*, Alloc> g_alloc; static std::vector<std::unique_ptr<Msg>> g_msg;

static void needInit(const char* f) {
  Rank& r = *R[g_cur]; ++r.calls;
  if (!r.inited) fault(USAGE | 0, std::string(f) + " before MPI_Init");
  if (r.finalized) fault(USAGE, std::string(f) + " after MPI_Finalize");
}
static Coll& enter(int obj, const std::string& sig) {
  int s = R[g_cur]->seq[obj]++;
  Coll& c = g_coll[{obj, s}];
  if (c.in.empty()) { c.in.assign(g_n, false); c.data.resize(g_n); c.a.assign(g_n, 0); c.sig = sig; }
  else if (c.sig != sig) fatal(STUCK, "collective calls do not match: " + sig + " here, " + c.sig + " on another process");
  c.in[g_cur] = true; c.arrived++;
  return c;
}
// a call that may or may not synchronise; the implementation decides
static void maybeSync(Coll& c, const char* where) {
  if (c.arrived == g_n) return;
  bool sync = g_mode.strong;
  if (choose(2)) sync = !sync;
  if (sync) block(where, [&c] { return c.arrived == g_n; });
}
static void barrier(Coll& c, const char* where) { block(where, [&c] { return c.arrived == g_n; }); }
static size_t tsize(int t) { static const size_t s[] = {0, 8, 4, 8, 8, 4, 1, 1, 4, 8, 8, 1}; if (t < 1 || t > 11) fatal(USAGE, "unknown datatype"); return s[t]; }
template <class T> static void red(char* a, const char* b, int n, int op) {
  T* x = (T*) a; for (int i = 0; i < n; ++i) { T u = x[i], w; memcpy(&w, b + i * sizeof(T), sizeof(T));
    switch (op) { case MPI_SUM: u = u + w; break; case MPI_MIN: u = w < u ? w : u; break; case MPI_MAX: u = w > u ? w : u; break; case MPI_PROD: u = (T) (u * w); break; case MPI_LAND: u = (u && w); break; case MPI_LOR: u = (u || w); break; default: fatal(USAGE, "unsupported reduction"); } x[i] = u; } }
static void reduce(char* a, const char* b, int n, int t, int op) {
  switch (t) { case MPI_DOUBLE: red<double>(a, b, n, op); break; case MPI_FLOAT: red<float>(a, b, n, op); break; case MPI_INT: red<int>(a, b, n, op); break; case MPI_UNSIGNED: red<unsigned>(a, b, n, op); break;
    case MPI_LONG: case MPI_LONG_LONG: red<long>(a, b, n, op); break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: red<unsigned long>(a, b, n, op); break; case MPI_CXX_BOOL: red<bool>(a, b, n, op); break; default: red<char>(a, b, n, op); } }
static void comm(int c) { if (c != MPI_COMM_WORLD) fatal(USAGE, "communicator other than MPI_COMM_WORLD"); }
static bool overlap(const char* a, size_t n, const char* b, size_t m) { return n && m && a < b + m && b < a + n; }

// ---- one-sided transfers
static void move(Win& w, Op& o) { // the transfer happens now
  if (o.moved || o.dead) return;
  if (!w.have[o.target]) return;
  size_t lim = w.size[o.target];
  if (o.off + o.len > lim) { fault(RESULT, "transfer of " + std::to_string(o.len) + " bytes at offset " + std::to_string(o.off) + " exceeds the window of " + std::to_string(lim) + " bytes on rank " + std::to_string(o.target)); o.dead = true; return; }
  char* t = w.base[o.target] + o.off;
  if (o.put) { if (memcmp(o.local, o.src.data(), o.len)) fault(RACE, "source of a pending transfer was modified"); memcpy(t, o.local, o.len); if (!w.snap[o.target].empty()) memcpy(w.snap[o.target].data() + o.off, t, o.len); }
  else {
    for (size_t i = 0; i < o.len; ++i) if (o.local[i] != ((const char*) &NANBITS)[i % 8]) { fault(RACE, "destination of a pending transfer was modified"); break; }
    memcpy(o.local, t, o.len); o.src.assign(t, t + o.len);
  }
  o.moved = true; R[o.put ? o.target : o.origin]->recv += (long) o.len;
}
static void takeSnap(Win& w, int r) { w.snap[r].assign(w.base[r], w.base[r] + w.size[r]); }
// stores of rank r to its exposed memory since its last synchronisation
static void checkStores(Win& w, int r, int assertion) {
  if (w.snap[r].size() != w.size[r] || !w.size[r]) return;
  const char* b = w.base[r]; bool any = memcmp(b, w.snap[r].data(), w.size[r]) != 0;
  if (any && (assertion & MPI_MODE_NOSTORE)) fault(RACE, "MPI_MODE_NOSTORE though the window was modified");
  if (!any) return;
  std::vector<bool>& d = w.dirty[r][w.fences[r]]; d.assign(w.size[r], false); for (size_t i = 0; i < w.size[r]; ++i) d[i] = b[i] != w.snap[r][i];
  for (Op& o : w.ops) if (o.target == r && o.epoch == w.fences[r] && o.off + o.len <= w.size[r]) for (size_t i = o.off; i < o.off + o.len; ++i) if (b[i] != w.snap[r][i]) { fault(RACE, "exposed data was modified while rank " + std::to_string(o.origin) + " may still " + (o.put ? "write" : "read") + " it"); return; }
}
static void eager(Win& w) { for (Op& o : w.ops) if (!o.moved && !o.dead && w.have[o.target] && w.fences[o.target] >= o.epoch) move(w, o); }
static void rma(bool put, void* local, int cnt, int dt, int target, MPI_Aint disp, int tcnt, int tdt, int win) {
  needInit(put ? "MPI_Put" : "MPI_Get");
  if (target == MPI_PROC_NULL) return;
  if (win < 1 || win > (int) g_win.size() || !g_win[win - 1]->have[g_cur] || g_win[win - 1]->freed[g_cur]) fatal(USAGE, "transfer on a window that does not exist");
  Win& w = *g_win[win - 1];
  if (target < 0 || target >= g_n) { fault(USAGE, "transfer with rank " + std::to_string(target)); fatal(RESULT, "transfer with rank " + std::to_string(target)); }
  size_t len = cnt * tsize(dt); if (len != tcnt * tsize(tdt)) fault(USAGE, "origin and target sizes of a transfer differ");
  ++R[g_cur]->timing.transfers;
  point(put ? "MPI_Put" : "MPI_Get");
  Op o; o.put = put; o.origin = g_cur; o.target = target; o.local = (char*) local; o.len = len; o.epoch = w.fences[g_cur];
  if (!w.have[target]) block(put ? "MPI_Put" : "MPI_Get", [&w, target] { return (bool) w.have[target]; });
  o.off = disp * (size_t) w.disp[target];
  if (w.fences[g_cur] == 0 || (w.lastAssert[g_cur] & MPI_MODE_NOSUCCEED)) fault(RACE, std::string(put ? "MPI_Put" : "MPI_Get") + " outside of an access epoch");
  for (Op& p : w.ops) if (!p.dead && p.origin == g_cur && p.epoch == o.epoch && overlap(p.local, p.len, o.local, o.len) && !(put && p.put)) fault(RACE, "two transfers use the same buffer in one epoch");
  for (Op& p : w.ops) if (p.target == target && p.epoch == o.epoch && (put || p.put) && p.off < o.off + o.len && o.off < p.off + p.len) fault(RACE, "conflicting transfers to the same exposed data");
  auto dit = w.dirty[target].find(o.epoch); // the target has already left this epoch
  if (dit != w.dirty[target].end()) for (size_t i = o.off; i < o.off + o.len && i < dit->second.size(); ++i) if (dit->second[i]) { fault(RACE, "exposed data of rank " + std::to_string(target) + " was modified in the epoch in which it is transferred"); break; }
  if (put) o.src.assign(o.local, o.local + len); else poison(o.local, len);
  w.ops.push_back(o);
  bool e = g_mode.eager; if (choose(2)) e = !e;
  if (e && w.fences[target] >= o.epoch && w.fences[g_cur] > 0) move(w, w.ops.back());
}
}
using namespace mpirt;
extern "C" {
int MPI_Init(int* a, char*** b) { int p; return MPI_Init_thread(a, b, 0, &p); }
int MPI_Init_thread(int*, char***, int req, int* prov) {
  Rank& r = *R[g_cur]; if (r.inited) fault(USAGE, "MPI_Init twice"); r.inited = true; *prov = req;
  Coll& c = enter(0, "MPI_Init"); maybeSync(c, "MPI_Init"); return 0; }
int MPI_Finalize(void) { needInit("MPI_Finalize"); point("MPI_Finalize"); Coll& c = enter(0, "MPI_Finalize");
  for (auto& w : g_win) { if (w->have[g_cur] && !w->freed[g_cur]) fault(RESOURCE, "MPI_Finalize while a window exists"); }
  R[g_cur]->finalized = true; maybeSync(c, "MPI_Finalize"); return 0; }
int MPI_Initialized(int* f) { *f = R[g_cur]->inited; return 0; }
int MPI_Finalized(int* f) { *f = R[g_cur]->finalized; return 0; }
int MPI_Abort(MPI_Comm, int code) { fatal(STUCK, "MPI_Abort with code " + std::to_string(code)); }
// every rank has a clock of its own speed, which advances with its calls
double MPI_Wtime(void) { needInit("MPI_Wtime"); Rank& r = *R[g_cur]; double t = 1000.0 * (g_cur + 1) + 0.25 * (1 + (g_cur * 5 + 3) % 7) * r.calls; r.timing.t.push_back(t); r.timing.before.push_back(r.timing.transfers); return t; }
double MPI_Wtick(void) { return 0.25; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_FUNNELED; return 0; }
int MPI_Get_processor_name(char* s, int* n) { strcpy(s, "mc"); *n = 2; return 0; }
int MPI_Comm_rank(MPI_Comm c, int* r) { needInit("MPI_Comm_rank"); comm(c); *r = g_cur; return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { needInit("MPI_Comm_size"); comm(c); *n = g_n; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return 0; }
int MPI_Comm_dup(MPI_Comm, MPI_Comm* o) { *o = MPI_COMM_WORLD; return 0; }
int MPI_Comm_free(MPI_Comm* o) { *o = MPI_COMM_NULL; return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info, void* p) {
  needInit("MPI_Alloc_mem"); if (n < 0) fatal(USAGE, "MPI_Alloc_mem of a negative size");
  char* m = (char*) malloc(n ? n : 1); poison(m, n); g_alloc[m] = {(size_t) n, g_cur, false}; R[g_cur]->mpi += (long) n; R[g_cur]->mpiPeak = std::max(R[g_cur]->mpiPeak, R[g_cur]->mpi); *(void**) p = m; return 0; }
int MPI_Free_mem(void* p) {
  needInit("MPI_Free_mem"); if (!p) return 0;
  auto i = g_alloc.find((char*) p);
  if (i == g_alloc.end()) { fault(RESOURCE, "MPI_Free_mem of memory not from MPI_Alloc_mem"); return 0; }
  if (i->second.freed) { fault(RESOURCE, "MPI_Free_mem twice"); return 0; }
  if (i->second.owner != g_cur) fault(RESOURCE, "MPI_Free_mem of another process' memory");
  bool live = false;
  for (auto& w : g_win) { if (w->have[g_cur] && !w->freed[g_cur] && overlap(w->base[g_cur], w->size[g_cur], i->first, i->second.n)) { live = true; fault(RESOURCE, "memory exposed through a window is freed before the window"); }
    for (Op& o : w->ops) if (o.origin == g_cur && !o.dead && !o.moved && overlap(o.local, o.len, i->first, i->second.n)) { live = true; fault(RACE, "buffer of a pending transfer is freed"); } }
  i->second.freed = true; R[g_cur]->mpi -= (long) i->second.n; poison(i->first, i->second.n); (void) live;
#ifdef MC_ASAN
  if (!live) __asan_poison_memory_region(i->first, i->second.n);
#endif
  return 0; }
int MPI_Win_create(void* base, MPI_Aint size, int disp, MPI_Info, MPI_Comm c0, MPI_Win* win) {
  needInit("MPI_Win_create"); comm(c0); point("MPI_Win_create"); if (size < 0 || disp < 1) fatal(USAGE, "MPI_Win_create with a bad size");
  Coll& c = enter(0, "MPI_Win_create");
  if (!c.win) { g_win.emplace_back(new Win); Win& w = *g_win.back(); w.id = c.win = (int) g_win.size(); w.base.assign(g_n, nullptr); w.size.assign(g_n, 0); w.disp.assign(g_n, 1); w.have.assign(g_n, false); w.freed.assign(g_n, false); w.fences.assign(g_n, 0); w.lastAssert.assign(g_n, 0); w.snap.resize(g_n); w.dirty.resize(g_n); }
  Win& w = *g_win[c.win - 1]; w.base[g_cur] = (char*) base; w.size[g_cur] = size; w.disp[g_cur] = disp; w.have[g_cur] = true; *win = w.id;
  maybeSync(c, "MPI_Win_create"); return 0; }
int MPI_Win_allocate(MPI_Aint size, int disp, MPI_Info inf, MPI_Comm c, void* base, MPI_Win* win) { char* m = (char*) calloc(size + 1, 1); *(void**) base = m; return MPI_Win_create(m, size, disp, inf, c, win); }
int MPI_Win_free(MPI_Win* win) {
  needInit("MPI_Win_free");
  if (*win < 1 || *win > (int) g_win.size() || !g_win[*win - 1]->have[g_cur]) { fault(RESOURCE, "MPI_Win_free of something that is not a window"); return 0; }
  Win& w = *g_win[*win - 1];
  if (w.freed[g_cur]) { fault(RESOURCE, "MPI_Win_free twice"); return 0; }
  point("MPI_Win_free");
  Coll& c = enter(w.id, "MPI_Win_free");
  for (Op& o : w.ops) if (!o.moved && !o.dead && o.origin == g_cur) fault(RACE, "window is freed while a transfer is pending");
  barrier(c, "MPI_Win_free"); w.freed[g_cur] = true; *win = MPI_WIN_NULL; return 0; }
int MPI_Win_fence(int assertion, MPI_Win win) {
  needInit("MPI_Win_fence");
  if (win < 1 || win > (int) g_win.size() || !g_win[win - 1]->have[g_cur] || g_win[win - 1]->freed[g_cur]) fatal(USAGE, "MPI_Win_fence on a window that does not exist");
  Win& w = *g_win[win - 1]; int me = g_cur;
  point("MPI_Win_fence");
  Coll& c = enter(w.id, "MPI_Win_fence");
  c.a[me] = assertion;
  for (int r = 0; r < g_n; ++r) if (c.in[r] && ((c.a[r] ^ assertion) & (MPI_MODE_NOPRECEDE | MPI_MODE_NOSUCCEED))) fault(RACE, "MPI_Win_fence assertions differ between processes");
  checkStores(w, me, assertion);
  bool pend = false; for (Op& o : w.ops) if (o.origin == me && !o.dead && o.epoch == w.fences[me]) pend = true;
  if (assertion & MPI_MODE_NOPRECEDE) {
    if (pend) fault(RACE, "MPI_MODE_NOPRECEDE though transfers precede");
    w.fences[me]++; w.lastAssert[me] = assertion; takeSnap(w, me);
    if (g_mode.eager && !pend) eager(w);
    maybeSync(c, "MPI_Win_fence");
  } else {
    block("MPI_Win_fence", [&c] { return c.arrived == g_n; });
    // all have arrived: the transfers of this epoch are complete before anyone goes on
    int ep = w.fences[me];
    for (Op& o : w.ops) if (o.epoch <= ep && !o.dead) { move(w, o);
      if (o.moved && !o.put && o.origin == me && memcmp(o.local, o.src.data(), o.len)) fault(RACE, "destination of a pending transfer was modified"); }
    w.fences[me]++; w.lastAssert[me] = assertion; takeSnap(w, me);
    for (size_t i = 0; i < w.ops.size();) { bool old = true; for (int r = 0; r < g_n; ++r) if (w.fences[r] <= w.ops[i].epoch) old = false; if (old && (w.ops[i].moved || w.ops[i].dead)) { w.ops.erase(w.ops.begin() + i); } else ++i; }
  }
  return 0; }
static int unsupported(const char* f) { fatal(USAGE, std::string("unsupported call ") + f); }
int MPI_Win_lock(int, int, int, MPI_Win) { return unsupported("MPI_Win_lock"); } int MPI_Win_unlock(int, MPI_Win) { return unsupported("MPI_Win_unlock"); }
int MPI_Win_lock_all(int, MPI_Win) { return unsupported("MPI_Win_lock_all"); } int MPI_Win_unlock_all(MPI_Win) { return unsupported("MPI_Win_unlock_all"); }
int MPI_Win_flush(int, MPI_Win) { return unsupported("MPI_Win_flush"); } int MPI_Win_flush_all(MPI_Win) { return unsupported("MPI_Win_flush_all"); } int MPI_Win_sync(MPI_Win) { return 0; }
int MPI_Accumulate(const void*, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win) { return unsupported("MPI_Accumulate"); }
int MPI_Get(void* d, int n, MPI_Datatype t, int r, MPI_Aint disp, int m, MPI_Datatype u, MPI_Win w) { rma(false, d, n, t, r, disp, m, u, w); return 0; }
int MPI_Put(const void* d, int n, MPI_Datatype t, int r, MPI_Aint disp, int m, MPI_Datatype u, MPI_Win w) { rma(true, (void*) d, n, t, r, disp, m, u, w); return 0; }
int MPI_Barrier(MPI_Comm c0) { needInit("MPI_Barrier"); comm(c0); point("MPI_Barrier"); Coll& c = enter(0, "MPI_Barrier"); barrier(c, "MPI_Barrier"); return 0; }
static void root(int r) { if (r < 0 || r >= g_n) fatal(USAGE, "root is not a rank"); }
int MPI_Bcast(void* b, int n, MPI_Datatype t, int r, MPI_Comm c0) {
  needInit("MPI_Bcast"); comm(c0); root(r); point("MPI_Bcast"); Coll& c = enter(0, "MPI_Bcast root " + std::to_string(r) + " bytes " + std::to_string(n * tsize(t)));
  if (g_cur == r) { c.data[r].assign((char*) b, (char*) b + n * tsize(t)); maybeSync(c, "MPI_Bcast"); }
  else { block("MPI_Bcast", [&c, r] { return (bool) c.in[r]; }); memcpy(b, c.data[r].data(), c.data[r].size()); R[g_cur]->recv += (long) c.data[r].size(); maybeSync(c, "MPI_Bcast"); }
  return 0; }
int MPI_Reduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, int r, MPI_Comm c0) {
  needInit("MPI_Reduce"); comm(c0); root(r); point("MPI_Reduce");
  Coll& c = enter(0, "MPI_Reduce root " + std::to_string(r) + " count " + std::to_string(n) + " type " + std::to_string(t) + " op " + std::to_string(op));
  const char* p = s == MPI_IN_PLACE ? (const char*) d : (const char*) s; c.data[g_cur].assign(p, p + n * tsize(t));
  if (g_cur != r) { maybeSync(c, "MPI_Reduce"); return 0; }
  barrier(c, "MPI_Reduce"); std::vector<char> acc = c.data[0]; for (int i = 1; i < g_n; ++i) reduce(acc.data(), c.data[i].data(), n, t, op); memcpy(d, acc.data(), acc.size()); R[g_cur]->recv += (long) acc.size() * (g_n - 1); return 0; }
int MPI_Allreduce(const void* s, void* d, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c0) {
  needInit("MPI_Allreduce"); comm(c0); point("MPI_Allreduce"); Coll& c = enter(0, "MPI_Allreduce count " + std::to_string(n) + " type " + std::to_string(t) + " op " + std::to_string(op));
  const char* p = s == MPI_IN_PLACE ? (const char*) d : (const char*) s; c.data[g_cur].assign(p, p + n * tsize(t));
  barrier(c, "MPI_Allreduce"); std::vector<char> acc = c.data[0]; for (int i = 1; i < g_n; ++i) reduce(acc.data(), c.data[i].data(), n, t, op); memcpy(d, acc.data(), acc.size()); R[g_cur]->recv += (long) acc.size() * (g_n - 1); return 0; }
static int gather(const char* f, const void* s, size_t sl, void* d, const std::vector<size_t>& rl, const std::vector<size_t>& off, int r) { // r < 0: all
  std::string fn = f; Coll& c = enter(0, fn + (r >= 0 ? " root " + std::to_string(r) : ""));
  bool isroot = r < 0 || g_cur == r;
  const char* p = s == MPI_IN_PLACE ? (const char*) d + off[g_cur] : (const char*) s; if (s == MPI_IN_PLACE) sl = rl[g_cur];
  c.data[g_cur].assign(p, p + sl);
  if (!isroot) { maybeSync(c, f); return 0; }
  barrier(c, f);
  for (int i = 0; i < g_n; ++i) { if (c.data[i].size() != rl[i]) { fault(USAGE, fn + ": sizes sent and received differ"); } if (i != g_cur) R[g_cur]->recv += (long) rl[i]; if (!(s == MPI_IN_PLACE && i == g_cur)) memcpy((char*) d + off[i], c.data[i].data(), std::min(rl[i], c.data[i].size())); }
  return 0; }
int MPI_Gather(const void* s, int n, MPI_Datatype t, void* d, int m, MPI_Datatype u, int r, MPI_Comm c0) {
  needInit("MPI_Gather"); comm(c0); root(r); point("MPI_Gather"); size_t l = g_cur == r ? m * tsize(u) : 0; std::vector<size_t> rl(g_n, l), off(g_n); for (int i = 0; i < g_n; ++i) off[i] = i * l; return gather("MPI_Gather", s, n * tsize(t), d, rl, off, r); }
int MPI_Gatherv(const void* s, int n, MPI_Datatype t, void* d, const int* m, const int* o, MPI_Datatype u, int r, MPI_Comm c0) {
  needInit("MPI_Gatherv"); comm(c0); root(r); point("MPI_Gatherv"); std::vector<size_t> rl(g_n), off(g_n); if (g_cur == r) for (int i = 0; i < g_n; ++i) { rl[i] = m[i] * tsize(u); off[i] = o[i] * tsize(u); } return gather("MPI_Gatherv", s, n * tsize(t), d, rl, off, r); }
int MPI_Allgather(const void* s, int n, MPI_Datatype t, void* d, int m, MPI_Datatype u, MPI_Comm c0) {
  needInit("MPI_Allgather"); comm(c0); point("MPI_Allgather"); size_t l = m * tsize(u); std::vector<size_t> rl(g_n, l), off(g_n); for (int i = 0; i < g_n; ++i) off[i] = i * l; return gather("MPI_Allgather", s, n * tsize(t), d, rl, off, -1); }
int MPI_Scatter(const void* s, int n, MPI_Datatype t, void* d, int m, MPI_Datatype u, int r, MPI_Comm c0) {
  needInit("MPI_Scatter"); comm(c0); root(r); point("MPI_Scatter"); Coll& c = enter(0, "MPI_Scatter root " + std::to_string(r)); if (g_cur == r) c.data[r].assign((char*) s, (char*) s + g_n * n * tsize(t));
  block("MPI_Scatter", [&c, r] { return (bool) c.in[r]; }); if (d != MPI_IN_PLACE) memcpy(d, c.data[r].data() + g_cur * m * tsize(u), m * tsize(u)); R[g_cur]->recv += (long) (m * tsize(u)); maybeSync(c, "MPI_Scatter"); return 0; }
static Msg* post(const void* b, int n, int t, int dst, int tag) { if (dst < 0 || dst >= g_n) fatal(USAGE, "message to a process that does not exist"); g_msg.emplace_back(new Msg); Msg* m = g_msg.back().get(); m->src = g_cur; m->dst = dst; m->tag = tag; m->data.assign((char*) b, (char*) b + n * tsize(t)); return m; }
static Msg* match(int me, int src, int tag) { for (auto& m : g_msg) if (!m->taken && m->dst == me && (src == MPI_ANY_SOURCE || m->src == src) && (tag == MPI_ANY_TAG || m->tag == tag)) return m.get(); return nullptr; }
int MPI_Send(const void* b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c0) { needInit("MPI_Send"); comm(c0); if (dst == MPI_PROC_NULL) return 0; point("MPI_Send"); Msg* m = post(b, n, t, dst, tag); bool s = g_mode.strong; if (choose(2)) s = !s; if (s) block("MPI_Send", [m] { return m->taken; }); return 0; }
int MPI_Recv(void* b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c0, MPI_Status* st) { needInit("MPI_Recv"); comm(c0); if (src == MPI_PROC_NULL) return 0; point("MPI_Recv"); int me = g_cur; block("MPI_Recv", [me, src, tag] { return match(me, src, tag) != nullptr; }); Msg* m = match(me, src, tag); m->taken = true; if (m->data.size() > n * tsize(t)) fault(USAGE, "message truncated"); memcpy(b, m->data.data(), std::min(m->data.size(), n * tsize(t))); R[g_cur]->recv += (long) m->data.size(); if (st) { st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->MPI_ERROR = 0; st->count_ = (int) m->data.size(); } return 0; }
int MPI_Sendrecv(const void* a, int n, MPI_Datatype t, int dst, int tag, void* b, int m, MPI_Datatype u, int src, int rtag, MPI_Comm c, MPI_Status* st) { needInit("MPI_Sendrecv"); comm(c); if (dst != MPI_PROC_NULL) { point("MPI_Sendrecv"); post(a, n, t, dst, tag); } return MPI_Recv(b, m, u, src, rtag, c, st); }
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*) { return unsupported("MPI_Isend"); } int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*) { return unsupported("MPI_Irecv"); }
int MPI_Wait(MPI_Request*, MPI_Status*) { return 0; } int MPI_Waitall(int, MPI_Request*, MPI_Status*) { return 0; }
int MPI_Type_size(MPI_Datatype t, int* s) { *s = (int) tsize(t); return 0; } int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->count_ / (int) tsize(t); return 0; }
// calls of exit() in the code under test end the rank only
[[noreturn]] void __wrap_exit(int code) { if (g_cur < 0) _exit(code); R[g_cur]->status = code; R[g_cur]->done = true; R[g_cur]->where = "exit"; toMain(); _exit(1); }
}
namespace mpirt {
void run(Shared* sh, int n, Mode m, bool explore, const std::function<int(int)>& body) {
  g_sh = sh; g_mode = m; g_explore = explore; g_n = n; g_body = body; g_cur = -1;
  sh->npoints = 0; sh->outcome = 1469598103934665603ULL;
  static Buf bo(false), be(true);
  std::streambuf* so = std::cout.rdbuf(&bo); std::streambuf* se = std::cerr.rdbuf(&be);
  for (int i = 0; i < n; ++i) {
    R.emplace_back(new Rank); Rank& r = *R.back();
    r.ssize = 1 << 20; r.stack = (char*) mmap(nullptr, r.ssize + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(r.stack, 4096, PROT_NONE); r.stack += 4096;
    getcontext(&r.ctx); r.ctx.uc_stack.ss_sp = r.stack; r.ctx.uc_stack.ss_size = r.ssize; r.ctx.uc_link = nullptr;
    makecontext(&r.ctx, trampoline, 0);
    r.fo.reset(new std::ios(nullptr)); r.fe.reset(new std::ios(nullptr)); r.fo->copyfmt(std::cout); r.fe->copyfmt(std::cerr);
  }
  int last = m.reversed ? 0 : n - 1; // so that the first choice is rank 0 (or n-1)
  bool first = true;
  for (;;) {
    std::vector<int> en;
    for (int k = 0; k < n; ++k) {
      int i = m.reversed ? ((last - k) % n + n) % n : (last + k) % n;
      if (first) i = m.reversed ? n - 1 - k : k;
      Rank& r = *R[i];
      if (!r.done && (!r.blocked || r.cond())) en.push_back(i);
    }
    if (en.empty()) break;
    first = false;
    int i = en[choose((int) en.size())];
    Rank& r = *R[i];
    if (i != last) sh->switches++;
    last = g_cur = i;
    std::cout.copyfmt(*r.fo); std::cerr.copyfmt(*r.fe);
#ifdef MC_ASAN
    __sanitizer_start_switch_fiber(&g_mainfake, r.stack, r.ssize);
#endif
    swapcontext(&g_main, &r.ctx);
#ifdef MC_ASAN
    __sanitizer_finish_switch_fiber(g_mainfake, nullptr, nullptr);
#endif
    r.fo->copyfmt(std::cout); r.fe->copyfmt(std::cerr);
    g_cur = -1;
  }
  std::cout.rdbuf(so); std::cerr.rdbuf(se);
  std::string stuck;
  for (int i = 0; i < n; ++i) if (!R[i]->done) stuck += " rank " + std::to_string(i) + " in " + R[i]->where + ";";
  if (!stuck.empty()) {
    for (int i = 0; i < n; ++i) if (R[i]->done) stuck += " rank " + std::to_string(i) + " has ended;";
    fatal(STUCK, "no process can go on:" + stuck);
  }
  for (int i = 0; i < n; ++i) if (R[i]->inited && !R[i]->finalized) fault(RESOURCE, "rank " + std::to_string(i) + " ends without MPI_Finalize");
  for (auto& w : g_win) for (int i = 0; i < n; ++i) if (w->have[i] && !w->freed[i]) fault(RESOURCE, "rank " + std::to_string(i) + " leaves a window behind");
  for (auto& a : g_alloc) if (!a.second.freed) fault(RESOURCE, "rank " + std::to_string(a.second.owner) + " leaves memory from MPI_Alloc_mem behind");
  for (auto& q : g_msg) if (!q->taken) fault(RESOURCE, "a message is never received");
}
void held(int r, long* bytes, long* blocks) { // what a rank has obtained from MPI and not given back
  for (auto& a : g_alloc) if (!a.second.freed && a.second.owner == r) { *bytes += (long) a.second.n; ++*blocks; }
  for (auto& w : g_win) if (w->have[r] && !w->freed[r]) ++*blocks;
}
static bool runOne(Shared* sh, const std::vector<unsigned char>& prefix, Mode m, double timeout, const std::function<void(Shared*, Mode)>& body, std::string& error) {
  sh->nprefix = (int) prefix.size(); memcpy(sh->prefix, prefix.data(), prefix.size());
  sh->npoints = sh->overflow = sh->diverged = sh->finished = sh->cats = 0; sh->outcome = 0; sh->switches = 0;
  fflush(stdout);
  pid_t p = fork();
  if (p < 0) { error = "fork failed"; return false; }
  if (!p) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = (long) timeout; setitimer(ITIMER_PROF, &it, nullptr);
    alarm((unsigned) (timeout * 20));
    body(sh, m); sh->finished = 1; _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0) {}
  if (sh->overflow) { error = "too many choice points"; return false; }
  if (sh->diverged) { error = "execution diverged while replaying a prefix"; return false; }
  if (!sh->finished) {
    if (WIFEXITED(st) && WEXITSTATUS(st) == 12) { error = "harness error"; return false; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { error = "execution took too long"; return false; }
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { error = "execution was killed"; return false; }
    char b[200];
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) snprintf(b, sizeof b, "no end after %g s of computing", timeout);
    else if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crashes with signal %d", WTERMSIG(st)); else snprintf(b, sizeof b, "ends with status %d (memory error or exit)", WEXITSTATUS(st));
    snprintf(sh->msg[0], 600, "%s", b); sh->cats |= STUCK;
  }
  return true;
}
void explore(Result& r, const std::vector<Mode>& modes, int maxDev, long cap, int mask, double timeout, const std::function<void(Shared*, Mode)>& body) {
  static Shared* sh = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::set<uint64_t> outs;
  for (const Mode& m : modes) {
    std::vector<std::pair<std::vector<unsigned char>, int>> todo(1);
    long n = 0; todo[0].second = 0;
    while (!todo.empty()) {
      if (cap > 0 && n >= cap) { r.capped = true; break; }
      // fewest deviations first
      size_t best = todo.size() - 1;
      auto cur = todo[best]; todo.erase(todo.begin() + best);
      if (!runOne(sh, cur.first, m, timeout, body, r.error)) return;
      ++n; r.executions++; r.points += sh->npoints; r.maxpoints = std::max(r.maxpoints, (long) sh->npoints); outs.insert(sh->outcome);
      if (sh->cats & mask) {
        r.cats |= sh->cats; r.mode = m; r.schedule.assign(cur.first.begin(), cur.first.end());
        for (int c = 0; c < 5; ++c) if ((sh->cats & mask) & (1 << c)) { r.msg = sh->msg[c]; break; }
        r.outcomes.assign(outs.begin(), outs.end());
        // the same schedule must fail again
        Shared keep = *sh; (void) keep;
        int cats = sh->cats; if (!runOne(sh, cur.first, m, timeout * 3, body, r.error)) return;
        if ((sh->cats & mask) == 0) { r.error = "failure does not replay: " + r.msg; }
        (void) cats;
        return;
      }
      if (n == 1) { // own every source of nondeterminism: the same choices give the same execution
        uint64_t o = sh->outcome; int np = sh->npoints;
        if (!runOne(sh, cur.first, m, timeout, body, r.error)) return;
        if (o != sh->outcome || np != sh->npoints) { r.error = "execution is not determined by its choices"; return; }
      }
      if (cur.second < maxDev)
        for (int i = (int) cur.first.size(); i < sh->npoints; ++i)
          for (int a = 1; a < sh->nalt[i]; ++a) {
            std::vector<unsigned char> p(sh->taken, sh->taken + i); p.push_back((unsigned char) a);
            todo.emplace_back(std::move(p), cur.second + 1);
          }
    }
  }
  r.outcomes.assign(outs.begin(), outs.end());
}
}
