#include "omprt.h"
#include <sys/mman.h>
#include <link.h>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <map>
#include <deque>
#include <memory>
#include <unordered_set>
#include <unistd.h>
#include <algorithm>
namespace omprt {
// ---- context switch
extern "C" void mc_switch(void** save, void* to);
asm(".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
    "push %rbp\npush %rbx\npush %r12\npush %r13\npush %r14\npush %r15\nmov %rsp,(%rdi)\nmov %rsi,%rsp\n"
    "pop %r15\npop %r14\npop %r13\npop %r12\npop %rbx\npop %rbp\nret\n.size mc_switch,.-mc_switch\n");

struct Task { std::function<void()> run; int parent; struct Group* group; int* pending; uint32_t vc[MAXT]; std::vector<char> data; int creator; };
struct Group { int pending = 0; Group* up = nullptr; };
struct Work { // one work-sharing construct met by the team
  bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; bool guided = false; int done = 0; int single = -1; void* copy = nullptr; int sect = 0, nsect = 0; bool copyReady = false;
  long ordNext = 0; // next iteration allowed into an ordered section
};
struct Thread {
  void* sp = nullptr; char* stack = nullptr; bool live = false, blocked = false; std::function<bool()> cond; const char* where = "";
  void (*fn)(void*) = nullptr; void* data = nullptr; std::vector<char> tls; bool tlsInit = false;
  uint32_t vc[MAXT]; int wsIndex = 0; long ordLo = 0, ordHi = 0; Work* ws = nullptr; int level = 0; int pendingChildren = 0; int* curPending = nullptr; Group* group = nullptr;
  long burst = 0, quiet = 0; void* lastPc = nullptr; int same = 0;
};
static const size_t STK = 4 << 20;
static Thread T[MAXT]; static int g_cur = -1; static void* g_mainsp; static std::vector<char> g_maintls;
static Config g_cfg; static Mode g_mode; static Grain g_grain; static bool g_in = false;
// team
static int g_n = 1; static bool g_active = false; static int g_arrived = 0; static long g_gen = 0; static std::vector<std::unique_ptr<Work>> g_work; static uint32_t g_bvc[MAXT]; static int g_alive = 0;
static std::deque<Task*> g_tasks; static int g_running = 0;
static std::map<void*, int> g_lock; static std::map<void*, std::vector<uint32_t>> g_lockvc;
static int g_nthreadsVar = 0; static int g_team = 0, g_nteams = 1; static bool g_onDevice = false;
// choices
static std::vector<unsigned char> g_nalt; static std::map<int, int> g_dev; static long g_sw = 0, g_acc = 0; static bool g_over = false; static std::string g_fault; static bool g_abort = false;
static const int MAXP = 60000;
static std::unordered_set<void*> g_points; static std::set<void*> g_racy, g_shared;
bool inside() { return g_in; }
static int choose(int n) {
  if (n < 2) return 0;
  int p = (int) g_nalt.size();
  if (p >= MAXP) { g_over = true; return 0; }
  g_nalt.push_back((unsigned char) std::min(n, 255));
  auto i = g_dev.find(p); int c = i == g_dev.end() ? 0 : i->second;
  return c < n ? c : 0;
}
// ---- thread-local storage of the program
static char* g_tlsAddr = nullptr; static size_t g_tlsSize = 0; static std::vector<char> g_tlsImg;
static int tlsCb(dl_phdr_info* info, size_t, void*) {
  for (int i = 0; i < info->dlpi_phnum; ++i) { auto& p = info->dlpi_phdr[i]; if (p.p_type == PT_TLS) {
      size_t al = p.p_align ? p.p_align : 1, off = (p.p_memsz + al - 1) / al * al; g_tlsSize = p.p_memsz; g_tlsAddr = (char*) __builtin_thread_pointer() - off;
      g_tlsImg.assign(p.p_memsz, 0); memcpy(g_tlsImg.data(), (char*) info->dlpi_addr + p.p_vaddr, p.p_filesz); } }
  return 1; // only the program itself
}
// ---- memory accesses
struct Cell { uintptr_t key; uint32_t gen; short wt; uint32_t wc; void* wpc; uint64_t rmask[(MAXT + 63) / 64]; };
struct Read { void* pc; uint32_t c; }; static Read* g_reads; static size_t g_stride = MAXT; // the last read of each thread, per cell
static const size_t NCELL = 1 << 17; static Cell* g_cells; static uint32_t g_cgen = 1; static size_t g_ncells = 0; static bool g_full = false;
static Cell* cell(uintptr_t k) {
  size_t h = (k * 0x9E3779B97F4A7C15ULL) >> 47;
  for (;;) {
    Cell& c = g_cells[h & (NCELL - 1)];
    if (c.gen != g_cgen) { if (g_ncells > NCELL / 2) { g_full = true; return nullptr; } ++g_ncells; c.gen = g_cgen; c.key = k; c.wt = -1; for (auto& m : c.rmask) m = 0; return &c; }
    if (c.key == k) return &c;
    ++h;
  }
}
static void point(bool sync, void* pc = nullptr);
static void deviceCheck(uintptr_t a, size_t n, bool w, void* pc);
long* g_load = nullptr;
static void access(void* addr, size_t n, bool w, void* pc) {
  if (g_load && g_cur >= 0) ++g_load[(g_team & 15) * MAXT + g_cur];
  if (g_onDevice) deviceCheck((uintptr_t) addr, n, w, pc);
  if (!g_active) return;
  ++g_acc;
  if (!g_points.empty() && g_points.count(pc)) point(false, pc);
  else if (++T[g_cur].quiet > 1000000) { T[g_cur].quiet = 0; T[g_cur].burst = 4000; point(false); }
  Thread& t = T[g_cur];
  for (uintptr_t k = (uintptr_t) addr >> 2; k <= ((uintptr_t) addr + n - 1) >> 2; ++k) {
    Cell* c = cell(k); if (!c) return;
    Read* rd = g_reads + (c - g_cells) * g_stride;
    if (c->wt >= 0 && c->wt != g_cur) {
      g_shared.insert(pc); g_shared.insert(c->wpc);
      if (c->wc > t.vc[c->wt]) { g_racy.insert(pc); g_racy.insert(c->wpc); }
    }
    if (w) {
      c->rmask[g_cur / 64] &= ~(1ull << g_cur % 64);
      for (int q = 0; q < (MAXT + 63) / 64; ++q) for (uint64_t m = c->rmask[q]; m; m &= m - 1) { int i = 64 * q + __builtin_ctzll(m); g_shared.insert(pc); g_shared.insert(rd[i].pc); if (rd[i].c > t.vc[i]) { g_racy.insert(pc); g_racy.insert(rd[i].pc); } }
      c->wt = (short) g_cur; c->wc = t.vc[g_cur]; c->wpc = pc; for (auto& m : c->rmask) m = 0;
    } else { c->rmask[g_cur / 64] |= 1ull << g_cur % 64; rd[g_cur] = {pc, t.vc[g_cur]}; }
  }
}
static int g_hi = 1; // the largest team so far
static void join(uint32_t* a, const uint32_t* b) { for (int i = 0; i < g_hi; ++i) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(void* l) { auto i = g_lockvc.find(l); if (i != g_lockvc.end()) join(T[g_cur].vc, i->second.data()); }
static void release(void* l) { auto& v = g_lockvc[l]; if (v.empty()) v.assign(MAXT, 0); join(v.data(), T[g_cur].vc); T[g_cur].vc[g_cur]++; }
// ---- scheduling
static void saveTls(std::vector<char>& v) { if (g_tlsSize) { v.resize(g_tlsSize); memcpy(v.data(), g_tlsAddr, g_tlsSize); } }
static void loadTls(std::vector<char>& v) { if (g_tlsSize && !v.empty()) memcpy(g_tlsAddr, v.data(), g_tlsSize); }
static void toMain() { void** s = g_cur < 0 ? nullptr : &T[g_cur].sp; saveTls(T[g_cur].tls); loadTls(g_maintls); mc_switch(s, g_mainsp); }
static void switchTo(int i) {
  if (i == g_cur) return;
  ++g_sw; int o = g_cur; saveTls(T[o].tls); g_cur = i; T[i].burst = T[i].quiet = 0; T[i].same = 0; loadTls(T[i].tls);
  mc_switch(&T[o].sp, T[i].sp);
}
[[noreturn]] static void fault(const std::string& m) { if (g_fault.empty()) g_fault = m; g_abort = true; toMain(); abort(); }
static bool canRun(int i) { Thread& t = T[i]; return t.live && (!t.blocked || t.cond()); }
// picks who runs next; the default is the thread itself when it can go on
static void pick(bool self, bool sync) {
  int en[MAXT], n = 0; bool robin = sync && g_mode.robin;
  for (int k = 0; k < g_n; ++k) {
    int i = g_mode.reversed ? ((g_cur - k) % g_n + g_n) % g_n : (g_cur + k) % g_n;
    if (i == g_cur) continue;
    if (canRun(i)) en[n++] = i;
  }
  bool me = self && canRun(g_cur);
  if (me) { if (robin) en[n++] = g_cur; else { for (int k = n; k > 0; --k) en[k] = en[k-1]; en[0] = g_cur; ++n; } }
  if (!n) {
    std::string s = "deadlock:"; for (int i = 0; i < g_n; ++i) if (T[i].live) s += " thread " + std::to_string(i) + " in " + T[i].where + ";";
    fault(s);
  }
  switchTo(en[choose(n)]);
}
// a scheduling point; pc tells where, to notice a thread that waits by looking at memory
static void point(bool sync, void* pc) {
  if (!g_active) return;
  Thread& t = T[g_cur]; ++t.burst;
  if (pc && pc == t.lastPc) ++t.same; else { t.same = 0; t.lastPc = pc; }
  if (t.same > 40 || t.burst > 3000) { // let the others go on; not a choice
    t.burst = 0; t.same = 0;
    for (int k = 1; k < g_n; ++k) { int i = (g_cur + k) % g_n; if (canRun(i)) { switchTo(i); return; } }
    return;
  }
  pick(true, sync);
}
static bool runTask();
static void block(const char* where, std::function<bool()> c) {
  Thread& t = T[g_cur]; t.where = where;
  if (c()) return;
  if (!g_active) fault(std::string("deadlock: the only thread waits in ") + where);
  t.cond = std::move(c); t.blocked = true; pick(false, true); t.blocked = false; t.cond = nullptr;
}
// waits until c() holds, running tasks meanwhile
static void waitTasks(const char* where, const std::function<bool()>& c) {
  for (;;) {
    if (c()) return;
    if (!g_tasks.empty()) { runTask(); continue; }
    block(where, [c] { return c() || !g_tasks.empty(); });
  }
}
static void exec(Task* k) {
  Thread& t = T[g_cur]; int* op = t.curPending; Group* og = t.group; t.curPending = new int(0); t.group = k->group;
  Work* ow = t.ws; join(t.vc, k->vc); ++g_running;
  k->run();
  --g_running; t.curPending = op; t.group = og; t.ws = ow; t.vc[g_cur]++;
  join(g_bvc, t.vc);
  if (k->pending) --*k->pending;
  for (Group* g = k->group; g; g = g->up) --g->pending;
  release(k->pending); 
  delete k;
}
static bool runTask() {
  if (g_load) point(true); // whose share it becomes: everybody takes turns
  if (g_tasks.empty()) return true;
  int c = choose((int) std::min<size_t>(g_tasks.size(), 8));
  Task* k = g_tasks[c]; g_tasks.erase(g_tasks.begin() + c);
  exec(k); return true;
}
static void trampoline() {
  for (;;) {
    Thread& t = T[g_cur];
    t.fn(t.data);
    extern void teamEnd(); teamEnd();
    // thread other than the initial one: over until the next region
    t.live = false; --g_alive;
    pick(false, true);
  }
}
void barrier(const char* where) {
  if (!g_active) { while (!g_tasks.empty()) runTask(); return; }
  Thread& t = T[g_cur];
  point(true);
  long gen = g_gen; join(g_bvc, t.vc); ++g_arrived;
  auto over = [gen] { return g_gen != gen; };
  for (;;) {
    if (g_arrived == g_n && g_tasks.empty() && !g_running && g_gen == gen) { g_arrived = 0; ++g_gen; }
    if (over()) break;
    if (!g_tasks.empty()) { runTask(); continue; }
    block(where, [over] { return over() || !g_tasks.empty() || (g_arrived == g_n && !g_running); });
  }
  join(t.vc, g_bvc); t.vc[g_cur]++;
}
void teamEnd() { barrier("the barrier at the end of the region"); }
static void prepStack(Thread& t) {
  if (!t.stack) { t.stack = (char*) mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); mprotect(t.stack, 4096, PROT_NONE); }
  void** s = (void**) (t.stack + STK - 64); *--s = nullptr; *--s = (void*) trampoline; for (int i = 0; i < 6; ++i) *--s = nullptr;
  t.sp = s;
}
static void parallel(void (*fn)(void*), void* data, unsigned want) {
  int n = want ? (int) want : g_nthreadsVar ? g_nthreadsVar : g_cfg.threads;
  if (n > MAXT) n = MAXT;
  g_hi = std::max(g_hi, n);
  if (g_active || n == 1) { // nested or alone: a team of one
    Thread& t = T[g_cur]; t.level++; int on = g_n; bool oa = g_active; Work* ow = t.ws; int oi = t.wsIndex; std::vector<std::unique_ptr<Work>> keep; keep.swap(g_work);
    // a nested team must not be interleaved with the outer one through these globals: it runs without switches
    g_active = false; g_n = 1; t.wsIndex = 0;
    int c = g_cur; int lvl = t.level; (void) lvl;
    fn(data); while (!g_tasks.empty() && !oa) runTask();
    g_cur = c; g_active = oa; g_n = on; t.ws = ow; t.wsIndex = oi; keep.swap(g_work); t.level--; return;
  }
  g_n = n; g_arrived = 0; g_work.clear(); g_lockvc.clear(); memset(g_bvc, 0, g_hi * sizeof g_bvc[0]);
  if (++g_cgen == 0) { memset(g_cells, 0, sizeof(Cell) * NCELL); g_cgen = 1; } g_ncells = 0; g_stride = n <= 4 ? 4 : n <= 16 ? 16 : MAXT;
  for (int i = 0; i < n; ++i) {
    Thread& t = T[i]; memset(t.vc, 0, g_hi * sizeof t.vc[0]); t.vc[i] = 1; t.wsIndex = 0; t.ws = nullptr; t.blocked = false; t.level = 1; t.curPending = &t.pendingChildren; t.pendingChildren = 0; t.group = nullptr; t.burst = 0;
    if (i) { t.fn = fn; t.data = data; t.live = true; prepStack(t); if (g_tlsSize && t.tls.empty()) t.tls = g_tlsImg; }
  }
  g_alive = n; g_active = true;
  if (g_mode.reversed) { T[0].where = "start of the region"; int en[MAXT], k = 0; for (int i = n - 1; i >= 0; --i) en[k++] = i; switchTo(en[choose(k)]); }
  else point(true);
  fn(data);
  teamEnd();
  // the others leave first
  while (g_alive > 1) { T[0].where = "end of the region"; block("the end of the region", [] { return g_alive <= 1; }); }
  g_active = false; g_n = 1; T[0].level = 0;
}
static Work& work() { // the construct the thread is entering
  Thread& t = T[g_cur]; int k = t.wsIndex++;
  while ((int) g_work.size() <= k) g_work.emplace_back(new Work);
  t.ws = g_work[k].get(); return *t.ws;
}
static bool next(long* a, long* b) {
  point(true);
  Work& w = *T[g_cur].ws; long left = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
  if (left <= 0) return false;
  long c = w.chunk < 1 ? 1 : w.chunk; if (w.guided) { long q = (left + g_n - 1) / g_n; if (q > c) c = q; } if (c > left) c = left;
  *a = w.next; w.next += c * w.incr; *b = w.next; T[g_cur].ordLo = *a; T[g_cur].ordHi = *b;
  return true;
}
static bool loopStart(long s, long e, long inc, long ch, bool guided, long* a, long* b) {
  Work& w = work(); if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = ch; w.guided = guided; w.ordNext = s; }
  return next(a, b);
}
// chunks handed out in advance, one round after the other
static bool staticStart(long s, long e, long inc, long ch, long* a, long* b) {
  Work& w = work(); w.init = true; w.next = s; w.end = e; w.incr = inc; w.chunk = ch; w.ordNext = w.ordNext ? w.ordNext : s;
  T[g_cur].ordLo = -1; T[g_cur].ordHi = 0; // round
  extern bool staticNext(long*, long*); return staticNext(a, b);
}
bool staticNext(long* a, long* b) {
  point(true);
  Thread& t = T[g_cur]; Work& w = *t.ws; long tot = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr; if (tot <= 0) return false;
  long ch = w.chunk; if (ch <= 0) { ch = (tot + g_n - 1) / g_n; }
  ++t.ordLo; long i0 = (t.ordLo * g_n + g_cur) * ch; if (i0 >= tot) return false; long i1 = std::min(tot, i0 + ch);
  *a = w.next + i0 * w.incr; *b = w.next + i1 * w.incr; return true;
}
static void lockIt(void* l, const char* w) { point(true); block(w, [l] { return g_lock[l] == 0; }); g_lock[l] = g_cur + 1; acquire(l); }
static void unlockIt(void* l) { release(l); g_lock[l] = 0; point(true); }
static void addTask(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool ifc, unsigned flags) {
  Thread& t = T[g_cur];
  std::unique_ptr<Task> k(new Task); k->data.resize(size + align + 16); char* p = (char*) (((uintptr_t) k->data.data() + align - 1) / std::max(1L, align) * std::max(1L, align));
  if (align <= 0) p = k->data.data();
  if (cpy) cpy(p, data); else if (size) memcpy(p, data, size);
  k->run = [fn, p] { fn(p); }; k->group = t.group; k->pending = t.curPending ? t.curPending : &t.pendingChildren; ++*k->pending; for (Group* g = k->group; g; g = g->up) ++g->pending;
  memcpy(k->vc, t.vc, sizeof k->vc); t.vc[g_cur]++;
  bool now = !ifc || !g_active;
  if (!now && !g_mode.lazy && choose(2)) now = true; // executed at once
  if (now) { exec(k.release()); return; }
  g_tasks.push_back(k.release()); if (!g_load) point(true); (void) flags;
}
static void taskwait() { Thread& t = T[g_cur]; int* p = t.curPending ? t.curPending : &t.pendingChildren; point(true); waitTasks("taskwait", [p] { return *p == 0; }); acquire(p); }
// ---- the device
struct Map { char* host; size_t n; char* dev; int ref; bool link; };
static std::map<char*, Map> g_maps; // by host address
static std::map<char*, size_t> g_devmem; static long g_mapped = 0;
static std::vector<std::function<void()>> g_later; // target tasks not carried out yet
static std::map<size_t, std::vector<char*>> g_devfree; // memory between guard pages, kept for the next run
static char* devAlloc(size_t n) { size_t m = (n + 4095) / 4096 * 4096 + 8192; char* p; auto& fr = g_devfree[m];
  if (fr.empty()) { p = (char*) mmap(nullptr, m, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p, 4096, PROT_NONE); mprotect(p + m - 4096, 4096, PROT_NONE); } else { p = fr.back(); fr.pop_back(); }
  char* d = p + m - 4096 - (n + 15) / 16 * 16; static const uint64_t NB = 0x7ff8dead5eed5eedULL; for (size_t i = 0; i < n; ++i) d[i] = ((const char*) &NB)[i % 8]; g_devmem[d] = n; return d; }
static void devFree(char* d) { size_t n = g_devmem[d]; size_t m = (n + 4095) / 4096 * 4096 + 8192; memset(d, 0xff, n); g_devfree[m].push_back(d + (n + 15) / 16 * 16 + 4096 - m); g_devmem.erase(d); }
static Map* findMap(char* h, size_t n) {
  auto i = g_maps.upper_bound(h); if (i == g_maps.begin()) return nullptr; --i; Map& m = i->second;
  if (h >= m.host && h + n <= m.host + m.n && (n || h < m.host + m.n || h == m.host)) return &m;
  return nullptr;
}
static bool overlaps(char* h, size_t n) { for (auto& m : g_maps) if (h < m.second.host + m.second.n && m.second.host < h + n) return true; return false; }
static char* g_kernelFrame = nullptr;
extern "C" char __executable_start, end;
static void deviceCheck(uintptr_t a, size_t n, bool w, void*) {
  char* p = (char*) a;
  for (int i = 0; i < g_hi; ++i) if (T[i].stack && p >= T[i].stack && p < T[i].stack + STK) {
    // the kernel's own frames are private memory of the device, what lies above them belongs to the host
    if (i == 0 && p >= g_kernelFrame) fault(std::string("a kernel ") + (w ? "writes" : "reads") + " a variable of the host that is not mapped");
    return; }
  auto i = g_devmem.upper_bound(p); if (i != g_devmem.begin()) { --i; if (p + n <= i->first + i->second) return; }
  if (p >= &__executable_start && p < &end) return; // constants and variables declared for the target
  fault(std::string("a kernel ") + (w ? "writes" : "reads") + " host memory that is not mapped");
}
static int kindOf(unsigned short k) { k &= 0xff; return (k & 0xe0) == 0x60 ? k & ~0x60 : k; } // without the mark for implicit mappings
struct Entry { Map* m; char* host; size_t n; int kind; bool release; bool force; };
typedef std::vector<Entry> Region;
static std::vector<Region> g_regions;
static Map* newMap(char* h, size_t n) { Map m; m.host = h; m.n = n; m.dev = devAlloc(n); m.ref = 1; m.link = false; ++g_mapped; return &(g_maps[h] = m); }
static void setPointer(char* hostPtrAt, char* devPtrAt, size_t bias) {
  char* v = *(char**) hostPtrAt; char* d = nullptr;
  if (v) { Map* m = findMap(v + bias, 0); d = m ? m->dev + (v + bias - m->host) - bias : v; }
  *(char**) devPtrAt = d;
}
static void mapAll(size_t num, void** host, size_t* sizes, unsigned short* kinds, Region& r, std::vector<void*>* dev) {
  if (dev) dev->assign(num, nullptr);
  std::vector<std::pair<size_t, Map*>> later; // pointers to set once everything is mapped
  size_t structEnd = 0; Map* structMap = nullptr; bool structNew = false;
  for (size_t i = 0; i < num; ++i) {
    int k = kindOf(kinds[i]); char* h = (char*) host[i]; size_t n = sizes[i];
    auto out = [&](void* d) { if (dev) (*dev)[i] = d; };
    if (k == 12) { char* d = devAlloc(n); memcpy(d, h, n); out(d); r.push_back({nullptr, d, n, 12, true, false}); continue; }
    if (k == 13) { out(h); continue; }
    if (!h) { out(nullptr); continue; }
    if (k == 15 || k == 11) { Map* m = findMap(h, k == 11 ? n : 0); if (m) { if (k == 15) { m->ref++; r.push_back({m, h, 0, 0, true, false}); } out(m->dev + (h - m->host)); } else out(h); continue; }
    if (k == 8) { out(h); continue; }
    if (k == 14) { Map* m = findMap(h, 0); host[i] = m ? m->dev + (h - m->host) : h; out(host[i]); continue; }
    if (k == 28) { // structure: n members follow
      char* last = (char*) host[i + n]; size_t tot = last - h + std::max<size_t>(8, sizes[i + n]);
      Map* m = findMap(h, tot); structNew = !m; if (!m) { if (overlaps(h, tot)) fault("a structure is mapped in two different ways"); m = newMap(h, tot); } else m->ref++;
      r.push_back({m, h, tot, 0, true, false}); out(m->dev + (h - m->host)); structEnd = i + n; structMap = m; continue;
    }
    if (k == 4 || k == 29 || k == 30 || (k & 0xf8) == 0x50) { if (k == 4 && !findMap(h, 8)) { if (overlaps(h, 8)) fault("part of an object is mapped twice"); Map* m = newMap(h, 8); r.push_back({m, h, 8, 0, true, false}); out(m->dev); later.push_back({i, m}); } else if (Map* m = findMap(h, 8)) { out(m->dev + (h - m->host)); later.push_back({i, m}); } continue; }
    int base = k & 0x7f; bool always = (k & 0x90) == 0x10 && (k & 0xf) < 4, force = false; if (base == 5) base = 1;
    if (base == 6) base = 0x60;
    if (base > 15 && always) base = k & 3;
    if (base != 0x60 && base > 3) { fprintf(stderr, "omprt: mapping kind %d is not supported\n", k); _exit(12); }
    Map* m = findMap(h, n);
    bool fresh = false;
    if (!m) { if (base == 0x60) fault("data declared present is not on the device"); if (overlaps(h, n)) fault("part of an array is mapped twice in different ways"); m = newMap(h, n); fresh = true; }
    else if (!(structMap && structNew && i <= structEnd)) m->ref++; else m->ref++;
    if (structMap && structNew && i <= structEnd && m == structMap) { fresh = true; force = true; }
    if (k == 5) { if (fresh || true) memcpy(m->dev + (h - m->host), h, n); } else if ((fresh || always) && base != 0x60 && (base & 1)) memcpy(m->dev + (h - m->host), h, n);
    r.push_back({m, h, n, base == 0x60 || k == 5 ? 0 : base, true, force || always}); out(m->dev + (h - m->host));
  }
  for (auto& l : later) { char* h = (char*) host[l.first]; setPointer(h, l.second->dev + (h - l.second->host), sizes[l.first]); }
}
static void drop(Map* m) { devFree(m->dev); g_maps.erase(m->host); }
static void unmapAll(Region& r) {
  // what goes back to the host goes back before anything is released
  std::map<Map*, int> refs; for (auto& e : r) if (e.m) refs[e.m]++;
  for (auto& e : r) if (e.m && (e.kind & 2) && (e.force || e.m->ref == refs[e.m])) memcpy(e.host, e.m->dev + (e.host - e.m->host), e.n);
  std::vector<Map*> dead;
  for (auto& e : r) { if (!e.m) { devFree(e.host); continue; } if (--e.m->ref == 0) dead.push_back(e.m); }
  for (Map* m : dead) drop(m);
  r.clear();
}
static void kernel(void (*fn)(void*), size_t num, void** host, size_t* sizes, unsigned short* kinds) {
  Region r; std::vector<void*> dev; mapAll(num, host, sizes, kinds, r, &dev);
  char* ok = g_kernelFrame; bool od = g_onDevice; g_kernelFrame = (char*) __builtin_frame_address(0); g_onDevice = true;
  char* args = devAlloc(num * 8 + 8); memcpy(args, dev.data(), num * 8);
  fn(args);
  devFree(args); g_onDevice = od; g_kernelFrame = ok;
  unmapAll(r);
}
static void drain() { auto l = std::move(g_later); g_later.clear(); for (auto& f : l) f(); }
static void launch(void (*fn)(void*), size_t num, void** host, size_t* sizes, unsigned short* kinds, bool nowait) {
  if (nowait) {
    bool later = g_mode.lazy; if (choose(2)) later = !later;
    if (later) {
      auto h = std::make_shared<std::vector<void*>>(host, host + num); auto s = std::make_shared<std::vector<size_t>>(sizes, sizes + num); auto k = std::make_shared<std::vector<unsigned short>>(kinds, kinds + num);
      auto keep = std::make_shared<std::vector<std::vector<char>>>();
      for (size_t i = 0; i < num; ++i) if ((kindOf(kinds[i])) == 12) { keep->emplace_back((char*) host[i], (char*) host[i] + sizes[i]); (*h)[i] = keep->back().data(); }
      g_later.push_back([=] { kernel(fn, num, h->data(), s->data(), k->data()); });
      return;
    }
  }
  kernel(fn, num, host, sizes, kinds);
}
static void update(size_t num, void** host, size_t* sizes, unsigned short* kinds) {
  for (size_t i = 0; i < num; ++i) { int k = kindOf(kinds[i]); char* h = (char*) host[i]; if (k == 4 || k == 5 || k == 28 || k == 29 || !h) continue; Map* m = findMap(h, sizes[i]); if (!m) continue; char* d = m->dev + (h - m->host); if (k & 1) memcpy(d, h, sizes[i]); else if (k & 2) memcpy(h, d, sizes[i]); }
}
static void enterData(size_t num, void** host, size_t* sizes, unsigned short* kinds) { Region r; mapAll(num, host, sizes, kinds, r, nullptr); }
static void exitData(size_t num, void** host, size_t* sizes, unsigned short* kinds) {
  for (size_t i = 0; i < num; ++i) { int k = kindOf(kinds[i]); char* h = (char*) host[i]; Map* m = h ? findMap(h, k == 31 || k == 15 ? 0 : sizes[i]) : nullptr; if (!m) continue;
    if (k == 4 || k == 5 || k == 28 || k == 29) continue;
    if (k == 7 || k == 31) m->ref = 1;
    if (m->ref == 1 && (k & 3) == 2 && k < 4) memcpy(h, m->dev + (h - m->host), sizes[i]);
    if ((k & 0xf7) == 0x82) memcpy(h, m->dev + (h - m->host), sizes[i]);
    if (--m->ref == 0) drop(m); }
}
// ---- the explorer
static std::function<void()> g_body; static bool g_done;
static void entry(void*) { g_body(); g_done = true; toMain(); abort(); }
static void reset() {
  for (int i = 0; i < g_hi; ++i) { Thread& t = T[i]; t.live = t.blocked = false; t.cond = nullptr; t.level = 0; t.pendingChildren = 0; t.curPending = nullptr; t.group = nullptr; t.tls.clear(); }
}
static void once(const std::map<int, int>& dev) {
  g_dev = dev; g_nalt.clear(); g_done = false; g_active = false; g_n = 1; g_nthreadsVar = 0; g_tasks.clear(); g_running = 0; g_lock.clear(); g_lockvc.clear(); g_team = 0; g_nteams = 1; g_onDevice = false; g_later.clear();
  for (auto& d : std::map<char*, size_t>(g_devmem)) devFree(d.first);
  g_maps.clear(); g_regions.clear(); g_alive = 1;
  reset();
  T[0].live = true; T[0].fn = entry; prepStack(T[0]); saveTls(g_maintls); T[0].tls = g_maintls;
  g_in = true; g_cur = 0; mc_switch(&g_mainsp, T[0].sp); g_in = g_active = g_onDevice = false; g_n = 1; g_cur = -1;
}
static std::string text(const std::map<int, int>& dev) { std::string s = std::string(g_mode.reversed ? "last thread first" : "first thread first") + (g_mode.robin ? ", taking turns" : "") + (g_mode.lazy ? ", deferring" : ""); for (auto& d : dev) s += ", at switch point " + std::to_string(d.first) + " choice " + std::to_string(d.second); return s; }
void explore(Result& r, const Config& c, const std::vector<Mode>& modes, Grain g, int maxDev, long cap, const std::function<void()>& body, const std::function<std::string()>& after) {
  g_hi = MAXT; reset(); g_hi = 1;
  if (!g_cells) { g_cells = (Cell*) mmap(nullptr, sizeof(Cell) * NCELL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); g_reads = (Read*) mmap(nullptr, sizeof(Read) * NCELL * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); dl_iterate_phdr(tlsCb, nullptr); }
  g_cfg = c; g_grain = g; g_body = body; g_points.clear(); g_racy.clear(); g_shared.clear(); g_fault.clear(); g_over = g_full = false;
  bool stop = false;
  auto run = [&](const std::map<int, int>& dev) -> std::vector<unsigned char> {
    long a0 = g_acc, s0 = g_sw;
    once(dev); r.executions++; r.points += g_nalt.size(); r.maxpoints = std::max<long>(r.maxpoints, g_nalt.size()); r.accesses += g_acc - a0; r.switches += g_sw - s0;
    std::vector<unsigned char> alt = g_nalt;
    if (!g_fault.empty()) { r.error = g_fault; r.schedule = text(dev); stop = true; return alt; }
    std::string e = after(); if (!e.empty()) { r.error = e; r.schedule = text(dev); stop = true; }
    return alt;
  };
  auto learn = [&] { bool more = false; auto& s = g == SHARED ? g_shared : g_racy; if (g != SYNC) for (void* p : s) if (g_points.insert(p).second) more = true; return more; };
  bool again = true;
  while (again && !stop) {
    again = false; long budget = cap;
    for (auto& m : modes) {
      g_mode = m;
      std::function<void(const std::map<int, int>&, int, int)> rec = [&](const std::map<int, int>& dev, int from, int left) {
        if (stop || again) return;
        if (--budget < 0) { r.capped = true; return; }
        std::vector<unsigned char> alt = run(dev);
        if (stop) return;
        if (learn()) { again = true; r.restarts++; return; }
        if (!left) return;
        for (int p = from; p < (int) alt.size() && budget >= 0; ++p) for (int a = 1; a < alt[p]; ++a) { auto d = dev; d[p] = a; rec(d, p + 1, left - 1); if (stop || again) return; }
      };
      rec({}, 0, maxDev);
      if (stop || again) break;
    }
  }
  if (g_over || g_full) r.capped = true;
  r.racy = std::max(r.racy, g_racy.size()); r.shared = std::max(r.shared, g_shared.size());
}
}
using namespace omprt;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false, PC); } void __tsan_write##n(void* a) { access(a, n, true, PC); } void __tsan_unaligned_read##n(void* a) { access(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { access(a, n, true, PC); } void __tsan_read##n##_pc(void* a, void*) { access(a, n, false, PC); } void __tsan_write##n##_pc(void* a, void*) { access(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, long n) { if (n > 0) access(a, n, false, PC); } void __tsan_write_range(void* a, long n) { if (n > 0) access(a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true, PC); } void __tsan_vptr_read(void** a) { access(a, 8, false, PC); }
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (n && (g_active || g_onDevice)) { access((void*) s, n, false, PC); access(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (n && (g_active || g_onDevice)) { access((void*) s, n, false, PC); access(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (n && (g_active || g_onDevice)) access(d, n, true, PC); return __real_memset(d, c, n); }
#define AT(b, ty) \
 ty __tsan_atomic##b##_load(const volatile ty* a, int) { point(true, PC); if (g_active) acquire((void*) a); return *a; } \
 void __tsan_atomic##b##_store(volatile ty* a, ty v, int) { point(true, PC); if (g_active) release((void*) a); *a = v; } \
 ty __tsan_atomic##b##_exchange(volatile ty* a, ty v, int) { point(true, PC); if (g_active) { acquire((void*) a); release((void*) a); } ty o = *a; *a = v; return o; } \
 ty __tsan_atomic##b##_fetch_add(volatile ty* a, ty v, int) { point(true, PC); if (g_active) { acquire((void*) a); release((void*) a); } ty o = *a; *a = o + v; return o; } \
 ty __tsan_atomic##b##_fetch_sub(volatile ty* a, ty v, int) { point(true, PC); if (g_active) { acquire((void*) a); release((void*) a); } ty o = *a; *a = o - v; return o; } \
 ty __tsan_atomic##b##_fetch_and(volatile ty* a, ty v, int) { point(true, PC); if (g_active) { acquire((void*) a); release((void*) a); } ty o = *a; *a = o & v; return o; } \
 ty __tsan_atomic##b##_fetch_or(volatile ty* a, ty v, int) { point(true, PC); if (g_active) { acquire((void*) a); release((void*) a); } ty o = *a; *a = o | v; return o; } \
 ty __tsan_atomic##b##_fetch_xor(volatile ty* a, ty v, int) { point(true, PC); if (g_active) { acquire((void*) a); release((void*) a); } ty o = *a; *a = o ^ v; return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile ty* a, ty* e, ty v, int, int) { point(true, PC); if (g_active) { acquire((void*) a); release((void*) a); } if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile ty* a, ty* e, ty v, int x, int y) { return __tsan_atomic##b##_compare_exchange_strong(a, e, v, x, y); } \
 ty __tsan_atomic##b##_compare_exchange_val(volatile ty* a, ty e, ty v, int, int) { point(true, PC); if (g_active) { acquire((void*) a); release((void*) a); } ty o = *a; if (o == e) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// ---- OpenMP library
int omp_get_thread_num() { return g_n > 1 && g_cur >= 0 ? g_cur : 0; }
int omp_get_num_threads() { return g_active ? g_n : 1; }
int omp_get_max_threads() { return g_nthreadsVar ? g_nthreadsVar : g_cfg.maxThreads ? g_cfg.maxThreads : g_cfg.threads; }
int omp_get_num_procs() { return 8; } int omp_in_parallel() { return g_active; } void omp_set_num_threads(int n) { g_nthreadsVar = n; }
int omp_get_dynamic() { return 0; } void omp_set_dynamic(int) {} int omp_get_nested() { return 0; } void omp_set_nested(int) {} int omp_get_level() { return g_cur >= 0 ? T[g_cur].level : 0; } int omp_get_active_level() { return g_active; }
int omp_get_thread_limit() { return MAXT; } int omp_get_max_active_levels() { return 1; } void omp_set_max_active_levels(int) {} void omp_set_schedule(int, int) {} void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : omp_get_thread_num(); } int omp_get_team_size(int l) { return l == 0 ? 1 : g_n; } int omp_in_final() { return 0; }
int omp_get_num_devices() { return g_cfg.device ? 1 : 0; } int omp_get_default_device() { return 0; } void omp_set_default_device(int) {} int omp_is_initial_device() { return !g_onDevice; } int omp_get_initial_device() { return omp_get_num_devices(); } int omp_get_device_num() { return g_onDevice ? 0 : omp_get_num_devices(); }
int omp_get_num_teams() { return g_nteams; } int omp_get_team_num() { return g_team; } int omp_get_max_teams() { return g_cfg.teams; }
static double g_clock = 0; double omp_get_wtime() { return g_clock += 1e-3; } double omp_get_wtick() { return 1e-9; }
struct LockObj { void* self; };
void omp_init_lock(void* l) { g_lock[l] = 0; } void omp_destroy_lock(void* l) { g_lock.erase(l); } void omp_set_lock(void* l) { lockIt(l, "omp_set_lock"); } void omp_unset_lock(void* l) { unlockIt(l); } int omp_test_lock(void* l) { point(true); if (g_lock[l]) return 0; g_lock[l] = g_cur + 1; acquire(l); return 1; }
static std::map<void*, int> g_nest;
void omp_init_nest_lock(void* l) { g_lock[l] = 0; g_nest[l] = 0; } void omp_destroy_nest_lock(void* l) { g_lock.erase(l); } void omp_set_nest_lock(void* l) { if (g_lock[l] == g_cur + 1) { ++g_nest[l]; return; } lockIt(l, "omp_set_nest_lock"); g_nest[l] = 1; } void omp_unset_nest_lock(void* l) { if (--g_nest[l] == 0) unlockIt(l); }
#define F0(n) int n##_() { return n(); }
F0(omp_get_thread_num) F0(omp_get_num_threads) F0(omp_get_max_threads) F0(omp_get_num_procs) F0(omp_in_parallel) F0(omp_get_num_devices) F0(omp_is_initial_device) F0(omp_get_num_teams) F0(omp_get_team_num) F0(omp_get_level) F0(omp_get_default_device) F0(omp_get_thread_limit) F0(omp_get_dynamic) F0(omp_get_nested) F0(omp_get_max_teams) F0(omp_get_active_level) F0(omp_get_initial_device)
void omp_set_num_threads_(const int* n) { omp_set_num_threads(*n); } void omp_set_dynamic_(const int*) {} void omp_set_nested_(const int*) {} double omp_get_wtime_() { return omp_get_wtime(); } double omp_get_wtick_() { return 1e-9; } void omp_set_schedule_(const int*, const int*) {} void omp_set_default_device_(const int*) {}
void omp_init_lock_(void* l) { omp_init_lock(l); } void omp_destroy_lock_(void* l) { omp_destroy_lock(l); } void omp_set_lock_(void* l) { omp_set_lock(l); } void omp_unset_lock_(void* l) { omp_unset_lock(l); } int omp_test_lock_(void* l) { return omp_test_lock(l); }
// ---- what the compiler calls
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n); return g_n; }
void GOMP_barrier() { omprt::barrier("a barrier"); } bool GOMP_barrier_cancel() { omprt::barrier("a barrier"); return false; } bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
static char g_crit, g_atom;
void GOMP_critical_start() { lockIt(&g_crit, "a critical section"); } void GOMP_critical_end() { unlockIt(&g_crit); } void GOMP_critical_name_start(void** p) { lockIt(p, "a critical section"); } void GOMP_critical_name_end(void** p) { unlockIt(p); }
void GOMP_atomic_start() { lockIt(&g_atom, "an atomic update"); } void GOMP_atomic_end() { unlockIt(&g_atom); }
bool GOMP_single_start() { Work& w = work(); point(true); if (w.single < 0) { w.single = g_cur; return true; } return false; }
void* GOMP_single_copy_start() { Work& w = work(); point(true); if (w.single < 0) { w.single = g_cur; return nullptr; } block("a single region", [&w] { return w.copyReady; }); return w.copy; }
void GOMP_single_copy_end(void* p) { Work& w = *T[g_cur].ws; w.copy = p; w.copyReady = true; point(true); }
void* GOMP_scope_start(uintptr_t*) { work(); return nullptr; }
#define LOOP(name, GD) \
 bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, GD, a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); } \
 bool GOMP_loop_ull_##name##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long* a, unsigned long* b) { (void) up; return loopStart((long) s, (long) e, (long) i, (long) c, GD, (long*) a, (long*) b); } bool GOMP_loop_ull_##name##_next(unsigned long* a, unsigned long* b) { return next((long*) a, (long*) b); } \
 void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { struct A { void (*fn)(void*); void* d; long s, e, i, c; } x = {fn, d, s, e, i, c}; \
   parallel([](void* p) { A& y = *(A*) p; Work& w = work(); if (!w.init) { w.init = true; w.next = y.s; w.end = y.e; w.incr = y.i; w.chunk = y.c; w.guided = GD; } y.fn(y.d); }, &x, n); }
LOOP(dynamic, false) LOOP(guided, true) LOOP(nonmonotonic_dynamic, false) LOOP(nonmonotonic_guided, true)
#define RLOOP(name) \
 bool GOMP_loop_##name##_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, false, a, b); } bool GOMP_loop_##name##_next(long* a, long* b) { return next(a, b); } \
 bool GOMP_loop_ull_##name##_start(bool, unsigned long s, unsigned long e, unsigned long i, unsigned long* a, unsigned long* b) { return loopStart((long) s, (long) e, (long) i, 1, false, (long*) a, (long*) b); } bool GOMP_loop_ull_##name##_next(unsigned long* a, unsigned long* b) { return next((long*) a, (long*) b); } \
 void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
RLOOP(runtime) RLOOP(maybe_nonmonotonic_runtime) RLOOP(nonmonotonic_runtime)
bool GOMP_loop_static_start(long s, long e, long i, long c, long* a, long* b) { return staticStart(s, e, i, c, a, b); } bool GOMP_loop_static_next(long* a, long* b) { return omprt::staticNext(a, b); }
bool GOMP_loop_ordered_static_start(long s, long e, long i, long, long* a, long* b) { return loopStart(s, e, i, 1, false, a, b); } bool GOMP_loop_ordered_static_next(long* a, long* b) { return next(a, b); }
bool GOMP_loop_ordered_dynamic_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, false, a, b); } bool GOMP_loop_ordered_dynamic_next(long* a, long* b) { return next(a, b); }
bool GOMP_loop_ordered_guided_start(long s, long e, long i, long c, long* a, long* b) { return loopStart(s, e, i, c, true, a, b); } bool GOMP_loop_ordered_guided_next(long* a, long* b) { return next(a, b); }
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* a, long* b) { return loopStart(s, e, i, 1, false, a, b); } bool GOMP_loop_ordered_runtime_next(long* a, long* b) { return next(a, b); }
bool GOMP_loop_start(long s, long e, long i, long, long c, long* a, long* b, uintptr_t*, void** mem) { if (mem) *mem = nullptr; if (!a) { work(); return true; } return loopStart(s, e, i, c, false, a, b); }
typedef unsigned long UL;
bool GOMP_loop_ull_static_start(bool, UL s, UL e, UL i, UL c, UL* a, UL* b) { return staticStart((long) s, (long) e, (long) i, (long) c, (long*) a, (long*) b); } bool GOMP_loop_ull_static_next(UL* a, UL* b) { return omprt::staticNext((long*) a, (long*) b); }
#define OULL(name) bool GOMP_loop_ull_ordered_##name##_start(bool, UL s, UL e, UL i, UL c, UL* a, UL* b) { return GOMP_loop_ordered_##name##_start((long) s, (long) e, (long) i, (long) c, (long*) a, (long*) b); } bool GOMP_loop_ull_ordered_##name##_next(UL* a, UL* b) { return next((long*) a, (long*) b); }
OULL(static) OULL(dynamic) OULL(guided)
bool GOMP_loop_ull_ordered_runtime_start(bool, UL s, UL e, UL i, UL* a, UL* b) { return GOMP_loop_ordered_runtime_start((long) s, (long) e, (long) i, (long*) a, (long*) b); } bool GOMP_loop_ull_ordered_runtime_next(UL* a, UL* b) { return next((long*) a, (long*) b); }
bool GOMP_loop_ull_start(bool, UL s, UL e, UL i, long k, UL c, UL* a, UL* b, uintptr_t* r, void** mem) { return GOMP_loop_start((long) s, (long) e, (long) i, k, (long) c, (long*) a, (long*) b, r, mem); }
// chunks of one iteration each, so the order of ordered sections is the order of the chunks handed out
void GOMP_ordered_start() { Thread& t = T[g_cur]; Work* w = t.ws; if (!w) return; block("an ordered section", [w, &t] { return w->incr > 0 ? t.ordLo <= w->ordNext : t.ordLo >= w->ordNext; }); acquire(w); }
void GOMP_ordered_end() { Thread& t = T[g_cur]; Work* w = t.ws; if (!w) return; release(w); w->ordNext = t.ordHi; point(true); }
void GOMP_loop_end() { omprt::barrier("the end of a loop"); } void GOMP_loop_end_nowait() {} bool GOMP_loop_end_cancel() { omprt::barrier("the end of a loop"); return false; }
unsigned GOMP_sections_next() { Work& w = *T[g_cur].ws; point(true); return w.sect < w.nsect ? ++w.sect : 0; }
unsigned GOMP_sections_start(unsigned n) { Work& w = work(); w.nsect = n; return GOMP_sections_next(); }
void GOMP_sections_end() { omprt::barrier("the end of sections"); } void GOMP_sections_end_nowait() {} bool GOMP_sections_end_cancel() { omprt::barrier("the end of sections"); return false; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned c, unsigned) { struct A { void (*fn)(void*); void* d; unsigned c; } x = {fn, d, c}; parallel([](void* p) { A& y = *(A*) p; Work& w = work(); w.nsect = y.c; y.fn(y.d); }, &x, nt); }
void GOMP_task(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, bool ifc, unsigned fl, void**, int, void*) { addTask(fn, d, cpy, sz, al, ifc && !(fl & 8), fl); }
void GOMP_taskwait() { drain(); taskwait(); } void GOMP_taskwait_depend(void**) { GOMP_taskwait(); } void GOMP_taskyield() { point(true); }
void GOMP_taskgroup_start() { Group* g = new Group; g->up = T[g_cur].group; T[g_cur].group = g; }
void GOMP_taskgroup_end() { Group* g = T[g_cur].group; if (!g) return; drain(); point(true); waitTasks("the end of a task group", [g] { return g->pending == 0; }); T[g_cur].group = g->up; }
void GOMP_taskloop(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, unsigned fl, unsigned long num, int, long s, long e, long st) {
  if (!(fl & (1 << 11))) GOMP_taskgroup_start();
  long n = st > 0 ? (e - s + st - 1) / st : (s - e - st - 1) / -st; if (n < 0) n = 0;
  long per = (fl & (1 << 9)) && num ? (long) num : num ? std::max(1L, n / (long) num) : 1; // grain size or number of tasks
  for (long i = 0; i < n; i += per) { std::vector<char> b(sz + 64); char* p = (char*) (((uintptr_t) b.data() + 31) / 32 * 32); if (cpy) cpy(p, d); else memcpy(p, d, sz); ((long*) p)[0] = s + i * st; ((long*) p)[1] = s + std::min(n, i + per) * st; addTask(fn, p, nullptr, sz, al, true, 0); }
  if (!(fl & (1 << 11))) GOMP_taskgroup_end();
}
void GOMP_taskloop_ull(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, unsigned fl, unsigned long num, int pr, unsigned long s, unsigned long e, unsigned long st) { GOMP_taskloop(fn, d, cpy, sz, al, fl, num, pr, (long) s, (long) e, (long) st); }
bool GOMP_teams4(unsigned lo, unsigned hi, unsigned, bool first) {
  if (first) { g_nteams = std::max<int>(lo, g_cfg.teams); if (hi && g_nteams > (int) hi) g_nteams = hi; g_team = 0; return true; }
  if (g_team + 1 >= g_nteams) { g_team = 0; g_nteams = 1; return false; }
  ++g_team; return true;
}
void GOMP_teams_reg(void (*fn)(void*), void* d, unsigned n, unsigned, unsigned) { g_nteams = n ? n : g_cfg.teams; for (g_team = 0; g_team < g_nteams; ++g_team) fn(d); g_team = 0; g_nteams = 1; }
void GOMP_target_ext(int, void (*fn)(void*), size_t num, void** h, size_t* s, unsigned short* k, unsigned fl, void**, void**) { if (!g_cfg.device) { fn(h); return; } launch(fn, num, h, s, k, fl & 1); }
void GOMP_target_data_ext(int, size_t num, void** h, size_t* s, unsigned short* k) { if (!g_cfg.device) return; g_regions.emplace_back(); mapAll(num, h, s, k, g_regions.back(), nullptr); }
void GOMP_target_end_data() { if (!g_cfg.device || g_regions.empty()) return; unmapAll(g_regions.back()); g_regions.pop_back(); }
void GOMP_target_update_ext(int, size_t num, void** h, size_t* s, unsigned short* k, unsigned, void**) { if (g_cfg.device) update(num, h, s, k); }
void GOMP_target_enter_exit_data(int, size_t num, void** h, size_t* s, unsigned short* k, unsigned fl, void**) { if (!g_cfg.device) return; if (fl & 2) exitData(num, h, s, k); else enterData(num, h, s, k); }
// ---- OpenACC
void GOACC_parallel_keyed(int, void (*fn)(void*), size_t num, void** h, size_t* s, unsigned short* k, ...) {
  if (!g_cfg.device) { fn(h); return; }
  bool async = false; __builtin_va_list ap; __builtin_va_start(ap, k);
  for (;;) { unsigned t = __builtin_va_arg(ap, unsigned); if (!t) break; unsigned code = t >> 28, op = t & 0xffff;
    if (code == 1) { for (int i = 0; i < 3; ++i) if (op & (1 << i)) (void) __builtin_va_arg(ap, int); }
    else if (code == 2) { int v = (int) op; if (op == 0xffff) v = __builtin_va_arg(ap, int); async = v != -2; (void) v; }
    else if (code == 3) { for (unsigned i = 0; i < op; ++i) (void) __builtin_va_arg(ap, int); } }
  __builtin_va_end(ap);
  if (!async) { kernel(fn, num, h, s, k); return; }
  launch(fn, num, h, s, k, true);
}
void GOACC_data_start(int, size_t num, void** h, size_t* s, unsigned short* k) { GOMP_target_data_ext(0, num, h, s, k); }
void GOACC_data_end() { GOMP_target_end_data(); }
void GOACC_enter_exit_data(int, size_t num, void** h, size_t* s, unsigned short* k, int, int, ...) { if (!g_cfg.device) return; bool ex = false; for (size_t i = 0; i < num; ++i) { int q = kindOf(k[i]); if (q == 4 || q == 5 || q == 28 || q == 29 || (q & 0xf8) == 0x50) continue; ex = q == 2 || q == 7 || q == 23 || q == 0x82; break; } if (ex) exitData(num, h, s, k); else enterData(num, h, s, k); }
void GOACC_enter_data(int, size_t num, void** h, size_t* s, unsigned short* k, int, int, ...) { if (g_cfg.device) enterData(num, h, s, k); }
void GOACC_exit_data(int, size_t num, void** h, size_t* s, unsigned short* k, int, int, ...) { if (g_cfg.device) exitData(num, h, s, k); }
void GOACC_update(int, size_t num, void** h, size_t* s, unsigned short* k, int, int, ...) { if (g_cfg.device) update(num, h, s, k); }
void GOACC_wait(int, int, ...) { drain(); }
void GOACC_declare(int, size_t, void**, size_t*, unsigned short*) {} int GOACC_get_num_threads() { return 1; } int GOACC_get_thread_num() { return 0; }
}
