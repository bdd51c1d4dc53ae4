// C06: explicit-state exploration of MultiArrayIter.
// State of the model: (box, order, position).  The object under test is driven
// through every sequence of operations up to the depth bound and compared.
#include "hx.h"
#include "MultiArrayIter.h"
typedef std::vector<size_t> VS;
static VS model_inds(const VS& lo, const VS& ext, bool rowMajor, size_t pos) {
  int n = lo.size(); VS r(n);
  if (rowMajor) for (int i = n - 1; i >= 0; --i) { r[i] = lo[i] + pos % ext[i]; pos /= ext[i]; }
  else for (int i = 0; i < n; ++i) { r[i] = lo[i] + pos % ext[i]; pos /= ext[i]; }
  return r;
}
template <class T> static std::vector<T> conv(const VS& v) { return std::vector<T>(v.begin(), v.end()); }
static void observe(MultiArrayIter& it, const VS& lo, const VS& ext, bool rm, size_t pos, bool wide) {
  VS want = model_inds(lo, ext, rm, pos), got = it.getIndices();
  if (got != want) hx::violation("position " + std::to_string(pos) + ": index set " + hx::str(got) + " instead of " + hx::str(want));
  size_t b = it.computeBigIndex(want);
  if (b != pos) hx::violation("flat position of " + hx::str(want) + " is " + std::to_string(b) + " instead of " + std::to_string(pos));
  if (!wide) {
    long c = it.computeBigIndex(conv<int>(want));
    if (c != (long) pos) hx::violation("flat position (int) of " + hx::str(want) + " is " + std::to_string(c));
    c = it.computeBigIndex(conv<long>(want));
    if (c != (long) pos) hx::violation("flat position (long) of " + hx::str(want) + " is " + std::to_string(c));
  }
  hx::stat("states");
}
static VS add(const VS& a, const VS& b) { VS r(a); for (size_t i = 0; i < a.size(); ++i) r[i] += b[i]; return r; }
static void box(const VS& lo, const VS& ext, int depth) {
  for (int rm = 0; rm < 2; ++rm) {
    if (!hx::take()) continue;
    hx::progress("lo=" + hx::str(lo) + " extents=" + hx::str(ext) + (rm ? " row-major" : " column-major"));
    size_t n = 1; for (size_t e : ext) n *= e;
    VS hi = add(lo, ext);
    MultiArrayIter it(lo, hi, rm);
    if (it.getNumberOfTerms() != n) hx::violation("number of terms " + std::to_string(it.getNumberOfTerms()));
    if (it.getLBegIndices() != lo || it.getEndIndices() != hi) hx::violation("ends not reported");
    for (size_t k = 0; k < n; ++k) { observe(it, lo, ext, rm, k, false); it.next(); hx::stat("transitions"); }
    it.begin();
    hx::stat("traces");
    // every operation sequence up to the depth, from a fresh object, from a copy and from a
    // default-constructed object that has held another box before
    std::vector<size_t> tg = {0, n - 1, n / 2};
    const int nops = 2 + (int) tg.size();
    std::vector<int> seq;
    std::function<void(const MultiArrayIter&, size_t)> go = [&](const MultiArrayIter& obj, size_t pos) {
      if ((int) seq.size() == depth) { hx::stat("traces"); return; }
      for (int o = 0; o < nops; ++o) {
        MultiArrayIter c(obj); size_t p = pos;
        if (o == 0) { c.begin(); p = 0; }
        else if (o == 1) { if (pos + 1 >= n) continue; c.next(); p = pos + 1; }
        else { c.move(tg[o - 2]); p = tg[o - 2]; }
        seq.push_back(o); hx::stat("transitions");
        observe(c, lo, ext, rm, p, false);
        if (c.getNumberOfTerms() != n) hx::violation("number of terms changed");
        go(c, p);
        seq.pop_back();
      }
    };
    go(it, 0);
    MultiArrayIter other;
    VS l2(ext.size() + 1, 5), h2(ext.size() + 1, 7);
    other.build(l2, h2, !rm); other.move(3); hx::stat("transitions", 2);
    other.build(lo, hi, rm);
    observe(other, lo, ext, rm, 0, false);
    go(other, 0);
    hx::sample("lo=" + hx::str(lo) + " extents=" + hx::str(ext) + " rowMajor=" + std::to_string(rm) + ": all " + std::to_string(n) + " positions, all operation sequences of length " + std::to_string(depth));
  }
}
static void widebox(const VS& lo, const VS& ext) {
  for (int rm = 0; rm < 2; ++rm) {
    if (!hx::take()) continue;
    hx::progress("lo=" + hx::str(lo) + " extents=" + hx::str(ext) + (rm ? " row-major" : " column-major"));
    size_t n = 1; for (size_t e : ext) n *= e;
    MultiArrayIter it(lo, add(lo, ext), rm);
    if (it.getNumberOfTerms() != n) hx::violation("number of terms " + std::to_string(it.getNumberOfTerms()));
    // positions around every power of two and every multiple of a stride's boundary
    for (int b = 0; b < 63; ++b) for (long d = -2; d <= 2; ++d) {
      size_t p = ((size_t) 1 << b) + d;
      if (p >= n) continue;
      it.move(p); observe(it, lo, ext, rm, p, true); hx::stat("transitions");
      if (p + 1 < n) { it.next(); observe(it, lo, ext, rm, p + 1, true); hx::stat("transitions"); }
    }
    it.move(n - 1); observe(it, lo, ext, rm, n - 1, true);
    hx::stat("traces");
  }
}
int main(int argc, char** argv) {
  hx::init(argc, argv);
  int T = hx::g_thorough;
  for (int nd = 1; nd <= 3; ++nd)
    hx::tuples<size_t>(nd, 0, nd < 3 ? 2 + T : 1 + T, [&](const VS& lo) {
      hx::tuples<size_t>(nd, 1, nd == 1 ? 9 : (nd == 2 ? 5 : 3 + T), [&](const VS& ext) { box(lo, ext, 3 + T); }); });
  for (int nd = 4; nd <= 5 + T; ++nd)
    hx::tuples<size_t>(nd, 1, nd == 4 ? 3 : 2, [&](const VS& ext) { VS lo(nd, 0); box(lo, ext, 2); for (int i = 0; i < nd; ++i) lo[i] = i; box(lo, ext, 1); });
  for (int nd = 6; nd <= 8; ++nd) { hx::tuples<size_t>(nd, 1, 2, [&](const VS& ext) { VS lo(nd, 0); for (int i = 0; i < nd; ++i) lo[i] = ext[i] + i % 3 - 1; box(lo, ext, 1); }); }
  // every length of one axis
  for (size_t L = 10; L <= (T ? 1100 : 300); ++L) { box({0}, {L}, 1); box({3, 1}, {L, 2}, 1); box({0, 2}, {2, L}, 1); if (L % 3 == 0) box({1, 0, 4}, {2, L, 3}, 1); }
  VS big = {1, 2, 3, 255, 257, 65535, 65537, 100000};
  for (size_t a : big) { widebox({0}, {a}); widebox({7}, {a}); for (size_t b : big) { widebox({0, 0}, {a, b}); widebox({3, 70000}, {a, b}); for (size_t c : big) widebox({0, 1, 2}, {a, b, c}); } }
  widebox({0}, {(size_t) 1 << 40});
  for (size_t l : {(size_t) 32767, (size_t) 65536, (size_t) 2147483647, (size_t) 2147483648u, (size_t) 4294967296u, (size_t) 1 << 52}) for (size_t a : {1, 3, 257}) { widebox({l}, {a}); widebox({l, 5}, {a, 2}); widebox({0, l}, {2, a}); widebox({l, l, 1}, {a, 3, 2}); }
  if (hx::take()) { hx::progress("an iterator that has not been built"); MultiArrayIter it; hx::stat("states"); if (it.getNumberOfTerms() != 0) hx::violation("number of terms " + std::to_string(it.getNumberOfTerms())); if (!it.getIndices().empty()) hx::violation("index set " + hx::str(it.getIndices())); }
  return hx::done();
}
