// C27: the memory objects use does not depend on how much they have done, and they give it back.
// mode = solver | lib
#include "memcount.h"
#ifdef LIB
#include "CmdLineArgParser.h"
#include "CubeDecomp.h"
#include "MultiArrayIter.h"
#include "hx.h"
#else
#ifdef FORTRAN
#include "solver_fortran.h"
#else
#include "solver_cxx.h"
#endif
#endif
typedef std::vector<double> VD; typedef std::vector<size_t> VS;
struct Use { long bytes, blocks; };
static long g_slack = 2048;
static Use now() { return {mem::live[0], mem::blocks[0]}; }
static std::string str(Use u) { return std::to_string(u.bytes) + " bytes in " + std::to_string(u.blocks) + " blocks"; }
// the third and the twentieth time must leave the same in use, and need the same in between
static void plateau(const std::string& what, const std::function<void()>& f) {
  Use a{0, 0}; long pk = 0;
  for (int k = 1; k <= 20; ++k) {
    mem::peak[0] = mem::live[0]; f(); hx::stat("transitions");
    if (mem::g_double) hx::violation(what + ": a block is released that is not in use (time " + std::to_string(k) + ")");
    Use u = now();
    if (k == 3) { a = u; pk = mem::peak[0]; }
    if (k > 3 && (u.bytes != a.bytes || u.blocks != a.blocks)) hx::violation(what + ": " + str(a) + " in use after 3 times, " + str(u) + " after " + std::to_string(k));
    // (the text of a listing, which the harness collects, varies in length)
    if (k > 3 && mem::peak[0] > pk + g_slack) hx::violation(what + ": needs " + std::to_string(pk) + " bytes the third time, " + std::to_string(mem::peak[0]) + " the " + std::to_string(k) + "th");
  }
  hx::stat("states"); hx::stat("traces");
}
#ifndef LIB
static void op(ISolver& s, char o) {
  switch (o) {
    case 'a': s.advect(1, 0.01); break; case 'b': s.advect(3, -0.02); break; case 'z': s.advect(0, 0.01); break;
    case 'c': if (s.has_checksum()) s.checksum(); break; case 's': if (s.has_std()) s.std_(); break;
    case 'v': s.saveVTK("m.vtk"); break;
#ifndef FORTRAN
    case 'p': s.field(); break;
#endif
  }
}
static void config(const VS& n, const VD& v, int depth) {
  VD l = {1, 2, 0.5}; l.resize(n.size());
  std::string ops = "abzcsvp"; std::string h;
  std::function<void()> rec = [&] {
    if ((int) h.size() == depth) {
      if (!hx::take()) return;
      hx::progress("cells=" + hx::str(n) + " velocity=" + hx::str(v) + " operations=" + h); g_slack = h.find('p') != std::string::npos ? 1 << 20 : 256;
      { std::unique_ptr<ISolver> s = make_solver(v, l, n); plateau("one object", [&] { for (char o : h) op(*s, o); }); }
      plateau("objects made and destroyed", [&] { std::unique_ptr<ISolver> s = make_solver(v, l, n); for (char o : h) op(*s, o); });
      if (h.find_first_not_of("ab") == std::string::npos) { // many steps at once need no more than one
        std::unique_ptr<ISolver> s = make_solver(v, l, n); s->advect(1, 1e-3); s->advect(1, 1e-3); mem::peak[0] = mem::live[0]; s->advect(1, 1e-3); long one = mem::peak[0]; Use u = now();
        for (int k : {2, 37, 400}) { mem::peak[0] = mem::live[0]; s->advect(k, 1e-3); if (mem::peak[0] > one + 64) hx::violation("one step needs " + std::to_string(one) + " bytes, " + std::to_string(k) + " need " + std::to_string(mem::peak[0])); if (now().bytes != u.bytes) hx::violation(str(u) + " in use after a step, " + str(now()) + " after " + std::to_string(k) + " more"); hx::stat("transitions"); } }
      // two at a time, destroyed in either order
      plateau("two objects", [&] { static int k = 0; std::unique_ptr<ISolver> s = make_solver(v, l, n), t = make_solver(v, l, VS(n.size(), 2)); for (char o : h) { op(*s, o); op(*t, o); } if (++k % 2) s.reset(); else { t.reset(); s.reset(); } });
      hx::sample(hx::g_cur);
      return;
    }
    for (char o : ops) { h.push_back(o); rec(); h.pop_back(); }
  };
  rec();
}
int main(int argc, char** argv) {
  hx::init(argc, argv); const int T = hx::g_thorough, m = solver_min_dims();
  if (m == 1) { config({5}, {-1}, 3 + T); config({1}, {1}, 2); config({3, 4}, {1, -1}, 3 + T); config({2, 1}, {0, 1}, 2); }
  config({3, 2, 4}, {1, -0.5, 0.25}, 3 + T); config({1, 1, 1}, {1, 1, 1}, 2); config({9, 8, 7}, {-1, -1, -1}, 2); config({2, 3, 1}, {0, 0, 0}, 1);
  return hx::done();
}
#else
int main(int argc, char** argv) {
  hx::init(argc, argv); const int T = hx::g_thorough;
  for (int nd = 1; nd <= 4; ++nd) hx::tuples<size_t>(nd, 1, nd < 3 ? 6 : 3, [&](const VS& ext) {
    if (!hx::take()) return; hx::progress("iterator over " + hx::str(ext)); VS lo(nd, 1), hi(ext); for (size_t& x : hi) ++x; size_t n = 1; for (size_t e : ext) n *= e;
    auto use = [&](MultiArrayIter& it) { it.begin(); for (size_t k = 0; k + 1 < n; ++k) it.next(); it.move(n / 2); (void) it.computeBigIndex(it.getIndices()); };
    { MultiArrayIter it(lo, hi, true); plateau("moving one", [&] { use(it); }); plateau("building it again", [&] { it.build(lo, hi, false); use(it); it.build(VS(nd + 1, 0), VS(nd + 1, 2), true); }); plateau("copying", [&] { MultiArrayIter c(it); c = it; }); }
    plateau("made and destroyed", [&] { MultiArrayIter it(lo, hi, true); use(it); }); });
  for (int np = 1; np <= 12 + 12 * T; ++np) for (int nd = 1; nd <= 3; ++nd) hx::tuples<size_t>(nd, 1, nd == 1 ? 12 : nd == 2 ? 6 : 4, [&](const VS& d) {
    if (!hx::take()) return; hx::progress("decomposition of " + hx::str(d) + " for " + std::to_string(np));
    auto use = [&](CubeDecomp& c, bool ok) { c.getDecomp(); if (ok) for (int r = 0; r < np; ++r) { c.getBegIndices(r); c.getEndIndices(r); c.getNeighborRank(r, std::vector<int>(nd, 1)); } };
    { CubeDecomp c; bool ok = c.build(np, d); plateau("asking one", [&] { use(c, ok); }); plateau("building it again", [&] { use(c, c.build(np, d)); c.build(6, {6, 4}); }); }
    plateau("made and destroyed", [&] { CubeDecomp c(np, d); use(c, !c.getDecomp().empty()); }); });
  std::vector<std::string> words = {"prog", "-i", "12", "-d", "2.5", "-s", "a text that is longer than a short string", "-b", "-nope", "-h"};
  for (int len = 1; len <= 4 + T; ++len) hx::tuples<int>(len, 1, (int) words.size() - 1, [&](const std::vector<int>& w) {
    if (!hx::take()) return; std::string t; for (int k : w) t += " " + words[k]; hx::progress("arguments" + t);
    std::vector<char*> av(1, &words[0][0]); for (int k : w) av.push_back(&words[k][0]);
    static std::ostringstream sink; std::streambuf* o = std::cout.rdbuf(sink.rdbuf()); std::streambuf* e = std::cerr.rdbuf(sink.rdbuf());
    auto set = [](CmdLineArgParser& p) { p.set("-i", 3, "an integer"); p.set("-d", 1.5, "a number"); p.set("-s", std::string("a default that is longer than a short string"), "a text"); p.set("-b", false, "a flag"); p.setPurpose("to count"); };
    auto use = [&](CmdLineArgParser& p) { sink.str(""); p.parse((int) av.size(), av.data()); p.get<int>("-i"); p.get<double>("-d"); p.get<std::string>("-s"); p.get<bool>("-b"); p.help(); sink.str(""); };
    { CmdLineArgParser p; set(p); plateau("one parser", [&] { use(p); }); plateau("declaring again", [&] { set(p); use(p); }); }
    plateau("made and destroyed", [&] { CmdLineArgParser p; set(p); use(p); });
    std::cout.rdbuf(o); std::cerr.rdbuf(e); });
  return hx::done();
}
#endif
