// C16: every argument sequence up to a length, for several sets of declared
// options, against a direct model of the documented behaviour.
#include "hx.h"
#include <climits>
#include <limits>
#include "CmdLineArgParser.h"
struct Opt { char type; std::string name, def; };
static std::string dshow(double d) { std::ostringstream o; o << std::setprecision(17) << d; return o.str(); }
template <class P> void declare(P& p, const std::vector<Opt>& o) {
  for (auto& x : o) {
    if (x.type == 'd') p.set(x.name, atof(x.def.c_str()), "help of " + x.name);
    if (x.type == 'i') p.set(x.name, atoi(x.def.c_str()), "help of " + x.name);
    if (x.type == 's') p.set(x.name, x.def, "help of " + x.name);
    if (x.type == 'b') p.set(x.name, x.def == "1", "help of " + x.name);
  }
}
static void run(const std::vector<Opt>& decl, const std::vector<std::string>& args, const std::string& program = "the-program") {
  // model
  bool ok = true;
  for (auto& a : args) {
    bool looks = a.size() >= 2 && a[0] == '-' && !(a[1] >= '0' && a[1] <= '9');
    if (!looks) continue;
    bool known = a == "-h"; for (auto& o : decl) known |= o.name == a;
    if (!known) ok = false;
  }
  CmdLineArgParser p; p.setPurpose("the purpose");
  declare(p, decl);
  std::vector<std::string> st(1, program); st.insert(st.end(), args.begin(), args.end());
  std::vector<char*> av; for (auto& s : st) av.push_back(&s[0]); av.push_back(nullptr);
  hx::Capture cap;
  bool got = p.parse((int) st.size(), av.data());
  hx::stat("transitions", args.size());
  if (got != ok) hx::violation(std::string("parse returned ") + (got ? "success" : "failure"));
  hx::stat("states"); hx::stat("traces");
  std::vector<Opt> all(decl); all.push_back({'b', "-h", "0"});
  std::string helptext;
  if (ok) {
    cap.os.str(""); p.help(); helptext = cap.os.str();
    if (helptext.find("the purpose") == std::string::npos || helptext.find(program) == std::string::npos) hx::violation("help does not give purpose and program");
  }
  for (auto& o : all) {
    if (!ok) continue;
    std::string last; bool any = false; long flips = 0;
    for (size_t a = 0; a < args.size(); ++a) if (args[a] == o.name) { ++flips; if (a + 1 < args.size()) { any = true; last = args[a + 1]; } }
    std::string shown;
    std::ostringstream hv; hv << std::setprecision(17);
    if (o.type == 'i') { int w = any ? atoi(last.c_str()) : atoi(o.def.c_str()), g = p.get<int>(o.name); hv << w; if (w != g) hx::violation(o.name + " is " + std::to_string(g) + " instead of " + std::to_string(w)); }
    if (o.type == 'd') { double w = any ? atof(last.c_str()) : atof(o.def.c_str()), g = p.get<double>(o.name); hv << w; if (w != g) hx::violation(o.name + " is " + dshow(g) + " instead of " + dshow(w)); }
    if (o.type == 's') { std::string w = any ? last : o.def, g = p.get<std::string>(o.name); hv << w; if (w != g) hx::violation(o.name + " is '" + g + "' instead of '" + w + "'"); }
    if (o.type == 'b') { bool w = (o.def == "1") ^ (flips & 1), g = p.get<bool>(o.name); hv << w; if (w != g) hx::violation(o.name + " is " + std::to_string(g)); }
    // wrong types and fallbacks
    if (o.type != 'i' && p.get<int>(o.name) != -INT_MAX) hx::violation(o.name + " read as int is not the fallback");
    if (o.type != 'd' && p.get<double>(o.name) != -std::numeric_limits<double>::max()) hx::violation(o.name + " read as double is not the fallback");
    if (o.type != 's' && p.get<std::string>(o.name) != "") hx::violation(o.name + " read as string is not the fallback");
    if (o.type != 'b' && p.get<bool>(o.name) != false) hx::violation(o.name + " read as bool is not the fallback");
    size_t at = helptext.find("\t" + o.name + " ");
    if (at == std::string::npos) hx::violation("help does not list " + o.name);
    std::string line = helptext.substr(at, helptext.find('\n', at) - at);
    if ((o.name != "-h" && line.find("help of " + o.name) == std::string::npos) || line.find("(" + hv.str() + ")") == std::string::npos) hx::violation("help line for " + o.name + " is: " + line);
  }
  for (const char* u : {"-undeclared", "-Q", "Q", "--h"})
    if (p.get<int>(u) != -INT_MAX || p.get<double>(u) != -std::numeric_limits<double>::max() || p.get<std::string>(u) != "" || p.get<bool>(u)) hx::violation("undeclared name has a value");
}
int main(int argc, char** argv) {
  hx::init(argc, argv);
  int T = hx::g_thorough;
  std::vector<std::vector<Opt>> decls = {
    {},
    {{'i', "-n", "7"}},
    {{'b', "-v", "1"}},
    {{'i', "-n", "7"}, {'d', "-x", "0.5"}, {'s', "-s", "dflt"}, {'b', "-v", "0"}},
    {{'i', "-numCells", "128"}, {'i', "-numSteps", "10"}, {'b', "-vtk", "0"}, {'b', "-std", "0"}},
    {{'i', "-n", "-4"}, {'i', "-nn", "9"}, {'i', "-nnn", "0"}},
    {{'d', "-a", "-1e300"}, {'d', "-b", "2"}, {'s', "-c", ""}, {'s', "-d", "-a"}, {'b', "-e", "1"}, {'b', "-f", "0"}},
    {{'i', "3", "5"}, {'b', "plain", "0"}, {'s', "-", "x"}},
  };
  int depth = 4 + T;
  for (auto& d : decls) {
    std::vector<std::string> alpha;
    for (auto& o : d) alpha.push_back(o.name);
    alpha.push_back("-h");
    for (const char* s : {"5", "-3", "2.25", "-1.5e2", "word", "-zz"}) alpha.push_back(s);
    if (d.size() <= 4) { alpha.push_back(""); alpha.push_back("-"); alpha.push_back("-n=5"); alpha.push_back("n"); }
    for (int len = 0; len <= depth; ++len)
      hx::tuples<int>(len, 0, (int) alpha.size() - 1, [&](const std::vector<int>& ix) {
        if (!hx::take()) return;
        std::vector<std::string> a; for (int i : ix) a.push_back(alpha[i]);
        std::string dn; for (auto& o : d) dn += std::string(1, o.type) + ":" + o.name + "=" + o.def + " ";
        hx::progress("declared { " + dn + "} arguments " + hx::str(a));
        run(d, a);
        if (len == 3) hx::sample("declared { " + dn + "} arguments " + hx::str(a));
      });
  }
  // every option with every kind of value, alone and followed by another option and value
  std::vector<std::string> vals = {"0", "1", "-1", "007", "-0", "+5", " 12", "12 ", "1e3", "-1e3", "1E-3", ".5", "-.5", "0x10", "2147483647", "-2147483648", "3.99", "-3.99", "1e300", "-1e-300", "5abc", "abc5", "-5abc", "-5-6", "5-6", "--", "-", "", " ", "-n", "-x", "-s", "-v", "-h", "-1n", "true", "false", "a b", "a=b", "-9"};
  for (size_t di = 0; di < decls.size(); ++di) { auto& d = decls[di]; for (auto& o : d) for (auto& v : vals) {
    if (!hx::take()) continue;
    std::string dn; for (auto& x : d) dn += std::string(1, x.type) + ":" + x.name + "=" + x.def + " ";
    hx::progress("declared { " + dn + "} " + o.name + " with '" + v + "'");
    run(d, {o.name, v}); run(d, {v, o.name}); run(d, {"w", o.name, v, "w"}); run(d, {o.name, v, o.name});
    for (auto& o2 : d) for (auto& v2 : vals) { run(d, {o.name, v, o2.name, v2}); run(d, {o.name, v, v2, o2.name, v}); }
  } }
  // long lists: every position of one special argument among n ordinary ones
  for (int n = 6; n <= 40; n += 17) for (int pos = 0; pos < n; ++pos) for (const char* s : {"-n", "-zz", "-v", "-x", "-s"}) {
    if (!hx::take()) continue;
    std::vector<std::string> a(n, "8"); a[pos] = s;
    hx::progress("arguments " + hx::str(a));
    run(decls[3], a);
  }
  // whatever the program is called
  for (auto& d : decls) for (const char* s : {"-n", "-v", "-zz", "-h", "-x", "-s", "-vtk", "3", "./a", "/usr/bin/upwind -n"}) {
    if (!hx::take()) continue;
    hx::progress(std::string("program called '") + s + "'");
    run(d, {}, s); run(d, {"5"}, s); run(d, {"-3", "-h"}, s); for (auto& o : d) { run(d, {o.name}, s); run(d, {"7", o.name, "8"}, s); }
  }
  return hx::done();
}
