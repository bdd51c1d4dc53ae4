// Controlled MPI runtime.  The ranks are coroutines of one process, each running
// its own copy of the code under test; a sequence of choices decides who runs and
// when the environment acts.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
namespace mpirt {
enum Cat { STUCK = 1,    // deadlock, collective mismatch, abnormal end
           RACE = 2,     // conflicting access to exposed data / transfer buffers, wrong assertion
           RESOURCE = 4, // leaks, double frees, exposed memory freed, no Finalize
           RESULT = 8,   // wrong result (reported by the harness)
           USAGE = 16 }; // wrong arguments of MPI calls
const int MAXP = 20000;
struct Shared { // between the explorer and one execution
  int nprefix; unsigned char prefix[MAXP];
  int npoints; unsigned char nalt[MAXP], taken[MAXP]; // alternatives, choice made (0 = default)
  int overflow, diverged, finished;
  int cats; char msg[5][600]; // first message per category
  uint64_t outcome; // hash of everything observed
  long switches;
};
struct Mode { bool strong; // calls that may synchronise do so
              bool eager;  // transfers happen as early as allowed (else as late as possible)
              bool reversed; }; // ranks take turns in the opposite order
// --- inside an execution
void run(Shared* sh, int nranks, Mode m, bool explore, const std::function<int(int)>& rankMain);
void fault(int cat, const std::string& msg);
void held(int rank, long* bytes, long* blocks);
extern int g_rt[66]; // per rank: inside of the runtime (memory it obtains is not the program's)
int self(); // current rank, -1 outside
std::string& out(int rank); std::string& err(int rank); // what it printed
int status(int rank); // what rankMain returned
struct Timing { std::vector<double> t; std::vector<long> before; long transfers = 0; }; // values of MPI_Wtime, transfers started before each and in total
const Timing& timing(int rank);
long received(int rank); // bytes other calls and processes have put into its memory so far
long obtained(int rank); // the most it held of memory from MPI_Alloc_mem
void observe(const void* p, size_t n); // add to the outcome
// --- the explorer: runs all executions with at most maxDev departures from the
// default choices; body runs in a forked child.  Returns the categories met in mask.
struct Result { long executions = 0, points = 0, maxpoints = 0; std::vector<uint64_t> outcomes; int cats = 0; std::string msg; std::vector<int> schedule; Mode mode; bool capped = false; std::string error; };
void explore(Result& r, const std::vector<Mode>& modes, int maxDev, long cap, int mask, double timeout, const std::function<void(Shared*, Mode)>& body);
}
