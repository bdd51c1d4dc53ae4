// Controlled OpenMP runtime.  It stands in for libgomp and for the ThreadSanitizer
// run time: threads are coroutines, every access to memory that the compiler
// instruments and every OpenMP call is seen, and a sequence of choices decides which
// thread runs.  Target regions run on a device with memory of its own.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <set>
#include <cstdint>
namespace omprt {
const int MAXT = 132;
struct Config {
  int threads = 2;      // team size when the program does not ask for one
  int maxThreads = 0;   // what omp_get_max_threads reports (0: threads)
  bool device = false;  // target regions use separate memory
  int teams = 1;        // league size
};
struct Mode { bool reversed; // highest thread first
              bool robin;    // switch to another thread at every synchronisation
              bool lazy; };  // deferred tasks run as late as allowed
enum Grain { SYNC, RACES, SHARED }; // where threads may be switched: OpenMP calls only; also accesses that race; also accesses to memory several threads use
struct Result {
  long executions = 0, points = 0, maxpoints = 0, switches = 0, restarts = 0; size_t racy = 0, shared = 0; long accesses = 0;
  bool capped = false; std::string error; // a fault met by the runtime
  std::string schedule; // of the last execution
};
// Runs body in all executions with at most maxDev departures from each base schedule.
// body runs on the initial thread; after it, after() is called outside of the runtime and
// returns a non-empty text when the execution is wrong: the exploration stops there.
void explore(Result& r, const Config& c, const std::vector<Mode>& modes, Grain g, int maxDev, long cap, const std::function<void()>& body, const std::function<std::string()>& after);
bool inside(); // running under explore
extern long* g_load; // where the memory accesses of each thread are counted (team * MAXT + thread), if anywhere
}
