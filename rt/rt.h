// Controlled-concurrency runtime: the code under test is compiled with
// -fsanitize=thread (instrumentation only) and linked against this runtime
// instead of libtsan.  Exactly one thread runs at a time; a scheduling decision
// is made before every synchronisation operation.  Every execution yields a
// totally ordered event trace that TLC validates against the TLA+ specification.
#ifndef VERIF_RT_H_
#define VERIF_RT_H_
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

enum class Mode { kRandom, kPct, kHint, kDfs, kRoundRobin };

struct Config {
  Mode mode = Mode::kRandom;
  std::uint64_t seed = 1;
  int switch_permille = 300;    // kRandom: probability of switching at a point
  int pct_depth = 3;            // kPct: number of priority change points
  int pct_len = 400;            // kPct: assumed number of steps
  int spurious_permille = 0;    // probability of a spurious wake-up at a point
  std::int64_t tick_ns = 500000;  // virtual time per clock read
  std::int64_t max_steps = 60000;
  std::vector<int> prefix;      // kDfs: choice indices; kHint: thread ids
  int preemption_bound = 2;     // kDfs
  bool log_sync = true;         // emit sync events
  bool log_access = true;       // emit memory footprints (races)
};

// Runs body as logical thread 0 in a forked child; appends the JSON event lines
// to *out.  Returns false if the child could not be run at all (tool error).
// `decisions` (may be null) receives (options, chosen) pairs for kDfs.
struct Decision {
  int options;
  int chosen;
};
bool RunForked(const Config& config, const std::string& header_json,
               const std::function<void()>& body, std::string* out,
               std::vector<Decision>* decisions, double timeout_s = 20.0);

// Events from the harness; k is the event kind, a..d integer arguments.
void Event(const char* k, int a = 0, int b = 0, int c = 0, int d = 0);
// A scheduling point in harness code.
void Yield();
// Logical id of the current thread.
int Tid();
// Number of logical threads ever created / currently alive in this execution.
int ThreadsCreated();
int ThreadsAlive();
// Bytes currently allocated by the code under test in this execution.
std::int64_t LiveBytes();
std::int64_t VirtualNow();
void AdvanceTime(std::int64_t ns);
// Do not treat accesses to [p, p+n) as shared data (harness bookkeeping).
void IgnoreRange(const void* p, std::size_t n);

}  // namespace rt
#endif
