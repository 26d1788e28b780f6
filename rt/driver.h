// Command-line driver shared by the controlled-concurrency harnesses.
#ifndef VERIF_DRIVER_H_
#define VERIF_DRIVER_H_
#include <functional>
#include <string>

#include "rt.h"

namespace driver {
struct Scenario {
  std::string kind;
  std::string spec;
  int yields = 0;
  int id = 0;
};
// Usage: prog JOBFILE OUTFILE.  Each job line (space separated key=value):
//   kind= spec= yields= mode=random|pct|hint|dfs|rr seed= count= switch= depth=
//   len= spurious= tick= bound= prefix=a,b,c sync=0|1 access=0|1 maxsteps=
// Every execution appends its trace to OUTFILE; a summary goes to stdout.
int Main(int argc, char** argv, const std::function<void(const Scenario&)>& body);
}  // namespace driver
#endif
