// Runs scripted scenarios, each in its own process, and logs events as JSON
// lines. A harness defines Op(); a scenario is the lines from an "S" line to
// the next one.
#ifndef VERIF_SCRIPT_H_
#define VERIF_SCRIPT_H_
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>

static FILE* g_out;
static void Emit(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vfprintf(g_out, fmt, ap);
  va_end(ap);
  fputc('\n', g_out);
}

// Executes one line of a scenario.
void Op(const std::string& op, std::istringstream& in);

#ifndef SCRIPT_LIMIT_S
#define SCRIPT_LIMIT_S 60
#endif

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  g_out = fopen(argv[2], "a");
  if (!in || !g_out) return 3;
  std::vector<std::vector<std::string>> scen;
  std::string line;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    if (line[0] == 'S') scen.emplace_back();
    scen.back().push_back(line);
  }
  int hangs = 0;
  for (auto& s : scen) {
    // Scenarios that hang take long; two of them are enough.
    if (hangs == 2) {
      puts("stopped");
      break;
    }
    fflush(g_out);
    pid_t p = fork();
    if (p < 0) return 3;
    if (p == 0) {
      alarm(SCRIPT_LIMIT_S);
      for (auto& l : s) {
        std::istringstream ss(l);
        std::string op;
        ss >> op;
        Op(op, ss);
        fflush(g_out);
      }
      _exit(0);
    }
    int st;
    if (waitpid(p, &st, 0) != p) return 3;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;  // the harness could not do its part
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) hangs++;
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      Emit("\n{\"k\":\"crash\",\"sig\":%d,\"rc\":%d}", WIFSIGNALED(st) ? WTERMSIG(st) : 0,
           WIFEXITED(st) ? WEXITSTATUS(st) : 0);
    }
  }
  fclose(g_out);
  return 0;
}
#endif
