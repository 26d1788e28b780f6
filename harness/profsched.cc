// Profiled threads and the sampling thread under the controlled scheduler.
//
// spec: programs separated by '/', the first one that of the main thread.
//   a..g  enter a scope with that label     .  leave the innermost scope
//   y     a scheduling point                B F  begin, finish a profile
//   1..8  start thread n                    jn  wait for thread n to end
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "driver.h"
#include "rt.h"
#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"

using ruy::profiler::Label;
using ruy::profiler::ScopeLabel;
using ruy::profiler::ScopeProfile;
using ruy::profiler::TreeView;

namespace {

// Labels say which thread they belong to, with different numbers of arguments.
ScopeLabel* Enter(int tag, int code) {
  switch (code % 3) {
    case 0: return new ScopeLabel("zero %d", tag * 8 + code);
    case 1: return new ScopeLabel("one %d %d %d", tag, code, tag * 8 + code);
    default: return new ScopeLabel("two %d %d %d %d", tag, code, tag * 8 + code, code + 1000);
  }
}
// Reads a label back; false if it is none that was ever used.
bool Parse(const Label& l, int* tag, int* code) {
  const std::string s = l.Formatted();
  int a, b, c, d;
  char junk;
  if (!strcmp(l.format(), "zero %d")) {
    if (sscanf(s.c_str(), "zero %d%c", &a, &junk) != 1) return false;
    *tag = a / 8;
    *code = a % 8;
    return *code % 3 == 0 && *code > 0;
  }
  if (!strcmp(l.format(), "one %d %d %d")) {
    if (sscanf(s.c_str(), "one %d %d %d%c", &a, &b, &c, &junk) != 3) return false;
    *tag = a;
    *code = b;
    return b % 3 == 1 && c == a * 8 + b;
  }
  if (!strcmp(l.format(), "two %d %d %d %d")) {
    if (sscanf(s.c_str(), "two %d %d %d %d%c", &a, &b, &c, &d, &junk) != 4) return false;
    *tag = a;
    *code = b;
    return b % 3 == 2 && c == a * 8 + b && d == b + 1000;
  }
  return false;
}

void Report(const TreeView::Node& n, int tag, int stack) {
  int below = 0;
  for (auto& c : n.children) {
    if (!strcmp(c->label.format(), "[other]")) continue;
    below += c->weight;
    int t, code;
    if (!Parse(c->label, &t, &code) || (tag >= 0 && t != tag)) {
      rt::Event("torn");
      continue;
    }
    Report(*c, t, stack * 8 + code);
  }
  if (n.weight != below) rt::Event("smp", tag, stack, n.weight - below);
}

struct World {
  std::vector<std::string> progs;
  std::vector<std::unique_ptr<std::thread>> threads;
};

void Run(World* w, int tag) {
  std::vector<std::unique_ptr<ScopeLabel>> scopes;
  std::unique_ptr<ScopeProfile> profile;
  std::unique_ptr<TreeView> tree;
  const std::string& p = w->progs[tag];
  for (std::size_t i = 0; i < p.size(); i++) {
    const char c = p[i];
    if (c >= 'a' && c <= 'g') {
      rt::Event("in", tag, c - 'a' + 1);
      scopes.emplace_back(Enter(tag, c - 'a' + 1));
      rt::Event("in2", tag);
    } else if (c == '.') {
      rt::Event("out", tag);
      scopes.pop_back();
      rt::Event("out2", tag);
    } else if (c == 'y') {
      rt::Yield();
    } else if (c == 'B') {
      rt::Event("pb");
      tree.reset(new TreeView);
      profile.reset(new ScopeProfile);
      profile->SetUserTreeView(tree.get());
    } else if (c == 'F') {
      rt::Event("pf");
      profile.reset();
      rt::Event("pe");
      for (auto& r : tree->thread_roots()) Report(*r.second, -1, 0);
      rt::Event("pd");
    } else if (c >= '1' && c <= '8') {
      w->threads[c - '0'].reset(new std::thread(Run, w, c - '0'));
    } else if (c == 'j') {
      i++;
      w->threads[p[i] - '0']->join();
      w->threads[p[i] - '0'].reset();
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return driver::Main(argc, argv, [](const driver::Scenario& s) {
    World w;
    std::size_t pos = 0;
    while (pos <= s.spec.size()) {
      std::size_t e = s.spec.find('/', pos);
      if (e == std::string::npos) e = s.spec.size();
      w.progs.push_back(s.spec.substr(pos, e - pos));
      pos = e + 1;
    }
    w.threads.resize(9);
    Run(&w, 0);
  });
}
