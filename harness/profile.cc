// Profiles of scripted threads. The sampling thread's sleeps are under the
// harness' control, so that every sample is taken at a known moment.
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>

#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <thread>

#include "ruy/profiler/instrumentation.h"
#include "ruy/profiler/profiler.h"
#include "ruy/profiler/treeview.h"
#include "script.h"

using ruy::profiler::ScopeLabel;
using ruy::profiler::ScopeProfile;
using ruy::profiler::TreeView;

// ------------------------------------------------------------------ sampling
static std::mutex g_mu;
static std::condition_variable g_cv;
static int g_arrived = 0, g_granted = 0;
static bool g_free = false;

static void SamplerSleep() {
  std::unique_lock<std::mutex> lk(g_mu);
  if (g_free) {
    lk.unlock();
    struct timespec ts = {0, 3000000};
    syscall(SYS_nanosleep, &ts, nullptr);
    return;
  }
  const int me = ++g_arrived;
  g_cv.notify_all();
  g_cv.wait(lk, [&] { return g_free || g_granted >= me; });
}
extern "C" int nanosleep(const struct timespec*, struct timespec*) { SamplerSleep(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { SamplerSleep(); return 0; }
extern "C" int usleep(useconds_t) { SamplerSleep(); return 0; }

static void Await(int n) {
  std::unique_lock<std::mutex> lk(g_mu);
  if (!g_cv.wait_for(lk, std::chrono::seconds(20), [&] { return g_arrived >= n; })) _exit(3);
}

// ------------------------------------------------------------------- threads
struct Worker {
  std::mutex mu;
  std::condition_variable cv;
  std::function<void()> job;
  bool quit = false, busy = false;
  std::vector<std::unique_ptr<ScopeLabel>> scopes;  // used by the thread only
  std::thread th;
  void Loop() {
    std::unique_lock<std::mutex> lk(mu);
    while (true) {
      cv.wait(lk, [&] { return quit || busy; });
      if (busy) {
        job();
        busy = false;
        cv.notify_all();
      } else {
        return;
      }
    }
  }
  void Do(std::function<void()> f) {
    std::unique_lock<std::mutex> lk(mu);
    job = std::move(f);
    busy = true;
    cv.notify_all();
    cv.wait(lk, [&] { return !busy; });
  }
  void Quit() {
    {
      std::lock_guard<std::mutex> lk(mu);
      quit = true;
    }
    cv.notify_all();
    th.join();
  }
};
static std::map<int, Worker*> g_workers;
static std::vector<std::unique_ptr<ScopeLabel>> g_own;
static void On(int t, std::function<void()> f) {
  if (t == 0) f();
  else g_workers.at(t)->Do(std::move(f));
}

// -------------------------------------------------------------------- labels
static const char* kFormats[] = {"a", "b", "c", "work", "item %d", "part %d of %d", "box %d %d %d", "quad %d,%d,%d,%d",
                                 "a b", "item 1", "x=%d", "part %d"};
static const char* Format(int i) { return strdup(kFormats[i]); }  // equal labels need not share storage

static std::string Quote(const std::string& s) {
  std::string o = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') o += '\\';
    o += c;
  }
  return o + "\"";
}
static std::string Json(const TreeView::Node& n) {
  std::string o = "{\"f\":" + Quote(n.label.format()) + ",\"s\":" + Quote(n.label.Formatted()) + ",\"w\":" + std::to_string(n.weight) + ",\"c\":[";
  for (size_t i = 0; i < n.children.size(); i++) o += (i ? "," : "") + Json(*n.children[i]);
  return o + "]}";
}
static std::string Json(const TreeView& v) {
  std::string o = "[";
  for (auto& r : v.thread_roots()) o += (o.size() > 1 ? "," : "") + Json(*r.second);
  return o + "]";
}

static ScopeProfile* g_profile;
static TreeView* g_tree;
static TreeView* g_trees[3];

void Op(const std::string& op, std::istringstream& in) {
  if (op == "S") {
    for (auto& t : g_trees) t = new TreeView;
    Emit("{\"k\":\"S\"}");
  } else if (op == "N") {
    int t;
    in >> t;
    auto* w = g_workers[t] = new Worker;
    w->th = std::thread([w] { w->Loop(); });
    Emit("{\"k\":\"thread\",\"t\":%d}", t);
  } else if (op == "E") {
    int t;
    in >> t;
    g_workers.at(t)->Quit();
    Emit("{\"k\":\"exit\",\"t\":%d}", t);
  } else if (op == "L") {
    int t, f, n = 0, a[4] = {0, 0, 0, 0};
    in >> t >> f;
    while (n < 4 && in >> a[n]) n++;
    const char* fmt = Format(f);
    char text[256];
    if (n) snprintf(text, sizeof text, fmt, a[0], a[1], a[2], a[3]);
    else strcpy(text, fmt);
    On(t, [=] {
      auto& scopes = t == 0 ? g_own : g_workers.at(t)->scopes;
      ScopeLabel* s = nullptr;
      switch (n) {
        case 0: s = new ScopeLabel(fmt); break;
        case 1: s = new ScopeLabel(fmt, a[0]); break;
        case 2: s = new ScopeLabel(fmt, a[0], a[1]); break;
        case 3: s = new ScopeLabel(fmt, a[0], a[1], a[2]); break;
        case 4: s = new ScopeLabel(fmt, a[0], a[1], a[2], a[3]); break;
      }
      scopes.emplace_back(s);
    });
    Emit("{\"k\":\"enter\",\"t\":%d,\"f\":%s,\"s\":%s}", t, Quote(fmt).c_str(), Quote(text).c_str());
  } else if (op == "O") {
    int t;
    in >> t;
    On(t, [=] { (t == 0 ? g_own : g_workers.at(t)->scopes).pop_back(); });
    Emit("{\"k\":\"leave\",\"t\":%d}", t);
  } else if (op == "B") {
    int v, enable;
    in >> v >> enable;
    g_arrived = g_granted = 0;
    g_free = false;
    g_profile = enable == 2 ? new ScopeProfile : new ScopeProfile(enable != 0);
    g_tree = g_trees[v];
    g_profile->SetUserTreeView(g_tree);
    if (enable) Await(1);
    Emit("{\"k\":\"begin\",\"v\":%d,\"on\":%d}", v, (int)(enable != 0));
  } else if (op == "K") {
    int n, times;
    if (!(in >> times)) times = 1;
    for (int i = 0; i < times; i++) {
      {
        std::lock_guard<std::mutex> lk(g_mu);
        n = ++g_granted;
      }
      g_cv.notify_all();
      Await(n + 1);
    }
    Emit("{\"k\":\"sample\",\"n\":%d}", times);
  } else if (op == "F") {
    {
      std::lock_guard<std::mutex> lk(g_mu);
      g_free = true;
    }
    g_cv.notify_all();
    delete g_profile;
    fprintf(g_out, "{\"k\":\"done\",\"roots\":%s}\n", Json(*g_tree).c_str());
  } else if (op == "Q") {
    // weights of every label tried, below every root
    std::string which, text;
    in >> which;
    std::getline(in >> std::ws, text);
    std::string w, d;
    for (auto& r : g_tree->thread_roots()) {
      const int x = which == "u" ? WeightBelowNodeMatchingUnformatted(*r.second, text)
                                 : WeightBelowNodeMatchingFormatted(*r.second, text);
      w += (w.empty() ? "" : ",") + std::to_string(x);
      d += (d.empty() ? "" : ",") + std::to_string(DepthOfTreeBelow(*r.second));
    }
    fprintf(g_out, "{\"k\":\"query\",\"by\":\"%s\",\"x\":%s,\"w\":[%s],\"d\":[%s]}\n", which.c_str(), Quote(text).c_str(), w.c_str(),
            d.c_str());
  } else if (op == "C") {
    std::string which, text;
    int depth;
    in >> which >> depth;
    std::getline(in >> std::ws, text);
    TreeView out;
    if (which == "u") CollapseNodesMatchingUnformatted(*g_tree, depth, text, &out);
    else CollapseNodesMatchingFormatted(*g_tree, depth, text, &out);
    fprintf(g_out, "{\"k\":\"collapse\",\"by\":\"%s\",\"x\":%s,\"depth\":%d,\"roots\":%s,\"orig\":%s}\n", which.c_str(),
            Quote(text).c_str(), depth, Json(out).c_str(), Json(*g_tree).c_str());
  } else if (op == "P") {
    // what is printed: for each line below a root, level, hundredths of a percent, label
    fflush(stdout);
    const int keep = dup(1), fd = memfd_create("print", 0);
    dup2(fd, 1);
    Print(*g_tree);
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    std::string text(lseek(fd, 0, SEEK_END), 0);
    if (pread(fd, &text[0], text.size(), 0) != (ssize_t)text.size()) _exit(3);
    close(fd);
    std::istringstream lines(text);
    std::string line, o;
    while (std::getline(lines, line)) {
      const size_t star = line.find("* ");
      if (star == std::string::npos || line.find_first_not_of(' ') != star) continue;
      char* end;
      const double pct = strtod(line.c_str() + star + 2, &end);
      if (end[0] != '%' || end[1] != ' ') continue;
      o += (o.empty() ? "" : ",") + ("{\"lev\":" + std::to_string(star / 2 + 1)) + ",\"p\":" + std::to_string((int)(pct * 100 + 0.5)) +
           ",\"s\":" + Quote(end + 2) + "}";
    }
    fprintf(g_out, "{\"k\":\"print\",\"lines\":[%s]}\n", o.c_str());
  } else {
    _exit(3);
  }
}
