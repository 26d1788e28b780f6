#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <unordered_map>
#include <unordered_set>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}

namespace rt {
namespace {

constexpr int kMaxThreads = 160;

// ---------------------------------------------------------------- arena
constexpr std::size_t kArenaBytes = 12ull << 30;
char* arena_base = nullptr;
char* arena_cur = nullptr;
unsigned char* arena_shadow = nullptr;  // one byte per 16: 0 none 1 live 2 freed
bool active = false;                    // inside a controlled execution
std::int64_t live_bytes = 0;
thread_local int in_rt = 0;  // >0: allocations and accesses belong to the tool

struct InRt {
  InRt() { ++in_rt; }
  ~InRt() { --in_rt; }
};

void ArenaInit() {
  void* p = mmap(nullptr, kArenaBytes, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void* s = mmap(nullptr, kArenaBytes / 16, PROT_READ | PROT_WRITE,
                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || s == MAP_FAILED) {
    fprintf(stderr, "rt: arena mmap failed\n");
    _exit(3);
  }
  arena_base = arena_cur = static_cast<char*>(p);
  arena_shadow = static_cast<unsigned char*>(s);
}

inline bool InArena(const void* p) {
  const char* c = static_cast<const char*>(p);
  return arena_base && c >= arena_base && c < arena_base + kArenaBytes;
}

void* ArenaAlloc(std::size_t align, std::size_t size) {
  InRt in;
  if (align < 16) align = 16;
  std::uintptr_t p = reinterpret_cast<std::uintptr_t>(arena_cur) + 32;
  p = (p + align - 1) & ~(std::uintptr_t)(align - 1);
  std::size_t rounded = (size + 15) & ~(std::size_t)15;
  if (rounded == 0) rounded = 16;
  if (reinterpret_cast<char*>(p) + rounded + 64 > arena_base + kArenaBytes)
    return nullptr;
  reinterpret_cast<std::uint64_t*>(p)[-1] = size;
  reinterpret_cast<std::uint64_t*>(p)[-2] = rounded;
  memset(arena_shadow + (p - reinterpret_cast<std::uintptr_t>(arena_base)) / 16,
         1, rounded / 16);
  arena_cur = reinterpret_cast<char*>(p) + rounded;
  live_bytes += size;
  return reinterpret_cast<void*>(p);
}

void BadAccess(const void* p, int what);

void ArenaFree(void* ptr) {
  int was_in_rt = in_rt;
  InRt in;
  std::uintptr_t p = reinterpret_cast<std::uintptr_t>(ptr);
  std::size_t off = (p - reinterpret_cast<std::uintptr_t>(arena_base)) / 16;
  if (arena_shadow[off] != 1) {
    in_rt = was_in_rt;
    BadAccess(ptr, 3);  // double or invalid free
    in_rt = was_in_rt + 1;
    return;
  }
  std::uint64_t size = reinterpret_cast<std::uint64_t*>(p)[-1];
  std::uint64_t rounded = reinterpret_cast<std::uint64_t*>(p)[-2];
  memset(arena_shadow + off, 2, rounded / 16);
  live_bytes -= size;
}

// ---------------------------------------------------------------- threads
enum class St { kRun, kMutex, kCv, kJoin, kSleep, kDone };

struct Th {
  St st = St::kRun;
  const void* obj = nullptr;  // mutex / cv / nullptr
  const void* mtx = nullptr;  // mutex to reacquire after a cv wait
  bool timed = false;         // cv wait with timeout
  bool timed_out = false;
  int join_target = -1;
  std::int64_t wake = 0;
  pthread_t handle{};
  std::uint32_t sem = 0;
  int prio = 0;
  bool lowered = false;
  std::uintptr_t stack_lo = 0, stack_hi = 0;
  std::vector<std::pair<void (*)(void*), void*>> tls_dtors;
};

Th* ths = nullptr;
int n_threads = 0;
int current = 0;
thread_local int self = -1;

Config cfg;
std::uint64_t rng_state = 1;
std::int64_t steps = 0;
int consecutive = 0;
std::int64_t vclock_ns = 1000000000;
std::vector<Decision>* decisions_log = nullptr;
std::size_t decision_pos = 0;
int preemptions = 0;
std::vector<std::int64_t>* pct_points = nullptr;
int prio_low = 0;
int out_fd = -1;
std::string* header = nullptr;
bool finished = false;

std::uint64_t Rand() {
  rng_state ^= rng_state << 13;
  rng_state ^= rng_state >> 7;
  rng_state ^= rng_state << 17;
  return rng_state * 2685821657736338717ull >> 11;
}
int RandInt(int n) { return static_cast<int>(Rand() % n); }

// ---------------------------------------------------------------- events
enum Kind : std::uint8_t {
  kEvApp, kEvAtomic, kEvLock, kEvUnlock, kEvCvWait, kEvCvWake, kEvSignal,
  kEvSpawn, kEvStart, kEvExit, kEvJoin, kEvFence, kEvAcc, kEvBad, kEvEnd
};
struct Ev {
  Kind kind;
  std::uint8_t t;
  const char* name;
  int a, b, c, d;
  std::uint32_t acc0, acc1;
  std::uintptr_t addr;
};
struct Acc {
  std::uintptr_t addr;
  std::uint32_t size;
  std::uint8_t w;
  bool operator<(const Acc& o) const {
    if (addr != o.addr) return addr < o.addr;
    if (size != o.size) return size < o.size;
    return w < o.w;
  }
  bool operator==(const Acc& o) const {
    return addr == o.addr && size == o.size && w == o.w;
  }
};
std::vector<Ev>* evs = nullptr;
std::vector<Acc>* accs = nullptr;
std::vector<Acc>* cur_acc = nullptr;  // footprint of the running thread
std::unordered_map<std::uintptr_t, int>* obj_ids = nullptr;
int next_obj = 0;
std::vector<std::pair<std::uintptr_t, std::uintptr_t>>* ignored = nullptr;

int ObjId(const void* p) {
  auto it = obj_ids->find(reinterpret_cast<std::uintptr_t>(p));
  if (it != obj_ids->end()) return it->second;
  int id = next_obj++;
  (*obj_ids)[reinterpret_cast<std::uintptr_t>(p)] = id;
  return id;
}

void FlushAcc() {
  if (!cur_acc || cur_acc->empty()) return;
  std::sort(cur_acc->begin(), cur_acc->end());
  cur_acc->erase(std::unique(cur_acc->begin(), cur_acc->end()), cur_acc->end());
  Ev e{};
  e.kind = kEvAcc;
  e.t = self;
  e.acc0 = accs->size();
  accs->insert(accs->end(), cur_acc->begin(), cur_acc->end());
  e.acc1 = accs->size();
  evs->push_back(e);
  cur_acc->clear();
}

void Push(Kind k, int a = 0, int b = 0, int c = 0, int d = 0,
          const char* name = nullptr, std::uintptr_t addr = 0) {
  FlushAcc();
  Ev e{};
  e.kind = k;
  e.t = self < 0 ? 0 : self;
  e.name = name;
  e.a = a;
  e.b = b;
  e.c = c;
  e.d = d;
  e.addr = addr;
  evs->push_back(e);
}

void WriteAll(const char* p, std::size_t n) {
  while (n) {
    ssize_t r = write(out_fd, p, n);
    if (r <= 0) {
      if (r < 0 && errno == EINTR) continue;
      return;
    }
    p += r;
    n -= r;
  }
}

// Serialises the trace. Bytes with identical access histories are merged into
// one "cell"; only cells accessed by two threads, one of them writing, matter.
void Serialise(const char* outcome, int code) {
  InRt in;
  std::string s;
  s.reserve(1 << 20);
  const int n = evs->size();
  struct Info {
    std::uint64_t h1 = 1469598103934665603ull, h2 = 88172645463325252ull;
    int thread = -1;  // -2: several
    bool w = false;
  };
  std::unordered_map<std::uintptr_t, Info> bytes;
  auto visit = [&](std::uintptr_t b, int ev, int t, int mode) {
    Info& i = bytes[b];
    std::uint64_t x = (std::uint64_t)ev * 4 + mode + 1;
    i.h1 = (i.h1 ^ x) * 1099511628211ull;
    i.h2 = (i.h2 + x) * 6364136223846793005ull + 1442695040888963407ull;
    i.thread = i.thread == -1 || i.thread == t ? t : -2;
    if (mode != 0) i.w = true;
  };
  if (cfg.log_access) {
    for (int i = 0; i < n; i++) {
      const Ev& e = (*evs)[i];
      if (e.kind == kEvAcc) {
        for (std::uint32_t j = e.acc0; j < e.acc1; j++) {
          const Acc& a = (*accs)[j];
          for (std::uint32_t k = 0; k < a.size; k++)
            visit(a.addr + k, i, e.t, a.w);
        }
      } else if (e.kind == kEvAtomic) {
        visit(e.addr, i, e.t, 2);
      }
    }
  }
  // cell of a byte = id of its (h1,h2) class, if shared.
  std::map<std::pair<std::uint64_t, std::uint64_t>, int> classes;
  auto cell = [&](std::uintptr_t b) -> int {
    auto it = bytes.find(b);
    if (it == bytes.end()) return -1;
    const Info& i = it->second;
    if (i.thread != -2 || !i.w) return -1;
    auto key = std::make_pair(i.h1, i.h2);
    auto c = classes.find(key);
    if (c != classes.end()) return c->second;
    int id = classes.size();
    classes[key] = id;
    return id;
  };
  char buf[256];
  for (int i = 0; i < n; i++) {
    const Ev& e = (*evs)[i];
    switch (e.kind) {
      case kEvApp:
        snprintf(buf, sizeof buf,
                 "{\"k\":\"%s\",\"t\":%d,\"a\":%d,\"b\":%d,\"c\":%d,\"d\":%d}\n",
                 e.name, e.t, e.a, e.b, e.c, e.d);
        s += buf;
        break;
      case kEvAtomic: {
        if (!cfg.log_sync) break;
        int c = cfg.log_access ? cell(e.addr) : -1;
        snprintf(buf, sizeof buf,
                 "{\"k\":\"at\",\"t\":%d,\"o\":%d,\"m\":%d,\"q\":%d,\"r\":%d,"
                 "\"cell\":%d}\n",
                 e.t, e.a, e.b, e.c, e.d, c + 1);
        s += buf;
        break;
      }
      case kEvLock: case kEvUnlock: case kEvCvWait: case kEvCvWake:
      case kEvSignal: case kEvSpawn: case kEvStart: case kEvExit:
      case kEvJoin: case kEvFence: {
        static const char* names[] = {"", "", "lock", "unlock", "cvwait",
                                      "cvwake", "signal", "spawn", "start",
                                      "exit", "join", "fence"};
        if (!cfg.log_sync && e.kind != kEvSpawn && e.kind != kEvExit &&
            e.kind != kEvJoin)
          break;
        snprintf(buf, sizeof buf, "{\"k\":\"%s\",\"t\":%d,\"o\":%d,\"q\":%d,\"r\":%d}\n",
                 names[e.kind], e.t, e.a, e.b, e.c);
        s += buf;
        break;
      }
      case kEvAcc: {
        if (!cfg.log_access) break;
        std::vector<int> r, w;
        for (std::uint32_t j = e.acc0; j < e.acc1; j++) {
          const Acc& a = (*accs)[j];
          for (std::uint32_t k = 0; k < a.size; k++) {
            int c = cell(a.addr + k);
            if (c < 0) continue;
            std::vector<int>& v = a.w ? w : r;
            if (v.empty() || v.back() != c + 1) v.push_back(c + 1);
          }
        }
        auto uniq = [](std::vector<int>& v) {
          std::sort(v.begin(), v.end());
          v.erase(std::unique(v.begin(), v.end()), v.end());
        };
        uniq(r);
        uniq(w);
        if (r.empty() && w.empty()) break;
        s += "{\"k\":\"acc\",\"t\":" + std::to_string(e.t) + ",\"rd\":[";
        for (std::size_t j = 0; j < r.size(); j++)
          s += (j ? "," : "") + std::to_string(r[j]);
        s += "],\"wr\":[";
        for (std::size_t j = 0; j < w.size(); j++)
          s += (j ? "," : "") + std::to_string(w[j]);
        s += "]}\n";
        break;
      }
      case kEvBad:
        snprintf(buf, sizeof buf, "{\"k\":\"bad\",\"t\":%d,\"a\":%d}\n", e.t, e.a);
        s += buf;
        break;
      case kEvEnd:
        break;
    }
  }
  snprintf(buf, sizeof buf,
           "{\"k\":\"end\",\"t\":0,\"out\":\"%s\",\"code\":%d,\"steps\":%lld,"
           "\"threads\":%d,\"alive\":%d,\"cells\":%d,\"objs\":%d}\n",
           outcome, code, (long long)steps, n_threads, ThreadsAlive(),
           (int)classes.size(), next_obj);
  s += buf;
  snprintf(buf, sizeof buf, ",\"threads\":%d,\"objs\":%d,\"cells\":%d}\n",
           n_threads, next_obj, (int)classes.size());
  s = header->substr(0, header->size() - 1) + buf + s;
  WriteAll(s.data(), s.size());
  // Decisions, after a marker line.
  std::string d = "#D";
  for (const Decision& x : *decisions_log)
    d += " " + std::to_string(x.options) + ":" + std::to_string(x.chosen);
  d += "\n";
  WriteAll(d.data(), d.size());
}

void Finish(const char* outcome, int code) {
  if (finished) _exit(4);
  finished = true;
  active = false;
  FlushAcc();
  Serialise(outcome, code);
  _exit(0);
}

// Memory of a thread that has ended (its stack and thread-local objects).
bool OfDeadThread(std::uintptr_t a) {
  for (int t = 1; t < n_threads; t++)
    if (ths[t].st == St::kDone && a >= ths[t].stack_lo && a < ths[t].stack_hi)
      return true;
  return false;
}

void BadAccess(const void* p, int what) {
  if (!active || in_rt) return;
  InRt in;
  (void)p;
  Push(kEvBad, what);
  // One report suffices; continuing risks cascading.
  Finish("bad", what);
}

// ---------------------------------------------------------------- scheduling
void SemWait(std::uint32_t* s) {
  while (true) {
    std::uint32_t v = __atomic_load_n(s, __ATOMIC_ACQUIRE);
    if (v) {
      __atomic_store_n(s, 0, __ATOMIC_RELEASE);
      return;
    }
    syscall(SYS_futex, s, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
}
void SemPost(std::uint32_t* s) {
  __atomic_store_n(s, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, s, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

std::unordered_map<const void*, int>* mutex_owner = nullptr;  // mutex -> tid

bool MutexFree(const void* m) {
  auto it = mutex_owner->find(m);
  return it == mutex_owner->end() || it->second < 0;
}

bool Enabled(int t) {
  Th& h = ths[t];
  switch (h.st) {
    case St::kRun: return true;
    case St::kMutex: return MutexFree(h.obj);
    case St::kCv: return h.timed;  // a timeout may expire
    case St::kJoin: return ths[h.join_target].st == St::kDone;
    case St::kSleep: return true;
    case St::kDone: return false;
  }
  return false;
}

int Pick() {
  // Spurious wake-ups.
  if (cfg.spurious_permille && RandInt(1000) < cfg.spurious_permille) {
    int w[kMaxThreads], n = 0;
    for (int t = 0; t < n_threads; t++)
      if (ths[t].st == St::kCv) w[n++] = t;
    if (n) {
      Th& h = ths[w[RandInt(n)]];
      h.st = St::kMutex;
      h.obj = h.mtx;
    }
  }
  int opts[kMaxThreads], n = 0;
  for (int t = 0; t < n_threads; t++)
    if (Enabled(t)) opts[n++] = t;
  if (n == 0) return -1;
  bool cur_enabled = false;
  for (int i = 0; i < n; i++)
    cur_enabled |= opts[i] == current && ths[current].st != St::kSleep;
  // Timed waits and sleeps expire only by choice; if only they remain, fine.
  switch (cfg.mode) {
    case Mode::kRoundRobin:
      return cur_enabled && consecutive < 60 ? current
                                             : opts[RandInt(n)];
    case Mode::kRandom:
      if (cur_enabled && consecutive < 400 &&
          RandInt(1000) >= cfg.switch_permille)
        return current;
      return opts[RandInt(n)];
    case Mode::kPct: {
      for (std::int64_t p : *pct_points)
        if (p == steps) ths[current].prio = --prio_low;
      if (consecutive > 150) ths[current].prio = --prio_low;
      int best = opts[0];
      for (int i = 1; i < n; i++)
        if (ths[opts[i]].prio > ths[best].prio) best = opts[i];
      return best;
    }
    case Mode::kHint: {
      while (decision_pos < cfg.prefix.size()) {
        int want = cfg.prefix[decision_pos++];
        for (int i = 0; i < n; i++)
          if (opts[i] == want) return want;
        // A hint for a thread that cannot run is skipped.
      }
      if (cur_enabled && consecutive < 100 && RandInt(1000) >= 300)
        return current;
      return opts[RandInt(n)];
    }
    case Mode::kDfs: {
      // Order: current first, then the others by distance.
      int o[kMaxThreads], m = 0;
      if (cur_enabled && consecutive < 60) o[m++] = current;
      bool may_switch = !cur_enabled || consecutive >= 60 ||
                        preemptions < cfg.preemption_bound;
      if (may_switch)
        for (int d = 1; d <= n_threads; d++) {
          int t = (current + d) % n_threads;
          if (t == current) continue;
          for (int i = 0; i < n; i++)
            if (opts[i] == t) o[m++] = t;
        }
      if (m == 0) o[m++] = opts[0];
      int c = 0;
      if (m > 1) {
        if (decision_pos < cfg.prefix.size()) c = cfg.prefix[decision_pos];
        if (c >= m) c = m - 1;
        decision_pos++;
        decisions_log->push_back({m, c});
      }
      if (cur_enabled && consecutive < 60 && o[c] != current) preemptions++;
      return o[c];
    }
  }
  return opts[0];
}

// Gives up the token if another thread is picked. Called with the running
// thread's status already set. Returns when this thread holds the token again.
void Reschedule() {
  steps++;
  if (steps > cfg.max_steps) Finish("livelock", 0);
  FlushAcc();
  int next = Pick();
  if (next < 0) Finish("deadlock", 0);
  if (next == current) {
    consecutive++;
  } else {
    consecutive = 0;
    current = next;
    SemPost(&ths[next].sem);
    if (ths[self].st == St::kDone) return;  // exiting thread
    SemWait(&ths[self].sem);
  }
  Th& h = ths[self];
  if (h.st == St::kSleep) {
    if (vclock_ns < h.wake) vclock_ns = h.wake;
    h.st = St::kRun;
  } else if (h.st == St::kCv) {  // timeout
    h.timed_out = true;
    h.st = St::kMutex;
    h.obj = h.mtx;
  } else if (h.st == St::kJoin) {
    h.st = St::kRun;
  }
}

void Point() {
  InRt in;
  Reschedule();
}

inline bool Live() { return active && self >= 0 && !in_rt; }

void AcquireMutexBlocking(const void* m) {
  Th& h = ths[self];
  while (!MutexFree(m)) {
    h.st = St::kMutex;
    h.obj = m;
    Reschedule();
    h.st = St::kRun;
  }
  (*mutex_owner)[m] = self;
}

void OnCrash(int sig) {
  if (!active) _exit(100 + sig);
  ++in_rt;
  Finish("crash", sig);
}

void RetireObject(std::uintptr_t addr, std::uint32_t size) {
  // A plain write over a synchronisation object starts a new object.
  if (obj_ids->empty()) return;
  for (std::uint32_t k = 0; k < size; k++) {
    auto it = obj_ids->find(addr + k);
    if (it != obj_ids->end()) obj_ids->erase(it);
  }
}

}  // namespace

// ---------------------------------------------------------------- API
void OnAccess(const void* p, std::size_t size, bool write) {
  if (!Live()) return;
  InRt in;
  std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
  if (InArena(p)) {
    std::size_t o0 = (a - reinterpret_cast<std::uintptr_t>(arena_base)) / 16;
    std::size_t o1 =
        (a + (size ? size - 1 : 0) - reinterpret_cast<std::uintptr_t>(arena_base)) / 16;
    for (std::size_t o = o0; o <= o1; o++)
      if (arena_shadow[o] != 1) {
        --in_rt;
        BadAccess(p, arena_shadow[o] == 2 ? 2 : 1);
        ++in_rt;
        return;
      }
  }
  if (OfDeadThread(a)) {
    --in_rt;
    BadAccess(p, 3);
    ++in_rt;
    return;
  }
  for (auto& r : *ignored)
    if (a >= r.first && a < r.second) return;
  if (write) RetireObject(a, size);
  if (!cfg.log_access) return;
  cur_acc->push_back({a, static_cast<std::uint32_t>(size), write});
}

void Event(const char* k, int a, int b, int c, int d) {
  if (!active) return;
  InRt in;
  Push(kEvApp, a, b, c, d, k);
}
void Yield() {
  if (Live()) Point();
}
int Tid() { return self; }
int ThreadsCreated() { return n_threads; }
int ThreadsAlive() {
  int n = 0;
  for (int t = 0; t < n_threads; t++) n += ths[t].st != St::kDone;
  return n;
}
std::int64_t LiveBytes() { return live_bytes; }
std::int64_t VirtualNow() { return vclock_ns; }
void AdvanceTime(std::int64_t ns) { vclock_ns += ns; }
void IgnoreRange(const void* p, std::size_t n) {
  InRt in;
  ignored->push_back({reinterpret_cast<std::uintptr_t>(p),
                      reinterpret_cast<std::uintptr_t>(p) + n});
}

bool RunForked(const Config& config, const std::string& header_json,
               const std::function<void()>& body, std::string* out,
               std::vector<Decision>* decisions, double timeout_s) {
  int fds[2];
  if (pipe(fds)) return false;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) return false;
  if (pid == 0) {
    close(fds[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    out_fd = fds[1];
    int devnull = 2;
    (void)devnull;
    cfg = config;
    header = new std::string(header_json);
    evs = new std::vector<Ev>;
    evs->reserve(1 << 16);
    accs = new std::vector<Acc>;
    accs->reserve(1 << 16);
    cur_acc = new std::vector<Acc>;
    obj_ids = new std::unordered_map<std::uintptr_t, int>;
    mutex_owner = new std::unordered_map<const void*, int>;
    decisions_log = new std::vector<Decision>;
    pct_points = new std::vector<std::int64_t>;
    ignored = new std::vector<std::pair<std::uintptr_t, std::uintptr_t>>;
    ths = new Th[kMaxThreads];
    rng_state = config.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    for (int i = 0; i < 10; i++) Rand();
    for (int i = 0; i < kMaxThreads; i++) ths[i].prio = 1000 + RandInt(100000);
    for (int i = 0; i < config.pct_depth; i++)
      pct_points->push_back(RandInt(config.pct_len));
    ArenaInit();
    for (int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_handler = OnCrash;
      sa.sa_flags = SA_NODEFER;
      sigaction(sig, &sa, nullptr);
    }
    self = 0;
    n_threads = 1;
    current = 0;
    active = true;
    body();
    {
      InRt in;
      FlushAcc();
    }
    ++in_rt;
    Finish("ok", 0);
  }
  close(fds[1]);
  std::string buf;
  char tmp[1 << 16];
  bool hang = false;
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  while (true) {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double el = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
    if (el > timeout_s) {
      hang = true;
      break;
    }
    struct pollfd pf = {fds[0], POLLIN, 0};
    int r = poll(&pf, 1, 200);
    if (r > 0) {
      ssize_t n = read(fds[0], tmp, sizeof tmp);
      if (n <= 0) break;
      buf.append(tmp, n);
    }
  }
  if (hang) kill(pid, SIGKILL);
  int status = 0;
  waitpid(pid, &status, 0);
  close(fds[0]);
  if (hang || !WIFEXITED(status) || WEXITSTATUS(status) != 0) {
    // The child died without a trace: keep only the header and the outcome.
    *out += header_json.substr(0, header_json.size() - 1) +
            ",\"threads\":1,\"objs\":0,\"cells\":0}\n";
    *out += std::string("{\"k\":\"end\",\"t\":0,\"out\":\"") +
            (hang ? "hang" : "died") + "\",\"code\":" +
            std::to_string(WIFSIGNALED(status) ? WTERMSIG(status)
                                               : WEXITSTATUS(status)) +
            ",\"steps\":0,\"threads\":0,\"alive\":0,\"cells\":0,\"objs\":0}\n";
    if (decisions) decisions->clear();
    return true;
  }
  std::size_t d = buf.rfind("#D");
  if (d == std::string::npos) return false;
  if (decisions) {
    decisions->clear();
    const char* p = buf.c_str() + d + 2;
    int o, c, adv;
    while (sscanf(p, " %d:%d%n", &o, &c, &adv) == 2) {
      decisions->push_back({o, c});
      p += adv;
    }
  }
  out->append(buf, 0, d);
  return true;
}

namespace {

template <typename F>
F Real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

struct StartArg {
  void* (*fn)(void*);
  void* arg;
  int tid;
};

void* Trampoline(void* p) {
  StartArg a = *static_cast<StartArg*>(p);
  ++in_rt;
  self = a.tid;
  SemWait(&ths[self].sem);
  Push(kEvStart);
  --in_rt;
  void* r = a.fn(a.arg);
  while (!ths[self].tls_dtors.empty()) {
    auto d = ths[self].tls_dtors.back();
    ths[self].tls_dtors.pop_back();
    d.first(d.second);
  }
  ++in_rt;
  Push(kEvExit);
  ths[self].st = St::kDone;
  Reschedule();
  return r;
}

inline bool Acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
inline bool Rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

// m: 0 load, 1 store, 2 read-modify-write
void AtomicEv(const volatile void* p, int m, int mo) {
  const void* q = const_cast<const void*>(p);
  if (InArena(q)) {
    std::size_t o = (reinterpret_cast<std::uintptr_t>(q) -
                     reinterpret_cast<std::uintptr_t>(arena_base)) / 16;
    if (arena_shadow[o] != 1) {
      int w = arena_shadow[o] == 2 ? 2 : 1;
      --in_rt;
      BadAccess(q, w);
      ++in_rt;
    }
  }
  Push(kEvAtomic, ObjId(q), m, m != 1 && Acq(mo), m != 0 && Rel(mo), nullptr,
       reinterpret_cast<std::uintptr_t>(q));
}

}  // namespace
}  // namespace rt

using namespace rt;

extern "C" {

// ---------------------------------------------------------------- malloc
void* malloc(size_t n) {
  if (active && !in_rt && self >= 0) return ArenaAlloc(16, n);
  return __libc_malloc(n);
}
void free(void* p) {
  if (!p) return;
  if (InArena(p)) {
    ArenaFree(p);
    return;
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (active && !in_rt && self >= 0) {
    void* p = ArenaAlloc(16, a * b);
    if (p) memset(p, 0, a * b);
    return p;
  }
  return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n) {
  if (p && InArena(p)) {
    std::size_t old = reinterpret_cast<std::uint64_t*>(p)[-1];
    void* q = ArenaAlloc(16, n);
    if (q) memcpy(q, p, old < n ? old : n);
    ArenaFree(p);
    return q;
  }
  if (!p) return malloc(n);
  return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) {
  if (active && !in_rt && self >= 0) return ArenaAlloc(al, n);
  return __libc_memalign(al, n);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}

// ---------------------------------------------------------------- pthreads
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*),
                   void* arg) {
  using F = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static F real = Real<F>("pthread_create");
  if (!Live()) return real(th, at, fn, arg);
  InRt in;
  Reschedule();
  if (n_threads >= kMaxThreads) return EAGAIN;
  int t = n_threads++;
  ths[t].st = St::kRun;
  StartArg* a = new StartArg{fn, arg, t};
  // Stacks are never reused: libc's stack cache would otherwise make unrelated
  // threads share addresses without any synchronisation in the trace.
  const std::size_t kStack = 1 << 20;
  void* stk = mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pthread_attr_t own;
  const pthread_attr_t* use = at;
  if (stk != MAP_FAILED && !at) {
    pthread_attr_init(&own);
    pthread_attr_setstack(&own, stk, kStack);
    use = &own;
  }
  int r = real(th, use, Trampoline, a);
  if (r) {
    n_threads--;
    return r;
  }
  ths[t].handle = *th;
  if (use == &own) {
    ths[t].stack_lo = reinterpret_cast<std::uintptr_t>(stk);
    ths[t].stack_hi = ths[t].stack_lo + kStack;
  }
  Push(kEvSpawn, t);
  return 0;
}

int pthread_join(pthread_t th, void** ret) {
  using F = int (*)(pthread_t, void**);
  static F real = Real<F>("pthread_join");
  if (!Live()) return real(th, ret);
  InRt in;
  int t = -1;
  for (int i = n_threads - 1; i >= 0; i--)
    if (i != 0 && pthread_equal(ths[i].handle, th)) {
      t = i;
      break;
    }
  if (t >= 0) {
    ths[self].st = St::kJoin;
    ths[self].join_target = t;
    Reschedule();
    while (ths[t].st != St::kDone) {
      ths[self].st = St::kJoin;
      Reschedule();
    }
    ths[self].st = St::kRun;
    Push(kEvJoin, t);
  }
  int r = real(th, ret);
  if (t >= 0) ths[t].handle = pthread_t{};
  return r;
}

int pthread_detach(pthread_t th) {
  using F = int (*)(pthread_t);
  static F real = Real<F>("pthread_detach");
  return real(th);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  using F = int (*)(pthread_mutex_t*);
  static F real = Real<F>("pthread_mutex_lock");
  if (!Live()) return active && self >= 0 ? 0 : real(m);
  if (OfDeadThread(reinterpret_cast<std::uintptr_t>(m))) BadAccess(m, 3);
  InRt in;
  Reschedule();
  AcquireMutexBlocking(m);
  Push(kEvLock, ObjId(m), 1, 0);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  using F = int (*)(pthread_mutex_t*);
  static F real = Real<F>("pthread_mutex_trylock");
  if (!Live()) return real(m);
  InRt in;
  Reschedule();
  if (!MutexFree(m)) return EBUSY;
  (*mutex_owner)[m] = self;
  Push(kEvLock, ObjId(m), 1, 0);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  using F = int (*)(pthread_mutex_t*);
  static F real = Real<F>("pthread_mutex_unlock");
  if (!Live()) return active && self >= 0 ? 0 : real(m);
  InRt in;
  Reschedule();
  if (MutexFree(m) || (*mutex_owner)[m] != self) {
    --in_rt;
    BadAccess(m, 4);
    ++in_rt;
  }
  (*mutex_owner)[m] = -1;
  Push(kEvUnlock, ObjId(m), 0, 1);
  return 0;
}

static int CondWaitImpl(pthread_cond_t* c, pthread_mutex_t* m, bool timed,
                        std::int64_t deadline) {
  InRt in;
  Reschedule();
  Th& h = ths[self];
  Push(kEvCvWait, ObjId(m), 0, 1);
  (*mutex_owner)[m] = -1;
  h.st = St::kCv;
  h.obj = c;
  h.mtx = m;
  h.timed = timed;
  h.timed_out = false;
  Reschedule();
  // Woken: h.st is kMutex (waiting for the mutex).
  h.st = St::kRun;
  AcquireMutexBlocking(m);
  if (h.timed_out && vclock_ns < deadline) vclock_ns = deadline;
  Push(kEvCvWake, ObjId(m), 1, 0);
  return h.timed_out ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  using F = int (*)(pthread_cond_t*, pthread_mutex_t*);
  static F real = Real<F>("pthread_cond_wait");
  if (!Live()) return real(c, m);
  return CondWaitImpl(c, m, false, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* ts) {
  using F = int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
  static F real = Real<F>("pthread_cond_timedwait");
  if (!Live()) return real(c, m, ts);
  return CondWaitImpl(c, m, true, ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* ts) {
  using F = int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t,
                    const struct timespec*);
  static F real = Real<F>("pthread_cond_clockwait");
  if (!Live()) return real(c, m, k, ts);
  return CondWaitImpl(c, m, true, ts->tv_sec * 1000000000LL + ts->tv_nsec);
}
static void Notify(pthread_cond_t* c, bool all) {
  InRt in;
  Reschedule();
  int w[kMaxThreads], n = 0;
  for (int t = 0; t < n_threads; t++)
    if (ths[t].st == St::kCv && ths[t].obj == c) w[n++] = t;
  Push(kEvSignal, ObjId(c), 0, 0);
  if (!n) return;
  if (all) {
    for (int i = 0; i < n; i++) {
      ths[w[i]].st = St::kMutex;
      ths[w[i]].obj = ths[w[i]].mtx;
    }
  } else {
    int i = RandInt(n);
    ths[w[i]].st = St::kMutex;
    ths[w[i]].obj = ths[w[i]].mtx;
  }
}
int pthread_cond_signal(pthread_cond_t* c) {
  using F = int (*)(pthread_cond_t*);
  static F real = Real<F>("pthread_cond_signal");
  if (!Live()) return real(c);
  Notify(c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  using F = int (*)(pthread_cond_t*);
  static F real = Real<F>("pthread_cond_broadcast");
  if (!Live()) return real(c);
  Notify(c, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  using F = int (*)(pthread_cond_t*);
  static F real = Real<F>("pthread_cond_destroy");
  if (!Live()) return real(c);
  for (int t = 0; t < n_threads; t++)
    if (ths[t].st == St::kCv && ths[t].obj == c) BadAccess(c, 5);
  return 0;
}

int sched_yield(void) {
  if (Live()) {
    InRt in;
    int save = consecutive;
    consecutive = 1 << 20;  // prefer another thread
    Reschedule();
    if (consecutive > (1 << 20)) consecutive = save;
  }
  return 0;
}

static void SleepNs(std::int64_t ns) {
  InRt in;
  Th& h = ths[self];
  h.st = St::kSleep;
  h.wake = vclock_ns + ns;
  h.prio = --prio_low;
  Reschedule();
  h.st = St::kRun;
  Push(kEvApp, 0, 0, 0, 0, "sleep");
}
int nanosleep(const struct timespec* r, struct timespec* rem) {
  using F = int (*)(const struct timespec*, struct timespec*);
  static F real = Real<F>("nanosleep");
  if (!Live()) return real(r, rem);
  SleepNs(r->tv_sec * 1000000000LL + r->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t k, int flags, const struct timespec* r,
                    struct timespec* rem) {
  using F = int (*)(clockid_t, int, const struct timespec*, struct timespec*);
  static F real = Real<F>("clock_nanosleep");
  if (!Live()) return real(k, flags, r, rem);
  std::int64_t ns = r->tv_sec * 1000000000LL + r->tv_nsec;
  SleepNs(flags ? ns - vclock_ns : ns);
  return 0;
}
int usleep(useconds_t us) {
  if (!Live()) return 0;
  SleepNs(us * 1000LL);
  return 0;
}
int clock_gettime(clockid_t k, struct timespec* ts) {
  if (Live()) {
    InRt in;
    Reschedule();
    vclock_ns += cfg.tick_ns;
    ts->tv_sec = vclock_ns / 1000000000;
    ts->tv_nsec = vclock_ns % 1000000000;
    return 0;
  }
  return syscall(SYS_clock_gettime, k, ts);
}

int __cxa_thread_atexit(void (*f)(void*), void* obj, void* dso) {
  using F = int (*)(void (*)(void*), void*, void*);
  static F real = Real<F>("__cxa_thread_atexit");
  if (Live() && self > 0) {
    InRt in;
    ths[self].tls_dtors.push_back({f, obj});
    return 0;
  }
  return real(f, obj, dso);
}

// ---------------------------------------------------------------- tsan ABI
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RT_RW(n)                                                    \
  void __tsan_read##n(void* p) { OnAccess(p, n, false); }           \
  void __tsan_write##n(void* p) { OnAccess(p, n, true); }           \
  void __tsan_unaligned_read##n(void* p) { OnAccess(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { OnAccess(p, n, true); } \
  void __tsan_volatile_read##n(void* p) { OnAccess(p, n, false); }  \
  void __tsan_volatile_write##n(void* p) { OnAccess(p, n, true); }
RT_RW(1) RT_RW(2) RT_RW(4) RT_RW(8) RT_RW(16)
void __tsan_read_range(void* p, unsigned long n) { OnAccess(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { OnAccess(p, n, true); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) OnAccess(p, 8, true);
}
void __tsan_vptr_read(void** p) { OnAccess(p, 8, false); }

#define RT_ATOMIC(bits, T)                                                     \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                  \
    if (!Live()) return __atomic_load_n(p, __ATOMIC_SEQ_CST);                  \
    InRt in; Reschedule(); AtomicEv(p, 0, mo);                                 \
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {               \
    if (!Live()) { __atomic_store_n(p, v, __ATOMIC_SEQ_CST); return; }         \
    InRt in; Reschedule(); AtomicEv(p, 1, mo);                                 \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {               \
    if (!Live()) return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);           \
    InRt in; Reschedule(); AtomicEv(p, 2, mo);                                 \
    return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) {              \
    if (!Live()) return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);            \
    InRt in; Reschedule(); AtomicEv(p, 2, mo);                                 \
    return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) {              \
    if (!Live()) return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);            \
    InRt in; Reschedule(); AtomicEv(p, 2, mo);                                 \
    return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) {               \
    if (!Live()) return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);             \
    InRt in; Reschedule(); AtomicEv(p, 2, mo);                                 \
    return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) {              \
    if (!Live()) return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);            \
    InRt in; Reschedule(); AtomicEv(p, 2, mo);                                 \
    return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) {              \
    if (!Live()) return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);            \
    InRt in; Reschedule(); AtomicEv(p, 2, mo);                                 \
    return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(                           \
      volatile T* p, T* c, T v, int mo, int fmo) {                             \
    if (!Live())                                                               \
      return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,     \
                                         __ATOMIC_SEQ_CST);                    \
    InRt in; Reschedule();                                                     \
    bool ok = *p == *c;                                                        \
    AtomicEv(p, ok ? 2 : 0, ok ? mo : fmo);                                    \
    return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST,       \
                                       __ATOMIC_SEQ_CST);                      \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(                             \
      volatile T* p, T* c, T v, int mo, int fmo) {                             \
    return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo);    \
  }                                                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v,        \
                                               int mo, int fmo) {              \
    T e = c;                                                                   \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);          \
    return e;                                                                  \
  }
RT_ATOMIC(8, unsigned char)
RT_ATOMIC(16, unsigned short)
RT_ATOMIC(32, unsigned int)
RT_ATOMIC(64, unsigned long)

void __tsan_atomic_thread_fence(int mo) {
  if (!Live()) return;
  InRt in;
  Reschedule();
  Push(kEvFence, 0, Acq(mo), Rel(mo));
}
void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n && Live()) {
    OnAccess(s, n, false);
    OnAccess(d, n, true);
  }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n && Live()) {
    OnAccess(s, n, false);
    OnAccess(d, n, true);
  }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (n && Live()) OnAccess(d, n, true);
  return __real_memset(d, c, n);
}
}
