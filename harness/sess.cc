// Executes scripted sessions: buffers, contexts, settings, multiplications.
// Every session runs in its own process; what it did is logged as JSON.
#include <dirent.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

#include <atomic>
#include <cerrno>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/performance_advisory.h"
#include "ruy/prepacked_cache.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"
#include "sess.h"

// ------------------------------------------------------------ memory accounting
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
// Counted: blocks requested by the library itself (not by the system libraries
// on behalf of it, which keep some for later) during calls into the library.
static const std::size_t kSlots = 1 << 16;
static void* g_slot[kSlots];
static long g_slot_bytes[kSlots];
static long g_live_blocks = 0, g_live_sum = 0, g_allocs = 0;
static std::atomic_flag g_slot_lock = ATOMIC_FLAG_INIT;
static bool g_count = false;
struct InLibrary {
  InLibrary() { __atomic_store_n(&g_count, true, __ATOMIC_SEQ_CST); }
  ~InLibrary() { __atomic_store_n(&g_count, false, __ATOMIC_SEQ_CST); }
};
extern "C" char __executable_start, etext;
static bool Ours(void* caller) { return caller >= (void*)&__executable_start && caller < (void*)&etext; }
static std::size_t Slot(void* p) { return ((std::uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ull >> 48; }
static void* Got(void* p, std::size_t n, void* caller) {
  if (!p || !__atomic_load_n(&g_count, __ATOMIC_SEQ_CST) || !Ours(caller)) return p;
  while (g_slot_lock.test_and_set()) {}
  std::size_t k = Slot(p);
  while (g_slot[k] && g_slot[k] != (void*)1) k = (k + 1) % kSlots;
  g_slot[k] = p;
  g_slot_bytes[k] = n;
  g_live_blocks++;
  g_live_sum += n;
  g_allocs++;
  g_slot_lock.clear();
  return p;
}
static void Gone(void* p) {
  if (!p) return;
  while (g_slot_lock.test_and_set()) {}
  for (std::size_t k = Slot(p); g_slot[k]; k = (k + 1) % kSlots)
    if (g_slot[k] == p) {
      g_slot[k] = (void*)1;
      g_live_blocks--;
      g_live_sum -= g_slot_bytes[k];
      break;
    }
  g_slot_lock.clear();
}
#define CALLER __builtin_return_address(0)
extern "C" {
void* malloc(size_t n) { return Got(__libc_malloc(n), n, CALLER); }
void free(void* p) { Gone(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { return Got(__libc_calloc(a, b), a * b, CALLER); }
void* realloc(void* q, size_t n) { Gone(q); return Got(__libc_realloc(q, n), n, CALLER); }
void* memalign(size_t a, size_t n) { return Got(__libc_memalign(a, n), n, CALLER); }
void* aligned_alloc(size_t a, size_t n) { return Got(__libc_memalign(a, n), n, CALLER); }
int posix_memalign(void** out, size_t a, size_t n) {
  *out = Got(__libc_memalign(a, n), n, CALLER);
  return *out ? 0 : ENOMEM;
}
}
static void* New(std::size_t n, void* caller) {
  void* p = Got(__libc_malloc(n ? n : 1), n, caller);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new(std::size_t n) { return New(n, CALLER); }
void* operator new[](std::size_t n) { return New(n, CALLER); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }

// ------------------------------------------------------------------ registry
static std::map<std::vector<int>, MulFn>& Fns() {
  static auto* m = new std::map<std::vector<int>, MulFn>;
  return *m;
}
void RegisterMul(int tl, int tr, int td, MulFn fn, int cp) { Fns()[{tl, tr, td, cp}] = fn; }
#define R(N) void RegisterTypes##N();
R(0) R(1) R(2) R(3) R(4) R(5) R(6) R(7) R(8)
#undef R

// ------------------------------------------------------------------- buffers
static const int kSize[6] = {1, 1, 2, 4, 4, 8};
static const std::size_t kPage = 4096;

struct Buf {
  int type = 0, n = 0;
  bool ro = false;
  char* map = nullptr;
  std::size_t map_bytes = 0;
  char* data = nullptr;
  std::vector<char> copy;  // contents as last set
  // Spread out: runs of `inner` entries, `stride` entries apart, nothing
  // accessible in between but the rest of their pages.
  int inner = 0;
  long stride = 0;
  char* At(long i) const {
    const long k = inner ? i / inner * stride + i % inner : i;
    return data + k * kSize[type];
  }
};
static std::map<int, Buf> g_bufs;
static int g_scale[2];
static FILE* g_out;
static int g_op = 0;

static void Store(int type, void* base, int i, double v) {
  switch (type) {
    case 0: static_cast<std::int8_t*>(base)[i] = (std::int8_t)v; break;
    case 1: static_cast<std::uint8_t*>(base)[i] = (std::uint8_t)v; break;
    case 2: static_cast<std::int16_t*>(base)[i] = (std::int16_t)v; break;
    case 3: static_cast<std::int32_t*>(base)[i] = (std::int32_t)v; break;
    case 4: static_cast<float*>(base)[i] = (float)v; break;
    default: static_cast<double*>(base)[i] = v; break;
  }
}
static double Load(int type, const void* base, int i) {
  switch (type) {
    case 0: return static_cast<const std::int8_t*>(base)[i];
    case 1: return static_cast<const std::uint8_t*>(base)[i];
    case 2: return static_cast<const std::int16_t*>(base)[i];
    case 3: return static_cast<const std::int32_t*>(base)[i];
    case 4: return static_cast<const float*>(base)[i];
    default: return static_cast<const double*>(base)[i];
  }
}

static void Protect(Buf& b, bool ro) {
  const std::size_t bytes = (b.map_bytes - 2 * kPage);
  mprotect(b.map + kPage, bytes, ro ? PROT_READ : PROT_READ | PROT_WRITE);
}

// place: 0 ends at inaccessible memory, 1 starts right after it
// n values are read, the others are as given by `fill`
static void Keep(Buf& b, bool ro) {
  const char* inner0 = b.map + kPage;
  b.copy.assign(inner0, inner0 + b.map_bytes - 2 * kPage);
  b.ro = ro;
  if (ro) Protect(b, true);
}
static void SetBuf(int id, int place, bool ro, int type, int given, std::istringstream& is, int scale, int n = -1,
                   double fill = 0) {
  Buf& b = g_bufs[id];
  if (n < 0) n = given;
  const std::size_t bytes = (std::size_t)n * kSize[type];
  if (!b.map) {
    const std::size_t inner = (bytes + kPage - 1) / kPage * kPage + (bytes == 0 ? kPage : 0);
    b.map_bytes = inner + 2 * kPage;
    b.map = static_cast<char*>(
        mmap(nullptr, b.map_bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(b.map + kPage, inner, PROT_READ | PROT_WRITE);
    memset(b.map + kPage, 0x5a, inner);
    b.data = place ? b.map + kPage : b.map + kPage + inner - bytes;
    b.type = type;
    b.n = n;
  } else {
    if (b.type != type || b.n != n) std::abort();
    Protect(b, false);
  }
  for (int i = 0; i < n; i++) {
    double v = fill;
    if (i < given) is >> v;
    Store(type, b.data, i, std::ldexp(v, scale));
  }
  Keep(b, ro);
}

// A matrix whose entry (i, j) is a[i] + b[j]; 7 between its columns or rows.
static void SetSum(int id, int type, int rows, int cols, int order, int stride, int off, int place, std::istringstream& is,
                   int scale) {
  std::vector<double> a(rows), b(cols);
  for (double& x : a) is >> x;
  for (double& x : b) is >> x;
  const int n = off + stride * ((order ? rows : cols) - 1) + (order ? cols : rows);
  std::istringstream none;
  SetBuf(id, place, false, type, 0, none, 0, n);
  Buf& buf = g_bufs[id];
  for (int i = 0; i < n; i++) Store(type, buf.data, i, 7);
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++)
      Store(type, buf.data, off + (order ? i * stride + j : j * stride + i), std::ldexp(a[i] + b[j], scale));
  Keep(buf, true);
}

static void ProtectRuns(Buf& b, bool ro) {
  for (long o = 0; o < b.n / b.inner; o++) {
    char* p = b.At(o * b.inner);
    char* lo = p - ((std::uintptr_t)p) % kPage;
    mprotect(lo, (p - lo + (std::size_t)b.inner * kSize[b.type] + kPage - 1) / kPage * kPage,
             ro ? PROT_READ : PROT_READ | PROT_WRITE);
  }
}
static void SetWide(int id, bool ro, int type, int n, int inner, long stride, std::istringstream& is, int scale) {
  Buf& b = g_bufs[id];
  b.type = type;
  b.n = n;
  b.inner = inner;
  b.stride = stride;
  const std::size_t bytes = ((std::size_t)(n / inner) * stride * kSize[type] + kPage - 1) / kPage * kPage;
  b.map_bytes = bytes + 2 * kPage;
  b.map = static_cast<char*>(
      mmap(nullptr, b.map_bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (b.map == MAP_FAILED) _exit(3);
  b.data = b.map + kPage;
  ProtectRuns(b, false);
  for (int i = 0; i < n; i++) {
    double v;
    is >> v;
    Store(type, b.At(i), 0, std::ldexp(v, scale));
  }
  b.copy.clear();
  for (int i = 0; i < n; i++) b.copy.insert(b.copy.end(), b.At(i), b.At(i) + kSize[type]);
  b.ro = ro;
  if (ro) ProtectRuns(b, true);
}

// 1 if the memory of the buffer outside the entries is as it was set (for
// buffers not written by the operation: all of it)
static int Intact(const Buf& b, bool whole) {
  if (b.inner) {
    for (int i = 0; whole && i < b.n; i++)
      if (memcmp(b.At(i), b.copy.data() + (long)i * kSize[b.type], kSize[b.type])) return 0;
    return 1;
  }
  const char* inner0 = b.map + kPage;
  const std::size_t n = b.map_bytes - 2 * kPage;
  const std::size_t lo = b.data - inner0, hi = lo + (std::size_t)b.n * kSize[b.type];
  for (std::size_t i = 0; i < n; i++)
    if ((whole || i < lo || i >= hi) && inner0[i] != b.copy[i]) return 0;
  return 1;
}

// ------------------------------------------------------------------- faults
static void OnFault(int sig, siginfo_t* si, void*) {
  const char* a = static_cast<const char*>(si->si_addr);
  int which = -1;
  if (sig == SIGSEGV || sig == SIGBUS)
    for (auto& kv : g_bufs)
      if (a >= kv.second.map && a < kv.second.map + kv.second.map_bytes) which = kv.first;
  char line[200];
  int n = snprintf(line, sizeof line, "{\"i\":%d,\"k\":\"crash\",\"sig\":%d,\"buf\":%d}\n", g_op, sig, which);
  fflush(g_out);
  if (write(fileno(g_out), line, n) < 0) _exit(3);
  _exit(sig == SIGALRM ? 4 : 0);
}

static int Threads() {
  int n = 0;
  DIR* d = opendir("/proc/self/task");
  while (dirent* e = readdir(d))
    if (e->d_name[0] != '.') n++;
  closedir(d);
  return n;
}
static int SettledThreads(int want) {
  int n = Threads();
  // A joined thread may linger in the task list for a moment.
  for (int k = 0; k < 200 && n > want; k++) {
    usleep(1000);
    n = Threads();
  }
  return n;
}

// ------------------------------------------------------------------ session
struct Session {
  std::map<int, ruy::Context*> ctx;
  std::map<int, std::vector<std::int8_t>> big;

  void ReadMat(std::istringstream& is, MatArg* m, bool src) {
    int b, off;
    is >> b >> off >> m->rows >> m->cols >> m->stride >> m->order >> m->zp;
    m->policy = 0;
    if (src) is >> m->policy;
    m->data = g_bufs.at(b).data + (long)off * kSize[g_bufs.at(b).type];
  }
  void* Ptr(int b) { return b < 0 ? nullptr : g_bufs.at(b).data; }

  void Mul(std::istringstream& is) {
    int c, tl, tr, td, db, full, cp;
    unsigned mx;
    MulArg a;
    is >> c >> tl >> tr >> td >> db >> full >> mx >> cp;
    ReadMat(is, &a.l, true);
    ReadMat(is, &a.r, true);
    ReadMat(is, &a.d, false);
    int bb, mb, eb;
    is >> bb >> a.mode >> a.m >> a.e >> mb >> eb >> a.channel >> a.rounding >> a.clamp >> a.cmin >> a.cmax;
    a.bias = Ptr(bb);
    a.mbuf = Ptr(mb);
    a.ebuf = Ptr(eb);
    const int ds = g_scale[0] + g_scale[1];
    if (td >= 4) {
      a.cmin = std::ldexp(a.cmin, ds);
      a.cmax = std::ldexp(a.cmax, ds);
    }
    MulFn fn = Fns().at({tl, tr, td, cp});
    ruy::Context* x = ctx.at(c);
    const unsigned mx0 = _mm_getcsr();
    {
      InLibrary in;
      if (mx) _mm_setcsr(mx);
      fn(&a, x);
    }
    const unsigned mx1 = _mm_getcsr();
    _mm_setcsr(mx0);
    int intact = 1;
    for (auto& kv : g_bufs)
      if (!Intact(kv.second, kv.first != db)) intact = 0;
    Buf& d = g_bufs.at(db);
    if (d.inner) {
      for (int i = 0; i < d.n; i++) memcpy(d.copy.data() + (long)i * kSize[d.type], d.At(i), kSize[d.type]);
    } else memcpy(d.copy.data() + (d.data - (d.map + kPage)), d.data, (std::size_t)d.n * kSize[d.type]);
    ruy::Ctx* cx = ruy::get_ctx(x);
    fprintf(g_out,
            "{\"i\":%d,\"k\":\"mul\",\"path\":%d,\"rp\":%d,\"adv\":%d,\"intact\":%d,\"mx0\":%u,\"mx1\":%u,\"lw\":%d,"
            "\"rw\":%d,\"cn\":%d,\"out\":[",
            g_op, (int)cx->last_used_path(), (int)cx->GetRuntimeEnabledPaths(),
            (int)x->performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer), intact,
            mx ? mx : mx0, mx1, a.lw, a.rw, cx->GetPrepackedCache()->MatrixCount());
    int odd = 0;
    for (int i = 0; i < (full ? d.n : 0); i++) {
      double v = Load(d.type, d.At(i), 0);
      if (d.type >= 4) v = std::ldexp(v, -ds);
      long w;
      if (!(v >= -2e9 && v <= 2e9) || v != std::floor(v)) {
        odd++;
        w = 2100000000;
      } else {
        w = (long)v;
      }
      fprintf(g_out, i ? ",%ld" : "%ld", w);
    }
    fprintf(g_out, "],\"odd\":%d}\n", odd);
  }

  void Op(const std::string& line) {
    std::istringstream is(line);
    std::string k;
    is >> k;
    if (k == "B") {
      int id, place, ro, type, n, side;
      is >> id >> place >> ro >> type >> n >> side;
      // side: 0/1 lhs/rhs scaling, 2 both, 3 none
      int sc = type < 4 || side == 3 ? 0 : side == 2 ? g_scale[0] + g_scale[1] : g_scale[side];
      SetBuf(id, place, ro, type, n, is, sc);
    } else if (k == "L") {
      int id, type, rows, cols, order, stride, off, place, side;
      is >> id >> type >> rows >> cols >> order >> stride >> off >> place >> side;
      SetSum(id, type, rows, cols, order, stride, off, place, is, type < 4 ? 0 : g_scale[side]);
    } else if (k == "F") {
      int id, place, type, n;
      double v;
      is >> id >> place >> type >> n >> v;
      SetBuf(id, place, false, type, 0, is, type < 4 ? 0 : g_scale[0] + g_scale[1], n, v);
    } else if (k == "W") {
      int id, ro, type, n, side, inner;
      long stride;
      is >> id >> ro >> type >> n >> side >> inner >> stride;
      int sc = type < 4 || side == 3 ? 0 : side == 2 ? g_scale[0] + g_scale[1] : g_scale[side];
      SetWide(id, ro, type, n, inner, stride, is, sc);
    } else if (k == "Z") {
      is >> g_scale[0] >> g_scale[1];
    } else if (k == "C") {
      int c;
      is >> c;
      ruy::Context*& x = ctx[c];
      InLibrary in;
      x = new ruy::Context;
    } else if (k == "D") {
      int c;
      is >> c;
      {
        InLibrary in;
        delete ctx.at(c);
      }
      ctx.erase(c);
    } else if (k == "T") {
      int c, n, s;
      is >> c >> n >> s;
      InLibrary in;
      ctx.at(c)->set_max_num_threads(n);
      ctx.at(c)->set_num_threads_strategy(s ? ruy::NumThreadsStrategy::kForceMaxNumThreads
                                            : ruy::NumThreadsStrategy::kDefault);
    } else if (k == "P") {
      int c, p;
      is >> c >> p;
      InLibrary in;
      ctx.at(c)->set_runtime_enabled_paths(static_cast<ruy::Path>(p));
    } else if (k == "X") {
      int c;
      is >> c;
      InLibrary in;
      ctx.at(c)->ClearPrepackedCache();
    } else if (k == "M") {
      Mul(is);
    } else if (k == "H") {
      // large buffer of int8 holding one value, and another one in its tail
      int id, v, w;
      long n, tail;
      is >> id >> n >> v >> tail >> w;
      big[id].assign(n, (std::int8_t)v);
      memset(big[id].data() + n - tail, w, tail);
    } else if (k == "G") {
      // multiplication of large int8 buffers
      int c, lb, rb;
      MulArg a;
      memset(&a, 0, sizeof a);
      is >> c >> lb >> rb >> a.l.rows >> a.r.cols >> a.l.cols >> a.l.policy >> a.r.policy;
      a.r.rows = a.l.cols;
      a.l.data = big.at(lb).data();
      a.r.data = big.at(rb).data();
      a.l.order = 1;
      a.l.stride = a.r.stride = a.l.cols;
      std::vector<std::int32_t> out(a.l.rows * a.r.cols, -1);
      a.d.data = out.data();
      a.d.rows = a.d.stride = a.l.rows;
      a.d.cols = a.r.cols;
      a.rounding = 1;
      {
        InLibrary in;
        Fns().at({0, 0, 3, 0})(&a, ctx.at(c));
      }
      fprintf(g_out, "{\"i\":%d,\"k\":\"big\",\"cn\":%d,\"cb\":%ld,\"out\":[", g_op,
              ruy::get_ctx(ctx.at(c))->GetPrepackedCache()->MatrixCount(),
              (long)ruy::get_ctx(ctx.at(c))->GetPrepackedCache()->BuffersBytes());
      for (std::size_t i = 0; i < out.size(); i++) fprintf(g_out, i ? ",%d" : "%d", out[i]);
      fprintf(g_out, "]}\n");
    } else if (k == "E") {
      std::string v;
      is >> v;
      if (v == "-")
        unsetenv("RUY_PATHS");
      else
        setenv("RUY_PATHS", v.c_str(), 1);
    } else if (k == "Q") {
      // resource usage; argument: context whose settings are reported, or -1
      int c;
      is >> c;
      fflush(g_out);
      const long sum = g_live_sum;
      const long blocks = g_live_blocks;
      const long allocs = g_allocs;
      int rp = -1, pub = -1, mt = -1;
      if (c >= 0) {
        pub = (int)ctx.at(c)->get_runtime_enabled_paths();
        rp = (int)ruy::get_ctx(ctx.at(c))->GetRuntimeEnabledPaths();
        mt = ctx.at(c)->max_num_threads();
      }
      fprintf(g_out, "{\"i\":%d,\"k\":\"use\",\"bytes\":%ld,\"blocks\":%ld,\"allocs\":%ld,\"threads\":%d,\"rp\":%d,"
              "\"pub\":%d,\"mt\":%d}\n", g_op, sum, blocks, allocs, SettledThreads(ctx.empty() ? 1 : 1000), rp, pub,
              mt);
    } else {
      std::abort();
    }
  }
};

int main(int argc, char** argv) {
  if (argc != 3) return 2;
  RegisterTypes0(); RegisterTypes1(); RegisterTypes2(); RegisterTypes3();
  RegisterTypes4(); RegisterTypes5(); RegisterTypes6(); RegisterTypes7(); RegisterTypes8();
  std::ifstream in(argv[1]);
  g_out = fopen(argv[2], "w");
  if (!in || !g_out) return 2;
  std::string line;
  std::vector<std::string> ops;
  int base = 0, at = 0, hangs = 0;
  auto flush = [&] {
    if (ops.empty()) return;
    // Sessions that hang take long; two of them are enough.
    if (hangs == 2) {
      fprintf(g_out, "{\"i\":%d,\"k\":\"stopped\"}\n", base);
      ops.clear();
      return;
    }
    fflush(g_out);
    pid_t pid = fork();
    if (pid == 0) {
      struct sigaction sa;
      memset(&sa, 0, sizeof sa);
      sa.sa_sigaction = OnFault;
      sa.sa_flags = SA_SIGINFO;
      for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE}) sigaction(s, &sa, nullptr);
      struct sigaction al;
      memset(&al, 0, sizeof al);
      al.sa_sigaction = OnFault;
      al.sa_flags = SA_SIGINFO;
      sigaction(SIGALRM, &al, nullptr);
      if (!getenv("SESS_VERBOSE")) {
        if (!freopen("/dev/null", "w", stderr)) _exit(3);
      }
      alarm(60);
      Session* s = new Session;
      for (std::size_t k = 0; k < ops.size(); k++) {
        g_op = base + k;
        s->Op(ops[k]);
      }
      fflush(g_out);
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    fseek(g_out, 0, SEEK_END);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 4) {
      hangs++;
    } else if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      fprintf(g_out, "{\"i\":%d,\"k\":\"died\",\"status\":%d}\n", base, st);
      fflush(g_out);
    }
    ops.clear();
  };
  while (std::getline(in, line)) {
    if (line == "S") {
      flush();
      base = at + 1;
    } else {
      ops.push_back(line);
    }
    at++;
  }
  flush();
  fclose(g_out);
  return 0;
}
