// Memory the library asks the system for: every block on its own pages, at an
// address chosen by the scenario, with requests failing on demand. Link with
// LEDGER_WRAP.
#ifndef VERIF_LEDGER_H_
#define VERIF_LEDGER_H_
#include <sys/mman.h>
#include <unistd.h>

#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <set>
#include <string>
#include <vector>

struct Block {
  char* p;
  std::size_t n;
  char* map;
  std::size_t mapn;
  bool live;
};
static std::vector<Block> g_blocks;
static std::set<int> g_fail;  // ordinals of the requests that fail
static int g_requests = 0;
static int g_residue = 0;     // of the next block, in multiples of 64 modulo 1024
static bool g_ledger = false; // the library is running
static std::string g_sys;     // what was asked of the system since last taken
static std::size_t g_unit = 64;

static void Sys(const char* s) { g_sys += (g_sys.empty() ? "" : ",") + std::string(s); }
static std::string TakeSys() {
  std::string s = "[" + g_sys + "]";
  g_sys.clear();
  return s;
}
static int BlockOf(const void* p, std::size_t* off) {
  for (std::size_t i = 0; i < g_blocks.size(); i++) {
    Block& b = g_blocks[i];
    if (b.live && (char*)p >= b.p && (char*)p < b.p + b.n + (b.n == 0)) {
      *off = (char*)p - b.p;
      return i + 1;
    }
  }
  return 0;
}
static void* Obtain(std::size_t align, std::size_t n) {
  char buf[160];
  bool outer = g_ledger;
  g_ledger = false;
  void* ret = nullptr;
  if (g_fail.count(++g_requests)) {
    Sys("{\"o\":\"fail\",\"b\":0,\"c\":0,\"r\":0}");
  } else {
    std::size_t a = align < 64 ? 64 : align;
    std::size_t mapn = ((n + 1024 + a + 4095) & ~std::size_t(4095)) + 4096;
    char* m = (char*)mmap(nullptr, mapn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == (char*)MAP_FAILED) {
      fprintf(stderr, "mmap of %zu failed\n", mapn);
      _exit(3);
    }
    mprotect(m + mapn - 4096, 4096, PROT_NONE);
    char* p = m + (a <= 64 ? 64 * (g_residue % 16) : (64 * std::size_t(g_residue) + a - 1) & ~(a - 1));
    if (n <= (1u << 16)) memset(p, 0x5a, n);
    g_blocks.push_back(Block{p, n, m, mapn, true});
    snprintf(buf, sizeof buf, "{\"o\":\"alloc\",\"b\":%zu,\"c\":%zu,\"r\":%zu}", g_blocks.size(), (n + 63) / 64,
             n == 0 ? 0 : (n - 1) % 64 + 1);
    Sys(buf);
    ret = p;
  }
  g_ledger = outer;
  return ret;
}
// True if p is ours, or must be (freed while the library runs).
static bool Release(void* p) {
  for (std::size_t i = 0; i < g_blocks.size(); i++)
    if (g_blocks[i].p == (char*)p) {
      bool outer = g_ledger;
      g_ledger = false;
      char buf[80];
      snprintf(buf, sizeof buf, "{\"o\":\"free\",\"b\":%zu,\"c\":%d,\"r\":0}", i + 1, g_blocks[i].live ? 1 : 0);
      Sys(buf);
      g_blocks[i].live = false;
      mprotect(g_blocks[i].map, g_blocks[i].mapn, PROT_NONE);
      g_ledger = outer;
      return true;
    }
  return false;
}
extern "C" {
int __real_posix_memalign(void**, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t);
void* __real_memalign(size_t, size_t);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void __real_free(void*);
int __wrap_posix_memalign(void** out, size_t a, size_t n) {
  if (!g_ledger) return __real_posix_memalign(out, a, n);
  void* p = Obtain(a, n);
  if (!p) return ENOMEM;  // *out is left as it was
  *out = p;
  return 0;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { return g_ledger ? Obtain(a, n) : __real_aligned_alloc(a, n); }
void* __wrap_memalign(size_t a, size_t n) { return g_ledger ? Obtain(a, n) : __real_memalign(a, n); }
void* __wrap_malloc(size_t n) { return g_ledger ? Obtain(16, n) : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) {
  if (!g_ledger) return __real_calloc(a, b);
  void* p = Obtain(16, a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
void __wrap_free(void* p) {
  if (p && Release(p)) return;
  __real_free(p);
}
// aligned operator new / delete
void* __real__ZnwmSt11align_val_t(size_t, size_t);
void* __wrap__ZnwmSt11align_val_t(size_t n, size_t a) {
  if (!g_ledger) return __real__ZnwmSt11align_val_t(n, a);
  void* p = Obtain(a, n);
  if (!p) abort();
  return p;
}
void __real__ZdlPvSt11align_val_t(void*, size_t);
void __wrap__ZdlPvSt11align_val_t(void* p, size_t a) {
  if (p && Release(p)) return;
  __real__ZdlPvSt11align_val_t(p, a);
}
}
struct InLib {
  InLib() { g_ledger = true; }
  ~InLib() { g_ledger = false; }
};
#endif
