// Histories of the scratch allocator.
#include "ledger.h"
#include "ruy/allocator.h"
#include "script.h"

static ruy::Allocator* g_a;
struct Live {
  char* p;
  std::size_t n;
  unsigned char tag;
};
static std::vector<Live> g_live;
static int g_tag = 0;

static const std::size_t kEnds = 512;
static void Fill(const Live& l) {
  if (l.n <= (1u << 16)) {
    memset(l.p, l.tag, l.n);
  } else {
    memset(l.p, l.tag, kEnds);
    memset(l.p + l.n - kEnds, l.tag, kEnds);
  }
}
static bool Same(const char* p, std::size_t n, unsigned char t) {
  for (std::size_t i = 0; i < n; i++)
    if ((unsigned char)p[i] != t) return false;
  return true;
}
static int Intact() {
  for (auto& l : g_live) {
    bool ok = l.n <= (1u << 16) ? Same(l.p, l.n, l.tag)
                                : Same(l.p, kEnds, l.tag) && Same(l.p + l.n - kEnds, kEnds, l.tag);
    if (!ok) return 0;
  }
  return 1;
}

template <typename T>
static void* Typed(long n, int how) {
  if (how == 0) return g_a->Allocate<T>(n);
  T* out = nullptr;
  g_a->Allocate<T*>(n, &out);
  return out;
}

void Op(const std::string& op, std::istringstream& in) {
  if (op == "S") {
    g_a = new ruy::Allocator;
    Emit("{\"k\":\"S\"}");
  } else if (op == "F") {
    int n;
    while (in >> n) g_fail.insert(n);
  } else if (op == "W") {
    in >> g_residue;
  } else if (op == "A" || op == "V" || op == "T") {
    // A bytes | V bytes hint | T elementsize count how
    unsigned long n = 0, hint = 0;
    int ty = 0, how = 0;
    if (op == "T") in >> ty;
    in >> n;
    if (op == "V") in >> hint;
    if (op == "T") in >> how;
    void* p;
    {
      InLib lib;
      if (op == "A") p = g_a->AllocateBytes(n);
      else if (op == "V") p = g_a->AllocateBytesAvoidingAliasingWith(n, (const void*)(0x7ffff0000000ul + hint));
      else if (ty == 1) p = Typed<std::int8_t>(n, how);
      else if (ty == 2) p = Typed<std::int16_t>(n, how);
      else if (ty == 4) p = Typed<std::int32_t>(n, how);
      else p = Typed<double>(n, how);
    }
    if (op == "T") n *= ty;
    std::size_t off = 0;
    int b = p ? BlockOf(p, &off) : 0;
    Emit("{\"k\":\"alloc\",\"hint\":%d,\"c\":%lu,\"r\":%lu,\"null\":%d,\"b\":%d,\"o\":%lu,\"al\":%d,\"res\":%d,\"sys\":%s}",
         op == "V" ? (int)(hint % 1024) : -1, (n + 63) / 64, n == 0 ? 0 : (n - 1) % 64 + 1, p == nullptr, b, off / 64,
         (int)((std::uintptr_t)p % 64), (int)((std::uintptr_t)p % 1024), TakeSys().c_str());
    fflush(g_out);
    if (p && b) {
      Live l{(char*)p, n, (unsigned char)(++g_tag * 37 + 1)};
      if (off + n <= g_blocks[b - 1].n) {
        Fill(l);
        g_live.push_back(l);
      }
    }
  } else if (op == "R" || op == "D") {
    int intact = Intact();
    g_live.clear();
    {
      InLib lib;
      if (op == "R") g_a->FreeAll();
      else delete g_a;
    }
    Emit("{\"k\":\"%s\",\"intact\":%d,\"sys\":%s}", op == "R" ? "release" : "destroy", intact, TakeSys().c_str());
  }
}
