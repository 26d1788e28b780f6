// Histories of the cache of packed matrices.
#include <map>

#include "ledger.h"
#include "ruy/mat.h"
#include "ruy/prepacked_cache.h"
#include "script.h"

static ruy::PrepackedCache* g_c;
static long g_budget;
static long g_u = 1;  // unit of sizes in the log

static const std::size_t kEnds = 256;
static void Stamp(char* p, std::size_t n, int tag) {
  std::size_t k = n < kEnds ? n : kEnds;
  memset(p, tag, k);
  memset(p + n - k, tag, k);
}
static bool Stamped(const char* p, std::size_t n, int tag) {
  std::size_t k = n < kEnds ? n : kEnds;
  for (std::size_t i = 0; i < k; i++)
    if (p[i] != (char)tag || p[n - 1 - i] != (char)tag) return false;
  return true;
}
static long U(std::size_t n) { return n % g_u ? -1 : (long)(n / g_u); }

static std::string SysEvents() {
  // with sizes in units
  return TakeSys();
}
static void New() {
  InLib lib;
  g_c = new ruy::PrepackedCache(g_budget);
}

void Op(const std::string& op, std::istringstream& in) {
  if (op == "S") {
    in >> g_budget >> g_u;
    New();
    Emit("{\"k\":\"S\",\"budget\":%ld}", g_budget / g_u);
  } else if (op == "G") {
    // key src zp datatype rows cols stride order krows kcols korder [times looked up again at once]
    int key, src, zp, ty, rows, cols, stride, order, kr, kc, ko;
    in >> key >> src >> zp >> ty >> rows >> cols >> stride >> order >> kr >> kc >> ko;
    ruy::PEMat m;
    int es = 1;
    if (ty == 0) m.data_type = ruy::Type::Create<std::int8_t>(), es = 1;
    if (ty == 1) m.data_type = ruy::Type::Create<std::uint8_t>(), es = 1;
    if (ty == 2) m.data_type = ruy::Type::Create<std::int16_t>(), es = 2;
    if (ty == 3) m.data_type = ruy::Type::Create<std::int32_t>(), es = 4;
    if (ty == 4) m.data_type = ruy::Type::Create<float>(), es = 4;
    if (ty == 5) m.data_type = ruy::Type::Create<double>(), es = 8;
    if (ty < 4) m.sums_type = ruy::Type::Create<std::int32_t>();
    else m.sums_type = m.data_type;
    m.layout.rows = rows;
    m.layout.cols = cols;
    m.layout.stride = stride;
    m.layout.order = order ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
    m.layout.kernel.rows = kr;
    m.layout.kernel.cols = kc;
    m.layout.kernel.order = ko ? ruy::Order::kRowMajor : ruy::Order::kColMajor;
    m.zero_point = zp;
    std::size_t need = (std::size_t)stride * (order ? rows : cols) * es;
    std::size_t sneed = ty < 4 ? (std::size_t)cols * 4 : 0;
    ruy::PrepackedCache::Action act;
    {
      InLib lib;
      act = g_c->Get((const void*)(0x10000ul + 64ul * src), &m);
    }
    int again, steady = 1;
    if (!(in >> again)) again = 0;
    for (int i = 0; i < again; i++) {
      ruy::PEMat x = m;
      x.data = x.sums = nullptr;
      InLib lib;
      if (g_c->Get((const void*)(0x10000ul + 64ul * src), &x) != ruy::PrepackedCache::Action::kGotExistingEntry ||
          x.data != m.data || x.sums != m.sums)
        steady = 0;
    }
    std::size_t off;
    int d = m.data ? BlockOf(m.data, &off) : 0;
    if (d && off) d = -1;
    int s = m.sums ? BlockOf(m.sums, &off) : 0;
    if (s && off) s = -1;
    int fresh = act == ruy::PrepackedCache::Action::kInsertedNewEntry;
    std::size_t db = d > 0 ? g_blocks[d - 1].n : 0, sb = s > 0 ? g_blocks[s - 1].n : 0;
    int fit = (d > 0 && db >= need && (sneed == 0 || (s > 0 && sb >= sneed))) && (std::uintptr_t)m.data % 64 == 0;
    int same = steady;
    if (fit && !fresh) {
      same = steady && Stamped((char*)m.data, need, key + 1) && (sneed == 0 || Stamped((char*)m.sums, sneed, key + 1));
    } else if (fit) {
      Stamp((char*)m.data, need, key + 1);
      if (sneed) Stamp((char*)m.sums, sneed, key + 1);
    }
    Emit("{\"k\":\"get\",\"key\":%d,\"new\":%d,\"d\":%d,\"s\":%d,\"size\":%ld,\"fit\":%d,\"same\":%d,\"bytes\":%ld,"
         "\"count\":%d,\"sys\":%s}",
         key, fresh, d, s, U(db + sb), fit, same, U(g_c->BuffersBytes()), g_c->MatrixCount(), SysEvents().c_str());
  } else if (op == "C" || op == "D") {
    {
      InLib lib;
      delete g_c;
    }
    if (op == "C") New();
    Emit("{\"k\":\"%s\",\"bytes\":%ld,\"count\":%d,\"sys\":%s}", op == "C" ? "clear" : "destroy",
         op == "C" ? U(g_c->BuffersBytes()) : 0, op == "C" ? g_c->MatrixCount() : 0, SysEvents().c_str());
  }
}
