// Detection and tuning on a simulated processor and clock.
#include <cpuinfo.h>
#include <time.h>

#include <atomic>
#include <memory>
#include <mutex>
#include <set>

#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/cpuinfo.h"
#include "ruy/ctx.h"
#include "ruy/mat.h"
#include "ruy/path.h"
#include "ruy/side_pair.h"
#include "ruy/strategy_controls.h"
#include "ruy/trmul.h"
#include "ruy/trmul_params.h"
#include "ruy/tune.h"
#include "script.h"

// ------------------------------------------------------------ simulated clock
static std::atomic<long> g_ms{1000000}, g_ticks{0};
extern "C" int clock_gettime(clockid_t, struct timespec* t) {
  // a nanosecond passes with every look, so that nobody waits forever
  const long ns = g_ms * 1000000 + g_ticks++;
  t->tv_sec = ns / 1000000000;
  t->tv_nsec = ns % 1000000000;
  return 0;
}

// -------------------------------------------------------- simulated processor
static bool g_init_ok = true;
static std::atomic<int> g_inits{0}, g_deinits{0}, g_queries{0};
static std::atomic<int> g_kind{0};
static std::vector<cpuinfo_processor> g_procs;
static std::vector<cpuinfo_cache> g_caches;
static std::vector<cpuinfo_core> g_cores;
static std::vector<cpuinfo_uarch_info> g_uarch;
static int g_visible = -1;  // processors that can be looked up, -1: all
extern "C" {
struct cpuinfo_x86_isa cpuinfo_isa;
bool cpuinfo_initialize(void) { g_inits++; return g_init_ok; }
void cpuinfo_deinitialize(void) { g_deinits++; }
uint32_t cpuinfo_get_processors_count(void) { return (uint32_t)g_procs.size(); }
const struct cpuinfo_processor* cpuinfo_get_processors(void) { return g_procs.data(); }
const struct cpuinfo_processor* cpuinfo_get_processor(uint32_t i) {
  if (g_visible >= 0 && (int)i >= g_visible) return nullptr;
  return i < g_procs.size() ? &g_procs[i] : nullptr;
}
uint32_t cpuinfo_get_current_uarch_index(void) { g_queries++; return (uint32_t)g_kind; }
uint32_t cpuinfo_get_current_uarch_index_with_default(uint32_t) { g_queries++; return (uint32_t)g_kind; }
uint32_t cpuinfo_get_uarchs_count(void) { return (uint32_t)g_uarch.size(); }
const struct cpuinfo_uarch_info* cpuinfo_get_uarch(uint32_t i) { return i < g_uarch.size() ? &g_uarch[i] : nullptr; }
}

static void DefaultCpu() {
  g_uarch.clear();
  for (auto u : {cpuinfo_uarch_zen2, cpuinfo_uarch_cortex_a53, cpuinfo_uarch_cortex_a55r0, cpuinfo_uarch_cortex_a55,
                 cpuinfo_uarch_cortex_x1, cpuinfo_uarch_cortex_a57, cpuinfo_uarch_cortex_a75, cpuinfo_uarch_cortex_a76,
                 cpuinfo_uarch_unknown}) {
    cpuinfo_uarch_info x;
    memset(&x, 0, sizeof x);
    x.uarch = u;
    g_uarch.push_back(x);
  }
  g_caches.assign(2, cpuinfo_cache());
  g_caches[0].size = 32768;
  g_caches[0].processor_count = 1;
  g_caches[1].size = 1 << 20;
  g_caches[1].processor_count = 1;
  g_cores.assign(1, cpuinfo_core());
  g_procs.assign(1, cpuinfo_processor());
  g_procs[0].core = &g_cores[0];
  g_procs[0].cache.l1d = &g_caches[0];
  g_procs[0].cache.l2 = &g_caches[1];
}

// ---------------------------------------------------------------- recording
static std::mutex g_mu;
static std::set<int> g_used;
static void MockPack(ruy::Tuning t, const ruy::EMat&, ruy::PEMat*, int, int) {
  std::lock_guard<std::mutex> lk(g_mu);
  g_used.insert((int)t);
}
static void MockKernel(ruy::Tuning t, const ruy::SidePair<ruy::PEMat>&, const void*, const ruy::SidePair<int>&,
                       const ruy::SidePair<int>&, ruy::EMat*) {
  std::lock_guard<std::mutex> lk(g_mu);
  g_used.insert((int)t);
}

static ruy::TuningResolver* g_resolver;
static ruy::CpuInfo* g_info;
static ruy::Context* g_ctx;
static char g_bytes[1 << 16];

void Op(const std::string& op, std::istringstream& in) {
  using ruy::Side;
  if (op == "S") {
    DefaultCpu();
    Emit("{\"k\":\"S\"}");
  } else if (op == "D") {
    // initialisation result, feature bits, caches, processors
    int ok, feats, others, nc, np;
    in >> ok >> feats >> others >> g_visible >> nc;
#ifndef RUY_HAVE_CPUINFO
    ok = 0;  // built without any description of the processor
#endif
    g_init_ok = ok;
    memset(&cpuinfo_isa, others ? 1 : 0, sizeof cpuinfo_isa);
    int b = 0;
    cpuinfo_isa.avx = feats >> b++ & 1;
    cpuinfo_isa.avx2 = feats >> b++ & 1;
    cpuinfo_isa.fma3 = feats >> b++ & 1;
    cpuinfo_isa.avx512f = feats >> b++ & 1;
    cpuinfo_isa.avx512dq = feats >> b++ & 1;
    cpuinfo_isa.avx512cd = feats >> b++ & 1;
    cpuinfo_isa.avx512bw = feats >> b++ & 1;
    cpuinfo_isa.avx512vl = feats >> b++ & 1;
    cpuinfo_isa.avx512vnni = feats >> b++ & 1;
    cpuinfo_isa.sse4_2 = feats >> b++ & 1;
    g_caches.assign(nc, cpuinfo_cache());
    std::string caches, procs;
    for (int i = 0; i < nc; i++) {
      unsigned size, start, count;
      in >> size >> start >> count;
      g_caches[i].size = size;
      g_caches[i].processor_start = start;
      g_caches[i].processor_count = count;
      caches += (i ? "," : "") + ("{\"size\":" + std::to_string(size)) + ",\"start\":" + std::to_string(start) +
                ",\"count\":" + std::to_string(count) + "}";
    }
    in >> np;
    g_procs.assign(np, cpuinfo_processor());
    g_cores.assign(np, cpuinfo_core());
    for (int i = 0; i < np; i++) {
      int core, c[3];
      in >> core >> c[0] >> c[1] >> c[2];
      g_procs[i].core = &g_cores[core];
      auto at = [](int k) { return k < 0 ? nullptr : &g_caches[k]; };
      g_procs[i].cache.l1d = at(c[0]);
      g_procs[i].cache.l2 = at(c[1]);
      g_procs[i].cache.l3 = at(c[2]);
      procs += (i ? "," : "") + ("{\"core\":" + std::to_string(core)) + ",\"c\":[" + std::to_string(c[0]) + "," +
               std::to_string(c[1]) + "," + std::to_string(c[2]) + "]}";
    }
    g_inits = g_deinits = 0;
    int paths, local, last, one, one2, vnni, sse;
    {
      ruy::Context c;
      ruy::Ctx* ctx = ruy::get_ctx(&c);
      paths = (int)ctx->GetRuntimeEnabledPaths();
      local = ctx->mutable_cpuinfo()->CacheParams().local_cache_size;
      last = ctx->mutable_cpuinfo()->CacheParams().last_level_cache_size;
      one = ctx->mutable_cpuinfo()->CacheParams().local_cache_size;
      one2 = (int)ctx->GetRuntimeEnabledPaths();
      vnni = ctx->mutable_cpuinfo()->AvxVnni();
      sse = ctx->mutable_cpuinfo()->Sse42();
    }
    fprintf(g_out,
            "{\"k\":\"detect\",\"ok\":%d,\"feats\":%d,\"vis\":%d,\"caches\":[%s],\"procs\":[%s],\"paths\":%d,\"again\":%d,"
            "\"local\":%d,\"last\":%d,\"localagain\":%d,\"vnni\":%d,\"sse\":%d,\"inits\":%d,\"deinits\":%d}\n",
            ok, feats, g_visible, caches.c_str(), procs.c_str(), paths, one2, local, last, one, vnni, sse, (int)g_inits,
            (int)g_deinits);
  } else if (op == "A") {
    long ms;
    in >> ms;
    g_ms += ms;
  } else if (op == "K") {
    int k;
    in >> k;
    g_kind = k;
    Emit("{\"k\":\"core\",\"now\":%ld,\"kind\":%d}", (long)g_ms - 1000000, k);
  } else if (op == "I") {
    int ok;
    in >> ok;
    g_init_ok = ok;
    Emit("{\"k\":\"init\",\"ok\":%d}", ok);
  } else if (op == "R") {
    g_resolver = new ruy::TuningResolver;
    g_info = new ruy::CpuInfo;
    Emit("{\"k\":\"resolver\"}");
  } else if (op == "X") {
    g_ctx = new ruy::Context;
    Emit("{\"k\":\"resolver\"}");
  } else if (op == "T") {
    int t;
    in >> t;
    if (g_ctx) g_ctx->set_explicit_tuning(static_cast<ruy::Tuning>(t));
    else g_resolver->SetTuning(static_cast<ruy::Tuning>(t));
    Emit("{\"k\":\"explicit\",\"t\":%d}", t);
  } else if (op == "V") {
    g_queries = 0;
    const int t = (int)g_resolver->Resolve(g_info);
    Emit("{\"k\":\"use\",\"now\":%ld,\"used\":[%d],\"q\":%d,\"one\":1}", (long)g_ms - 1000000, t, (int)(g_queries > 0));
  } else if (op == "M") {
    int threads, rows, cols, depth;
    in >> threads >> rows >> cols >> depth;
    g_ctx->set_max_num_threads(threads);
    g_ctx->set_num_threads_strategy(ruy::NumThreadsStrategy::kForceMaxNumThreads);
    ruy::TrMulParams p;
    const ruy::SidePair<int> dims{rows, cols};
    for (Side side : {Side::kLhs, Side::kRhs}) {
      ruy::EMat& src = p.src[side];
      src.data_type.size = 1;
      src.layout.rows = src.layout.stride = depth;
      src.layout.cols = dims[side];
      ruy::PEMat& k = p.packed_matrix[side];
      k.data_type.size = 1;
      k.data = g_bytes;
      k.layout.kernel.cols = 8;
      k.layout.rows = k.layout.stride = depth;
      k.layout.cols = (dims[side] + 7) / 8 * 8;
      p.run_pack[side] = MockPack;
    }
    p.dst.data = g_bytes;
    p.dst.layout.rows = p.dst.layout.stride = rows;
    p.dst.layout.cols = cols;
    p.run_kernel = MockKernel;
    p.path = ruy::Path::kStandardCpp;
    g_queries = 0;
    g_used.clear();
    ruy::TrMul(ruy::get_ctx(g_ctx), &p);
    std::string used;
    for (int t : g_used) used += (used.empty() ? "" : ",") + std::to_string(t);
    Emit("{\"k\":\"use\",\"now\":%ld,\"used\":[%s],\"q\":%d,\"one\":%d}", (long)g_ms - 1000000, used.c_str(),
         (int)(g_queries > 0), (int)(threads == 1));
  } else {
    _exit(3);
  }
}
