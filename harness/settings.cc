// Several contexts side by side: settings, what they report, multiplications.
#include <map>
#include <memory>

#include "ruy/ruy.h"
#include "ruy/thread_pool.h"
#include "script.h"

static std::map<int, std::unique_ptr<ruy::Context>> g_ctx;

static void Mul(ruy::Context* c, int n, int bias, int cache) {
  static float a[64 * 4], b[4], d[64], biases[128];
  ruy::Matrix<float> l, r, o;
  ruy::MakeSimpleLayout(n, 4, ruy::Order::kRowMajor, l.mutable_layout());
  ruy::MakeSimpleLayout(4, 1, ruy::Order::kColMajor, r.mutable_layout());
  ruy::MakeSimpleLayout(n, 1, ruy::Order::kColMajor, o.mutable_layout());
  l.set_data(a);
  r.set_data(b);
  o.set_data(d);
  if (cache) l.set_cache_policy(ruy::CachePolicy::kAlwaysCache);
  ruy::MulParams<float, float> p;
  if (bias) p.set_bias(biases);
  ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(l, r, p, c, &o);
}

void Op(const std::string& op, std::istringstream& in) {
  int c = 0, x = 0;
  if (op == "S") {
    ruy::Context fresh;
    Emit("{\"k\":\"S\",\"det\":%d}", (int)fresh.get_runtime_enabled_paths());
    return;
  }
  in >> c;
  if (op == "N") {
    g_ctx[c].reset(new ruy::Context);
    Emit("{\"k\":\"new\",\"c\":%d}", c);
  } else if (op == "D") {
    g_ctx.erase(c);
    Emit("{\"k\":\"del\",\"c\":%d}", c);
  } else if (op == "X") {
    g_ctx.at(c)->ClearPrepackedCache();
    Emit("{\"k\":\"clear\",\"c\":%d}", c);
  } else if (op == "U" || op == "T" || op == "G" || op == "P" || op == "W") {
    in >> x;
    ruy::Context& ctx = *g_ctx.at(c);
    const char* what = "";
    switch (op[0]) {
      case 'U': ctx.set_explicit_tuning(static_cast<ruy::Tuning>(x)); what = "tuning"; break;
      case 'T': ctx.set_max_num_threads(x); what = "threads"; break;
      case 'G': ctx.set_num_threads_strategy(static_cast<ruy::NumThreadsStrategy>(x)); what = "strategy"; break;
      case 'P': ctx.set_runtime_enabled_paths(static_cast<ruy::Path>(x)); what = "paths"; break;
      case 'W': ctx.mutable_thread_pool()->set_spin_milliseconds(x / 4.0f); what = "spin"; break;
    }
    Emit("{\"k\":\"set\",\"c\":%d,\"what\":\"%s\",\"x\":%d}", c, what, x);
  } else if (op == "M") {
    int n, bias, cache;
    in >> n >> bias >> cache;
    Mul(g_ctx.at(c).get(), n, bias, cache);
    Emit("{\"k\":\"mul\",\"c\":%d,\"n\":%d,\"bias\":%d}", c, n, bias);
  } else if (op == "V") {
    in >> x;  // bit mask of what is looked at
    ruy::Context& ctx = *g_ctx.at(c);
    if (x & 1) Emit("{\"k\":\"see\",\"c\":%d,\"what\":\"tuning\",\"x\":%d}", c, (int)ctx.explicit_tuning());
    if (x & 2) Emit("{\"k\":\"see\",\"c\":%d,\"what\":\"threads\",\"x\":%d}", c, ctx.max_num_threads());
    if (x & 4) Emit("{\"k\":\"see\",\"c\":%d,\"what\":\"strategy\",\"x\":%d}", c, (int)ctx.num_threads_strategy());
    if (x & 8) Emit("{\"k\":\"see\",\"c\":%d,\"what\":\"paths\",\"x\":%d}", c, (int)ctx.get_runtime_enabled_paths());
    if (x & 16) Emit("{\"k\":\"see\",\"c\":%d,\"what\":\"last\",\"x\":%d}", c, (int)ctx.last_used_path());
    if (x & 32)
      Emit("{\"k\":\"see\",\"c\":%d,\"what\":\"advice\",\"x\":%d}", c,
           (int)ctx.performance_advisory(ruy::PerformanceAdvisory::kReallocatedPerChannelBuffer));
    if (x & 64) Emit("{\"k\":\"see\",\"c\":%d,\"what\":\"spin\",\"x\":%d}", c, (int)(4 * ctx.thread_pool().spin_milliseconds()));
  } else {
    _exit(3);
  }
}
