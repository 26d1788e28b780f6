// Multiplications of arbitrary data by real threads, large enough for many
// blocks: the same problem again and again under different settings.
#include <cmath>
#include <cstdint>
#include <map>
#include <memory>

#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"
#include "ruy/tune.h"
#include "script.h"

static std::unique_ptr<ruy::Context> g_ctx;

static std::uint64_t g_rng;
static std::uint64_t Next() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  return g_rng ^= g_rng << 17;
}
// Full mantissas: nearly every sum is rounded.
static void Draw(float* x) { *x = std::ldexp((float)((std::int64_t)Next() >> 39), -24 + (int)(Next() % 4)); }
static void Draw(double* x) { *x = std::ldexp((double)((std::int64_t)Next() >> 10), -53 + (int)(Next() % 4)); }
static void Draw(std::int8_t* x) { *x = (std::int8_t)Next() | 1; }
static void Draw(std::uint8_t* x) { *x = (std::uint8_t)Next(); }
static void Draw(std::int32_t* x) { *x = (int)(Next() % 2000) - 1000; }

struct Shape {
  int rows, cols, depth, order, ch, pad;
};
struct Base {
  virtual ~Base() {}
  virtual std::uint64_t Run(int pl, int pr) = 0;
};
template <typename T, typename A, typename D>
struct Problem : Base {
  Shape s;
  std::vector<T> l, r;
  std::vector<A> bias;
  ruy::MulParams<A, D> mp;
  std::vector<std::int32_t> m;
  std::vector<int> e;
  static void Stride(ruy::Layout* x, int pad) { x->set_stride(x->stride() + pad); }
  explicit Problem(Shape sh) : s(sh) {
    l.resize((s.rows + s.pad) * (s.depth + s.pad));
    r.resize((s.depth + s.pad) * (s.cols + s.pad));
    bias.resize(std::max(s.rows, s.cols) + 64);
    for (T& x : l) Draw(&x);
    for (T& x : r) Draw(&x);
    for (A& x : bias) Draw(&x);
    mp.set_bias(bias.data());
    mp.set_channel_dimension(s.ch ? ruy::ChannelDimension::kCol : ruy::ChannelDimension::kRow);
    Rescale(std::is_integral<D>());
  }
  void Rescale(std::true_type) {
    for (std::size_t i = 0; i < bias.size(); i++) {
      m.push_back((1 << 30) + (int)(Next() % (1 << 30)));
      e.push_back(-(int)(Next() % 5) - 8);
    }
    mp.set_multiplier_fixedpoint_perchannel(m.data());
    mp.set_multiplier_exponent_perchannel(e.data());
  }
  void Rescale(std::false_type) {}
  std::uint64_t Run(int pl, int pr) override {
    ruy::Matrix<T> a, b;
    ruy::Matrix<D> d;
    auto ord = [&](int bit) { return s.order & bit ? ruy::Order::kRowMajor : ruy::Order::kColMajor; };
    ruy::MakeSimpleLayout(s.rows, s.depth, ord(1), a.mutable_layout());
    ruy::MakeSimpleLayout(s.depth, s.cols, ord(2), b.mutable_layout());
    ruy::MakeSimpleLayout(s.rows, s.cols, ord(4), d.mutable_layout());
    Stride(a.mutable_layout(), s.pad);
    Stride(b.mutable_layout(), s.pad);
    a.set_data(l.data());
    b.set_data(r.data());
    a.set_cache_policy(static_cast<ruy::CachePolicy>(pl));
    b.set_cache_policy(static_cast<ruy::CachePolicy>(pr));
    std::vector<D> out((std::size_t)s.rows * s.cols, D(77));
    d.set_data(out.data());
    ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(a, b, mp, g_ctx.get(), &d);
    const unsigned char* c = reinterpret_cast<const unsigned char*>(out.data());
    std::uint64_t h = 1469598103934665603ull;
    for (std::size_t i = 0; i < out.size() * sizeof(D); i++) h = (h ^ c[i]) * 1099511628211ull;
    return h;
  }
};
static std::map<int, std::unique_ptr<Base>> g_problems;

void Op(const std::string& op, std::istringstream& in) {
  int a = 0, b = 0;
  if (op == "S") {
    Emit("{\"k\":\"S\"}");
  } else if (op == "D") {
    int id, type;
    Shape s;
    in >> id >> type >> g_rng >> s.rows >> s.cols >> s.depth >> s.order >> s.ch >> s.pad;
    g_rng = g_rng * 0x9e3779b97f4a7c15ull + 1;
    switch (type) {
      case 0: g_problems[id].reset(new Problem<float, float, float>(s)); break;
      case 1: g_problems[id].reset(new Problem<double, double, double>(s)); break;
      case 2: g_problems[id].reset(new Problem<float, double, float>(s)); break;
      case 3: g_problems[id].reset(new Problem<std::int8_t, std::int32_t, std::int8_t>(s)); break;
      default: g_problems[id].reset(new Problem<std::uint8_t, std::int32_t, std::int16_t>(s)); break;
    }
    Emit("{\"k\":\"data\",\"p\":%d}", id);
  } else if (op == "C") {
    g_ctx.reset(new ruy::Context);
    Emit("{\"k\":\"ctx\"}");
  } else if (op == "T") {
    in >> a >> b;
    g_ctx->set_max_num_threads(a);
    g_ctx->set_num_threads_strategy(b ? ruy::NumThreadsStrategy::kForceMaxNumThreads : ruy::NumThreadsStrategy::kDefault);
    Emit("{\"k\":\"set\"}");
  } else if (op == "P") {
    in >> a;
    g_ctx->set_runtime_enabled_paths(static_cast<ruy::Path>(a));
    Emit("{\"k\":\"path\",\"x\":%d}", a);
  } else if (op == "U") {
    in >> a;
    ruy::get_ctx(g_ctx.get())->set_explicit_tuning(static_cast<ruy::Tuning>(a));
    Emit("{\"k\":\"set\"}");
  } else if (op == "N") {
    in >> a;
    g_ctx->mutable_thread_pool()->set_spin_milliseconds(a / 10.f);
    Emit("{\"k\":\"set\"}");
  } else if (op == "X") {
    g_ctx->ClearPrepackedCache();
    Emit("{\"k\":\"set\"}");
  } else if (op == "R") {
    int id;
    in >> id >> a >> b;
    const std::uint64_t h = g_problems.at(id)->Run(a, b);
    Emit("{\"k\":\"run\",\"p\":%d,\"h\":[%d,%d,%d]}", id, (int)(h >> 43), (int)(h >> 22 & 0x1fffff), (int)(h & 0x3fffff));
  } else {
    _exit(3);
  }
}
