// Floating-point products of arbitrary finite data.  All numbers are integers
// times a common power of two, so that everything but the rounding is exact;
// operands, bias, bounds and the computed value of some entries are recorded
// as digits in base 2^10.
#include <cmath>
#include <cstdint>
#include <memory>

#include "ruy/ruy.h"
#include "script.h"

typedef __int128 Int;
static std::unique_ptr<ruy::Context> g_ctx;

static std::uint64_t g_rng;
static std::uint64_t Next() {
  g_rng ^= g_rng << 13;
  g_rng ^= g_rng >> 7;
  return g_rng ^= g_rng << 17;
}

struct Shape {
  int rows, cols, depth, order, ch, pad, bias, clamp, data, el, er, pl, pr, samples;
};

static std::string Digits(Int x, int n) {
  const Int s = x < 0 ? -1 : 1;
  std::string out = "[";
  for (x *= s; n > 0; n--, x >>= 10) out += std::to_string((int)(s * (x & 1023))) + (n > 1 ? "," : "]");
  if (x) _exit(3);
  return out;
}

// An integer with up to `bits` significant bits.
static std::int64_t Draw(int bits, int data, std::int64_t before) {
  const std::int64_t full = (std::int64_t)(Next() >> (64 - bits));
  std::int64_t v = full;
  switch (data) {
    case 0: v = full | (std::int64_t)1 << (bits - 1) | 1; break;       // full mantissas
    case 1: v = full >> (Next() % bits); break;                        // all magnitudes
    case 2: v = (std::int64_t)1 << (Next() % bits); break;             // powers of two
    case 3: v = Next() % 3 ? -before + (std::int64_t)(Next() % 3) - 1 : full; break;  // cancellation
    case 4: v = Next() % 4 ? 0 : full; break;                          // many zeros
    case 6: v = Next() % 12 ? 0 : full | 1; break;                     // hardly any terms
    default: v = (std::int64_t)1 << bits; v -= 1 + Next() % 3; break;  // all ones
  }
  const std::int64_t limit = ((std::int64_t)1 << bits) - 1;
  if (v > limit) v = limit;
  if (v < -limit) v = -limit;
  return Next() % 2 && data != 5 ? -v : v;
}

template <typename T, typename A, typename D>
static void Run(Shape s, int type) {
  const int tbits = sizeof(T) == 4 ? 24 : 53, abits = sizeof(A) == 4 ? 24 : 53, dbits = sizeof(D) == 4 ? 24 : 53;
  const int planes = sizeof(T) == 4 ? 3 : 6, len = 12;
  auto ord = [&](int bit) { return s.order & bit ? ruy::Order::kRowMajor : ruy::Order::kColMajor; };
  std::vector<std::int64_t> l((s.rows + s.pad) * (s.depth + s.pad)), r((s.depth + s.pad) * (s.cols + s.pad));
  std::vector<T> lf(l.size()), rf(r.size());
  for (std::size_t i = 0; i < l.size(); i++)
    lf[i] = (T)std::ldexp((double)(l[i] = Draw(tbits, s.data, i ? l[i - 1] : 0)), s.el);
  for (std::size_t i = 0; i < r.size(); i++)
    rf[i] = (T)std::ldexp((double)(r[i] = Draw(tbits, s.data == 3 || s.data == 6 ? 0 : s.data, 0)), s.er);
  ruy::Matrix<T> a, b;
  ruy::Matrix<D> d;
  ruy::MakeSimpleLayout(s.rows, s.depth, ord(1), a.mutable_layout());
  ruy::MakeSimpleLayout(s.depth, s.cols, ord(2), b.mutable_layout());
  ruy::MakeSimpleLayout(s.rows, s.cols, ord(4), d.mutable_layout());
  a.mutable_layout()->set_stride(a.layout().stride() + s.pad);
  b.mutable_layout()->set_stride(b.layout().stride() + s.pad);
  a.set_data(lf.data());
  b.set_data(rf.data());
  a.set_cache_policy(static_cast<ruy::CachePolicy>(s.pl));
  b.set_cache_policy(static_cast<ruy::CachePolicy>(s.pr));
  const int e = s.el + s.er;
  ruy::MulParams<A, D> mp;
  std::vector<Int> bias((s.ch ? s.cols : s.rows) + 64);
  std::vector<A> biasf(bias.size());
  for (std::size_t i = 0; i < bias.size(); i++) {
    bias[i] = (Int)Draw(abits, s.data == 3 ? 1 : s.data, 0) << (Next() % tbits);
    biasf[i] = (A)std::ldexp((double)bias[i], e);
  }
  if (s.bias) mp.set_bias(biasf.data());
  mp.set_channel_dimension(s.ch ? ruy::ChannelDimension::kCol : ruy::ChannelDimension::kRow);
  Int lo = (Int)Draw(dbits, 1, 0) << (Next() % tbits), hi = (Int)Draw(dbits, 1, 0) << (Next() % tbits);
  if (lo > hi) std::swap(lo, hi);
  if (s.clamp & 1) mp.set_clamp_min((D)std::ldexp((double)lo, e));
  if (s.clamp & 2) mp.set_clamp_max((D)std::ldexp((double)hi, e));
  std::vector<D> out((std::size_t)s.rows * s.cols, D(77));
  d.set_data(out.data());
  ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(a, b, mp, g_ctx.get(), &d);
  std::string text;
  bool odd = false;
  for (int n = 0; n < s.samples; n++) {
    const int i = n == 0 ? s.rows - 1 : Next() % s.rows, j = n == 0 ? s.cols - 1 : Next() % s.cols;
    std::string la, ra;
    for (int p = 0; p < planes; p++) {
      auto digit = [p](std::int64_t x) { return (int)(x < 0 ? -(-x >> (10 * p) & 1023) : x >> (10 * p) & 1023); };
      la += p ? ",[" : "[";
      ra += p ? ",[" : "[";
      for (int k = 0; k < s.depth; k++) {
        const int ls = a.layout().stride(), rs = b.layout().stride();
        la += (k ? "," : "") + std::to_string(digit(l[s.order & 1 ? i * ls + k : k * ls + i]));
        ra += (k ? "," : "") + std::to_string(digit(r[s.order & 2 ? k * rs + j : j * rs + k]));
      }
      la += "]";
      ra += "]";
    }
    const double v = std::ldexp((double)out[s.order & 4 ? i * s.cols + j : j * s.rows + i], -e);
    // what is computed from integers is an integer, whatever was rounded
    Int value = 0;
    if (std::isfinite(v) && std::fabs(v) < std::ldexp(1., 119) && v == std::floor(v)) value = (Int)v;
    else odd = true;
    text += (n ? "," : "") + ("{\"l\":[" + la) + "],\"r\":[" + ra + "],\"b\":" + Digits(s.bias ? bias[s.ch ? j : i] : 0, len) +
            ",\"v\":" + Digits(value, len) + "}";
  }
  fprintf(g_out, "{\"k\":\"prod\",\"ty\":%d,\"path\":%d,\"odd\":%d,\"min\":%d,\"max\":%d,\"lo\":%s,\"hi\":%s,\"s\":[%s]}\n",
          type, (int)g_ctx->last_used_path(), (int)odd, s.clamp & 1, s.clamp >> 1, Digits(lo, len).c_str(),
          Digits(hi, len).c_str(), text.c_str());
}

void Op(const std::string& op, std::istringstream& in) {
  if (op == "S") {
    g_ctx.reset(new ruy::Context);
    Emit("{\"k\":\"S\"}");
  } else if (op == "P") {
    int path, threads;
    in >> path >> threads;
    g_ctx->set_runtime_enabled_paths(static_cast<ruy::Path>(path));
    g_ctx->set_max_num_threads(threads);
  } else if (op == "M") {
    int type;
    Shape s;
    in >> type >> g_rng >> s.rows >> s.cols >> s.depth >> s.order >> s.ch >> s.pad >> s.bias >> s.clamp >> s.data >> s.el >>
        s.er >> s.pl >> s.pr >> s.samples;
    g_rng = g_rng * 0x9e3779b97f4a7c15ull + 1;
    g_ctx->ClearPrepackedCache();  // the data is new every time
    switch (type) {
      case 0: Run<float, float, float>(s, type); break;
      case 1: Run<double, double, double>(s, type); break;
      case 2: Run<float, double, double>(s, type); break;
      default: Run<float, double, float>(s, type); break;
    }
  } else {
    _exit(3);
  }
}
