// Packs column ranges of operands, as a multiplication would.
#include <cmath>
#include <cstdint>
#include <map>
#include <memory>
#include <tuple>

#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/frontend.h"
#include "ruy/matrix.h"
#include "ruy/mul_params.h"
#include "ruy/path.h"
#include "ruy/side_pair.h"
#include "ruy/trmul_params.h"
#include "script.h"

struct Side2 {
  std::vector<char> data, sums;
  std::string text;
};
static const int kRed = 64;
static ruy::Context* g_ctx;
static ruy::TrMulParams g_params;
static Side2 g_side[2];
static int g_sent, g_sums_sent;
// sources and destination
static std::vector<double> g_vals[2];
static std::vector<char> g_src[2];
static std::vector<char> g_dst;

static unsigned long g_rng;
static unsigned Rnd(unsigned n) {
  g_rng = g_rng * 6364136223846793005ul + 1442695040888963407ul;
  return (unsigned)(g_rng >> 33) % n;
}

struct Op1 {
  int rows, depth, cols, ord[3], pad[2], zp[2], style;
};

template <typename T>
static void Fill(int which, int n, int style) {
  g_vals[which].resize(n);
  g_src[which].resize((std::size_t)n * sizeof(T));
  T* p = reinterpret_cast<T*>(g_src[which].data());
  for (int i = 0; i < n; i++) {
    double v;
    if (std::is_floating_point<T>::value) {
      v = (double)Rnd(2001) - 1000;
    } else {
      const double lo = std::numeric_limits<T>::lowest(), hi = std::numeric_limits<T>::max();
      v = style == 0 ? lo + Rnd((unsigned)(hi - lo) + 1) : style == 1 ? (Rnd(2) ? lo : hi) : (double)(i % 100);
    }
    g_vals[which][i] = v;
    p[i] = (T)v;
  }
}
static std::string Ints(const std::vector<double>& v) {
  std::string s;
  for (std::size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string((long)v[i]);
  return s;
}

template <typename L, typename R, typename A, typename D>
static void Create(const Op1& o) {
  ruy::Matrix<L> l;
  ruy::Matrix<R> r;
  ruy::Matrix<D> d;
  auto mk = [](int rows, int cols, int ord, int pad, ruy::Layout* lay) {
    ruy::MakeSimpleLayout(rows, cols, ord ? ruy::Order::kRowMajor : ruy::Order::kColMajor, lay);
    lay->set_stride(lay->stride() + pad);
    return lay->stride() * (ord ? rows : cols);
  };
  Fill<L>(0, mk(o.rows, o.depth, o.ord[0], o.pad[0], l.mutable_layout()), o.style);
  Fill<R>(1, mk(o.depth, o.cols, o.ord[1], o.pad[1], r.mutable_layout()), o.style);
  g_dst.resize(sizeof(D) * mk(o.rows, o.cols, o.ord[2], 0, d.mutable_layout()));
  l.set_data(reinterpret_cast<const L*>(g_src[0].data()));
  r.set_data(reinterpret_cast<const R*>(g_src[1].data()));
  d.set_data(reinterpret_cast<D*>(g_dst.data()));
  l.set_zero_point((L)o.zp[0]);
  r.set_zero_point((R)o.zp[1]);
  ruy::MulParams<A, D> mp;
  ruy::Mat<L> il = ruy::ToInternal(const_cast<const ruy::Matrix<L>&>(l));
  ruy::Mat<R> ir = ruy::ToInternal(const_cast<const ruy::Matrix<R>&>(r));
  ruy::Mat<D> id = ruy::ToInternal(d);
  g_params = ruy::TrMulParams();
  ruy::MulFrontEndUpToCreateTrMulParams<ruy::kAllPathsIncludingInternalVariants>(il, ir, id, mp, ruy::get_ctx(g_ctx),
                                                                              &g_params);
  Emit("{\"k\":\"problem\",\"path\":%d,\"rows\":%d,\"depth\":%d,\"cols\":%d,\"dord\":%d,\"sent\":%d,\"ssent\":%d,"
       "\"l\":{\"ord\":%d,\"st\":%d,\"zp\":%d,\"sig\":%d,\"v\":[%s]},\"r\":{\"ord\":%d,\"st\":%d,\"zp\":%d,\"sig\":%d,\"v\":[%s]}}",
       (int)g_params.path, o.rows, o.depth, o.cols, o.ord[2], g_sent, g_sums_sent, o.ord[0], l.layout().stride(), o.zp[0],
       (int)std::is_signed<L>::value, Ints(g_vals[0]).c_str(), o.ord[1], r.layout().stride(), o.zp[1],
       (int)std::is_signed<R>::value, Ints(g_vals[1]).c_str());
}

static double Get(const ruy::Type& t, const char* p) {
  if (t.is_floating_point) {
    if (t.size == 4) { float f; memcpy(&f, p, 4); return f; }
    double d;
    memcpy(&d, p, 8);
    return d;
  }
  if (t.size == 1) return t.is_signed ? (double)(std::int8_t)*p : (double)(std::uint8_t)*p;
  if (t.size == 2) { std::int16_t x; memcpy(&x, p, 2); return x; }
  std::int32_t x;
  memcpy(&x, p, 4);
  return x;
}
static void Set(const ruy::Type& t, char* p, int v) {
  if (t.is_floating_point) {
    if (t.size == 4) { float f = (float)v; memcpy(p, &f, 4); } else { double f = v; memcpy(p, &f, 8); }
  } else if (t.size == 1) {
    *p = (char)v;
  } else if (t.size == 2) {
    std::int16_t x = (std::int16_t)v;
    memcpy(p, &x, 2);
  } else {
    memcpy(p, &v, 4);
  }
}
// Values that are no integers or too large become a value that is never right.
static std::string Dump(const ruy::Type& t, const char* p, long n) {
  std::string s;
  for (long i = 0; i < n; i++) {
    const double v = Get(t, p + i * t.size);
    const long x = std::abs(v) < 1e9 && v == std::floor(v) ? (long)v : 1999999999;
    s += (i ? "," : "") + std::to_string(x);
  }
  return s;
}

void Op(const std::string& op, std::istringstream& in) {
  if (op == "S") {
    Emit("{\"k\":\"S\"}");
  } else if (op == "N") {
    int types, path;
    Op1 o;
    in >> types >> path >> o.rows >> o.depth >> o.cols >> o.ord[0] >> o.ord[1] >> o.ord[2] >> o.pad[0] >> o.pad[1] >>
        o.zp[0] >> o.zp[1] >> o.style >> g_sent >> g_sums_sent >> g_rng;
    g_ctx = new ruy::Context;
    ruy::get_ctx(g_ctx)->SetRuntimeEnabledPaths(static_cast<ruy::Path>(path));
    using i8 = std::int8_t;
    using u8 = std::uint8_t;
    using i16 = std::int16_t;
    using i32 = std::int32_t;
    switch (types) {
      case 0: Create<i8, i8, i32, i32>(o); break;
      case 1: Create<u8, u8, i32, i32>(o); break;
      case 2: Create<i8, u8, i32, i32>(o); break;
      case 3: Create<u8, i8, i32, i32>(o); break;
      case 4: Create<i16, i16, i32, i32>(o); break;
      case 5: Create<i8, i16, i32, i32>(o); break;
      case 6: Create<float, float, float, float>(o); break;
      case 7: Create<double, double, double, double>(o); break;
      case 8: Create<u8, u8, i32, u8>(o); break;
      case 9: Create<i8, i8, i32, i8>(o); break;
      default: _exit(3);
    }
    for (int s = 0; s < 2; s++) {
      ruy::PEMat& p = g_params.packed_matrix[static_cast<ruy::Side>(s)];
      const long nd = ruy::DataBytes(p) / p.data_type.size, ns = p.layout.cols;
      g_side[s].data.assign((nd + 2 * kRed) * p.data_type.size, 0);
      g_side[s].sums.assign((ns + 2 * kRed) * p.sums_type.size, 0);
      for (long i = 0; i < nd + 2 * kRed; i++) Set(p.data_type, g_side[s].data.data() + i * p.data_type.size, g_sent);
      for (long i = 0; i < ns + 2 * kRed; i++) Set(p.sums_type, g_side[s].sums.data() + i * p.sums_type.size, g_sums_sent);
      p.data = g_side[s].data.data() + kRed * p.data_type.size;
      p.sums = p.sums_type.is_floating_point ? nullptr : g_side[s].sums.data() + kRed * p.sums_type.size;
      Emit("{\"k\":\"layout\",\"side\":%d,\"rows\":%d,\"cols\":%d,\"st\":%d,\"ord\":%d,\"kr\":%d,\"kc\":%d,\"ko\":%d,\"zp\":%d,"
           "\"sig\":%d,\"n\":%ld,\"hs\":%d}",
           s, p.layout.rows, p.layout.cols, p.layout.stride, (int)(p.layout.order == ruy::Order::kRowMajor),
           (int)p.layout.kernel.rows, (int)p.layout.kernel.cols, (int)(p.layout.kernel.order == ruy::Order::kRowMajor),
           (int)p.zero_point, (int)p.data_type.is_signed, nd, (int)(p.sums != nullptr));
    }
  } else if (op == "P") {
    // side and column range, in units of the kernel
    int s, a, b;
    in >> s >> a >> b;
    ruy::PEMat& p = g_params.packed_matrix[static_cast<ruy::Side>(s)];
    const int kc = p.layout.kernel.cols;
    a = std::min(a * kc, (int)p.layout.cols);
    b = std::min(b * kc, (int)p.layout.cols);
    if (a >= b) return;
    g_params.RunPack(static_cast<ruy::Side>(s), ruy::Tuning::kGeneric, a, b);
    // the zones around the buffers, and the sources
    int red = 1;
    const long nd = ruy::DataBytes(p) / p.data_type.size, ns = p.layout.cols;
    for (int i = 0; i < kRed; i++)
      for (long at : {(long)i, kRed + nd + i})
        if (Get(p.data_type, g_side[s].data.data() + at * p.data_type.size) != g_sent) red = 0;
    for (int i = 0; i < kRed; i++)
      for (long at : {(long)i, kRed + ns + i})
        if (Get(p.sums_type, g_side[s].sums.data() + at * p.sums_type.size) != g_sums_sent) red = 0;
    const std::string data = Dump(p.data_type, (char*)p.data, nd);
    const std::string sums = p.sums ? Dump(p.sums_type, (char*)p.sums, ns) : "";
    fprintf(g_out, "{\"k\":\"pack\",\"side\":%d,\"a\":%d,\"b\":%d,\"red\":%d,\"data\":[%s],\"sums\":[%s]}\n", s, a, b, red,
            data.c_str(), sums.c_str());
  } else {
    _exit(3);
  }
}
