// Which multiplications and settings are refused.
#include <setjmp.h>

#include <cmath>
#include <cstdint>
#include <limits>

#include "ruy/ruy.h"
#include "script.h"

static sigjmp_buf g_jmp;
static volatile sig_atomic_t g_armed;
static void OnAbort(int) {
  if (g_armed) siglongjmp(g_jmp, 1);
}
// Runs f; false if it was refused.
template <typename F>
static bool Accepted(F f) {
  g_armed = 1;
  if (sigsetjmp(g_jmp, 1)) {
    g_armed = 0;
    return false;
  }
  f();
  g_armed = 0;
  return true;
}

// Zero points are given in halves: integers are even.
template <typename L, typename R, typename A, typename D>
static bool Mul(int zl, int zr, int zd, int path, bool const_dst, bool* touched) {
  static const int kRows = 3, kDepth = 5, kCols = 2;
  static L lv[kRows * kDepth];
  static R rv[kDepth * kCols];
  static D dv[kRows * kCols];
  for (auto& x : lv) x = 1;
  for (auto& x : rv) x = 2;
  for (auto& x : dv) x = 99;
  ruy::Matrix<L> l;
  ruy::Matrix<R> r;
  ruy::Matrix<D> d;
  ruy::MakeSimpleLayout(kRows, kDepth, ruy::Order::kRowMajor, l.mutable_layout());
  ruy::MakeSimpleLayout(kDepth, kCols, ruy::Order::kColMajor, r.mutable_layout());
  ruy::MakeSimpleLayout(kRows, kCols, ruy::Order::kColMajor, d.mutable_layout());
  l.set_data(lv);
  r.set_data(static_cast<const R*>(rv));
  if (const_dst)
    d.set_data(static_cast<const D*>(dv));
  else
    d.set_data(dv);
  l.set_zero_point((L)(zl / 2.0));
  r.set_zero_point((R)(zr / 2.0));
  d.set_zero_point((D)(zd / 2.0));
  ruy::MulParams<A, D> mp;
  static ruy::Context* c = new ruy::Context;
  c->set_runtime_enabled_paths(static_cast<ruy::Path>(path));
  const bool ok = Accepted([&] { ruy::Mul(l, r, mp, c, &d); });
  *touched = false;
  for (auto& x : dv)
    if (x != 99) *touched = true;
  if (!ok) c = new ruy::Context;
  return ok;
}

static bool Any(int types, int zl, int zr, int zd, int path, bool cd, bool* t) {
  using i8 = std::int8_t;
  using u8 = std::uint8_t;
  using i16 = std::int16_t;
  using i32 = std::int32_t;
  using f = float;
  using g = double;
  switch (types) {
#define C(n, L, R, A, D) case n: return Mul<L, R, A, D>(zl, zr, zd, path, cd, t);
    C(0, i8, i8, i32, i8) C(1, i8, i8, i32, i32) C(2, u8, u8, i32, u8) C(3, u8, u8, i32, i32) C(4, i8, u8, i32, i16)
    C(5, u8, i8, i32, i32) C(6, i8, i16, i32, i16) C(7, i16, i8, i32, i32) C(8, i16, i16, i32, i8) C(9, u8, i16, i32, u8)
    C(10, i16, u8, i32, i32) C(11, f, f, f, f) C(12, g, g, g, g) C(13, f, g, g, f) C(14, u8, u8, i32, i16) C(15, i8, i8, i32, u8)
#undef C
  }
  _exit(3);
}

// ------------------------------------------------------------------ MulParams
static std::int32_t g_buf32[4];
static int g_bufi[4];
template <typename D>
struct Quantized {
  static ruy::MulParams<std::int32_t, D>& P() {
    static ruy::MulParams<std::int32_t, D> p;
    return p;
  }
  static std::int32_t* F(int i) { return i ? g_buf32 + i : nullptr; }
  static int* X(int i) { return i ? g_bufi + i : nullptr; }
  static void Do(const std::string& f, long v) {
    auto& p = P();
    const bool ok = Accepted([&] {
      if (f == "mf") p.set_multiplier_fixedpoint((std::int32_t)v);
      else if (f == "me") p.set_multiplier_exponent((int)v);
      else if (f == "pf") p.set_multiplier_fixedpoint_perchannel(F((int)v));
      else if (f == "pe") p.set_multiplier_exponent_perchannel(X((int)v));
      else if (f == "bias") p.set_bias(F((int)v));
      else if (f == "lo") p.set_clamp_min((D)v);
      else if (f == "hi") p.set_clamp_max((D)v);
      else if (f == "ch") p.set_channel_dimension(v ? ruy::ChannelDimension::kCol : ruy::ChannelDimension::kRow);
      else if (f == "cap") p.set_perchannel_buffers_capacity_rounding((int)v);
      else if (f == "copy") { auto q = p; p = ruy::MulParams<std::int32_t, D>(); p = q; }
      else if (f == "reset") p = ruy::MulParams<std::int32_t, D>();
      else _exit(3);
    });
    const ruy::MulParams<std::int32_t, D>& c = p;
    auto at32 = [](const std::int32_t* q) { return q ? (int)(q - g_buf32) : 0; };
    auto ati = [](const int* q) { return q ? (int)(q - g_bufi) : 0; };
    Emit("{\"k\":\"set\",\"f\":\"%s\",\"v\":%ld,\"ok\":%d,\"mf\":%d,\"me\":%d,\"pf\":%d,\"pe\":%d,\"bias\":%d,\"lo\":%d,\"hi\":%d,"
         "\"ch\":%d,\"cap\":%d}",
         f.c_str(), v, (int)ok, (int)c.multiplier_fixedpoint(), c.multiplier_exponent(),
         at32(c.multiplier_fixedpoint_perchannel()), ati(c.multiplier_exponent_perchannel()), at32(c.bias()),
         (int)c.clamp_min(), (int)c.clamp_max(), (int)(c.channel_dimension() == ruy::ChannelDimension::kCol),
         c.perchannel_buffers_capacity_rounding());
  }
};

static int g_dst;
void Op(const std::string& op, std::istringstream& in) {
  if (op == "S") {
    in >> g_dst;
    if (!freopen("/dev/null", "w", stderr)) close(2);
    signal(SIGABRT, OnAbort);
    Emit("{\"k\":\"S\",\"dst\":%d}", g_dst);
  } else if (op == "Z") {
    // one left and destination zero point, a range of right ones
    int types, path, zl, zd, cd, from, to, step;
    in >> types >> path >> zl >> zd >> cd >> from >> to >> step;
    std::string ok, touched;
    for (int z = from; z <= to; z += step) {
      bool t;
      ok += (z > from ? "," : "") + std::to_string((int)Any(types, zl, z, zd, path, cd, &t));
      touched += (z > from ? "," : "") + std::to_string((int)t);
    }
    fprintf(g_out, "{\"k\":\"zp\",\"types\":%d,\"zl\":%d,\"zd\":%d,\"cd\":%d,\"from\":%d,\"step\":%d,\"ok\":[%s],\"touched\":[%s]}\n",
            types, zl, zd, cd, from, step, ok.c_str(), touched.c_str());
  } else if (op == "P") {
    std::string f;
    long v;
    in >> f >> v;
    if (g_dst == 0) Quantized<std::int8_t>::Do(f, v);
    else if (g_dst == 1) Quantized<std::uint8_t>::Do(f, v);
    else Quantized<std::int16_t>::Do(f, v);
  } else {
    _exit(3);
  }
}
