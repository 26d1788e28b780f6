// Instantiates multiplications for one combination of types.
#include <cstdint>

#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#ifdef VERIF_REFERENCE
#include "ruy/reference_mul.h"
#endif
#include "sess.h"

namespace {

template <typename T>
struct Id;
template <> struct Id<std::int8_t> { static constexpr int v = 0; };
template <> struct Id<std::uint8_t> { static constexpr int v = 1; };
template <> struct Id<std::int16_t> { static constexpr int v = 2; };
template <> struct Id<std::int32_t> { static constexpr int v = 3; };
template <> struct Id<float> { static constexpr int v = 4; };
template <> struct Id<double> { static constexpr int v = 5; };

template <typename T>
void Fill(const MatArg& a, bool src, ruy::Matrix<T>* m) {
  m->mutable_layout()->set_rows(a.rows);
  m->mutable_layout()->set_cols(a.cols);
  m->mutable_layout()->set_stride(a.stride);
  m->mutable_layout()->set_order(a.order ? ruy::Order::kRowMajor : ruy::Order::kColMajor);
  m->set_zero_point(static_cast<T>(a.zp));
  if (src) {
    m->set_data(static_cast<const T*>(a.data));
    m->set_cache_policy(static_cast<ruy::CachePolicy>(a.policy));
  } else {
    m->set_data(static_cast<T*>(a.data));
  }
}

template <typename A, typename D, bool Quantized, bool HasClamp>
struct ParamsFill;

template <typename A, typename D>
struct ParamsFill<A, D, true, true> {
  static void Run(const MulArg& a, ruy::MulParams<A, D>* p) {
    if (a.mode == 1) {
      p->set_multiplier_fixedpoint(a.m);
      p->set_multiplier_exponent(a.e);
    } else if (a.mode == 2) {
      p->set_multiplier_fixedpoint_perchannel(static_cast<const A*>(a.mbuf));
      p->set_multiplier_exponent_perchannel(static_cast<const int*>(a.ebuf));
    }
    ParamsFill<A, D, false, true>::Run(a, p);
  }
};
template <typename A, typename D>
struct ParamsFill<A, D, false, true> {
  static void Run(const MulArg& a, ruy::MulParams<A, D>* p) {
    if (a.clamp & 1) p->set_clamp_min(static_cast<D>(a.cmin));
    if (a.clamp & 2) p->set_clamp_max(static_cast<D>(a.cmax));
  }
};
template <typename A, typename D>
struct ParamsFill<A, D, false, false> {
  static void Run(const MulArg&, ruy::MulParams<A, D>*) {}
};

template <ruy::Path P, typename L, typename R, typename A, typename D>
void WidthsOf(MulArg* a) {
  using K = ruy::Kernel<P, ruy::PackedType<P, L>, ruy::PackedType<P, R>, A, D>;
  a->lw = K::LhsLayout::kCols;
  a->rw = K::RhsLayout::kCols;
}

template <typename L, typename R, typename A, typename D>
void Widths(ruy::Path p, MulArg* a) {
  switch (p) {
    case ruy::Path::kInternalStandardCppVariant1: return WidthsOf<ruy::Path::kInternalStandardCppVariant1, L, R, A, D>(a);
    case ruy::Path::kInternalStandardCppVariant2: return WidthsOf<ruy::Path::kInternalStandardCppVariant2, L, R, A, D>(a);
    case ruy::Path::kInternalStandardCppVariant3: return WidthsOf<ruy::Path::kInternalStandardCppVariant3, L, R, A, D>(a);
    case ruy::Path::kAvx: return WidthsOf<ruy::Path::kAvx, L, R, A, D>(a);
    case ruy::Path::kAvx2Fma: return WidthsOf<ruy::Path::kAvx2Fma, L, R, A, D>(a);
    case ruy::Path::kAvx512: return WidthsOf<ruy::Path::kAvx512, L, R, A, D>(a);
    default: return WidthsOf<ruy::Path::kStandardCpp, L, R, A, D>(a);
  }
}

template <typename L, typename R, typename A, typename D, int kPaths = 0>
void DoMul(MulArg* a, ruy::Context* c) {
  ruy::Matrix<L> lhs;
  ruy::Matrix<R> rhs;
  ruy::Matrix<D> dst;
  Fill(a->l, true, &lhs);
  Fill(a->r, true, &rhs);
  Fill(a->d, false, &dst);
  ruy::MulParams<A, D> p;
  if (a->bias) p.set_bias(static_cast<const A*>(a->bias));
  constexpr bool kInt = std::is_integral<D>::value;
  constexpr bool kRaw = std::is_same<D, std::int32_t>::value;
  ParamsFill<A, D, kInt && !kRaw, !kRaw>::Run(*a, &p);
  p.set_channel_dimension(a->channel ? ruy::ChannelDimension::kCol : ruy::ChannelDimension::kRow);
  p.set_perchannel_buffers_capacity_rounding(a->rounding);
#ifdef VERIF_REFERENCE
  // the reference multiplication in place of the real one
  ruy::get_ctx(c)->SelectPath(ruy::Path::kStandardCpp);
  ruy::ReferenceMul(lhs, rhs, p, &dst);
#else
  ruy::Mul<kPaths ? static_cast<ruy::Path>(kPaths) : ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, p, c, &dst);
#endif
  const ruy::Path used = ruy::get_ctx(c)->last_used_path();
  if (a->d.order)
    Widths<R, L, A, D>(used, a);
  else
    Widths<L, R, A, D>(used, a);
}

template <typename L, typename R, typename A, typename D>
void Reg() {
  RegisterMul(Id<L>::v, Id<R>::v, Id<D>::v, &DoMul<L, R, A, D>);
}

template <typename L, typename R, typename A, typename D, int kPaths>
void RegPaths() {
  RegisterMul(Id<L>::v, Id<R>::v, Id<D>::v, &DoMul<L, R, A, D, kPaths>, kPaths);
}

}  // namespace

#define SESS_INT(N, L, R)                        \
  void RegisterTypes##N() {                      \
    Reg<L, R, std::int32_t, std::int8_t>();      \
    Reg<L, R, std::int32_t, std::uint8_t>();     \
    Reg<L, R, std::int32_t, std::int16_t>();     \
    Reg<L, R, std::int32_t, std::int32_t>();     \
  }
