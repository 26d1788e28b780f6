// Complete multiplications under the controlled scheduler: one or several
// contexts, each used by its own thread, sharing read-only sources.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "driver.h"
#include "rt.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/ruy.h"
#include "ruy/strategy_controls.h"
#include "ruy/thread_pool.h"

namespace {

struct Problem {
  int type, threads, strategy, rows, cols, depth, path, order, cache, spin, clear;
};

Problem Parse(const std::string& s) {
  Problem p{};
  if (std::sscanf(s.c_str(), "%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d", &p.type, &p.threads, &p.strategy, &p.rows,
                  &p.cols, &p.depth, &p.path, &p.order, &p.cache, &p.spin, &p.clear) != 11)
    std::abort();
  return p;
}

std::vector<std::string> Split(const std::string& s, char c) {
  std::vector<std::string> out;
  std::istringstream is(s);
  std::string x;
  while (std::getline(is, x, c)) out.push_back(x);
  return out;
}

// Sources shared by all contexts, written before any thread starts.
struct Sources {
  std::vector<std::int8_t> i8[2];
  std::vector<std::uint8_t> u8[2];
  std::vector<float> f[2];
  std::vector<std::int32_t> bias;
  std::vector<float> fbias;
  std::vector<std::int32_t> mult;
  std::vector<int> exp;
  Sources() {
    std::uint32_t x = 12345;
    auto next = [&] { return x = x * 1664525u + 1013904223u, (int)(x >> 16); };
    for (int s = 0; s < 2; s++)
      for (int i = 0; i < 2500; i++) {
        i8[s].push_back(next() % 255 - 127);
        u8[s].push_back(next() % 256);
        f[s].push_back((next() % 2001 - 1000) / 64.0f);
      }
    for (int i = 0; i < 96; i++) {
      bias.push_back(next() % 2000 - 1000);
      fbias.push_back((next() % 100) / 8.0f);
      mult.push_back(1 << 30 | (next() & 0xffff));
      exp.push_back(-(next() % 6) - 3);
    }
  }
};

const Sources* g_src;

template <typename T>
const T* Src(int side);
template <>
const std::int8_t* Src(int side) { return g_src->i8[side].data(); }
template <>
const std::uint8_t* Src(int side) { return g_src->u8[side].data(); }
template <>
const float* Src(int side) { return g_src->f[side].data(); }

template <typename T>
void SetMatrix(int rows, int cols, bool row_major, int side, bool cache, int zp, ruy::Matrix<T>* m) {
  ruy::MakeSimpleLayout(rows, cols, row_major ? ruy::Order::kRowMajor : ruy::Order::kColMajor,
                        m->mutable_layout());
  m->set_data(Src<T>(side));
  m->set_zero_point(static_cast<T>(zp));
  m->set_cache_policy(cache ? ruy::CachePolicy::kAlwaysCache : ruy::CachePolicy::kNeverCache);
}

std::uint64_t Hash(const void* p, std::size_t n) {
  const unsigned char* c = static_cast<const unsigned char*>(p);
  std::uint64_t h = 1469598103934665603ull;
  for (std::size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
  return h;
}

template <typename L, typename R, typename A, typename D>
std::uint64_t Run(const Problem& p, const ruy::MulParams<A, D>& mp, int zl, int zr, int zd, ruy::Context* c) {
  ruy::Matrix<L> lhs;
  ruy::Matrix<R> rhs;
  ruy::Matrix<D> dst;
  std::vector<D> out(p.rows * p.cols + 16, D(77));
  SetMatrix<L>(p.rows, p.depth, p.order & 1, 0, p.cache & 1, zl, &lhs);
  SetMatrix<R>(p.depth, p.cols, p.order & 2, 1, p.cache & 2, zr, &rhs);
  ruy::MakeSimpleLayout(p.rows, p.cols, p.order & 4 ? ruy::Order::kRowMajor : ruy::Order::kColMajor,
                        dst.mutable_layout());
  dst.set_data(out.data());
  dst.set_zero_point(static_cast<D>(zd));
  ruy::Mul<ruy::kAllPathsIncludingInternalVariants>(lhs, rhs, mp, c, &dst);
  return Hash(out.data(), out.size() * sizeof(D));
}

std::uint64_t RunProblem(const Problem& p, ruy::Context* c) {
  c->set_runtime_enabled_paths(static_cast<ruy::Path>(p.path));
  switch (p.type) {
    case 0: {
      ruy::MulParams<std::int32_t, std::int32_t> mp;
      mp.set_bias(g_src->bias.data());
      return Run<std::int8_t, std::int8_t, std::int32_t, std::int32_t>(p, mp, 3, -2, 0, c);
    }
    case 1: {
      ruy::MulParams<std::int32_t, std::uint8_t> mp;
      mp.set_bias(g_src->bias.data());
      mp.set_multiplier_fixedpoint_perchannel(g_src->mult.data());
      mp.set_multiplier_exponent_perchannel(g_src->exp.data());
      return Run<std::uint8_t, std::uint8_t, std::int32_t, std::uint8_t>(p, mp, 120, 7, 128, c);
    }
    case 2: {
      ruy::MulParams<float, float> mp;
      mp.set_bias(g_src->fbias.data());
      mp.set_clamp_min(-500.f);
      return Run<float, float, float, float>(p, mp, 0, 0, 0, c);
    }
    default: {
      ruy::MulParams<std::int32_t, std::int16_t> mp;
      mp.set_multiplier_fixedpoint(1 << 30);
      mp.set_multiplier_exponent(-4);
      return Run<std::int8_t, std::int8_t, std::int32_t, std::int16_t>(p, mp, 0, 1, -5, c);
    }
  }
}

void Settings(const Problem& p, ruy::Context* c) {
  if (p.threads > 0) c->set_max_num_threads(p.threads);
  c->set_num_threads_strategy(p.strategy ? ruy::NumThreadsStrategy::kForceMaxNumThreads
                                         : ruy::NumThreadsStrategy::kDefault);
  // spin: 0 default, 1 no spinning, 2 long spinning; 4 and 8 select a tuning
  if (p.spin & 3) c->mutable_thread_pool()->set_spin_milliseconds(p.spin & 1 ? 0 : 20.f);
  if (p.spin & 12) ruy::get_ctx(c)->set_explicit_tuning(p.spin & 4 ? ruy::Tuning::kA55ish : ruy::Tuning::kGeneric);
  if (p.clear) c->ClearPrepackedCache();
}

void Body(const driver::Scenario& s) {
  // contexts separated by '|', multiplications by '/'
  std::unique_ptr<Sources> src(new Sources);
  g_src = src.get();
  std::vector<std::vector<Problem>> ctxs;
  for (const std::string& c : Split(s.spec, '|')) {
    ctxs.emplace_back();
    for (const std::string& m : Split(c, '/')) ctxs.back().push_back(Parse(m));
  }
  // Reference results: one thread, no cache, a fresh context each.
  std::vector<std::vector<std::uint64_t>> ref(ctxs.size());
  int pid = 0;
  for (std::size_t i = 0; i < ctxs.size(); i++)
    for (Problem p : ctxs[i]) {
      p.threads = 1;
      p.cache = 0;
      p.strategy = 0;
      std::unique_ptr<ruy::Context> c(new ruy::Context);
      ref[i].push_back(RunProblem(p, c.get()));
      rt::Event("ref", ++pid, (int)(ref[i].back() >> 34), (int)(ref[i].back() & 0x3fffffff));
    }
  auto session = [&](int i, int pid0) {
    std::unique_ptr<ruy::Context> c(new ruy::Context);
    for (std::size_t k = 0; k < ctxs[i].size(); k++) {
      const Problem& p = ctxs[i][k];
      Settings(p, c.get());
      const int id = pid0 + k + 1;
      rt::Event("mb", i, id, p.threads > 0 ? p.threads : 1);
      std::uint64_t h = RunProblem(p, c.get());
      rt::Event("me", i, id, (int)(h >> 34), (int)(h & 0x3fffffff));
      if (k == 0 && ctxs[i].size() > 1) rt::Yield();
    }
    c.reset();
    rt::Event("cx", i);
  };
  if (ctxs.size() == 1) {
    session(0, 0);
  } else {
    std::vector<std::thread> ts;
    int base = 0;
    for (std::size_t i = 0; i < ctxs.size(); i++) {
      ts.emplace_back(session, (int)i, base);
      base += ctxs[i].size();
    }
    for (auto& t : ts) t.join();
  }
}

}  // namespace

int main(int argc, char** argv) { return driver::Main(argc, argv, Body); }
