// The multi-threaded middle-end under the controlled scheduler, with packing and
// kernel functions that record what they are asked to do.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "driver.h"
#include "rt.h"
#include "ruy/context.h"
#include "ruy/context_get_ctx.h"
#include "ruy/ctx.h"
#include "ruy/mat.h"
#include "ruy/side_pair.h"
#include "ruy/strategy_controls.h"
#include "ruy/trmul.h"
#include "ruy/trmul_params.h"
#include "ruy/tune.h"

namespace {

using ruy::Side;
using ruy::SidePair;

int g_yields = 0;

// One marker per strip of kernel width; what the mock packing produces.
struct Operand {
  int side = 0;
  int kernel = 1;
  int gen = 0;
  std::vector<int> marker;
};

struct Dst {
  int kr = 1, kc = 1, rows = 0, cols = 0;
  std::vector<int> count;  // per strip pair
};

void MockPack(ruy::Tuning, const ruy::EMat&, ruy::PEMat* packed, int start, int end) {
  Operand* op = static_cast<Operand*>(packed->data);
  rt::Event("pb", op->side, start, end);
  const int a = start / op->kernel, b = (end + op->kernel - 1) / op->kernel;
  for (int i = a; i < b; i++) {
    if (i >= 0 && i < (int)op->marker.size()) op->marker[i] = op->gen;
    if (i - a < g_yields) rt::Yield();
  }
  rt::Event("pe", op->side, start, end);
}

void MockKernel(ruy::Tuning, const SidePair<ruy::PEMat>& packed, const void*,
                const SidePair<int>& start, const SidePair<int>& end, ruy::EMat* dst) {
  const Operand* l = static_cast<const Operand*>(packed[Side::kLhs].data);
  const Operand* r = static_cast<const Operand*>(packed[Side::kRhs].data);
  Dst* d = static_cast<Dst*>(dst->data);
  rt::Event("kb", start[Side::kLhs], end[Side::kLhs], start[Side::kRhs], end[Side::kRhs]);
  int bad = 0;
  const int a1 = start[Side::kLhs] / d->kr, b1 = (end[Side::kLhs] + d->kr - 1) / d->kr;
  const int a2 = start[Side::kRhs] / d->kc, b2 = (end[Side::kRhs] + d->kc - 1) / d->kc;
  for (int i = a1; i < b1; i++) bad += i < (int)l->marker.size() && l->marker[i] != l->gen;
  for (int j = a2; j < b2; j++) bad += j < (int)r->marker.size() && r->marker[j] != r->gen;
  if (g_yields) rt::Yield();
  for (int i = a1; i < b1; i++)
    for (int j = a2; j < b2; j++)
      if (i < d->rows && j < d->cols) d->count[i * d->cols + j]++;
  rt::Event("kd", bad);
  rt::Event("ke", start[Side::kLhs], end[Side::kLhs], start[Side::kRhs], end[Side::kRhs]);
}

int RoundUp(int x, int k) { return (x + k - 1) / k * k; }

void Body(const driver::Scenario& s) {
  g_yields = s.yields;
  std::unique_ptr<ruy::Context> context(new ruy::Context);
  ruy::Ctx* ctx = ruy::get_ctx(context.get());
  // muls separated by '/': T,strategy,rows,cols,depth,kr,kc,es,pre1,pre2
  std::istringstream all(s.spec);
  std::string one;
  int gen = 0;
  while (std::getline(all, one, '/')) {
    int v[10];
    if (std::sscanf(one.c_str(), "%d,%d,%d,%d,%d,%d,%d,%d,%d,%d", v, v + 1, v + 2, v + 3, v + 4,
                    v + 5, v + 6, v + 7, v + 8, v + 9) != 10)
      std::abort();
    gen++;
    context->set_max_num_threads(v[0]);
    context->set_num_threads_strategy(v[1] ? ruy::NumThreadsStrategy::kForceMaxNumThreads
                                           : ruy::NumThreadsStrategy::kDefault);
    const int rows = v[2], cols = v[3], depth = v[4], es = v[7];
    const SidePair<int> kernel{v[5], v[6]};
    const SidePair<int> dims{rows, cols};
    const SidePair<int> pre{v[8], v[9]};
    std::unique_ptr<ruy::TrMulParams> params(new ruy::TrMulParams);
    std::unique_ptr<Operand> op[2];
    for (Side side : {Side::kLhs, Side::kRhs}) {
      const int i = side == Side::kLhs ? 0 : 1;
      op[i].reset(new Operand);
      op[i]->side = i + 1;
      op[i]->kernel = kernel[side];
      op[i]->gen = gen;
      op[i]->marker.assign(RoundUp(dims[side], kernel[side]) / kernel[side], pre[side] ? gen : 0);
      ruy::EMat& src = params->src[side];
      src.data_type.size = es;
      src.layout.rows = depth;
      src.layout.cols = dims[side];
      src.layout.stride = depth;
      src.layout.order = ruy::Order::kColMajor;
      ruy::PEMat& packed = params->packed_matrix[side];
      packed.data_type.size = es;
      packed.data = op[i].get();
      packed.layout.kernel.rows = 1;
      packed.layout.kernel.cols = kernel[side];
      packed.layout.rows = depth;
      packed.layout.cols = RoundUp(dims[side], kernel[side]);
      packed.layout.stride = depth;
      params->run_pack[side] = MockPack;
      params->is_prepacked[side] = pre[side];
    }
    std::unique_ptr<Dst> dst(new Dst);
    dst->kr = v[5];
    dst->kc = v[6];
    dst->rows = op[0]->marker.size();
    dst->cols = op[1]->marker.size();
    dst->count.assign(dst->rows * dst->cols, 0);
    params->dst.data = dst.get();
    params->dst.layout.rows = rows;
    params->dst.layout.cols = cols;
    params->dst.layout.stride = rows;
    params->run_kernel = MockKernel;
    params->path = ruy::Path::kStandardCpp;
    const long long size = (long long)rows * cols * depth;
    rt::Event("tm", dst->rows, dst->cols, v[5], v[6]);
    rt::Event("tmp", pre[Side::kLhs], pre[Side::kRhs], v[0], v[1] ? -1 : (int)std::min<long long>(size / 32768, 1000000));
    ruy::TrMul(ctx, params.get());
    rt::Event("tmret");
    int bad = 0;
    for (int c : dst->count) bad += c != 1;
    rt::Event("tmsee", bad);
  }
  rt::Event("cdel");
  context.reset();
  rt::Event("cgone", rt::ThreadsAlive() - 1);
}

}  // namespace

int main(int argc, char** argv) { return driver::Main(argc, argv, Body); }
