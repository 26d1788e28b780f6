// One multiplication of a session, type-erased. See sess.cc.
#ifndef VERIF_SESS_H_
#define VERIF_SESS_H_
#include <cstdint>

#include "ruy/ruy.h"

struct MatArg {
  void* data;
  int rows, cols, stride, order;  // order: 0 column-major, 1 row-major
  long zp;
  int policy;
};

struct MulArg {
  MatArg l, r, d;
  void* bias;
  int mode;  // 0 multiplier left at its default, 1 uniform, 2 per channel
  std::int32_t m;
  int e;
  void* mbuf;
  void* ebuf;
  int channel;  // 0 rows, 1 columns
  int rounding;
  int clamp;  // bit 0: set minimum, bit 1: set maximum
  double cmin, cmax;
  // out: widths of the kernel used, along rows and columns of the destination
  // as the implementation orients it (lhs/rhs swapped for row-major ones)
  int lw, rw;
};

using MulFn = void (*)(MulArg*, ruy::Context*);
// tl, tr, td: 0 i8, 1 u8, 2 i16, 3 i32, 4 f32, 5 f64
// cp: set of paths compiled for the call, 0 for all of them
void RegisterMul(int tl, int tr, int td, MulFn fn, int cp = 0);

#endif
