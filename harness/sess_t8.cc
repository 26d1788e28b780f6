// Calls compiled for subsets of the paths.
#include "sess_types.h"

namespace {
template <int kPaths>
void Both() {
  RegPaths<std::int8_t, std::int8_t, std::int32_t, std::int32_t, kPaths>();
  RegPaths<float, float, float, float, kPaths>();
}
}  // namespace

void RegisterTypes8() {
  Both<0x01>();
  Both<0x11>();
  Both<0x21>();
  Both<0x41>();
  Both<0x03>();
  Both<0x31>();
  Both<0x55>();
  Both<0x2b>();
  Both<0x71>();
}
