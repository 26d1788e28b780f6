#include "sess_types.h"
void RegisterTypes7() {
  Reg<float, float, float, float>();
  Reg<double, double, double, double>();
  Reg<double, float, double, float>();
  Reg<float, double, double, double>();
}
