// One type's world (-DTY=...).
#include "driver.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
static drv::World<vals::TY>& w() {
  static auto* w = new drv::World<vals::TY>;
  return *w;
}
extern "C" int64_t CAT(sim_op_, TY)(uint32_t what, int k, int a, int b, int x, int live, int64_t n) {
  drv::Guard g;
  int64_t y;
  y = w().op(what, k, a, b, x, live, n);
  g.done = true;
  return y;
}
extern "C" uint64_t CAT(sim_reset_, TY)(int dirt) {
  drv::dirt = dirt;
  drv::spoiled = 0;
  w().reset();
  return 0;
}
extern "C" uint64_t CAT(sim_spoiled_, TY)() {
  w().check();
  return drv::spoiled;
}
