// Clients of the default environment's sleep.
#include "v.h"
#include <functional>
#include "lsmdb/env.h"
using namespace lsmdb;
extern "C" void v_slept(int64_t us);
extern "C" void c43_sleep() {
  Env *e = Env::Default();
  int us = v_i32();
  e->SleepForMicroseconds(us);
  if (us > 0) v_slept(us);
  v_reach("slept");
}
