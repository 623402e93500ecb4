// Random-access files under arbitrary budgets, opened and destroyed in any order.
#include "v.h"
#include <functional>
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "util/env_posix_test_helper.h"
using namespace lsmdb;
extern "C" {
void v_limits(int fds, int maps);
void v_open(int begin, bool ok, int k);
void v_gone(int begin, int k);               // a file object is being destroyed
void v_interference(int on);
}
namespace lsmdb {
class EnvPosixTest {
 public:
  static void Limits(int fds, int maps) {
    EnvPosixTestHelper::SetReadOnlyFDLimit(fds);
    EnvPosixTestHelper::SetReadOnlyMMapLimit(maps);
  }
};
}
static Env *env;
static RandomAccessFile *slot[3];
static void toggle(int k) {
  if (slot[k]) {
    v_gone(1, k);
    delete slot[k];
    slot[k] = nullptr;
    v_gone(0, k);
  } else {
    std::string f("f");
    RandomAccessFile *r;
    v_open(1, false, k);
    Status s = env->NewRandomAccessFile(f, &r);
    v_open(0, s.ok(), k);
    if (s.ok()) slot[k] = r;
  }
}
static void setup() {
  int f = int(v_size(0, 0x7fffffff)), m = int(v_size(0, 0x7fffffff));
  v_limits(f, m);
  EnvPosixTest::Limits(f, m);
  env = Env::Default();
}
extern "C" void c06_history() {
  setup();
  while (v_choice(2)) toggle(v_choice(2));
  v_reach("any history");
}
extern "C" void x_toggle() { toggle(2); }
extern "C" void c06_threads() {
  setup();
  v_interference(1);
  toggle(0);
  toggle(v_choice(2));
  v_interference(0);
  for (int k = 0; k < 3; k++)
    if (slot[k]) toggle(k);
  toggle(0);
  v_reach("two threads");
}
