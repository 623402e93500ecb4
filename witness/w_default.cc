// Clients of the process-wide environment itself.
#include "v.h"
#include <functional>
#include "lsmdb/cache.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "util/env_posix_test_helper.h"
using namespace lsmdb;
extern "C" void v_default(int phase, Env *e);
extern "C" void v_exit_handlers();
extern "C" void v_now(uint64_t t);
extern "C" void v_cached(int k);
extern "C" void v_snap();       // remember the memory
extern "C" void v_many(size_t max); // what changed since then changes k more times, for any k up to max
extern "C" void v_same_step();  // and changes likewise once more
namespace lsmdb {
class EnvPosixTest {
 public:
  static void Limits(int fds, int maps) {
    EnvPosixTestHelper::SetReadOnlyFDLimit(fds);
    EnvPosixTestHelper::SetReadOnlyMMapLimit(maps);
  }
};
}
static bool use(Env *e) {
  std::string f = v_string("f");
  if (!e->FileExists(f)) return false;
  SequentialFile *r;
  Status s = e->NewSequentialFile(f, &r);
  if (!s.ok()) return false;
  delete r;
  return true;
}
extern "C" void c32_default() {
  v_default(1, nullptr);
  Env *a = Env::Default();
  v_default(0, a);
  v_check(a != nullptr, "the default environment exists");
  use(a);
  v_default(1, a);
  Env *b = Env::Default();
  v_default(0, b);
  v_check(a == b, "the default environment is always the same object");
  use(b);
  v_exit_handlers();
  use(a);
  v_default(1, a);
  Env *c = Env::Default();
  v_default(0, c);
  v_check(a == c, "the default environment is the same object during process exit");
  use(c);
  v_reach("default");
}
extern "C" void c32_now() {
  Env *e = Env::Default();
  uint64_t t = e->NowMicros();
  v_now(t);
}
extern "C" void c32_newid() {
  auto c = NewLRUCache(v_size(0, 1000));
  uint64_t last = c->NewId();
  while (v_choice(2)) {
    uint64_t id = c->NewId();
    v_assume(id < (uint64_t(1) << 62));
    v_check(id > last, "a new identifier differs from all earlier ones");
    last = id;
  }
  v_reach("ids");
}
// after any number of calls: two calls apart by any number of others
extern "C" void c32_later() {
  auto c = NewLRUCache(v_size(0, 1000));
  uint64_t first = c->NewId();
  v_snap();
  uint64_t second = c->NewId();
  v_check(second != first, "a new identifier differs from all earlier ones");
  v_many(size_t(1) << 62);
  v_snap();
  uint64_t a = c->NewId();
  v_same_step();
  v_snap();
  uint64_t b = c->NewId();
  v_same_step();
  v_check(a != first && b != first && a != b, "an identifier drawn after any number of others differs from the first and from its predecessor");
  v_reach("later ids");
}
extern "C" void c32_configured() {
  int n = v_i32();
  v_assume(n >= 0);
  v_mark("limit", n);
  EnvPosixTest::Limits(n, 0);
  Env *e = Env::Default();
  RandomAccessFile *r[3];
  char b[1];
  for (int k = 0; k < 3; k++) {
    Status s = e->NewRandomAccessFile(v_string("f"), &r[k]);
    if (!s.ok()) return;
    v_mark("read");
    Slice out;
    r[k]->Read(0, 1, &out, b);
    v_cached(k + 1);
  }
  v_reach("configured");
}
extern "C" void c32_rlimit() {
  EnvPosixTest::Limits(-1, 0);
  Env *e = Env::Default();
  RandomAccessFile *r[3];
  char b[1];
  for (int k = 0; k < 3; k++) {
    Status s = e->NewRandomAccessFile(v_string("f"), &r[k]);
    if (!s.ok()) return;
    v_mark("read");
    Slice out;
    r[k]->Read(0, 1, &out, b);
    v_cached(k + 1);
  }
  v_reach("rlimit");
}
