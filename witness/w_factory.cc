// Clients of every factory operation: the result pointer is uninitialised before the call.
#include "v.h"
#include "lsmdb/env.h"
#include "lsmdb/status.h"
#include "lsmdb/slice.h"
#include "helpers/memenv/memenv.h"
#include "util/env_posix_test_helper.h"
using namespace lsmdb;
namespace lsmdb {
class EnvPosixTest {
 public:
  static void Limits(int fds, int maps) {
    EnvPosixTestHelper::SetReadOnlyFDLimit(fds);
    EnvPosixTestHelper::SetReadOnlyMMapLimit(maps);
  }
};
}
template <class T> static void made(const Status &s, T *r) {
  if (s.ok()) v_check(r != nullptr, "OK with an object");
  else v_check(r == nullptr, "non-OK with a null pointer");
}
static void factories(Env *e, const std::string &f, bool locks) {
  switch (v_choice(locks ? 6 : 5)) {
    case 0: { SequentialFile *r; Status s = e->NewSequentialFile(f, &r); made(s, r); if (s.ok()) delete r; break; }
    case 1: { RandomAccessFile *r; Status s = e->NewRandomAccessFile(f, &r); made(s, r); if (s.ok()) delete r; break; }
    case 2: { WritableFile *r; Status s = e->NewWritableFile(f, &r); made(s, r); if (s.ok()) delete r; break; }
    case 3: { WritableFile *r; Status s = e->NewAppendableFile(f, &r); made(s, r); if (s.ok()) delete r; break; }
    case 4: { Logger *r; Status s = e->NewLogger(f, &r); made(s, r); if (s.ok()) delete r; break; }
    case 5: {
      FileLock *r; Status s = e->LockFile(f, &r); made(s, r);
      FileLock *q; Status t = e->LockFile(f, &q); made(t, q);
      if (s.ok()) e->UnlockFile(r);
      break;
    }
  }
}
extern "C" void f_posix() {
  EnvPosixTest::Limits(v_choice(2), v_choice(2));
  Env *e = Env::Default();
  factories(e, v_string("f"), true);
  v_end("posix");
}
extern "C" void f_memenv() {
  Env *e = NewMemEnv(Env::Default());
  std::string f = v_string("f"), g = v_string("g");
  switch (v_choice(5)) {
    case 0: break;
    case 1: { WritableFile *w; if (e->NewWritableFile(f, &w).ok()) delete w; break; }
    case 2: { WritableFile *w; if (e->NewWritableFile(g, &w).ok()) delete w; break; }
    case 3: { WritableFile *w; if (e->NewAppendableFile(f, &w).ok()) delete w; break; }
    case 4: { WritableFile *w; if (e->NewWritableFile(f, &w).ok()) { delete w; e->RemoveFile(f); } break; }
  }
  factories(e, f, true);
  v_end("memenv");
}
namespace {
class Plain : public Env {      // only the pure virtual operations
 public:
  Status NewSequentialFile(const std::string &, SequentialFile **r) override { *r = nullptr; return Status::NotSupported("x"); }
  Status NewRandomAccessFile(const std::string &, RandomAccessFile **r) override { *r = nullptr; return Status::NotSupported("x"); }
  Status NewWritableFile(const std::string &, WritableFile **r) override { *r = nullptr; return Status::NotSupported("x"); }
  bool FileExists(const std::string &) override { return false; }
  Status GetChildren(const std::string &, std::vector<std::string> *) override { return Status::NotSupported("x"); }
  Status RemoveFile(const std::string &) override { return Status::NotSupported("x"); }
  Status CreateDir(const std::string &) override { return Status::NotSupported("x"); }
  Status RemoveDir(const std::string &) override { return Status::NotSupported("x"); }
  Status GetFileSize(const std::string &, uint64_t *) override { return Status::NotSupported("x"); }
  Status RenameFile(const std::string &, const std::string &) override { return Status::NotSupported("x"); }
  Status LockFile(const std::string &, FileLock **l) override { *l = nullptr; return Status::NotSupported("x"); }
  Status UnlockFile(FileLock *) override { return Status::NotSupported("x"); }
  void Schedule(std::function<void(void *)>, void *) override {}
  void StartThread(std::function<void(void *)>, void *) override {}
  Status GetTestDirectory(std::string *) override { return Status::NotSupported("x"); }
  Status NewLogger(const std::string &, Logger **r) override { *r = nullptr; return Status::NotSupported("x"); }
  uint64_t NowMicros() override { return 0; }
  void SleepForMicroseconds(int) override {}
};
}
extern "C" void f_base() {
  Plain p;
  std::string f = v_string("f");
  WritableFile *w;
  Status s = p.NewAppendableFile(f, &w);
  made(s, w);
  v_check(!s.ok(), "an operation the base class cannot do is not OK");
  EnvWapper x(&p);
  WritableFile *w2;
  Status s2 = x.NewAppendableFile(f, &w2);
  made(s2, w2);
  v_end("base");
}
