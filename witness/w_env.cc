// Clients of the forwarding environment and of the whole-file helpers.
#include "v.h"
#include <cstdarg>
#include <cstring>
#include <functional>
#include <utility>
#include <vector>
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
namespace lsmdb { Status WriteStringToFileSync(Env *env, const Slice &data, const std::string &fname); }
using namespace lsmdb;
// ---------------------------------------------------------------- an environment that records the one call it gets
enum Op { kNone, kSeq, kRand, kWrite, kAppend, kExists, kChildren, kRemove, kMkdir, kRmdir, kSize, kRename, kLock, kUnlock, kSchedule, kStart, kTestDir, kLogger, kNow, kSleep };
static int calls, last;
static const void *out_arg, *thr_arg;
static std::string *want1, *want2;         // what the caller passed
static int num_arg;
static bool bool_ret;
static uint64_t int_ret;
static int code_ret;                       // 0 OK 1 NotFound 2 IOError
static const char *msg_ret;
static size_t msg_len;
static void *ran_with;
static int ran;
static char thing[32];
static Status stat() {
  if (code_ret == 0) return Status::OK();
  if (code_ret == 1) return Status::NotFound(Slice(msg_ret, msg_len));
  return Status::IOError(Slice(msg_ret, msg_len));
}
static void same(const std::string &a, const std::string *b) {
  v_check(a.size() == b->size(), "the arguments arrive in their positions");
  v_same(a.data(), b->data(), a.size(), "the arguments arrive unchanged");
}
namespace {
class Target : public Env {
 public:
  void hit(int op, const void *out = nullptr) { calls++; last = op; out_arg = out; }
  template <class T> Status make(int op, const std::string &f, T **r) {
    hit(op, r);
    same(f, want1);
    *r = code_ret ? nullptr : reinterpret_cast<T *>(thing);
    return stat();
  }
  Status NewSequentialFile(const std::string &f, SequentialFile **r) override { return make(kSeq, f, r); }
  Status NewRandomAccessFile(const std::string &f, RandomAccessFile **r) override { return make(kRand, f, r); }
  Status NewWritableFile(const std::string &f, WritableFile **r) override { return make(kWrite, f, r); }
  Status NewAppendableFile(const std::string &f, WritableFile **r) override { return make(kAppend, f, r); }
  bool FileExists(const std::string &f) override { hit(kExists); same(f, want1); return bool_ret; }
  Status GetChildren(const std::string &d, std::vector<std::string> *r) override { hit(kChildren, r); same(d, want1); return stat(); }
  Status RemoveFile(const std::string &f) override { hit(kRemove); same(f, want1); return stat(); }
  Status CreateDir(const std::string &f) override { hit(kMkdir); same(f, want1); return stat(); }
  Status RemoveDir(const std::string &f) override { hit(kRmdir); same(f, want1); return stat(); }
  Status GetFileSize(const std::string &f, uint64_t *s) override { hit(kSize, s); same(f, want1); *s = int_ret; return stat(); }
  Status RenameFile(const std::string &s, const std::string &t) override { hit(kRename); same(s, want1); same(t, want2); return stat(); }
  Status LockFile(const std::string &f, FileLock **l) override { return make(kLock, f, l); }
  Status UnlockFile(FileLock *l) override { hit(kUnlock, l); return stat(); }
  void Schedule(std::function<void(void *)> f, void *a) override { hit(kSchedule); thr_arg = a; f(a); }
  void StartThread(std::function<void(void *)> f, void *a) override { hit(kStart); thr_arg = a; f(a); }
  Status GetTestDirectory(std::string *p) override { hit(kTestDir, p); return stat(); }
  Status NewLogger(const std::string &f, Logger **r) override { return make(kLogger, f, r); }
  uint64_t NowMicros() override { hit(kNow); return int_ret; }
  void SleepForMicroseconds(int m) override { hit(kSleep); num_arg = m; }
};
}
static void work(void *a) { ran++; ran_with = a; }
static void got(int op, const void *out = nullptr) {
  v_check(calls == 1, "exactly one call of the wrapped environment");
  v_check(last == op, "of the same operation");
  v_check(out_arg == out, "with the caller's own result argument");
}
static void got(const Status &s, int op, const void *out = nullptr) {
  got(op, out);
  v_check(s.ok() == (code_ret == 0) && s.IsNotFound() == (code_ret == 1) && s.IsIOError() == (code_ret == 2), "the status is returned unchanged");
  if (code_ret) {
    std::string t = s.ToString();
    v_check(t.size() == 10 + msg_len, "the status is returned with its message");
    v_same(t.data() + 10, msg_ret, msg_len, "the status is returned with its message");
  }
}
template <class T> static void made(T *r) { v_check(r == (code_ret ? nullptr : reinterpret_cast<T *>(thing)), "the object produced reaches the caller"); }
extern "C" void c26_forward() {
  Target target;
  EnvWapper w(&target);
  Env *e = &w;
  v_check(w.target() == &target, "target() is the wrapped environment");
  std::string f = v_string("f"), g = v_string("g");
  want1 = &f;
  want2 = &g;
  code_ret = v_choice(3);
  msg_len = v_size(0, 1 << 20);
  msg_ret = v_mem(msg_len, "msg");
  switch (1 + v_choice(19)) {
    case kSeq: { SequentialFile *r; got(e->NewSequentialFile(f, &r), kSeq, &r); made(r); break; }
    case kRand: { RandomAccessFile *r; got(e->NewRandomAccessFile(f, &r), kRand, &r); made(r); break; }
    case kWrite: { WritableFile *r; got(e->NewWritableFile(f, &r), kWrite, &r); made(r); break; }
    case kAppend: { WritableFile *r; got(e->NewAppendableFile(f, &r), kAppend, &r); made(r); break; }
    case kExists: { bool_ret = v_choice(2); bool b = e->FileExists(f); got(kExists); v_check(b == bool_ret, "the result is returned unchanged"); break; }
    case kChildren: { std::vector<std::string> r; got(e->GetChildren(f, &r), kChildren, &r); break; }
    case kRemove: got(e->RemoveFile(f), kRemove); break;
    case kMkdir: got(e->CreateDir(f), kMkdir); break;
    case kRmdir: got(e->RemoveDir(f), kRmdir); break;
    case kSize: { int_ret = v_u64(); uint64_t s; got(e->GetFileSize(f, &s), kSize, &s); v_check(s == int_ret, "the result is returned unchanged"); break; }
    case kRename: got(e->RenameFile(f, g), kRename); break;
    case kLock: { FileLock *r; got(e->LockFile(f, &r), kLock, &r); made(r); break; }
    case kUnlock: { FileLock *l = reinterpret_cast<FileLock *>(thing); got(e->UnlockFile(l), kUnlock, l); break; }
    case kSchedule: { int x; e->Schedule(work, &x); got(kSchedule); v_check(thr_arg == &x && ran == 1 && ran_with == &x, "the function and its argument arrive"); break; }
    case kStart: { int x; e->StartThread(work, &x); got(kStart); v_check(thr_arg == &x && ran == 1 && ran_with == &x, "the function and its argument arrive"); break; }
    case kTestDir: { std::string r; got(e->GetTestDirectory(&r), kTestDir, &r); break; }
    case kLogger: { Logger *r; got(e->NewLogger(f, &r), kLogger, &r); made(r); break; }
    case kNow: { int_ret = v_u64(); uint64_t t = e->NowMicros(); got(kNow); v_check(t == int_ret, "the result is returned unchanged"); break; }
    case kSleep: { int m = v_i32(); e->SleepForMicroseconds(m); got(kSleep); v_check(num_arg == m, "the arguments arrive unchanged"); break; }
  }
}
// ---------------------------------------------------------------- an environment whose every step may fail
static int alive, born, removed, failures, first_code, created;
static const char *first_msg;
static bool synced, closed, dirty;
static size_t taken;                      // bytes appended / delivered so far
static const char *src;
static size_t src_len;
static std::string *file_name;
static const char *msgs[2];
static size_t lens[2];
static Status step() {                    // OK or one of two distinguishable errors
  int k = v_choice(2);
  if (!k) return Status::OK();
  int m = failures ? 1 : 0;
  if (!failures) { first_code = v_choice(2); first_msg = msgs[0]; }
  failures++;
  Slice t(msgs[m], lens[m]);
  return (m ? 1 - first_code : first_code) ? Status::IOError(t) : Status::NotFound(t);
}
namespace {
class WFile : public WritableFile {
 public:
  WFile() { alive++; born++; }
  ~WFile() override { alive--; }
  Status Append(const Slice &d) override {
    v_check(!closed && alive, "appending to an open file");
    v_check(d.size() <= src_len - taken, "nothing but the data is appended");
    v_same(d.data(), src + taken, d.size(), "the data is appended in order");
    taken += d.size();
    synced = false;
    return step();
  }
  Status Close() override { Status s = step(); closed = true; return s; }
  Status Flush() override { return step(); }
  Status Sync() override { v_check(!closed, "synced while open"); Status s = step(); synced = s.ok(); return s; }
};
class Disk : public Target {
 public:
  Status NewWritableFile(const std::string &f, WritableFile **r) override {
    same(f, file_name);
    Status s = step();
    created = s.ok();
    *r = s.ok() ? new WFile : nullptr;
    return s;
  }
  Status RemoveFile(const std::string &f) override {
    same(f, file_name);
    removed++;
    return v_choice(2) ? Status::OK() : Status::IOError("cannot remove");
  }
  Status NewSequentialFile(const std::string &f, SequentialFile **r) override;
};
class SFile : public SequentialFile {
 public:
  SFile() { alive++; born++; }
  ~SFile() override { alive--; }
  Status Read(size_t n, Slice *result, char *scratch) override {
    v_check(!failures, "reading stops at the first error");
    v_check(!dirty, "reading stops at the end of the file");
    v_check(n >= 1, "a read asks for something");
    Status s = step();
    size_t k = v_size(0, n);      // a failed read may leave anything in its result
    v_assume(taken <= (size_t(1) << 30) && k <= (size_t(1) << 30) - taken);
    if (v_choice(2)) {
      memcpy(scratch, src + taken, k);
      *result = Slice(scratch, k);
    } else {
      *result = Slice(src + taken, k);       // as a mapped file would
    }
    taken += k;
    if (s.ok() && k == 0) dirty = true;
    return s;
  }
  Status Skip(uint64_t) override { v_check(false, "nothing is skipped"); return Status::OK(); }
};
Status Disk::NewSequentialFile(const std::string &f, SequentialFile **r) {
  same(f, file_name);
  Status s = step();
  created = s.ok();
  *r = s.ok() ? new SFile : nullptr;
  return s;
}
}
static void setup(std::string *f) {
  file_name = f;
  for (int k = 0; k < 2; k++) {
    lens[k] = v_size(1, 1 << 20);
    msgs[k] = v_mem(lens[k], "error");
  }
}
static void result(const Status &s) {
  v_check(s.ok() == (failures == 0), "OK exactly when every step succeeded");
  if (failures && !s.ok()) {
    v_check((first_code ? s.IsIOError() : s.IsNotFound()), "the first error is returned");
    std::string t = s.ToString();
    v_check(t.size() == 10 + lens[0], "the first error is returned with its message");
    v_same(t.data() + 10, msgs[0], lens[0], "the first error is returned with its message");
  }
  v_check(alive == 0 && born == created, "the file object is destroyed exactly once");
}
extern "C" void c27_write() {
  Disk d;
  std::string f = v_string("f");
  setup(&f);
  src_len = v_size(0, size_t(1) << 40);
  src = v_mem(src_len, "data");
  bool sync = v_choice(2);
  Status s = sync ? WriteStringToFileSync(&d, Slice(src, src_len), f) : WriteStringToFile(&d, Slice(src, src_len), f);
  result(s);
  if (s.ok()) {
    v_check(created && taken == src_len, "OK only when all the data was appended");
    v_check(closed, "OK only when the file was closed");
    if (sync) v_check(synced, "OK only when the data was synced before closing");
    v_check(removed == 0, "a complete file is kept");
  } else if (created) {
    v_check(removed == 1, "a file that could not be completed is removed");
  } else {
    v_check(removed == 0, "a file that was not created is not removed");
  }
}
extern "C" void c27_read() {
  Disk d;
  std::string f = v_string("f");
  setup(&f);
  src_len = size_t(1) << 31;
  src = v_mem(src_len, "content");
  std::string out = v_string("old");
  Status s = ReadFileToString(&d, f, &out);
  result(s);
  if (s.ok()) {
    v_check(created && dirty, "OK only at the end of the file");
    v_check(out.size() == taken, "every fragment read is in the result, and nothing else");
    v_same(out.data(), src, taken, "the fragments are in order");
  }
}
