// Two threads on one component: this one runs one or two operations, the other runs one whole operation at any point in between.
#include "v.h"
#include <functional>
#include <memory>
#include <vector>
#include "helpers/memenv/memenv.h"
#include "lsmdb/cache.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
extern "C" {
void v_interference(int on);
void v_hash(const char *key, size_t n, uint32_t h);
void v_run_thread();
void v_idle();                         // no operation is running
}
// ---------------------------------------------------------------- cache
static std::shared_ptr<Cache> *cache;
static Cache::Handle *mine, *theirs;
static void deleter(const Slice &k, void *v) { delete static_cast<char *>(v); }
static void cache_op(Cache::Handle **held) {
  static const char *const kKeys[] = {"a", "b", "c"};
  switch (v_choice(8)) {
    case 0: {
      Cache::Handle *h = (*cache)->Insert(Slice(kKeys[v_choice(3)], 1), new char, 1, deleter);
      if (v_choice(2)) (*cache)->Value(h);
      (*cache)->Release(h);
      break;
    }
    case 1: {
      Cache::Handle *h = (*cache)->Lookup(Slice(kKeys[v_choice(2)], 1));
      if (!h) break;
      (*cache)->Value(h);
      (*cache)->Release(h);
      break;
    }
    case 2:
      (*cache)->Value(*held);
      (*cache)->Release(*held);
      *held = nullptr;
      break;
    case 3: (*cache)->Erase(Slice(kKeys[v_choice(2)], 1)); break;
    case 4: (*cache)->Prune(); break;
    case 5: (*cache)->TotalCharge(); break;
    case 6: (*cache)->NewId(); break;
    case 7: (*cache)->Value(*held); break;
  }
}
extern "C" void x_cache() { cache_op(&theirs); }
extern "C" void r_cache() {
  v_hash("a", 1, 0);
  v_hash("b", 1, 4);
  v_hash("c", 1, 1);
  cache = new std::shared_ptr<Cache>(NewLRUCache(32));
  mine = (*cache)->Insert(Slice("a", 1), new char, 1, deleter);
  theirs = (*cache)->Lookup(Slice("a", 1));
  (*cache)->Release((*cache)->Insert(Slice("b", 1), new char, 1, deleter));
  v_interference(1);
  cache_op(&mine);
  v_interference(0);
  if (mine) (*cache)->Release(mine);
  if (theirs) (*cache)->Release(theirs);
  delete cache;
  v_reach("two threads on a cache");
}
// ---------------------------------------------------------------- in-memory environment
static Env *env;
static WritableFile *wr;
static RandomAccessFile *rd;
static void mem_op(bool other) {
  std::string f("/d/a"), g("/d/b");
  char b[4];
  Slice got;
  switch (v_choice(11)) {
    case 0: {
      WritableFile *w;
      if (!env->NewWritableFile(f, &w).ok()) break;
      w->Append(Slice("xy", 2));
      delete w;
      break;
    }
    case 1: {
      WritableFile *w;
      if (!env->NewAppendableFile(f, &w).ok()) break;
      w->Append(Slice("xy", 2));
      delete w;
      break;
    }
    case 2: {
      RandomAccessFile *r;
      if (!env->NewRandomAccessFile(f, &r).ok()) break;
      r->Read(0, 2, &got, b);
      delete r;
      break;
    }
    case 3: {
      SequentialFile *r;
      if (!env->NewSequentialFile(f, &r).ok()) break;
      r->Skip(1);
      r->Read(2, &got, b);
      delete r;
      break;
    }
    case 4: env->RemoveFile(f); break;
    case 5: env->RenameFile(f, g); break;
    case 6: env->FileExists(f); break;
    case 7: { uint64_t n; env->GetFileSize(f, &n); break; }
    case 8: { std::vector<std::string> v; env->GetChildren("/d", &v); break; }
    case 9:
      if (other) rd->Read(0, 4, &got, b);
      else wr->Append(Slice("xy", 2));
      break;
    case 10:
      if (other) { delete rd; rd = nullptr; }
      else { delete wr; wr = nullptr; }
      break;
  }
}
extern "C" void x_mem() { mem_op(true); }
extern "C" void r_mem() {
  env = NewMemEnv(nullptr);
  std::string f("/d/a");
  env->NewWritableFile(f, &wr);
  if (v_choice(2)) wr->Append(Slice("xy", 2));
  env->NewRandomAccessFile(f, &rd);
  v_interference(1);
  mem_op(false);
  v_interference(0);
  delete wr;
  delete rd;
  delete env;
  v_reach("two threads on an in-memory environment");
}
// ---------------------------------------------------------------- default environment
static void work(void *arg) {}
static void posix_op(bool other) {
  std::string f("a/LOCK");
  switch (v_choice(5)) {
    case 0: {
      FileLock *l;
      if (!env->LockFile(f, &l).ok()) break;
      env->UnlockFile(l);
      break;
    }
    case 1: env->Schedule(work, nullptr); break;
    case 2: env->StartThread(work, nullptr); break;
    case 3: env->NowMicros(); break;
    case 4: {
      RandomAccessFile *r;
      if (env->NewRandomAccessFile(f, &r).ok()) delete r;
      break;
    }
  }
}
extern "C" void x_posix() { posix_op(true); }
extern "C" void r_posix() {
  env = Env::Default();
  v_interference(1);
  posix_op(false);
  v_interference(0);
  v_reach("two threads on the default environment");
}
extern "C" void r_locks() {
  std::string f("a/LOCK");
  env = Env::Default();
  FileLock *one = nullptr, *two = nullptr;
  bool first = env->LockFile(f, &one).ok();
  v_idle();
  bool second = env->LockFile(v_choice(2) ? f : std::string("b/LOCK"), &two).ok();
  v_idle();
  if (first) env->UnlockFile(one);
  v_idle();
  if (second) env->UnlockFile(two);
  v_idle();
  env->Schedule(work, nullptr);
  v_idle();
  env->Schedule(work, nullptr);
  v_idle();
  v_reach("operations in a row");
}
extern "C" void x_sched() { env->Schedule(work, nullptr); }
extern "C" void r_worker() {
  env = Env::Default();
  env->Schedule(work, nullptr);
  v_interference(1);
  v_run_thread();
}
