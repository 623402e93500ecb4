// Lock files: histories and concurrent threads.
#include "v.h"
#include <functional>
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
extern "C" {
void v_name(int k, const char *p, size_t n);
void v_lock(int begin, bool ok, int k);
void v_unlock(int begin, bool ok, int k);
void v_interference(int on);
}
static Env *env;
static FileLock *mine[2], *theirs;
static const char *name(int k) { return k ? "two/LOCK" : "one/LOCK"; }
static void lock(FileLock **slot, int k) {
  std::string f(name(k));
  FileLock *l;
  v_lock(1, false, k);
  Status s = env->LockFile(f, &l);
  v_lock(0, s.ok(), k);
  if (s.ok()) *slot = l;
}
static void unlock(FileLock **slot, int k) {
  v_unlock(1, false, k);
  Status s = env->UnlockFile(*slot);
  v_unlock(0, s.ok(), k);
  if (s.ok()) *slot = nullptr;
}
static void setup() {
  env = Env::Default();
  for (int k = 0; k < 2; k++) v_name(k, name(k), 8);
}
extern "C" void c07_history() {
  setup();
  while (v_choice(2)) {
    int k = v_choice(2);
    if (mine[k] && v_choice(2)) unlock(&mine[k], k);
    else { FileLock *second = nullptr; lock(mine[k] ? &second : &mine[k], k); }
  }
  v_reach("any history");
}
extern "C" void x_lock() {
  if (theirs) unlock(&theirs, 0);
  else lock(&theirs, 0);
}
extern "C" void c07_threads() {
  setup();
  v_interference(1);
  lock(&mine[0], 0);
  if (mine[0]) unlock(&mine[0], 0);
  v_interference(0);
  if (!mine[0]) {
    lock(&mine[0], 0);
    if (mine[0]) unlock(&mine[0], 0);
  }
  if (theirs) unlock(&theirs, 0);
  v_reach("two threads");
}
