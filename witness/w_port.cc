// Clients of the portable mutex, condition variable and scoped lock.
#include "v.h"
#include "port/port.h"
#include "util/mutexlock.h"
#include <type_traits>
using namespace lsmdb;
extern "C" void v_held(int n, const char *rule);          // exactly n locks are held by this thread
extern "C" void v_events(const char *kinds, const char *rule);   // the events since the last call are exactly these: L lock, U unlock, W wait, 1 signal, A signal all
extern "C" void c31_mutex() {
  port::Mutex mu, other;
  v_events("", "creating a mutex does nothing");
  mu.Lock();
  v_events("L", "Lock locks once");
  v_held(1, "Lock leaves the mutex held");
  mu.AssertHeld();
  v_events("", "AssertHeld changes nothing");
  other.Lock();
  v_held(2, "two mutexes are independent");
  other.Unlock();
  v_events("LU", "Lock and Unlock of another mutex");
  mu.Unlock();
  v_events("U", "Unlock unlocks once");
  v_held(0, "Unlock leaves nothing held");
  mu.Lock();
  mu.Unlock();
  v_events("LU", "a mutex can be used again");
}
static int scoped(port::Mutex *mu, int how) {
  MutexLock l(mu);
  v_events("L", "a scoped lock locks on construction");
  v_held(1, "a scoped lock holds its mutex");
  if (how == 0) return 7;
  for (int k = 0; k < how; k++) {
    if (how == 2) return k;
  }
  v_events("", "a scoped lock does nothing in between");
  v_held(1, "a scoped lock holds its mutex until the end of its scope");
  return 9;
}
extern "C" void c31_scoped() {
  v_check(!std::is_copy_constructible<MutexLock>::value && !std::is_copy_assignable<MutexLock>::value, "a scoped lock cannot be copied (it would unlock twice)");
  port::Mutex mu;
  scoped(&mu, v_choice(3));
  v_events("U", "a scoped lock unlocks when it dies, on every path");
  v_held(0, "a scoped lock leaves nothing held");
  {
    port::Mutex a, b;
    MutexLock la(&a);
    MutexLock lb(&b);
    v_held(2, "scoped locks of two mutexes");
    v_events("LL", "scoped locks of two mutexes");
  }
  v_events("UU", "both are released");
}
extern "C" void c31_cond() {
  port::Mutex mu;
  port::CondVar cv(&mu);
  mu.Lock();
  v_events("L", "Lock locks once");
  int n = v_choice(3);
  for (int k = 0; k < n; k++) {
    cv.Wait();
    v_events("W", "Wait waits once on its own mutex, and neither locks nor unlocks otherwise");
    v_held(1, "Wait returns with the mutex held");
  }
  switch (v_choice(3)) {
    case 0: break;
    case 1: cv.Signal(); v_events("1", "Signal wakes one waiter"); break;
    case 2: cv.SignalAll(); v_events("A", "SignalAll wakes every waiter"); break;
  }
  mu.Unlock();
  v_events("U", "Unlock unlocks once");
  v_held(0, "nothing is held at the end");
  if (v_choice(2)) { cv.Signal(); v_events("1", "Signal works without the mutex"); }
}
