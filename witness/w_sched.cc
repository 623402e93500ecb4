// Clients of the default environment's threads and background queue.
#include "v.h"
#include <functional>
#include "lsmdb/env.h"
using namespace lsmdb;
extern "C" {
size_t v_next();                       // number of a new work item
void v_sched(int begin, size_t id);    // a Schedule call starts / has returned
void v_work(void *arg, int which);     // the item's function runs
void v_run_thread();                   // the thread created runs
void v_interference(int on);
void v_started(void *arg);
}
static Env *env;
struct Even {  // too big to be stored inside a std::function
  size_t id, two, three;
  void operator()(void *arg) { v_work(arg, reinterpret_cast<size_t>(arg) == id ? 0 : 9); }
};
static void odd(void *arg) {
  v_work(arg, 1);
}
static void sched() {
  size_t id = v_next();
  v_sched(1, id);
  if (id % 2) env->Schedule(odd, reinterpret_cast<void *>(id));
  else env->Schedule(Even{id, 2, 3}, reinterpret_cast<void *>(id));
  v_sched(0, id);
}
extern "C" void x_sched() { sched(); }
extern "C" void c09_queue() {
  env = Env::Default();
  v_interference(1);
  sched();
  if (v_choice(2)) sched();
  v_run_thread();
}
// more items than fit anywhere of a fixed size
extern "C" void c09_many() {
  env = Env::Default();
  for (int i = 0; i < 100; i++) sched();
  v_run_thread();
}
static void mainfn(void *arg) { v_started(arg); }
extern "C" void c09_start() {
  env = Env::Default();
  v_mark("start");
  env->StartThread(mainfn, reinterpret_cast<void *>(size_t(77)));
  v_run_thread();
  v_end("start");
}
