// The arena: what it hands out, from which memory, and what it gives back.
#include "v.h"
#include "util/arena.h"
using namespace lsmdb;
extern "C" {
void v_arena(int on);                                      // memory allocated from here on belongs to the arena
void v_alloc(const char *p, size_t n);         // handed out
void v_usage(size_t n);
void v_bound();                                            // all memory fits into the address space
void v_leakbase();
bool v_deep();
}
static void one(Arena *a) {
  size_t n = v_size(1, size_t(1) << 40);
  if (v_choice(2)) v_alloc(a->Allocate(n), n);
  else {
    char *p = a->AllocateAligned(n);
    v_check(reinterpret_cast<uintptr_t>(p) % (sizeof(void *) > 8 ? sizeof(void *) : 8) == 0, "aligned memory starts at an aligned address");
    v_alloc(p, n);
  }
  v_usage(a->MemoryUsage());
}
extern "C" void a_few() {
  v_leakbase();
  v_arena(1);
  {
    Arena a;
    v_usage(a.MemoryUsage());
    int k = v_deep() ? 6 : 4;
    while (k-- > 0 && v_choice(2)) one(&a);
    v_arena(0);
  }
  v_reach("some allocations");
}
extern "C" void a_many() {
  Arena *a = new Arena;
  v_arena(1);
  while (v_choice(2)) { v_bound(); one(a); }
  v_reach("any allocations");
}
