// The skip list, instantiated here because nothing in the library does: any order of insertion, any heights, any comparator results of the right sign.
#include "v.h"
#include "db/skiplist.h"
using namespace lsmdb;
extern "C" {
int v_sign(int s, uint64_t a, uint64_t b);                 // any number of that sign; a and b are compared
void v_insert(bool begin);
void v_reader(bool begin);
void v_settled();              // every reader sees the insertions made so far
bool v_deep();
}
struct Cmp {
  int operator()(const uint64_t &a, const uint64_t &b) const { return v_sign(a < b ? -1 : a > b ? 1 : 0, a, b); }
};
typedef SkipList<uint64_t, Cmp> List;
static bool in[8];
static List *list;
static unsigned N;
#ifndef SKIP_ONLY_TYPES
static unsigned from(unsigned k) {        // first key present from k on; 0: none
  for (; k <= N; k++) if (in[k]) return k;
  return 0;
}
static unsigned before(unsigned k) {      // last key present before k; 0: none
  while (--k > 0) if (in[k]) return k;
  return 0;
}
static void at(List::Iterator &it, unsigned want, const char *rule) {
  v_check(it.Valid() ? want != 0 && it.key() == want : want == 0, rule);
}
static void look() {
  v_reader(true);
  List::Iterator it(list);
  v_check(!it.Valid(), "a new iterator is not valid");
  it.SeekToFirst();
  at(it, from(1), "SeekToFirst moves to the first key");
  it.SeekToLast();
  at(it, before(N + 1), "SeekToLast moves to the last key");
  for (unsigned k = 1; k <= N; k++) {
    v_check(list->Contains(k) == in[k], "Contains is true exactly for inserted keys");
    it.Seek(k);
    at(it, from(k), "Seek stops at the first key not less than the target");
    if (!in[k]) continue;
    List::Iterator next = it;
    next.Next();
    at(next, from(k + 1), "Next moves to the next key");
    it.Prev();
    at(it, before(k), "Prev moves to the previous key");
  }
  v_reader(false);
}
static void insert() {
  unsigned k = 1 + v_choice(N);
  if (in[k]) return;
  v_insert(true);
  list->Insert(k);
  v_insert(false);
  v_settled();
  in[k] = true;
}
extern "C" void s_order() {
  Arena arena;
  list = new List(Cmp(), &arena);
  N = v_deep() ? 5 : 4;
  for (;;) {
    look();
    if (!v_choice(2)) break;
    insert();
  }
  v_reach("any insertions");
}
extern "C" void s_heights() {
  Arena arena;
  list = new List(Cmp(), &arena);
  N = 2;
  for (;;) {
    look();
    if (!v_choice(2)) break;
    insert();
  }
  v_reach("any heights");
}
#endif
