// The skip list: one reader running at the same time as one or two insertions.
#define SKIP_ONLY_TYPES
#include "w_skip.cc"
static bool nw[8];                         // inserted while the reader runs: may or may not be seen
static bool seen(unsigned k) { return k <= N && (in[k] || nw[k]); }
// the position is a key that is or may be there, in range, and no key inserted before is skipped
static void first(const List::Iterator &it, unsigned lo, const char *rule) {
  unsigned k = it.Valid() ? it.key() : N + 1;
  v_check(k >= lo && (k == N + 1 || seen(k)), rule);
  for (unsigned j = lo; j < k && j <= N; j++) v_check(!in[j], rule);
}
static void last(const List::Iterator &it, unsigned hi, const char *rule) {
  unsigned k = it.Valid() ? it.key() : 0;
  v_check(k < hi && (k == 0 || seen(k)), rule);
  for (unsigned j = k + 1; j < hi; j++) v_check(!in[j], rule);
}
static void overlap() {
  unsigned k = 1;
  unsigned what = v_choice(4);
  if (what == 0 || what == 3) k += v_choice(N);
  v_reader(true);
  List::Iterator it(list);
  switch (what) {
    case 0: {
      bool c = list->Contains(k);
      v_check(c ? seen(k) : !in[k], "a reader finds every key inserted before and no key never inserted");
      break;
    }
    case 1:
      it.SeekToFirst();
      first(it, 1, "SeekToFirst of a reader skips no key inserted before");
      break;
    case 2:
      it.SeekToLast();
      last(it, N + 1, "SeekToLast of a reader skips no key inserted before");
      break;
    default:
      it.Seek(k);
      first(it, k, "Seek of a reader skips no key inserted before");
      if (!it.Valid()) break;
      k = it.key();
      if (v_choice(2)) {
        it.Next();
        first(it, k + 1, "Next of a reader skips no key inserted before");
      } else {
        it.Prev();
        last(it, k, "Prev of a reader skips no key inserted before");
      }
  }
  v_reader(false);
  v_reach("reader");
}
static bool add() {
  unsigned k = 1 + v_choice(N);
  if (seen(k)) return false;
  v_insert(true);
  list->Insert(k);
  v_insert(false);
  nw[k] = true;
  return true;
}
static void settle() {
  for (unsigned k = 1; k <= N; k++) if (nw[k]) { in[k] = true; nw[k] = false; }
  v_settled();
}
extern "C" void s_overlap() {
  Arena arena;
  list = new List(Cmp(), &arena);
  N = v_deep() ? 4 : 3;
  for (;;) {
    if (!add()) continue;
    if (v_choice(2)) { overlap(); return; }
    settle();
  }
}
extern "C" void s_overlap2() {
  Arena arena;
  list = new List(Cmp(), &arena);
  N = v_deep() ? 3 : 2;
  for (;;) {
    if (!add()) continue;
    if (v_choice(2)) {
      if (add()) overlap();
      return;
    }
    settle();
  }
}
extern "C" void s_overlap_heights() {
  Arena arena;
  list = new List(Cmp(), &arena);
  N = 2;
  for (;;) {
    if (!add()) continue;
    if (v_choice(2)) { overlap(); return; }
    settle();
  }
}
