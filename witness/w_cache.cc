// The cache against an oracle of entries, pins and order; keys are constants whose hashes the client chooses.
#include "v.h"
#include <functional>
#include <memory>
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
#include "util/hash.h"
using namespace lsmdb;
extern "C" {
void v_hash(const char *key, size_t n, uint32_t h);                       // the hash of that key, in this run
void v_cap(size_t per_partition);
void v_op(const char *op, const char *key, size_t n, int slot, size_t charge, void *val);  // about to be called
void v_done_op(bool found, void *val);                                    // it returned
void v_deleted(const char *key, size_t n, void *val);
void v_unit(size_t n);                                                    // charges and capacities are multiples of this
void v_total(size_t n);
void v_leakbase();
bool v_deep();                                                            // the thorough run
}
static const char *const kKeys[] = {"a", "ab", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t"};
static std::shared_ptr<Cache> *cache;
static Cache::Handle *h[3];
static size_t unit = 1;
static Slice key(int k) { return Slice(kKeys[k], k == 1 ? 2 : 1); }
static void deleter(const Slice &k, void *v) {
  v_deleted(k.data(), k.size(), v);
  delete static_cast<char *>(v);
}
static void op(const char *name, int k, int j, size_t charge, void *v) { v_op(name, key(k).data(), key(k).size(), j, charge, v); }
static void insert(int k, int j, size_t charge) {
  char *v = new char;
  op("insert", k, j, charge, v);
  h[j] = (*cache)->Insert(key(k), v, charge * unit, deleter);
  v_done_op(h[j] != nullptr, h[j] ? (*cache)->Value(h[j]) : nullptr);
}
static void lookup(int k, int j) {
  op("lookup", k, j, 0, nullptr);
  h[j] = (*cache)->Lookup(key(k));
  v_done_op(h[j] != nullptr, h[j] ? (*cache)->Value(h[j]) : nullptr);
}
static void release(int j) {
  op("release", 0, j, 0, nullptr);
  (*cache)->Release(h[j]);
  h[j] = nullptr;
  v_done_op(true, nullptr);
}
static void erase(int k) {
  op("erase", k, 0, 0, nullptr);
  (*cache)->Erase(key(k));
  v_done_op(true, nullptr);
}
static void prune() {
  op("prune", 0, 0, 0, nullptr);
  (*cache)->Prune();
  v_done_op(true, nullptr);
}
static void hash(int k, uint32_t x) { v_hash(key(k).data(), key(k).size(), x); }
static void start(size_t per, bool even = false) {
  v_leakbase();
  cache = new std::shared_ptr<Cache>(NewLRUCache(unit * (per && !even ? per * 16 - 15 : per * 16)));
  v_cap(per);
}
// with handles held, go on: every state leads to one without by releasing them
static bool over() { return !h[0] && !h[1] && !h[2] && v_choice(2); }
static void finish() {
  op("destroy", 0, 0, 0, nullptr);
  delete cache;
  v_done_op(true, nullptr);
}
// any operation that the handles held allow
static void step(int keys, int slots, int charges) {
  int j = 0;
  while (j < slots && h[j]) j++;          // the first free slot
  switch (v_choice(5)) {
    case 0: erase(v_choice(keys)); break;
    case 1: prune(); break;
    case 2: j = v_choice(slots); if (h[j]) release(j); break;
    case 3: if (j < slots) lookup(v_choice(keys), j); break;
    case 4: if (j < slots) { int k = v_choice(keys); insert(k, j, charges ? 1 + v_choice(charges) : 1 + k); } break;
  }
}
extern "C" void k_life() {
  hash(0, 5); hash(1, 5);
  start(1);
  while (!over()) step(2, 2, 1);
  finish();
  v_reach("life");
}
extern "C" void k_uncached() {
  hash(0, 5); hash(1, 5);
  start(0);
  while (!over()) step(2, 2, 1);
  finish();
  v_reach("uncached");
}
// entries in different partitions, each full with one
extern "C" void k_apart() {
  hash(0, 5); hash(1, 0x50000005);
  start(1);
  while (!over()) step(2, 1, 1);
  finish();
  v_reach("apart");
}
// one entry each in the first and the last partition
extern "C" void k_edges() {
  hash(0, 5); hash(1, 0xf0000005u);
  start(1);
  for (;;) {
    v_total((*cache)->TotalCharge());
    if (over()) break;
    step(2, 1, 2);
  }
  finish();
  v_reach("edges");
}
// charges and capacity scaled by any factor; a charge of zero
extern "C" void k_scale() {
  hash(0, 5); hash(1, 5);
  unit = v_size(1, size_t(1) << 55);
  v_unit(unit);
  start(2, true);
  for (;;) {
    v_total((*cache)->TotalCharge());
    if (over()) break;
    int k = v_choice(2);
    switch (v_choice(5)) {
      case 0: erase(k); break;
      case 1: if (h[0]) release(0); break;
      case 2: if (!h[0]) lookup(k, 0); break;
      case 3: if (!h[0]) insert(k, 0, v_choice(4)); break;
      case 4: prune(); break;
    }
  }
  finish();
  v_reach("scale");
}
// three entries of charge one fill the partition
extern "C" void k_order() {
  hash(0, 5); hash(1, 5); hash(2, 5); hash(3, 5);
  start(3, true);
  for (;;) {
    v_total((*cache)->TotalCharge());
    if (over()) break;
    step(4, 1, 1);
  }
  finish();
  v_reach("order");
}
extern "C" void k_charge() {
  hash(0, 5); hash(1, 5); hash(2, 5);
  start(2);
  for (;;) {
    v_total((*cache)->TotalCharge());
    if (over()) break;
    step(3, 1, 3);
  }
  finish();
  v_reach("charge");
}
extern "C" void k_pinned() {
  hash(0, 5); hash(1, 5);
  start(2);
  for (;;) {
    v_total((*cache)->TotalCharge());
    if (over()) break;
    step(2, 2, v_deep() ? 2 : 0);
  }
  finish();
  v_reach("pinned");
}
extern "C" void k_same() {
  hash(0, 5); hash(1, 5); hash(2, 5);
  start(9);
  while (!over()) step(3, 1, 1);
  finish();
  v_reach("same hash");
}
extern "C" void k_mixed() {
  hash(0, 5); hash(1, 5 + 16); hash(2, 0x50000005); hash(3, 6);
  start(9);
  while (!over()) step(3, 1, 1);
  finish();
  v_reach("mixed hashes");
}
// more keys than the table starts with
extern "C" void k_grow() {
  int n = v_deep() ? 19 : 9, how = v_choice(3);
  for (int k = 0; k <= n; k++) hash(k, how == 0 ? k : how == 1 ? 5 : 4 * k);
  start(32);
  int at = v_choice(n + 1);
  for (int k = 0; k < n; k++) {
    insert(k, 0, 1);
    release(0);
    if (k == at) { erase(k / 2); insert(k / 2, 0, 1); release(0); }
  }
  erase(at < n ? n - 1 - at : 0);
  for (int k = 0; k <= n; k++) {
    lookup(k, 0);
    if (h[0]) release(0);
  }
  v_total((*cache)->TotalCharge());
  finish();
  v_reach("growing table");
}
// any hash of one key
extern "C" void k_index() {
  hash(0, v_u32()); hash(1, 5);
  start(9);
  insert(1, 1, 1);
  insert(0, 0, 1);
  lookup(0, 2);
  release(2);
  release(1);
  if (v_choice(2)) { insert(0, 1, 1); release(1); } else erase(v_choice(2));
  release(0);
  lookup(0, 0);
  if (h[0]) release(0);
  lookup(1, 0);
  if (h[0]) release(0);
  op("destroy", 0, 0, 0, nullptr);
  delete cache;
  v_done_op(true, nullptr);
  v_reach("any hash");
}
static void drop(const Slice &, void *) {}
extern "C" void v_one_hash(uint32_t h);                                   // every key has this hash
// any two keys with one hash
extern "C" void k_keys() {
  v_one_hash(5);
  std::shared_ptr<Cache> c = NewLRUCache(9 * 16);
  size_t n = v_size(0, size_t(1) << 40), m = v_size(0, size_t(1) << 40);
  const char *p = v_mem(n, "key"), *q = v_mem(m, "other key");
  char x, y;
  Cache::Handle *a = c->Insert(Slice(p, n), &x, 1, drop), *b = c->Lookup(Slice(q, m));
  if (b) {
    v_check(c->Value(b) == &x, "Lookup delivers the value of the entry");
    v_check(n == m, "keys of different lengths are different");
    v_same(p, q, n, "keys with different bytes are different");
    c->Release(b);
  }
  b = c->Lookup(Slice(p, n));
  v_check(b && c->Value(b) == &x, "Lookup finds an entry under its own key");
  c->Release(b);
  if (v_choice(2)) {
    b = c->Insert(Slice(q, m), &y, 1, drop);
    Cache::Handle *d = c->Lookup(Slice(p, n));
    v_check(d != nullptr, "inserting another key removes nothing");
    if (c->Value(d) != &x) {
      v_check(c->Value(d) == &y && n == m, "only the same key is replaced");
      v_same(p, q, n, "only an equal key is replaced");
    }
    c->Release(d);
    c->Release(b);
  } else {
    c->Erase(Slice(q, m));
    Cache::Handle *d = c->Lookup(Slice(p, n));
    if (d) c->Release(d);
    else {
      v_check(n == m, "only the same key is erased");
      v_same(p, q, n, "only an equal key is erased");
    }
  }
  c->Release(a);
  v_reach("any keys");
}
// the cache keeps its own copy of the key
extern "C" void k_copy() {
  v_one_hash(5);
  std::shared_ptr<Cache> c = NewLRUCache(9 * 16);
  size_t n = v_size(0, size_t(1) << 40);
  char *p = v_buf(n, "key");
  const char *src = v_mem(n, "bytes");
  if (n) memcpy(p, src, n);
  char x;
  Cache::Handle *a = c->Insert(Slice(p, n), &x, 1, drop);
  v_forget(p);
  Cache::Handle *b = c->Lookup(Slice(src, n));
  v_check(b == a, "Lookup finds an entry under an equal key after the original key is gone");
  c->Release(b);
  c->Release(a);
  v_reach("key copied");
}
// the hash looks at nothing but the key
extern "C" void v_pure(int on);
extern "C" void k_hash() {
  size_t n = v_size(0, size_t(1) << 40);
  const char *p = v_mem(n, "key");
  uint32_t seed = v_u32();
  v_pure(1);
  Hash(p, n, seed);
  v_pure(0);
  v_reach("hash");
}
// more handles to one entry than any narrow counter can count
extern "C" void v_snap();
extern "C" void v_many(size_t max);
extern "C" void v_same_step();
static int gone;
static void count(const Slice &, void *) { gone++; }
extern "C" void k_refs() {
  v_one_hash(5);
  std::shared_ptr<Cache> c = NewLRUCache(9 * 16);
  char x;
  Cache::Handle *a = c->Insert("a", &x, 1, count), *b = c->Lookup("a");
  v_snap();
  Cache::Handle *d = c->Lookup("a");
  v_many(1 << 30);
  v_snap();
  Cache::Handle *e = c->Lookup("a");
  v_same_step();
  Cache::Handle *f = c->Lookup("a");
  v_check(a == b && b == d && d == e && e == f, "every lookup delivers the entry");
  c->Release(d);
  v_check(gone == 0, "an entry with any number of handles stays");
  c->Erase("a");
  v_check(gone == 0, "an erased entry lives as long as handles refer to it");
  c->Release(e);
  c->Release(f);
  v_check(gone == 0, "an entry is deleted only when its last handle is released");
  v_reach("many handles");
}
// the deleter gets the key of its entry, whatever the key
static const char *dkey;
static size_t dlen;
static void same_key(const Slice &k, void *) {
  gone++;
  v_check(k.size() == dlen, "the deleter gets the whole key");
  v_same(k.data(), dkey, dlen, "the deleter gets the key given to Insert");
}
extern "C" void k_deleter() {
  v_leakbase();
  v_one_hash(v_choice(2) ? 5 : 0xf0000005u);
  {
    std::shared_ptr<Cache> c = NewLRUCache(v_choice(2) ? 0 : 9 * 16);
    size_t n = dlen = v_size(0, size_t(1) << 40);
    char *p = v_buf(n, "key");
    dkey = v_mem(n, "bytes");
    if (n) memcpy(p, dkey, n);
    char x;
    Cache::Handle *a = c->Insert(Slice(p, n), &x, v_choice(2) ? 1 : 20, same_key);
    v_forget(p);
    switch (v_choice(4)) {
      case 0: c->Erase(Slice(dkey, n)); v_check(gone == 0, "an erased entry lives as long as a handle refers to it"); c->Release(a); break;
      case 1: c->Release(a); c->Erase(Slice(dkey, n)); v_check(gone == 1, "an erased entry without handles is deleted"); break;
      case 2: c->Release(a); c->Prune(); v_check(gone == 1, "a pruned entry is deleted"); break;
      case 3: c->Release(a); break;
    }
  }
  v_check(gone == 1, "each value is passed to its deleter exactly once");
  v_reach("any deleted key");
}
