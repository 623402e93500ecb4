// Two threads on one component, one call each: the second call runs as a whole at any point where the first can be preempted.
// The results and the state left behind must be those of one of the two sequential orders, which are run on two more instances of the component.
#include "v.h"
#include <memory>
#include <vector>
#include "helpers/memenv/memenv.h"
#include "lsmdb/cache.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
extern "C" void v_interference(int on);
extern "C" void v_hash(const char *key, size_t n, uint32_t h);

struct Out {
  int n = 0;
  uint64_t v[64];
  void add(uint64_t x) { v[n++] = x; }
};
static bool same(const Out &a, const Out &b) {
  if (a.n != b.n) return false;
  for (int i = 0; i < a.n; i++)
    if (a.v[i] != b.v[i]) return false;
  return true;
}
static Out outa[3], outb[3], after[3];
static int at;                      // instance in use
static int opa, opb, arga, argb;
static bool ran;

static void judge(void (*op)(int, int, int, Out *), void (*finish)()) {
  at = 1;
  op(opa, arga, 0, &outa[1]);
  op(opb, argb, 1, &outb[1]);
  finish();
  at = 2;
  op(opb, argb, 1, &outb[2]);
  op(opa, arga, 0, &outa[2]);
  finish();
  at = 0;
  ran = false;
  v_interference(1);
  op(opa, arga, 0, &outa[0]);
  v_interference(0);
  v_assume(ran);
  finish();
  bool one = same(outa[0], outa[1]) && same(outb[0], outb[1]) && same(after[0], after[1]);
  bool two = same(outa[0], outa[2]) && same(outb[0], outb[2]) && same(after[0], after[2]);
  v_check(one || two, "the outcome is that of one of the two sequential orders");
}

// ---------------------------------------------------------------- cache
static const char *const kKeys[] = {"a", "b", "c", "d"};
static std::shared_ptr<Cache> *cache[3];
static Cache::Handle *held[3][2];
static uint64_t gone[3];            // deleted values, one bit each
struct Val { int in, id; };
static Val val[3][8];
static void deleter(const Slice &, void *v) {
  Val *x = static_cast<Val *>(v);
  v_check(!(gone[x->in] >> x->id & 1), "a value is deleted once");
  gone[x->in] |= uint64_t(1) << x->id;
}
static uint64_t id(Cache::Handle *h) { return h ? 1 + static_cast<Val *>((*cache[at])->Value(h))->id : 0; }
static Cache::Handle *put(int k, int v, size_t charge) {
  val[at][v].in = at;
  val[at][v].id = v;
  return (*cache[at])->Insert(Slice(kKeys[k], 1), &val[at][v], charge, deleter);
}
static void cop(int what, int arg, int who, Out *out) {
  Cache *c = cache[at]->get();
  switch (what) {
    case 0: held[at][who] = put(arg, 4 + who, 1); break;                                          // keeps the handle it gets
    case 1: held[at][who] = c->Lookup(Slice(kKeys[arg], 1)); out->add(id(held[at][who])); break;
    case 2: c->Release(held[at][who]); held[at][who] = nullptr; break;
    case 3: c->Erase(Slice(kKeys[arg], 1)); break;
    case 4: c->Prune(); break;
    case 5: out->add(c->TotalCharge()); break;
    case 6: out->add(c->NewId()); break;
  }
}
static void cfinish() {
  Out &l = after[at];
  l.add(gone[at]);
  for (int w = 0; w < 2; w++)
    if (held[at][w]) (*cache[at])->Release(held[at][w]);
  l.add(gone[at]);
  (*cache[at])->Release(put(3, 6, 1));                                                                // what is evicted next
  l.add(gone[at]);
  for (int k = 0; k < 4; k++) {
    Cache::Handle *h = (*cache[at])->Lookup(Slice(kKeys[k], 1));
    l.add(id(h));
    if (h) (*cache[at])->Release(h);
  }
}
extern "C" void x_cop() {
  cop(opb, argb, 1, &outb[0]);
  ran = true;
}
static void csetup(bool pinned) {
  for (at = 0; at < 3; at++) {
    cache[at] = new std::shared_ptr<Cache>(NewLRUCache(32));
    held[at][0] = put(0, 0, 1);
    held[at][1] = (*cache[at])->Lookup(Slice(kKeys[0], 1));
    if (!pinned) {
      (*cache[at])->Release(held[at][0]);
      (*cache[at])->Release(held[at][1]);
      held[at][0] = held[at][1] = nullptr;
    }
    (*cache[at])->Release(put(1, 1, 1));
  }
}
static void two(bool pinned) {
  for (int k = 0; k < 4; k++) v_hash(kKeys[k], 1, k == 1 ? 4 : k);
  csetup(pinned);
  opa = v_choice(pinned ? 7 : 6);
  opb = v_choice(pinned ? 7 : 6);
  if (!pinned) {
    if (opa >= 2) opa++;
    if (opb >= 2) opb++;
  }
  arga = opa < 2 || opa == 3 ? v_choice(3) : 0;
  argb = opb < 2 || opb == 3 ? v_choice(3) : 0;
  judge(cop, cfinish);
  v_reach("two calls on a cache");
}
extern "C" void n_pinned() { two(true); }
extern "C" void n_unpinned() { two(false); }

// ---------------------------------------------------------------- in-memory environment
static Env *env[3];
static WritableFile *wr[3][2];
static RandomAccessFile *rd[3][2];
static SequentialFile *sq[3][2];
static size_t base;
static void text(Out *out, const Status &s, const Slice &got) {
  out->add(s.ok());
  if (!s.ok()) return;
  out->add(got.size());
  for (size_t i = 0; i < got.size(); i++) out->add(static_cast<unsigned char>(got[i]));
}
static void mop(int what, int arg, int who, Out *out) {
  Env *e = env[at];
  std::string f(arg ? "/d/b" : "/d/a"), g(arg ? "/d/a" : "/d/b");
  char b[16];
  Slice got;
  switch (what) {
    case 0: delete wr[at][who]; out->add(e->NewWritableFile(f, &wr[at][who]).ok()); break;
    case 1: delete wr[at][who]; out->add(e->NewAppendableFile(f, &wr[at][who]).ok()); break;
    case 2: delete rd[at][who]; out->add(e->NewRandomAccessFile(f, &rd[at][who]).ok()); break;
    case 3: delete sq[at][who]; out->add(e->NewSequentialFile(f, &sq[at][who]).ok()); break;
    case 4: out->add(e->RemoveFile(f).ok()); break;
    case 5: out->add(e->RenameFile(f, g).ok()); break;
    case 6: out->add(e->FileExists(f)); break;
    case 7: { uint64_t n = 0; out->add(e->GetFileSize(f, &n).ok()); out->add(n); break; }
    case 8: {
      std::vector<std::string> v;
      out->add(e->GetChildren("/d", &v).ok());
      out->add(v.size());
      uint64_t m = 0;
      for (auto &x : v) m = m * 256 + static_cast<unsigned char>(x[0]);
      out->add(m);
      break;
    }
    case 9: out->add(wr[at][who]->Append(Slice(who ? "uvw" : "xyz", 3)).ok()); break;
    case 10: { Status s = rd[at][who]->Read(base, 8, &got, b); text(out, s, got); break; }
    case 11: { Status s = sq[at][who]->Read(8, &got, b); text(out, s, got); break; }
    case 12: out->add(sq[at][who]->Skip(4).ok()); break;
    case 13: delete wr[at][who]; wr[at][who] = nullptr; break;
  }
}
static void mfinish() {
  Out &l = after[at];
  char b[16];
  Slice got;
  for (int k = 0; k < 2; k++) {
    std::string f(k ? "/d/b" : "/d/a");
    uint64_t n = 0;
    RandomAccessFile *r = nullptr;
    l.add(env[at]->FileExists(f));
    l.add(env[at]->GetFileSize(f, &n).ok());
    l.add(n);
    Status s = env[at]->NewRandomAccessFile(f, &r);
    l.add(s.ok());
    if (s.ok()) {
      s = r->Read(base, 12, &got, b);
      text(&l, s, got);
      delete r;
    }
  }
  for (int w = 0; w < 2; w++) {
    if (wr[at][w]) l.add(wr[at][w]->Append(Slice("0123456789", 10)).ok());
    if (sq[at][w]) { Status s = sq[at][w]->Read(12, &got, b); text(&l, s, got); }
    delete wr[at][w];
    delete rd[at][w];
    delete sq[at][w];
  }
  delete env[at];
}
extern "C" void x_mop() {
  mop(opb, argb, 1, &outb[0]);
  ran = true;
}
static void msetup(size_t n, bool both) {
  base = n - 1;
  const char *data = n == 2 ? "pq" : v_mem(n, "contents");
  for (at = 0; at < 3; at++) {
    env[at] = NewMemEnv(nullptr);
    std::string f("/d/a"), g("/d/b");
    if (both) {
      WritableFile *w;
      env[at]->NewWritableFile(g, &w);
      w->Append(Slice("second", 6));
      delete w;
    }
    env[at]->NewWritableFile(f, &wr[at][0]);
    wr[at][0]->Append(Slice(data, n));
    env[at]->NewAppendableFile(f, &wr[at][1]);
    for (int w = 0; w < 2; w++) {
      env[at]->NewRandomAccessFile(f, &rd[at][w]);
      env[at]->NewSequentialFile(f, &sq[at][w]);
      sq[at][w]->Skip(base);
    }
  }
}
static bool looks(int op) { return op == 2 || op == 3 || (op >= 6 && op <= 8) || (op >= 10 && op <= 12); }
static void names(bool both) {
  msetup(2, both);
  opa = v_choice(9);
  opb = v_choice(9);
  v_assume(!looks(opa) || !looks(opb));
  arga = opa < 8 ? v_choice(2) : 0;
  argb = opb < 8 ? v_choice(2) : 0;
  judge(mop, mfinish);
  v_reach("two calls on an in-memory environment");
}
extern "C" void n_one() { names(false); }
extern "C" void n_two() { names(true); }
static int file_op() {
  static const int ops[] = {0, 4, 5, 7, 9, 10, 11, 12, 13};
  return ops[v_choice(9)];
}
extern "C" void n_data() {
  msetup(v_choice(2) ? 8191 : 2, false);
  opa = file_op();
  opb = file_op();
  v_assume(!looks(opa) || !looks(opb));
  arga = argb = 0;
  judge(mop, mfinish);
  v_reach("two calls on an in-memory file");
}
