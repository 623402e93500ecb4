// Contents of in-memory files: appended pieces of one buffer, read back at any place.
#include "v.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
static const size_t kTwo = 2 * 8192 + 100;        // two full blocks and a bit
static Env *env;
static const char *data;
static size_t total;
static WritableFile *w;
static std::string *fname;
static void fill(int pieces, size_t most) {
  env = NewMemEnv(nullptr);
  fname = new std::string("/dir/file");
  total = v_size(0, most);
  data = v_mem(total, "data");
  Status s = env->NewWritableFile(*fname, &w);
  v_check(s.ok() && w, "a file can be created");
  size_t at = 0;
  for (int i = 0; i < pieces; i++) {
    size_t n = i + 1 == pieces ? total - at : v_size(0, total - at);
    s = w->Append(Slice(data + at, n));
    v_check(s.ok(), "appending succeeds");
    at += n;
  }
  uint64_t sz = 77;
  s = env->GetFileSize(*fname, &sz);
  v_check(s.ok() && sz == total, "the file is as long as what was appended");
}
static void done(const char *what) {
  delete w;
  delete env;
  delete fname;
  v_reach(what);
}
static void expect(const Status &s, const Slice &r, uint64_t at, size_t n) {
  size_t left = total - at, want = n < left ? n : left;
  v_check(s.ok(), "a read inside the file succeeds");
  v_check(r.size() == want, "a read delivers as many bytes as asked for or are left");
  if (want) v_same(r.data(), data + at, want, "a read delivers the bytes appended there");
}
static void at(RandomAccessFile *f, uint64_t off, size_t n, size_t space = ~size_t(0)) {
  char *b = v_buf(n < space ? n : space, "scratch");
  Slice r("?", 1);
  Status s = f->Read(off, n, &r, b);
  if (off > total) v_check(!s.ok(), "an offset beyond the end is an error");
  else expect(s, r, off, n);
}
// random access, any offset
extern "C" void d_random() {
  fill(3, kTwo + 8192);
  RandomAccessFile *f = nullptr;
  Status s = env->NewRandomAccessFile(*fname, &f);
  v_check(s.ok() && f, "the file can be opened");
  at(f, v_u64(), v_u64(), 1 << 20);       // the file is smaller than the space, whatever the size asked for
  delete f;
  done("random access");
}
// many small appends, read of everything
extern "C" void d_pieces() {
  fill(4, 8192 + 100);
  RandomAccessFile *f = nullptr;
  Status s = env->NewRandomAccessFile(*fname, &f);
  v_check(s.ok() && f, "the file can be opened");
  at(f, 0, total);
  delete f;
  done("pieces");
}
// sequential: any mixture of three reads and skips
extern "C" void d_seq() {
  fill(1, kTwo);
  SequentialFile *f = nullptr;
  Status s = env->NewSequentialFile(*fname, &f);
  v_check(s.ok() && f, "the file can be opened");
  size_t pos = 0;
  for (int i = 0; i < 3; i++) {
    if (v_choice(2)) {
      size_t n = v_u64(), space = n < (1 << 20) ? n : 1 << 20;
      char *b = v_buf(space, "scratch");
      Slice r("?", 1);
      s = f->Read(n, &r, b);
      expect(s, r, pos, n);
      pos += n < total - pos ? n : total - pos;
    } else {
      uint64_t n = v_u64();
      s = f->Skip(n);
      v_check(s.ok(), "skipping succeeds");
      pos += n < total - pos ? n : total - pos;
    }
  }
  delete f;
  done("sequential");
}
// reading while the file is emptied and written again
extern "C" void d_again() {
  fill(1, 8192 + 10);
  SequentialFile *f = nullptr;
  RandomAccessFile *g = nullptr;
  Status s = env->NewSequentialFile(*fname, &f), s2 = env->NewRandomAccessFile(*fname, &g);
  v_check(s.ok() && s2.ok() && f && g, "the file can be opened");
  size_t n = v_size(0, 10000);
  { char *b = v_buf(n, "scratch"); Slice r; s = f->Read(n, &r, b); expect(s, r, 0, n); }
  size_t pos = n < total ? n : total;
  delete w;
  if (v_choice(2)) {
    // opened for append: what is there stays, more comes behind it
    s = env->NewAppendableFile(*fname, &w);
    v_check(s.ok() && w, "a file can be opened for append");
    size_t more = v_size(0, 9000);
    const char *d2 = v_mem(more, "more");
    s = w->Append(Slice(d2, more));
    v_check(s.ok(), "appending succeeds");
    uint64_t sz = 77;
    s = env->GetFileSize(*fname, &sz);
    v_check(s.ok() && sz == total + more, "opening for append keeps the contents");
    char *b = v_buf(10, "scratch");
    Slice r;
    if (v_choice(2)) {
      s = g->Read(total, 10, &r, b);
      size_t want = more < 10 ? more : 10;
      v_check(s.ok() && r.size() == want, "an open file sees what is appended");
      if (want) v_same(r.data(), d2, want, "an open file sees what is appended");
    } else if (pos < total) {
      s = f->Read(1, &r, b);
      v_check(s.ok() && r.size() == 1, "a sequential reader continues where it was");
      v_same(r.data(), data + pos, 1, "a sequential reader continues where it was");
    }
  } else {
    s = env->NewWritableFile(*fname, &w);
    v_check(s.ok() && w, "a file can be created anew");
    data = v_mem(20, "anew");
    total = v_size(0, 20);
    s = w->Append(Slice(data, total));
    v_check(s.ok(), "appending succeeds");
    at(g, v_u64(), v_size(0, size_t(1) << 40));
    char *b = v_buf(10, "scratch");
    Slice r("?", 1);
    bool skip = v_choice(2);
    if (skip) s = f->Skip(v_u64()); else s = f->Read(10, &r, b);
    if (pos <= total) {
      if (!skip) expect(s, r, pos, 10);
      v_check(s.ok(), "a reader inside the file gets no error");
    } else {
      v_check(!s.ok(), "a reader beyond the end gets an error");
      const char *d2 = v_mem(9000, "grown");
      s = w->Append(Slice(d2, pos - total + 3));
      v_check(s.ok(), "appending succeeds");
      char *b2 = v_buf(10, "scratch");
      s = f->Read(10, &r, b2);
      v_check(s.ok() && r.size() == 3, "a failed read does not move the reader");
      v_same(r.data(), d2 + (pos - total), 3, "a failed read does not move the reader");
    }
  }
  delete f;
  delete g;
  done("again");
}
// a file of several blocks under every way of losing its name, with and without a reader
extern "C" void v_leakbase();
extern "C" void d_life() {
  v_leakbase();
  fill(1, kTwo);
  RandomAccessFile *r = nullptr;
  SequentialFile *q = nullptr;
  int reader = v_choice(3);
  if (reader == 1) { Status s = env->NewRandomAccessFile(*fname, &r); v_check(s.ok() && r, "the file can be opened"); }
  if (reader == 2) { Status s = env->NewSequentialFile(*fname, &q); v_check(s.ok() && q, "the file can be opened"); }
  bool early = v_choice(2), emptied = false;
  if (early) { delete w; w = nullptr; }
  WritableFile *w2 = nullptr;
  switch (v_choice(4)) {
    case 0: break;
    case 1: v_check(env->RemoveFile(*fname).ok(), "a file can be removed"); break;
    case 2: v_check(env->NewWritableFile(*fname, &w2).ok(), "a file can be created anew"); emptied = true; break;
    case 3: {
      std::string other("/dir/other");
      v_check(env->NewWritableFile(other, &w2).ok() && w2->Append(Slice("x", 1)).ok(), "a file can be created");
      v_check(env->RenameFile(other, *fname).ok(), "a file can be renamed");
      break;
    }
  }
  if (reader && !emptied) {
    size_t n = v_size(0, kTwo);
    char *b = v_buf(n, "scratch");
    Slice got("?", 1);
    if (r) { uint64_t off = v_size(0, total); expect(r->Read(off, n, &got, b), got, off, n); }
    else expect(q->Read(n, &got, b), got, 0, n);
  }
  bool last = v_choice(2);
  if (!last) delete env;
  delete w2;
  delete r;
  delete q;
  delete w;
  if (last) delete env;
  delete fname;
  v_reach("life of a long file");
}
// more readers than any narrow counter can count
extern "C" void v_snap();
extern "C" void v_many(size_t max);
extern "C" void v_same_step();
template <class F>
static void many(Status (Env::*open)(const std::string &, F **), Status (*get)(F *, Slice *, char *)) {
  fill(1, 100);
  delete w;
  F *f[4] = {nullptr, nullptr, nullptr, nullptr};
  Status s = (env->*open)(*fname, &f[0]);
  v_check(s.ok(), "the file can be opened");
  v_snap();
  s = (env->*open)(*fname, &f[1]);
  v_many(1 << 30);
  v_snap();
  s = (env->*open)(*fname, &f[2]);
  v_same_step();
  s = (env->*open)(*fname, &f[3]);
  delete f[1];
  v_check(env->RemoveFile(*fname).ok(), "the file can be removed");
  delete f[2];
  delete f[3];
  char *b = v_buf(200, "scratch");
  Slice got("?", 1);
  s = get(f[0], &got, b);
  expect(s, got, 0, 200);
}
static Status geta(RandomAccessFile *f, Slice *r, char *b) { return f->Read(0, 200, r, b); }
static Status gets_(SequentialFile *f, Slice *r, char *b) { return f->Read(200, r, b); }
extern "C" void d_refs() {
  if (v_choice(2)) many<RandomAccessFile>(&Env::NewRandomAccessFile, geta);
  else many<SequentialFile>(&Env::NewSequentialFile, gets_);
  v_reach("many readers");
}
