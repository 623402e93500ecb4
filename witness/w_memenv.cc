// The in-memory environment: arbitrary histories over two names and two open files, content, names.
#include "v.h"
#include <functional>
#include <vector>
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
using namespace lsmdb;
extern "C" {
// oracle: files are known by small numbers; op says what was called, ok/nf/ioerr what came back
void v_fs(const char *op, int name, int slot, bool ok, bool nf, bool made);
size_t v_fsize(int slot);                 // size of the file open in the slot, by the oracle
void v_fexists(int name, bool there);
void v_flength(int name, bool ok, size_t n);
void v_fgrow(int slot, bool ok);
void v_fclose(int slot);
void v_fread(int slot, bool ok, size_t n);
void v_leakbase();
}
static Env *env;
static const char *name(int k) { return k ? "/d/ab" : "/d/a"; }
struct Handle { WritableFile *w; SequentialFile *s; RandomAccessFile *r; };
static Handle h[2];
static void shut(int j) {
  Handle &x = h[j];
  delete x.w; delete x.s; delete x.r;
  x.w = nullptr; x.s = nullptr; x.r = nullptr;
  v_fclose(j);
}
static void create(int k, int j, bool append) {
  std::string f(name(k));
  WritableFile *w = nullptr;
  Status s = append ? env->NewAppendableFile(f, &w) : env->NewWritableFile(f, &w);
  v_fs(append ? "append" : "create", k, j, s.ok(), s.IsNotFound(), w != nullptr);
  if (s.ok()) h[j].w = w;
}
static void openr(int k, int j, bool seq) {
  std::string f(name(k));
  Status s;
  SequentialFile *q = nullptr;
  RandomAccessFile *r = nullptr;
  if (seq) s = env->NewSequentialFile(f, &q); else s = env->NewRandomAccessFile(f, &r);
  v_fs("open", k, j, s.ok(), s.IsNotFound(), q || r);
  if (s.ok()) { h[j].s = q; h[j].r = r; }
}
static void grow(int j) {
  Status s = h[j].w->Append(Slice("x", 1));
  v_fgrow(j, s.ok());
}
static void readall(int j) {
  char b[4];
  Slice got;
  Status s = h[j].r ? h[j].r->Read(0, 4, &got, b) : h[j].s->Read(4, &got, b);
  v_fread(j, s.ok(), got.size());
  for (size_t i = 0; i < got.size(); i++) v_check(got[i] == 'x', "the bytes appended are read");
}
static void names(int k, int op) {
  std::string f(name(k)), g(name(1 - k));
  switch (op) {
    case 0: { Status s = env->RemoveFile(f); v_fs("remove", k, 0, s.ok(), s.IsNotFound(), false); break; }
    case 1: { Status s = env->RenameFile(f, g); v_fs("rename", k, 1 - k, s.ok(), s.IsNotFound(), false); break; }
    case 2: { Status s = env->RenameFile(f, f); v_fs("rename", k, k, s.ok(), s.IsNotFound(), false); break; }
    case 3: { v_fexists(k, env->FileExists(f)); break; }
    case 4: { uint64_t n = 99; Status s = env->GetFileSize(f, &n); v_flength(k, s.ok(), n); break; }
  }
}
static void finish() {
  bool first = v_choice(2);
  if (first) delete env;
  for (int j = 0; j < 2; j++) shut(j);
  if (!first) delete env;
}
// one writer (slot 0) and one reader (slot 1)
extern "C" void m_life() {
  v_leakbase();
  env = NewMemEnv(nullptr);
  bool seq = v_choice(2);
  while (v_choice(2)) {
    int k = v_choice(2);
    switch (v_choice(5)) {
      case 0: if (h[0].w) shut(0); else { create(k, 0, false); if (h[0].w) grow(0); } break;
      case 1: if (h[0].w) shut(0); else { create(k, 0, true); if (h[0].w && v_fsize(0) == 0) grow(0); } break;
      case 2: if (h[1].s || h[1].r) shut(1); else openr(k, 1, seq); break;
      case 3: if (h[1].s || h[1].r) { readall(1); if (seq) shut(1); } break;
      case 4: names(k, v_choice(3)); break;
    }
  }
  finish();
  v_reach("any history of an in-memory environment");
}
// names and sizes; a writer that may stay open
extern "C" void m_names() {
  env = NewMemEnv(nullptr);
  while (v_choice(2)) {
    int k = v_choice(2);
    switch (v_choice(4)) {
      case 0: case 1: {
        bool app = v_choice(2);
        if (h[0].w) { if (v_fsize(0) < 2) grow(0); else shut(0); }
        else { create(k, 0, app); if (v_choice(2)) shut(0); }
        break;
      }
      case 2: { openr(k, 1, v_choice(2)); if (h[1].s || h[1].r) { readall(1); shut(1); } break; }
      case 3: names(k, v_choice(5)); break;
    }
  }
  finish();
  v_reach("any history of names");
}
// which names are listed under a directory
static bool change(std::string *s) {      // change one byte
  if (s->empty()) return false;
  size_t j = v_size(0, s->size() - 1);
  char y = (char)v_u8();
  v_assume(y != (*s)[j]);
  (*s)[j] = y;
  return true;
}
static void put(const std::string &f) {
  WritableFile *w = nullptr;
  Status s = env->NewWritableFile(f, &w);
  v_check(s.ok() && w, "a file can be created");
  delete w;
}
extern "C" void m_children() {
  env = NewMemEnv(nullptr);
  std::string dir = v_string("dir"), child = v_string_no("child", '/'), f = dir + "/" + child, g;
  v_assume(!child.empty());
  int other = v_choice(5);
  bool both = false;
  switch (other) {
    case 0: break;                                                     // no other file
    case 1: { char y = (char)v_u8(); v_assume(y != '/'); g = dir + y + child; break; }
    case 2: g = v_string("g"); v_assume(g.size() <= dir.size()); break;
    case 3: g = dir; if (!change(&g)) return; g += "/" + child; break;
    case 4: g = f + "x"; both = true; break;
  }
  if (other) put(g);
  bool there = v_choice(2);
  if (there) put(f);
  std::vector<std::string> r;
  if (v_choice(2)) r.push_back("old");
  Status s = env->GetChildren(dir, &r);
  v_check(s.ok(), "GetChildren succeeds");
  size_t want = (there ? 1 : 0) + (both ? 1 : 0);
  v_check(r.size() == want, "exactly the files under the directory are listed");
  for (size_t i = 0; i < r.size() && i < want; i++) {
    bool second = both && (!there || r[i].size() != child.size());
    v_check(r[i].size() == child.size() + (second ? 1 : 0), "a file is listed without the directory");
    v_same(r[i].data(), child.data(), child.size(), "a file is listed by its name");
  }
  delete env;
  v_reach("children");
}
// names are compared as whole byte strings
extern "C" void m_exact() {
  env = NewMemEnv(nullptr);
  std::string f = v_string("f"), g;
  bool same = false;
  switch (v_choice(4)) {
    case 0: g = f; same = true; break;
    case 1: g = f + v_string("tail"); same = g.size() == f.size(); break;
    case 2: g = f.substr(0, v_size(0, f.size())); same = g.size() == f.size(); break;
    case 3: g = f; if (!change(&g)) return; break;
  }
  put(f);
  v_check(env->FileExists(f), "a created file exists");
  v_check(env->FileExists(g) == same, "only the name created exists");
  SequentialFile *q = nullptr;
  Status s = env->NewSequentialFile(g, &q);
  v_check(s.ok() == same && (q != nullptr) == same, "only an existing file is opened for reading");
  if (!same) v_check(s.IsNotFound(), "a missing file is reported as NotFound");
  delete q;
  uint64_t n = 7;
  s = env->GetFileSize(g, &n);
  v_check(s.ok() == same && (!same || n == 0), "only an existing file has a size");
  if (v_choice(2)) {
    s = env->RemoveFile(g);
    v_check(s.ok() == same, "only an existing file is removed");
    v_check(env->FileExists(f) == !same && !env->FileExists(g), "exactly the named file is removed");
  } else {
    std::string h = f + "/h";
    s = env->RenameFile(g, h);
    v_check(s.ok() == same, "only an existing file is renamed");
    v_check(env->FileExists(f) == !same && env->FileExists(h) == same, "exactly the named file is renamed");
  }
  delete env;
  v_reach("exact");
}
