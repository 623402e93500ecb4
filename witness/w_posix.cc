// Clients of the default environment: every operation once, on arbitrary names, sizes and outcomes of the
// system calls.  v_mark("op") starts an operation, v_done reports what it returned.
#include "v.h"
#include <cstring>
#include <functional>
#include <vector>
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "util/env_posix_test_helper.h"
using namespace lsmdb;
namespace lsmdb {
class EnvPosixTest {
 public:
  static void Limits(int fds, int maps) {
    EnvPosixTestHelper::SetReadOnlyFDLimit(fds);
    EnvPosixTestHelper::SetReadOnlyMMapLimit(maps);
  }
};
}
static Env *env0(bool limits = false) {
  int f = limits ? v_choice(2) : 5, m = limits ? v_choice(2) : 5;
  EnvPosixTest::Limits(f, m);
  Env *e = Env::Default();
  v_mark("ready");
  return e;
}
static bool done(const char *op, const Status &s) {
  v_check(s.ok() + s.IsNotFound() + s.IsIOError() == 1 || s.IsNotSupportedError(), "a status is exactly one of OK, NotFound, IOError");
  v_done(op, s.ok(), s.IsNotFound(), s.IsIOError());
  return s.ok();
}
template <class T> static bool made(bool ok, T *r, const char *op) {
  v_reach(op);
  if (ok) v_check(r != nullptr, "OK with an object");
  else v_check(r == nullptr, "non-OK with a null pointer");
  return ok && r != nullptr;
}
static const size_t big = size_t(1) << 40;

extern "C" void p_sequential() {
  Env *e = env0();
  std::string f = v_string("f");
  SequentialFile *r;
  v_mark("op", "NewSequentialFile", f.data(), f.size());
  Status s = e->NewSequentialFile(f, &r);
  bool ok = done("NewSequentialFile", s);
  if (made(ok, r, "NewSequentialFile")) {
    while (v_choice(2)) {
      if (v_choice(2)) {
        size_t n = v_size(0, big);
        char *scratch = v_buf(n, "scratch");
        Slice out;
        v_mark("op", "SequentialRead", n, scratch);
        Status t = r->Read(n, &out, scratch);
        if (done("SequentialRead", t)) v_got(out.data(), out.size(), scratch);
      } else {
        uint64_t n = v_u64();
        v_mark("op", "Skip", n);
        Status t = r->Skip(n);
        done("Skip", t);
      }
    }
    v_mark("op", "delete");
    delete r;
  }
  v_end("SequentialFile");
}
extern "C" void p_random() {
  Env *e = env0(true);
  std::string f = v_string("f");
  RandomAccessFile *r;
  v_mark("op", "NewRandomAccessFile", f.data(), f.size());
  Status s = e->NewRandomAccessFile(f, &r);
  bool ok = done("NewRandomAccessFile", s);
  v_grants(ok);
  if (made(ok, r, "NewRandomAccessFile")) {
    while (v_choice(2)) {
      uint64_t off = v_u64();
      size_t n = v_size(0, size_t(1) << 62);
      char *scratch = v_buf(n, "scratch");
      Slice out;
      v_mark("op", "RandomRead", off, n, scratch, f.data(), f.size());
      Status t = r->Read(off, n, &out, scratch);
      if (done("RandomRead", t)) v_got(out.data(), out.size(), scratch);
    }
    v_mark("op", "delete");
    delete r;
    v_grants(false);
  }
  v_end("RandomAccessFile");
}
// functions named j_*: the analysis may join the states in which they return
extern "C" void j_append(WritableFile *w) {
  size_t n = v_size(0, big);
  const char *d = v_mem(n, "data");
  v_mark("op", "Append");
  Status t = w->Append(Slice(d, n));
  done("Append", t);
}
extern "C" void j_flush(WritableFile *w) { v_mark("op", "Flush"); Status t = w->Flush(); done("Flush", t); }
extern "C" void j_sync(WritableFile *w) { v_mark("op", "Sync"); Status t = w->Sync(); done("Sync", t); }
extern "C" void j_close(WritableFile *w) { v_mark("op", "Close"); Status t = w->Close(); done("Close", t); }
extern "C" void j_delete(WritableFile *w) { v_mark("op", "delete"); delete w; }
extern "C" WritableFile *j_open(Env *e) {
  std::string f = v_string("f");
  WritableFile *w;
  bool app = v_choice(2);
  v_mark("op", app ? "NewAppendableFile" : "NewWritableFile", f.data(), f.size());
  Status s = app ? e->NewAppendableFile(f, &w) : e->NewWritableFile(f, &w);
  bool ok = done(app ? "NewAppendableFile" : "NewWritableFile", s);
  if (!made(ok, w, "NewWritableFile")) w = nullptr;
  return w;
}
extern "C" void p_writable() {
  Env *e = env0();
  WritableFile *w = j_open(e);
  if (w) {
    bool closed = false;
    while (!closed && v_choice(2)) {
      switch (v_choice(4)) {
        case 0: j_append(w); break;
        case 1: j_flush(w); break;
        case 2: j_sync(w); break;
        case 3: j_close(w); closed = true; break;
      }
    }
    j_delete(w);
  }
  v_end("WritableFile");
}
extern "C" void p_names() {
  Env *e = env0();
  std::string f = v_string("f"), g = v_string("g");
  Status s;
  switch (v_choice(8)) {
    case 0: { v_mark("op", "FileExists", f.data(), f.size()); bool b = e->FileExists(f); v_done("FileExists", b, !b, false); break; }
    case 1: v_mark("op", "RemoveFile", f.data(), f.size()); s = e->RemoveFile(f); done("RemoveFile", s); break;
    case 2: v_mark("op", "CreateDir", f.data(), f.size()); s = e->CreateDir(f); done("CreateDir", s); break;
    case 3: v_mark("op", "RemoveDir", f.data(), f.size()); s = e->RemoveDir(f); done("RemoveDir", s); break;
    case 4: {
      uint64_t z;
      v_mark("op", "GetFileSize", f.data(), f.size());
      s = e->GetFileSize(f, &z);
      if (done("GetFileSize", s)) v_check(z == v_sysval("st_size"), "GetFileSize returns what stat reported");
      break;
    }
    case 5: v_mark("op", "RenameFile", f.data(), f.size(), g.data(), g.size()); s = e->RenameFile(f, g); done("RenameFile", s); break;
    case 6: { std::string p; v_mark("op", "GetTestDirectory"); s = e->GetTestDirectory(&p); done("GetTestDirectory", s); break; }
    case 7: {
      Logger *l;
      v_mark("op", "NewLogger", f.data(), f.size());
      s = e->NewLogger(f, &l);
      bool ok = done("NewLogger", s);
      if (made(ok, l, "NewLogger")) { v_mark("op", "delete"); delete l; }
      break;
    }
  }
  v_end("names");
}
extern "C" void p_children() {
  Env *e = env0();
  std::string f = v_string("f");
  std::vector<std::string> r;
  if (v_choice(2)) r.push_back(v_string("old"));
  v_mark("op", "GetChildren", f.data(), f.size());
  Status s = e->GetChildren(f, &r);
  if (done("GetChildren", s)) v_check(r.size() == v_sysval("entries"), "GetChildren returns every entry exactly once and nothing else");
  v_end("GetChildren");
}
extern "C" void p_lock() {
  Env *e = env0();
  std::string f = v_string("f");
  FileLock *l;
  v_mark("op", "LockFile", f.data(), f.size());
  Status s = e->LockFile(f, &l);
  bool ok = done("LockFile", s);
  if (made(ok, l, "LockFile")) {
    v_mark("op", "UnlockFile", f.data(), f.size());
    s = e->UnlockFile(l);
    if (done("UnlockFile", s)) v_end("UnlockFile");
  } else {
    v_end("LockFile");
  }
}
extern "C" void j_sappend(WritableFile *w) {
  size_t n = v_size(0, big);
  const char *d = v_stream(n);
  v_mark("op", "Append");
  Status t = w->Append(Slice(d, n));
  done("Append", t);
}
extern "C" void p_stream() {
  Env *e = env0();
  WritableFile *w = j_open(e);
  if (w) {
    bool closed = false;
    while (!closed && v_choice(2)) {
      switch (v_choice(4)) {
        case 0: j_sappend(w); break;
        case 1: j_flush(w); break;
        case 2: j_sync(w); break;
        case 3: j_close(w); closed = true; break;
      }
    }
    j_delete(w);
  }
}
// names whose last component begins with MANIFEST, and any others
extern "C" WritableFile *j_sopen(Env *e, std::string &dir, std::string &rest, int kind) {
  std::string name;
  if (kind == 0) { name = dir; name += "/MANIFEST"; name += rest; v_mark("name", 2, dir.data(), dir.size()); }
  else if (kind == 1) { name = "MANIFEST"; name += rest; v_mark("name", 1); }
  else { name = rest; v_mark("name", 0); }
  WritableFile *w;
  bool app = v_choice(2);
  v_mark("op", app ? "NewAppendableFile" : "NewWritableFile");
  Status s = app ? e->NewAppendableFile(name, &w) : e->NewWritableFile(name, &w);
  bool ok = done(app ? "NewAppendableFile" : "NewWritableFile", s);
  if (!made(ok, w, "NewWritableFile")) w = nullptr;
  return w;
}
static void sync_client(int kind) {
  Env *e = env0();
  std::string dir = v_string("dir"), rest = kind == 2 ? v_string("f") : v_string_no("rest", '/');
  WritableFile *w = j_sopen(e, dir, rest, kind);
  if (w) {
    while (v_choice(2)) {
      switch (v_choice(3)) {
        case 0: j_sappend(w); break;
        case 1: j_flush(w); break;
        case 2: j_sync(w); break;
      }
    }
    j_delete(w);
  }
}
extern "C" void p_sync_dirmanifest() { sync_client(0); }
extern "C" void p_sync_manifest() { sync_client(1); }
extern "C" void p_sync_plain() { sync_client(2); }

// every factory once, nothing done with the object but destroying it
extern "C" void p_factories() {
  Env *e = env0();
  std::string f = v_string("f");
  switch (v_choice(5)) {
    case 0: { WritableFile *w = j_open(e); if (w) j_delete(w); break; }
    case 1: {
      Logger *l;
      v_mark("op", "NewLogger", f.data(), f.size());
      Status s = e->NewLogger(f, &l);
      if (done("NewLogger", s)) { v_mark("op", "delete"); delete l; }
      break;
    }
    case 2: {
      FileLock *l;
      v_mark("op", "LockFile", f.data(), f.size());
      Status s = e->LockFile(f, &l);
      if (done("LockFile", s)) { v_mark("op", "UnlockFile", f.data(), f.size()); s = e->UnlockFile(l); done("UnlockFile", s); }
      break;
    }
    case 3: { v_mark("op", "CreateDir"); Status s = e->CreateDir(f); done("CreateDir", s); break; }
    case 4: { std::string p; v_mark("op", "GetTestDirectory"); Status s = e->GetTestDirectory(&p); done("GetTestDirectory", s); break; }
  }
  v_end("factories");
}
