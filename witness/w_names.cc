// Clients of the default environment's operations on names.
#include "w_posix.cc"
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
extern "C" {
void v_want_text(const char *p, size_t n, const char *what);
void v_is_text(const char *p, size_t n);
void v_entry(const char *p, size_t n);
}
extern "C" void n_testdir() {
  Env *e = env0();
  std::string p;
  if (v_choice(2)) p = v_string("old");
  const char *t = getenv("TEST_TMPDIR");
  std::string want = t && t[0] ? std::string(t) : "/tmp/lsmdbtest-" + std::to_string((int)geteuid());
  v_mark("op", "GetTestDirectory", want.data(), want.size());
  Status s = e->GetTestDirectory(&p);
  if (done("GetTestDirectory", s)) v_is_text(p.data(), p.size());
  v_end("testdir");
}
extern "C" void n_entries() {
  Env *e = env0();
  std::string f = v_string("f");
  std::vector<std::string> r;
  if (v_choice(2)) r.push_back(v_string("old"));
  v_mark("op", "GetChildren", f.data(), f.size());
  Status s = e->GetChildren(f, &r);
  if (s.ok()) {
    for (size_t i = 0; i < r.size(); i++) v_entry(r[i].data(), r[i].size());
  }
  done("GetChildren", s);
  v_end("entries");
}
extern "C" void n_exists() {
  Env *e = env0();
  std::string f = v_string("f");
  v_mark("op", "FileExists", f.data(), f.size());
  bool b = e->FileExists(f);
  v_done("FileExists", b, !b, false);
  v_end("exists");
}
