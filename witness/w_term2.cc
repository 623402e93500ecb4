// Short runs over the files of the default environment.
#include "w_posix.cc"
extern "C" void t_writable() {
  Env *e = env0();
  std::string f(v_choice(2) ? "/d/MANIFEST-1" : "/d/f");
  WritableFile *w;
  v_mark("op", "NewWritableFile", f.data(), f.size());
  Status s = e->NewWritableFile(f, &w);
  if (made(done("NewWritableFile", s), w, "NewWritableFile")) {
    size_t n = v_size(0, big), m = v_size(0, big);
    const char *d = v_mem(n, "data"), *c = v_mem(m, "more");
    v_mark("op", "write");
    if (w->Append(Slice(d, n)).ok()) {
      switch (v_choice(4)) {
        case 0: w->Append(Slice(c, m)); break;
        case 1: w->Flush(); break;
        case 2: w->Sync(); break;
        case 3: w->Close(); break;
      }
    }
    j_delete(w);
  }
  v_end("WritableFile");
}
extern "C" void t_sequential() {
  Env *e = env0();
  std::string f = v_string("f");
  SequentialFile *r;
  v_mark("op", "NewSequentialFile", f.data(), f.size());
  Status s = e->NewSequentialFile(f, &r);
  if (made(done("NewSequentialFile", s), r, "NewSequentialFile")) {
    Slice out;
    if (v_choice(2)) {
      size_t n = v_size(0, big);
      char *scratch = v_buf(n, "scratch");
      v_mark("op", "SequentialRead", n, scratch);
      s = r->Read(n, &out, scratch);
      done("SequentialRead", s);
    } else {
      uint64_t d = v_u64();
      v_mark("op", "Skip", d);
      s = r->Skip(d);
      done("Skip", s);
    }
    delete r;
  }
  v_end("SequentialFile");
}
extern "C" void t_random() {
  Env *e = env0(true);
  std::string f = v_string("f");
  RandomAccessFile *r;
  v_mark("op", "NewRandomAccessFile", f.data(), f.size());
  Status s = e->NewRandomAccessFile(f, &r);
  if (made(done("NewRandomAccessFile", s), r, "NewRandomAccessFile")) {
    uint64_t off = v_u64();
    size_t n = v_size(0, size_t(1) << 62);
    char *scratch = v_buf(n, "scratch");
    Slice out;
    v_mark("op", "RandomRead", off, n, scratch, f.data(), f.size());
    s = r->Read(off, n, &out, scratch);
    done("RandomRead", s);
    delete r;
  }
  v_end("RandomAccessFile");
}
