// Clients of Status.
#include "v.h"
#include "lsmdb/status.h"
#include <utility>
using namespace lsmdb;
struct M {               // what a status must be
  int code;              // 0 OK, 1 NotFound, 2 Corruption, 3 NotSupported, 4 InvalidArgument, 5 IOError
  const char *m1; size_t n1; const char *m2; size_t n2;
};
static const char *const kLabel[6] = {"OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "};
static const size_t kLen[6] = {2, 10, 12, 17, 18, 10};
static Status make(const M &m) {
  Slice a(m.m1, m.n1), b(m.m2, m.n2);
  switch (m.code) {
    case 1: return Status::NotFound(a, b);
    case 2: return Status::Corruption(a, b);
    case 3: return Status::NotSupported(a, b);
    case 4: return Status::InvalidArgument(a, b);
    case 5: return Status::IOError(a, b);
  }
  return Status::OK();
}
static void codes(const Status &s, const M &m) {
  v_check(s.ok() == (m.code == 0), "ok() only for OK");
  v_check(s.IsNotFound() == (m.code == 1), "exactly the matching predicate is true");
  v_check(s.IsCorruption() == (m.code == 2), "exactly the matching predicate is true");
  v_check(s.IsNotSupportedError() == (m.code == 3), "exactly the matching predicate is true");
  v_check(s.IsInvalidArgument() == (m.code == 4), "exactly the matching predicate is true");
  v_check(s.IsIOError() == (m.code == 5), "exactly the matching predicate is true");
}
static void is(const Status &s, const M &m) {
  codes(s, m);
  std::string t = s.ToString();
  size_t want = kLen[m.code];
  if (m.code) want += m.n1 + (m.n2 ? m.n2 + 2 : 0);
  v_check(t.size() == want, "ToString is the label and the complete message, nothing else");
  v_same(t.data(), kLabel[m.code], kLen[m.code], "ToString begins with the label");
  if (m.code) {
    v_same(t.data() + kLen[m.code], m.m1, m.n1, "ToString has the first message");
    if (m.n2) {
      v_check(t[kLen[m.code] + m.n1] == ':' && t[kLen[m.code] + m.n1 + 1] == ' ', "two messages are joined with ': '");
      v_same(t.data() + kLen[m.code] + m.n1 + 2, m.m2, m.n2, "ToString has the second message");
    }
  }
}
static M arbitrary(int code) {
  M m;
  m.code = code;
  m.n1 = v_size(0, 0x7ffffff0);
  m.m1 = v_mem(m.n1, "msg");
  m.n2 = v_size(0, 0x7ffffff0);
  m.m2 = v_mem(m.n2, "msg2");
  return m;
}
// every constructor, with arbitrary messages; the messages may die before the status is used
extern "C" void c19_make() {
  M m = arbitrary(v_choice(6));
  Status s = make(m);
  is(s, m);
}
// one operation between two statuses of any code and an OK or failed one
extern "C" void c19_ops() {
  M a = arbitrary(v_choice(6)), b = arbitrary(v_choice(2) * 2);
  Status s = make(a);
  switch (v_choice(6)) {
    case 0: { Status u(s); is(u, a); is(s, a); break; }
    case 1: { Status t = make(b); t = s; is(t, a); is(s, a); break; }
    case 2: { Status u(std::move(s)); is(u, a); break; }
    case 3: { Status t = make(b); t = std::move(s); is(t, a); break; }
    case 4: { const Status &r = s; s = r; is(s, a); break; }
    case 5: { Status &r = s; s = std::move(r); is(s, a); break; }
  }
}
// sequences: the source of a copy is changed or destroyed afterwards, moved-from statuses are used again
extern "C" void c19_seq() {
  M a = arbitrary(v_choice(2) * 5), b = arbitrary(v_choice(2)), c = arbitrary(v_choice(2) * 2);
  Status t = make(c);
  {
    Status s = make(a);
    switch (v_choice(6)) {
      case 0: t = s; s = make(b); is(s, b); break;                       // the copy survives a change of its source
      case 1: t = std::move(s); s = make(b); is(s, b); break;            // a moved-from status can be assigned to
      case 2: { Status u(std::move(s)); s = u; t = s; is(s, a); break; } // and by copy
      case 3: { Status u(std::move(s)); t = std::move(u); u = t; s = std::move(u); is(s, a); break; }
      case 4: { Status u(s); t = u; u = t; t = std::move(u); break; }
      case 5: { Status u(s); Status w(std::move(u)); u = std::move(w); w = u; t = w; is(u, a); break; }
    }
  }
  is(t, a);                                                             // after every other status is gone
}
