// C18: bytewise order of Slice, against a constructive oracle: b agrees with a on its first d bytes and,
// unless one of them ends there, differs at byte d.
#include "v.h"
#include <cstring>
#include "lsmdb/slice.h"
using namespace lsmdb;
static int sgn(int r) { return r < 0 ? -1 : r > 0 ? 1 : 0; }
static void check(const Slice &x, const Slice &y, int want, bool prefix_xy) {
  v_reach("pair");
  v_check(sgn(x.compare(y)) == want, "compare() has the sign of the bytewise order");
  v_check(sgn(y.compare(x)) == -want, "compare() is antisymmetric");
  v_check((x == y) == (want == 0), "operator== means equal length and bytes");
  v_check((x != y) == (want != 0), "operator!= is the negation of ==");
  v_check(x.starts_with(y) == prefix_xy, "starts_with() means is-a-prefix");
}
extern "C" void c18_client() {
  const size_t big = size_t(1) << 40;
  size_t n = v_size(0, big), m = v_size(0, big), d = v_size(0, big);
  v_assume(d <= n && d <= m);
  const char *a = v_mem(n, "a");
  const char *r = v_mem(m, "r");
  char *b = v_buf(m, "b");
  if (m) memcpy(b, r, m);
  if (d) memcpy(b, a, d);
  int want;
  if (d == n && d == m) want = 0;
  else if (d == n) want = -1;
  else if (d == m) want = 1;
  else {
    unsigned char y = v_u8();
    v_assume(y != (unsigned char)a[d]);
    b[d] = (char)y;
    want = (unsigned char)a[d] < y ? -1 : 1;
  }
  check(Slice(a, n), Slice(b, m), want, d == m);
}
extern "C" void c18_edit() {
  const size_t big = size_t(1) << 40;
  size_t n = v_size(0, big), k = v_size(0, big);
  v_assume(k <= n);
  const char *a = v_mem(n, "a");
  Slice x(a, n);
  v_check(x.size() == n && x.data() == a && x.empty() == (n == 0), "accessors return the pair given");
  x.remove_prefix(k);
  v_check(x.size() == n - k && x.data() == a + k, "remove_prefix drops exactly the prefix");
  if (k < n) { size_t j = v_size(0, big); v_assume(j < n - k); v_check(x[j] == a[k + j], "operator[] reads byte j"); }
  std::string s = x.ToString();
  v_check(s.size() == n - k, "ToString length");
  if (n - k) v_same(s.data(), a + k, n - k, "ToString copies the bytes");
  Slice y(s);
  v_check(y.size() == s.size() && y.data() == s.data(), "construction from std::string");
  x.clear();
  v_check(x.size() == 0, "clear");
}
