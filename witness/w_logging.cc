// Clients of decimal parsing and text formatting.
#include "v.h"
#include "lsmdb/slice.h"
#include "util/logging.h"
using namespace lsmdb;
extern "C" void v_dec_is(const char *p, size_t t, uint64_t v, const char *rule);   // the t digits at p have exactly the value v
extern "C" void v_dec_over(const char *p, size_t t, const char *rule);              // the t digits at p exceed 2^64-1
static bool digit(char c) { return c >= '0' && c <= '9'; }
static void parse(const char *p, size_t n) {
  Slice in(p, n);
  uint64_t v = 77;
  bool ok = ConsumeDecimalNumber(&in, &v);
  size_t t = 0;
  while (t < n && digit(p[t])) t++;
  if (ok) {
    v_check(t > 0, "no leading digit: failure");
    v_check(in.data() == p + t && in.size() == n - t, "exactly the leading digits are consumed");
    v_dec_is(p, t, v, "the value is exact");
  } else if (t > 0) {
    v_dec_over(p, t, "failure only without a digit or above 2^64-1");
  }
}
// any bytes, up to 24 of them
extern "C" void c20_parse() {
  size_t n = v_size(0, 24);
  const char *p = v_mem(n, "text");
  parse(p, n);
}
// texts of any length: never outside the text, the rest is a suffix of it
extern "C" void c20_any() {
  size_t n = v_size(0, size_t(1) << 40);
  const char *p = v_mem(n, "text");
  Slice in(p, n);
  uint64_t v = 77;
  bool ok = ConsumeDecimalNumber(&in, &v);
  v_reach("parsed");
  size_t used = in.data() - p;
  v_check(used <= n && in.size() == n - used, "what is left is a suffix of the input");
  if (ok) v_check(used > 0, "success consumes something");
}
static uint64_t p10(int k) { uint64_t r = 1; while (k-- > 0) r *= 10; return r; }
extern "C" void c20_number() {
  int k = 1 + v_choice(20);
  uint64_t v = v_size(k == 1 ? 0 : p10(k - 1), k == 20 ? ~uint64_t(0) : p10(k) - 1);
  std::string s = NumberToString(v);
  v_check(s.size() == size_t(k), "a number has all its digits, and only them");
  std::string t = v_string("prefix");
  size_t n = t.size();
  AppendNumberTo(&t, v);
  v_check(t.size() == n + k, "AppendNumberTo appends exactly the digits");
}
static const uint64_t kNum[] = {0, 7, 9, 10, 42, 99, 100, 101, 255, 65535, 65536, 1000000, 2147483647u, 2147483648u, 4294967295u, 4294967296u, 9007199254740993u,
                                9223372036854775807u, 9223372036854775808u, 9999999999999999999u, 10000000000000000000u, 18446744073709551614u, 18446744073709551615u};
extern "C" void c20_roundtrip() {
  uint64_t v = kNum[v_choice(sizeof kNum / sizeof kNum[0])];
  std::string s = NumberToString(v);
  Slice in(s);
  uint64_t r = 0;
  v_check(ConsumeDecimalNumber(&in, &r) && r == v && in.size() == 0, "a formatted number parses back to itself");
  v_check(v == 0 || s[0] != '0', "without leading zeros");
}
static char hex(unsigned d) { return d < 10 ? '0' + d : 'a' + (d - 10); }
static char lower(char c) { return c >= 'A' && c <= 'F' ? c + 32 : c; }
static size_t escaped(const char *p, unsigned char b) {
  if (b >= 32 && b <= 126) {
    v_check(p[0] == char(b), "printable bytes are copied");
    return 1;
  }
  v_check(p[0] == '\\' && p[1] == 'x', "other bytes become \\x..");
  v_check(lower(p[2]) == hex(b >> 4) && lower(p[3]) == hex(b & 15), "with exactly two hexadecimal digits");
  return 4;
}
extern "C" void c20_escape() {
  static const unsigned char first[] = {'~', 200};
  unsigned char b[3];
  size_t n = v_choice(3);
  if (n == 1) b[0] = v_choice(256);
  if (n == 2) {
    b[0] = first[v_choice(sizeof first)];
    b[1] = v_choice(256);
  }
  Slice in(reinterpret_cast<char *>(b), n);
  std::string s;
  size_t at = 0;
  if (n == 2 || v_choice(2)) {
    s = EscapeString(in);
  } else {
    s = v_string("prefix");
    at = s.size();
    AppendEscapedStringTo(&s, in);
  }
  const char *p = s.data() + at;
  size_t len = 0;
  for (size_t k = 0; k < n; k++) len += b[k] >= 32 && b[k] <= 126 ? 1 : 4;
  v_check(s.size() == at + len, "the text has the length of its parts");
  for (size_t k = 0; k < n; k++) p += escaped(p, b[k]);
}
extern "C" void c20_escape_any() {
  size_t n = v_size(0, size_t(1) << 28);
  const char *p = v_mem(n, "bytes");
  std::string s = EscapeString(Slice(p, n));
  v_reach("EscapeString");
}
