// Clients of the integer codings, the hash function and the generator.
#include "v.h"
#include "lsmdb/slice.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/random.h"
using namespace lsmdb;
extern "C" const char *v_lps(const char *p, const char *limit, Slice *result);   // GetLengthPrefixedSlice(p, limit, result) if it exists
extern "C" bool v_islps();
// bit groups of seven: 1..10, value with exactly k of them
static uint64_t pick(int k) {
  uint64_t lo = k == 1 ? 0 : uint64_t(1) << (7 * (k - 1));
  uint64_t hi = k == 10 ? ~uint64_t(0) : (uint64_t(1) << (7 * k)) - 1;
  return v_size(lo, hi);
}
static uint32_t pick32(int k) {
  uint64_t lo = k == 1 ? 0 : uint64_t(1) << (7 * (k - 1));
  uint64_t hi = k == 5 ? 0xffffffffu : (uint64_t(1) << (7 * k)) - 1;
  return static_cast<uint32_t>(v_size(lo, hi));
}
static void bytes_are(const char *p, uint64_t v, int k) {
  for (int j = 0; j < k; j++) {
    uint8_t want = static_cast<uint8_t>(((v >> (7 * j)) & 127) + (j < k - 1 ? 128 : 0));
    v_check(static_cast<uint8_t>(p[j]) == want, "the varint holds the 7-bit groups, low first, minimal");
  }
}
static void le_are(const char *p, uint64_t v, int k) {
  for (int j = 0; j < k; j++) v_check(static_cast<uint8_t>(p[j]) == static_cast<uint8_t>(v >> (8 * j)), "fixed encoding is little-endian");
}
extern "C" void c16_fixed() {
  if (v_choice(2)) {
    uint32_t v = v_u32();
    char *b = v_buf(4, "fixed");
    EncodeFixed32(b, v);
    le_are(b, v, 4);
    v_check(DecodeFixed32(b) == v, "fixed32 round-trips");
    std::string s = v_string("prefix");
    size_t n = s.size();
    PutFixed32(&s, v);
    v_check(s.size() == n + 4, "PutFixed32 appends exactly 4 bytes");
    le_are(s.data() + n, v, 4);
    v_check(DecodeFixed32(s.data() + n) == v, "PutFixed32 round-trips");
  } else {
    uint64_t v = v_u64();
    char *b = v_buf(8, "fixed");
    EncodeFixed64(b, v);
    le_are(b, v, 8);
    v_check(DecodeFixed64(b) == v, "fixed64 round-trips");
    std::string s = v_string("prefix");
    size_t n = s.size();
    PutFixed64(&s, v);
    v_check(s.size() == n + 8, "PutFixed64 appends exactly 8 bytes");
    le_are(s.data() + n, v, 8);
    v_check(DecodeFixed64(s.data() + n) == v, "PutFixed64 round-trips");
  }
}
extern "C" void c16_var32() {
  int k = 1 + v_choice(5);
  uint32_t v = pick32(k);
  char *b = v_buf(5, "varint");
  char *e = EncodeVarint32(b, v);
  v_check(e == b + k, "varint32 has the minimal length");
  bytes_are(b, v, k);
  v_check(VarintLength(v) == k, "VarintLength is the encoder's length");
  size_t room = v_size(0, 5 - k);       // the limit may lie beyond the encoding
  for (size_t j = 0; j < 5 - k; j++) b[k + j] = v_u8();
  uint32_t r = 0;
  const char *q = GetVarint32Ptr(b, b + k + room, &r);
  v_check(q == b + k, "GetVarint32Ptr consumes the encoding");
  v_check(r == v, "varint32 round-trips");
  uint64_t r64 = 0;
  v_check(GetVarint64Ptr(b, b + k, &r64) == b + k, "a 64-bit decoder accepts it too");
  v_check(r64 == v, "and yields the same value");
  Slice in(b, k + room);
  uint32_t r2 = 0;
  v_check(GetVarint32(&in, &r2), "GetVarint32 succeeds");
  v_check(r2 == v, "GetVarint32 yields the value");
  v_check(in.data() == b + k && in.size() == room, "GetVarint32 advances by the encoding");
}
extern "C" void c16_var64() {
  int k = 1 + v_choice(10);
  uint64_t v = pick(k);
  char *b = v_buf(10, "varint");
  char *e = EncodeVarint64(b, v);
  v_check(e == b + k, "varint64 has the minimal length");
  bytes_are(b, v, k);
  v_check(VarintLength(v) == k, "VarintLength is the encoder's length");
  uint64_t r = 0;
  const char *q = GetVarint64Ptr(b, b + k, &r);
  v_check(q == b + k, "GetVarint64Ptr consumes the encoding");
  v_check(r == v, "varint64 round-trips");
  Slice in(b, k);
  uint64_t r2 = 0;
  v_check(GetVarint64(&in, &r2), "GetVarint64 succeeds");
  v_check(r2 == v, "GetVarint64 yields the value");
  v_check(in.data() == b + k && in.size() == 0, "GetVarint64 advances by the encoding");
}
extern "C" void c16_put() {
  int k = 1 + v_choice(10);
  std::string s = v_string("prefix");
  size_t n = s.size();
  if (v_choice(2)) {
    uint64_t v = pick(k);
    PutVarint64(&s, v);
    v_check(s.size() == n + k, "PutVarint64 appends exactly the encoding");
    bytes_are(s.data() + n, v, k);
  } else if (k <= 5) {
    uint32_t v = pick32(k);
    PutVarint32(&s, v);
    v_check(s.size() == n + k, "PutVarint32 appends exactly the encoding");
    bytes_are(s.data() + n, v, k);
  }
}
extern "C" void c16_lps() {
  int k = 1 + v_choice(5);
  size_t len = pick32(k);
  v_assume(len <= (size_t(1) << 30));
  const char *d = v_mem(len, "payload");
  std::string s;
  PutLengthPrefixedSlice(&s, Slice(d, len));
  v_check(s.size() == k + len, "length prefix and payload, nothing else");
  bytes_are(s.data(), len, k);
  v_same(s.data() + k, d, len, "the payload follows its length");
  Slice in(s), out;
  bool ok = GetLengthPrefixedSlice(&in, &out);
  v_check(ok, "a length-prefixed slice decodes");
  v_check(out.size() == len, "with the same length");
  v_check(out.data() == s.data() + k, "and the same bytes");
  v_check(in.size() == 0, "consuming all of it");
  if (v_islps()) {
    Slice o2;
    const char *q = v_lps(s.data(), s.data() + s.size(), &o2);
    v_check(q == s.data() + s.size(), "the pointer form consumes all of it");
    v_check(o2.size() == len && o2.data() == s.data() + k, "the pointer form yields the payload");
  }
}
// ---- arbitrary bytes
static int terminator(const char *p, size_t n, int max) {     // 1-based position of the first byte below 128, 0 if none
  for (int j = 0; j < max; j++) {
    if (size_t(j) >= n) return 0;
    if (static_cast<uint8_t>(p[j]) < 128) return j + 1;
  }
  return 0;
}
extern "C" void c17_var32() {
  size_t n = v_size(0, size_t(1) << 40);
  const char *p = v_mem(n, "bytes");
  int t = terminator(p, n, 5);
  bool fits = t && (t < 5 || static_cast<uint8_t>(p[4]) < 16);
  uint32_t v = 0;
  if (v_choice(2)) {
    const char *q = GetVarint32Ptr(p, p + n, &v);
    if (!t) v_check(q == nullptr, "no complete varint32: failure");
    if (fits) v_check(q == p + t, "a complete varint32 is accepted and ends after its last byte");
    if (q) v_check(q == p + t, "success only after a complete varint32");
  } else {
    Slice in(p, n);
    bool ok = GetVarint32(&in, &v);
    if (!t) v_check(!ok, "no complete varint32: failure");
    if (fits) v_check(ok, "a complete varint32 is accepted");
    if (ok) v_check(in.data() == p + t && in.size() == n - t, "the input advances by exactly the bytes consumed");
    else v_check(in.data() == p && in.size() == n, "on failure the input is unchanged");
  }
}
extern "C" void c17_var64() {
  size_t n = v_size(0, size_t(1) << 40);
  const char *p = v_mem(n, "bytes");
  int t = terminator(p, n, 10);
  bool fits = t && (t < 10 || static_cast<uint8_t>(p[9]) < 2);
  uint64_t v = 0;
  if (v_choice(2)) {
    const char *q = GetVarint64Ptr(p, p + n, &v);
    if (!t) v_check(q == nullptr, "no complete varint64: failure");
    if (fits) v_check(q == p + t, "a complete varint64 is accepted and ends after its last byte");
    if (q) v_check(q == p + t, "success only after a complete varint64");
  } else {
    Slice in(p, n);
    bool ok = GetVarint64(&in, &v);
    if (!t) v_check(!ok, "no complete varint64: failure");
    if (fits) v_check(ok, "a complete varint64 is accepted");
    if (ok) v_check(in.data() == p + t && in.size() == n - t, "the input advances by exactly the bytes consumed");
    else v_check(in.data() == p && in.size() == n, "on failure the input is unchanged");
  }
}
static uint64_t value_of(const char *p, int t) {
  uint64_t r = 0;
  for (int j = 0; j < t; j++) r += uint64_t(static_cast<uint8_t>(p[j]) & 127) << (7 * j);
  return r;
}
extern "C" void c17_lps() {
  size_t n = v_size(0, size_t(1) << 40);
  const char *p = v_mem(n, "bytes");
  int t = terminator(p, n, 5);
  bool fits = t && (t < 5 || static_cast<uint8_t>(p[4]) < 16);
  uint64_t len = fits ? value_of(p, t) : 0;
  bool whole = fits && len <= n - t;
  Slice out;
  if (!v_choice(2)) {
    Slice in(p, n);
    bool ok = GetLengthPrefixedSlice(&in, &out);
    if (!t || (fits && !whole)) v_check(!ok, "no complete length-prefixed slice: failure");
    if (whole) v_check(ok, "a complete length-prefixed slice is accepted");
    if (ok && fits) {
      v_check(out.data() == p + t && out.size() == len, "the result lies inside the input, after its length");
      v_check(in.data() == p + t + len && in.size() == n - t - len, "the input advances by exactly the bytes consumed");
    }
  } else if (v_islps()) {
    const char *q = v_lps(p, p + n, &out);
    if (!t || (fits && !whole)) v_check(q == nullptr, "no complete length-prefixed slice: failure");
    if (whole) v_check(q == p + t + len, "a complete length-prefixed slice is accepted");
    if (q && fits) v_check(out.data() == p + t && out.size() == len, "the result lies inside the input, after its length");
  }
}
extern "C" void c17_hash() {
  size_t n = v_size(0, size_t(1) << 40);
  const char *p = v_mem(n, "key");
  uint32_t h = Hash(p, n, v_u32());
  v_reach("Hash");
  (void)h;
}
// ---- generator
static const uint64_t M = 2147483647;
extern "C" void c28_next() {
  uint32_t seed = v_u32();
  Random r(seed);
  uint32_t x = r.Next();
  v_check(x >= 1 && x <= M - 1, "the first value is in 1..2^31-2");
  uint32_t s0 = seed & 0x7fffffff;
  if (s0 != 0 && s0 != M) v_check((s0 * uint64_t(16807) - x) % M == 0, "the first value follows the recurrence from the seed");
  // x is itself a seed in 1..2^31-2, for which the recurrence was just shown: the generator must go on from it as a fresh one would
  Random fresh(x);
  v_check(r.Next() == fresh.Next(), "after any value the generator continues as one seeded with that value");
}
extern "C" void c28_range() {
  Random r(v_u32());
  r.Next();
  if (v_choice(2)) {
    int n = v_size(1, 2147483647);
    v_check(r.Uniform(n) < uint32_t(n), "Uniform(n) < n");
    (void)r.OneIn(n);
    v_check(r.OneIn(1), "OneIn(1) is always true");
  } else {
    int m = v_choice(31);
    v_check(r.Skewed(m) < (uint64_t(1) << m), "Skewed(max_log) < 2^max_log");
  }
}
