// the optional compression and checksum libraries, built in (stand-ins with their documented behaviour) and left out
#include "port/port.h"
#include "v.h"
using namespace lsmdb;
static const char *in, *comp;      // the caller's input, and what the library makes of it
static size_t n, outn, maxn;
static uint32_t crc;
#if HAVE_SNAPPY
namespace snappy {
size_t MaxCompressedLength(size_t k) {
  v_check(k == n, "the library is asked about the caller's data");
  return maxn;
}
void RawCompress(const char *input, size_t k, char *out, size_t *len) {
  v_check(k == n, "the library is asked about the caller's data");
  v_same(input, in, n, "the library is asked about the caller's data");
  memset(out, 0, maxn);        // any of the promised maximum may be used as working space
  memcpy(out, comp, outn);
  *len = outn;
}
size_t Compress(const char *input, size_t k, std::string *output) {
  v_check(k == n, "the library is asked about the caller's data");
  v_same(input, in, n, "the library is asked about the caller's data");
  output->assign(comp, outn);
  return outn;
}
bool GetUncompressedLength(const char *input, size_t k, size_t *result) {
  v_check(k == n, "the library is asked about the caller's data");
  v_same(input, in, n, "the library is asked about the caller's data");
  if (v_choice(2)) return false;
  *result = outn;
  v_reach("library: length");
  return true;
}
bool RawUncompress(const char *input, size_t k, char *out) {
  v_check(k == n, "the library is asked about the caller's data");
  v_same(input, in, n, "the library is asked about the caller's data");
  if (v_choice(2)) return false;
  memcpy(out, comp, outn);
  v_reach("library: data");
  return true;
}
}
#endif
#if HAVE_CRC32C
namespace crc32c {
uint32_t Extend(uint32_t c, const uint8_t *data, size_t k) {
  v_check(c == crc && k == n, "the library is asked about the caller's data");
  v_same(data, in, n, "the library is asked about the caller's data");
  return crc ^ uint32_t(outn);
}
uint32_t Crc32c(const uint8_t *data, size_t k) { return Extend(0, data, k); }
}
#endif
static void start() {
  n = v_size(0, size_t(1) << 31);
  in = v_mem(n, "input");
  outn = v_size(0, size_t(1) << 31);
  comp = v_mem(outn, "converted");
  maxn = v_size(0, size_t(1) << 31);
  v_assume(outn <= maxn);
}
extern "C" void f_compress() {
  start();
  std::string out = v_string("output");
  const size_t was = out.size();
  const std::string old = out;
  bool ok = port::Snappy_Compress(in, n, &out);
#if HAVE_SNAPPY
  v_check(ok, "Snappy_Compress tells whether it compressed");
  v_check(out.size() == outn, "the output is what was compressed, or untouched");
  v_same(out.data(), comp, outn, "the output is what was compressed, or untouched");
#else
  v_check(!ok, "Snappy_Compress tells whether it compressed");
  v_check(out.size() == was, "the output is what was compressed, or untouched");
  v_same(out.data(), old.data(), was, "the output is what was compressed, or untouched");
#endif
}
extern "C" void f_length() {
  start();
  size_t r = 77;
  bool ok = port::Snappy_GetUncompressedLength(in, n, &r);
#if HAVE_SNAPPY
  if (ok) v_check(r == outn, "the length is the library's, or untouched");
  else v_check(r == 77, "the length is the library's, or untouched");
#else
  v_check(!ok, "without the library the answer is no");
  v_check(r == 77, "the length is the library's, or untouched");
#endif
}
extern "C" void f_uncompress() {
  start();
  char *out = v_buf(outn, "out");
  memset(out, 'x', outn);
  bool ok = port::Snappy_Uncompress(in, n, out);
#if HAVE_SNAPPY
  if (ok) v_same(out, comp, outn, "the data is the library's, or untouched");
#else
  v_check(!ok, "without the library the answer is no");
#endif
  if (!ok && outn) v_check(out[0] == 'x' && out[outn - 1] == 'x', "the data is the library's, or untouched");
}
static int called;
static void note(void *, const char *, int) { called++; }
extern "C" void f_other() {
  start();
  crc = v_u32();
  uint32_t got = port::AcceleratedCRC32C(crc, in, n);
#if HAVE_CRC32C
  v_check(got == (crc ^ uint32_t(outn)), "the checksum is the library's, or 0");
#else
  v_check(got == 0, "the checksum is the library's, or 0");
#endif
  called = 0;
  bool ok = port::GetHeapProfile(&note, nullptr);
  v_check(!ok, "no heap profile is claimed where none is made");
  v_check(called == 0, "no heap profile is claimed where none is made");
}
