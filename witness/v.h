// Client interface of the analyser: these functions have no body; the analyser gives them meaning.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
int v_choice(int n);                       // one of 0..n-1
uint64_t v_u64(); uint32_t v_u32(); int32_t v_i32(); int64_t v_i64(); uint8_t v_u8();
size_t v_size(size_t lo, size_t hi);
void v_assume(bool);
void v_check(bool, const char *rule);
void v_reach(const char *rule);
const char *v_mem(size_t n, const char *name);   // n arbitrary read-only bytes
char *v_buf(size_t n, const char *name);         // n uninitialised writable bytes
void v_forget(const void *p);                    // the memory dies
void v_same(const void *a, const void *b, size_t n, const char *rule);
void v_dump(...);
void v_mark(const char *what, ...);
void v_end(const char *what, ...);
std::string v_string(const char *name);
std::string v_string_no(const char *name, char absent);
}
extern "C" {
void v_done(const char *op, bool ok, bool notfound, bool ioerr);
void v_got(const char *p, size_t n, const char *scratch);
void v_grants(bool ok);
size_t v_sysval(const char *what);
}
extern "C" const char *v_stream(size_t n);       // the next n bytes of one endless stream of appended data
