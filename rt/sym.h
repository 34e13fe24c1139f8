// Harness interface: implemented by the symbolic executor, and by rt/native.cc for replay against the natively built code.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
void sym_bytes(void *p, size_t n, const char *name);            // n arbitrary bytes
uint64_t sym_u64(const char *name);
uint32_t sym_u32(const char *name);
uint16_t sym_u16(const char *name);
uint8_t sym_u8(const char *name);
uint64_t sym_choose(uint64_t lo, uint64_t hi, const char *name); // every value lo..hi, one path each
void sym_assume(int c);
void sym_assert(int c, const char *msg);
void sym_assert_equiv(const void *a, const void *b, size_t n, const char *msg);
void sym_cover(const char *label);                               // vacuity witness: must be reached by some path
void sym_observe(const char *name, uint64_t v);                  // compared between symbolic and native runs
void sym_observe_bytes(const char *name, const void *p, size_t n);
uint64_t sym_param(const char *name);
uint64_t sym_concretize(uint64_t v);                             // fork over every feasible value
void sym_leak_begin(void);
void sym_assert_no_leaks(const char *msg);
int sym_is_native(void);
void sym_end(void) __attribute__((noreturn));                     // the path ends here, with success
#ifdef __cplusplus
}
#endif
#define HARNESS extern "C" __attribute__((used, visibility("default"))) void
