// Harness API.  Under the symbolic executor these are intercepted; in the native
// replay build they are provided by replay.cc from a recorded counterexample.
#ifndef SYMX_H_
#define SYMX_H_
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t symx_u64(const char* name);
uint32_t symx_u32(const char* name);
uint16_t symx_u16(const char* name);
uint8_t symx_u8(const char* name);
bool symx_bool(const char* name);
void symx_bytes(void* p, uint64_t n, const char* name);
void symx_assume(bool c);
void symx_assert(bool c, const char* msg);
void symx_reach(const char* label);
uint64_t symx_concretize(uint64_t v);
int64_t symx_live();
int symx_is_symbolic_run();
void symx_alloc_fail_at(int64_t n);
void symx_stop();
void symx_debug(const char* tag, uint64_t v);
void symx_main();
}
// value in [lo,hi], decided by the solver; forks into one path per value
static inline uint64_t symx_pick(const char* name, uint64_t lo, uint64_t hi) {
  if (lo == hi) return lo;
  uint8_t v = symx_u8(name);
  symx_assume(v <= hi - lo);
  return lo + symx_concretize(v);
}
// value in [lo,hi] kept symbolic
static inline uint64_t symx_range(const char* name, uint64_t lo, uint64_t hi) {
  uint64_t v = symx_u64(name);
  symx_assume(v >= lo && v <= hi);
  return v;
}
#define CHECK(c) symx_assert((c), #c)
#define CHECKM(c, m) symx_assert((c), m)
#endif
