/* Harness interface of the symbolic executor (symx) and of the native replay library. */
#ifndef SYMX_H
#define SYMX_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
void symx_bytes(void *p, size_t n, const char *name);   /* make n bytes symbolic */
uint64_t symx_u64(const char *name);
uint32_t symx_u32(const char *name);
uint16_t symx_u16(const char *name);
uint8_t symx_u8(const char *name);
void symx_assume(int c);
void symx_assert(int c, const char *msg);
void symx_fail(const char *msg);
void symx_cover(const char *name);                      /* reachability witness */
uint64_t symx_concretize(uint64_t v);                   /* fork over every feasible value */
void symx_fork_select(void);                            /* from here on a conditional value forks instead of becoming an if-then-else term */
unsigned symx_spawn(void (*fn)(void *), void *arg);      /* a thread that runs when switched to; main is thread 0, which also resumes when a thread returns */
void symx_switch(unsigned thread);
int symx_is_stack(const void *p);                       /* p lies on some thread's stack */
void symx_note(const char *name, uint64_t v);
uint64_t symx_live_heap(void);
uint64_t symx_live_bytes(void);
int symx_native(void);                                  /* 1 in a native replay, 0 in the engine */
int symx_is_symbolic(uint64_t v);
void symx_end_path(void);
/* captured standard output */
void cap_begin(void);
const char *cap_end(size_t *len);                       /* pointer to a static buffer */
#ifdef __cplusplus
}
#endif
/* lo <= result <= hi, one path per value */
static inline unsigned symx_choose(const char *name, unsigned lo, unsigned hi) {
  unsigned v = symx_u32(name); symx_assume(v >= lo); symx_assume(v <= hi);
  while (lo < hi) { unsigned mid = lo + (hi - lo) / 2; if (symx_concretize(v <= mid)) hi = mid; else lo = mid + 1; }
  return lo;
}
/* lo <= result <= hi, kept symbolic */
static inline unsigned symx_range(const char *name, unsigned lo, unsigned hi) {
  unsigned v = symx_u32(name); symx_assume(v >= lo); symx_assume(v <= hi); return v;
}
#define CHECK(c, msg) symx_assert(!!(c), msg)
#endif
