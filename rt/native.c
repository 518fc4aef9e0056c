/* Native side of symx.h: replays one assignment found by the solver against
 * the real, natively compiled code (with sanitizers). */
#include "symx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static uint64_t *vals; static size_t nvals, pos; static int loaded;
static void load(void) {
  if (loaded) return; loaded = 1; const char *fn = getenv("SYMX_REPLAY"); if (!fn) { fprintf(stderr, "no SYMX_REPLAY\n"); _exit(76); }
  FILE *f = fopen(fn, "r"); if (!f) { perror(fn); _exit(76); }
  static uint64_t buf[1 << 16]; unsigned long long v; char line[512];
  while (fgets(line, sizeof line, f)) { if (line[0] == '#' || line[0] == '\n') continue; if (sscanf(line, "%llx", &v) == 1 && nvals < (1 << 16)) buf[nvals++] = v; }
  fclose(f); vals = buf;
}
static uint64_t next(void) { load(); return pos < nvals ? vals[pos++] : (pos++, 0); }
void symx_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = next(); }
uint64_t symx_u64(const char *name) { return next(); }
uint32_t symx_u32(const char *name) { return next(); }
uint16_t symx_u16(const char *name) { return next(); }
uint8_t symx_u8(const char *name) { return next(); }
void symx_assume(int c) { if (!c) { fprintf(stderr, "SYMX: assumption does not hold\n"); _exit(77); } }
static void failed(const char *msg) { fflush(stdout); fprintf(stderr, "SYMX-ASSERT: %s\n", msg); _exit(78); }
void symx_assert(int c, const char *msg) { if (!c) failed(msg); }
void symx_fail(const char *msg) { failed(msg); }
void symx_cover(const char *name) { if (getenv("SYMX_SHOWCOVER")) fprintf(stderr, "cover %s\n", name); }
uint64_t symx_concretize(uint64_t v) { return v; }
void symx_fork_select(void) {}
#include <ucontext.h>
#define NTHR 8
#define STK (1 << 18)
static ucontext_t ctx[NTHR]; static char *stk[NTHR], *mainstk; static unsigned nthr = 1, cur; static int fin[NTHR]; static struct { void (*f)(void *); void *a; } ent[NTHR];
static void trampoline(int i) { ent[i].f(ent[i].a); fin[i] = 1; cur = 0; setcontext(&ctx[0]); }
unsigned symx_spawn(void (*f)(void *), void *a) { char here; unsigned i = nthr++; if (i >= NTHR) _exit(76); mainstk = &here; stk[i] = malloc(STK); ent[i].f = f; ent[i].a = a; getcontext(&ctx[i]); ctx[i].uc_stack.ss_sp = stk[i]; ctx[i].uc_stack.ss_size = STK; makecontext(&ctx[i], (void (*)(void))trampoline, 1, (int)i); return i; }
void symx_switch(unsigned i) { unsigned m = cur; if (i >= nthr || i == m || fin[i]) return; cur = i; swapcontext(&ctx[m], &ctx[i]); }
int symx_is_stack(const void *p) { const char *c = p; for (unsigned i = 1; i < nthr; i++) if (c >= stk[i] && c < stk[i] + STK) return 1; return mainstk && c > mainstk - (1 << 20) && c < mainstk + (1 << 20); }
void symx_note(const char *name, uint64_t v) { fprintf(stderr, "note %s=%llu\n", name, (unsigned long long)v); }
static size_t base; static char sobuf[1 << 16];
uint64_t symx_live_bytes(void) { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() - base : 0; }
__attribute__((constructor)) static void init(void) { setvbuf(stdout, sobuf, _IOFBF, sizeof sobuf); if (getenv("SYMX_REPLAY")) load(); base = 0; base = symx_live_bytes(); }
uint64_t symx_live_heap(void) { return symx_live_bytes(); }
int symx_native(void) { return 1; }
int symx_is_symbolic(uint64_t v) { return 0; }
void symx_end_path(void) { fflush(stdout); _exit(0); }
static int saved = -1; static char capfn[64];
void cap_begin(void) { fflush(stdout); strcpy(capfn, "/tmp/symxcapXXXXXX"); int fd = mkstemp(capfn); unlink(capfn); saved = dup(1); dup2(fd, 1); close(fd); }
const char *cap_end(size_t *len) { static char buf[1 << 16]; fflush(stdout); lseek(1, 0, SEEK_SET); ssize_t n = read(1, buf, sizeof buf - 1); if (n < 0) n = 0; buf[n] = 0; *len = n; dup2(saved, 1); close(saved); return buf; }
