/* locks, atomic primitives, counted objects and memory accounting under every schedule */
#include <stdlib.h>
#include <string.h>
#include "symx.h"
#include "rtypes.h"
#include "rlib/ratomic.h"
#include "rlib/rspinlock.h"
#include "rlib/rref.h"
#include "rlib/robject.h"
#include "rlib/rmem.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef NT
#define NT 2
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef PRE          /* switches away from a thread that could go on */
#define PRE 3
#endif
/* ---- scheduler: every access to memory that is not on a thread's stack is a scheduling point */
static unsigned cur, last, preempt, stuck; static int fin[NT + 1], waiting[NT + 1], fails[NT + 1], loads[NT + 1];
void xs_point(const volatile void *p) { if (!cur || symx_is_stack((const void *)p)) return; symx_switch(0); }
static void progress(void) { unsigned i; if (!cur) return; for (i = 1; i <= NT; i++) waiting[i] = fails[i] = loads[i] = 0; stuck = 0; }
void xs_atomic(int wrote) { if (!cur) return; if (wrote) progress(); else fails[cur]++; }
static void ld(void *p) { if (!cur || symx_is_stack(p)) return; loads[cur]++; symx_switch(0); }
static void stt(void *p) { if (!cur || symx_is_stack(p)) return; symx_switch(0); progress(); }
void __sanitizer_cov_load1(void *p) { ld(p); } void __sanitizer_cov_load2(void *p) { ld(p); } void __sanitizer_cov_load4(void *p) { ld(p); } void __sanitizer_cov_load8(void *p) { ld(p); } void __sanitizer_cov_load16(void *p) { ld(p); }
void __sanitizer_cov_store1(void *p) { stt(p); } void __sanitizer_cov_store2(void *p) { stt(p); } void __sanitizer_cov_store4(void *p) { stt(p); } void __sanitizer_cov_store8(void *p) { stt(p); } void __sanitizer_cov_store16(void *p) { stt(p); }
void __sanitizer_cov_trace_pc(void) {}
static void point(void) { symx_switch(0); progress(); }   /* an access of the harness itself */
static void body(unsigned me);
static void thread(void *a) { unsigned me = (unsigned)(size_t)a; body(me); fin[me] = 1; progress(); }
static void run(void) {
  unsigned i, left = NT, n, c, t, pick[NT]; int can;
  for (i = 1; i <= NT; i++) if (symx_spawn(thread, (void *)(size_t)i) != i) CHECK(0, "thread numbers");
  last = 0; preempt = PRE;
  while (left) {
    can = last && !fin[last] && !waiting[last]; n = 0; if (can) pick[n++] = last;
    if (!can || preempt) for (i = 1; i <= NT; i++) if (i != last && !fin[i] && !waiting[i]) pick[n++] = i;
    if (!n) { /* everyone spins: keep going in turn until something changes */
      CHECK(stuck < 60, "no thread is blocked forever"); if (stuck++ >= 60) symx_end_path();
      t = last; do t = t % NT + 1; while (fin[t]); pick[n++] = t; can = 0;
    }
    c = n > 1 ? symx_choose("run", 0, n - 1) : 0; t = pick[c];
    if (can && t != last) { preempt--; symx_cover("preempted"); }
    last = t; cur = t; symx_switch(t); cur = 0;
    if (fin[t]) left--;
    else if (fails[t] >= 2 || loads[t] > 6) { waiting[t] = 1; symx_cover("spins"); }
  }
}
#if MODE == 0                 /* mutual exclusion */
static rspinlock_t lock; static int inside, total, want, busy, sawbusy[NT + 1];
static void body(unsigned me) {
  int k, v, j, got;
  for (k = 0; k < OPS; k++) {
    if (symx_choose("try", 0, 1)) { sawbusy[me] = 0; if (busy) sawbusy[me] = 1; got = r_spinlock_trylock(&lock); CHECK(got || busy || sawbusy[me], "a free lock is taken"); if (!got) { symx_cover("refused"); continue; } }
    else { busy++; for (j = 1; j <= NT; j++) sawbusy[j] = 1; r_spinlock_lock(&lock); busy--; }
    busy++; for (j = 1; j <= NT; j++) sawbusy[j] = 1;
    CHECK(!inside, "one thread at a time"); inside = 1; want++; point();
    v = total; point(); total = v + 1; point();
    inside = 0; r_spinlock_unlock(&lock); busy--;
  }
}
int main(void) {
  r_spinlock_init(&lock); run();
  CHECK(total == want, "no update inside the lock is lost");
  CHECK(r_spinlock_trylock(&lock), "the lock is free at the end"); CHECK(!r_spinlock_trylock(&lock), "and not twice"); r_spinlock_unlock(&lock); CHECK(r_spinlock_trylock(&lock), "and free again");
  symx_cover("end"); return 0;
}
#elif MODE == 1               /* atomic primitives: some order of the operations explains every result */
static volatile ratomic_t cell; static struct { int op; ratomic_t a, b, res; } o[NT + 1][OPS]; static ratomic_t start, endv;
static void body(unsigned me) {
  int k; ratomic_t r = 0;
  for (k = 0; k < OPS; k++) switch (o[me][k].op) {
    case 0: o[me][k].res = r_atomic_add(&cell, o[me][k].a); break;
    case 1: o[me][k].res = r_atomic_sub(&cell, o[me][k].a); break;
    case 2: o[me][k].res = r_atomic_exchange(&cell, o[me][k].a); break;
    case 3: o[me][k].res = r_atomic_compare_and_exchange(&cell, o[me][k].a, o[me][k].b); break;
    case 4: o[me][k].res = r_atomic_get(&cell); break;
    case 5: r_atomic_set(&cell, o[me][k].a); break;
  }
  (void)r;
}
/* is there an order (of what is left of each thread) that gives the results, from value v? */
static int explain(ratomic_t v, int *done) {
  int t, any = 0, ok = 0;
  for (t = 1; t <= NT; t++) if (done[t] < OPS) {
    int k = done[t], good = 1; ratomic_t w = v; any = 1;
    switch (o[t][k].op) {
    case 0: good = o[t][k].res == v; w = (ratomic_t)((ruint32)v + (ruint32)o[t][k].a); break;
    case 1: good = o[t][k].res == v; w = (ratomic_t)((ruint32)v - (ruint32)o[t][k].a); break;
    case 2: good = o[t][k].res == v; w = o[t][k].a; break;
    case 3: good = (o[t][k].res != 0) == (v == o[t][k].a); if (v == o[t][k].a) w = o[t][k].b; break;
    case 4: good = o[t][k].res == v; break;
    case 5: w = o[t][k].a; break;
    }
    if (symx_concretize(good)) { done[t]++; ok |= explain(w, done); done[t]--; }
    if (ok) return 1;
  }
  return any ? ok : (int)symx_concretize(v == endv);
}
int main(void) {
  int t, k, done[NT + 1]; start = symx_u32("start");
  for (t = 1; t <= NT; t++) { done[t] = 0; for (k = 0; k < OPS; k++) { o[t][k].op = symx_choose("op", 0, 5); o[t][k].a = symx_u32("a"); o[t][k].b = symx_u32("b"); } }
  r_atomic_set(&cell, start); CHECK(r_atomic_get(&cell) == start, "set, then get");
  run(); endv = r_atomic_get(&cell);
  CHECK(explain(start, done), "some order of the operations explains every result");
  symx_cover("end"); return 0;
}
#elif MODE == 2               /* counted object: each thread owns one reference */
static rref_t *ref; static int gone; static unsigned lastcount, owned;
static void cleanup(robject_t *ob) { CHECK(!gone, "destroyed once"); CHECK(owned == 0, "destroyed by the holder that drops the last reference"); gone++; r_ref_cleanup(ob); }
static void body(unsigned me) {
  int k, mine = 1; ruint32 c; (void)me;
#ifdef SHARED  /* the reference of the main thread is there for all: each takes its own from it */
  owned++; c = r_ref_inc(ref); CHECK(c >= 2 && c <= 1 + NT + NT * OPS, "the count after taking a reference");
#endif
  for (k = 0; k < OPS && mine; k++) {
    if (symx_choose("inc", 0, 1)) { owned++; mine++; c = r_ref_inc(ref); CHECK(c >= 2 && c <= 1 + NT + NT * OPS, "the count after taking a reference"); }
    else { int l; owned--; mine--; l = mine == 0; c = r_ref_dec(ref); CHECK(l || c >= 1, "holders keep the object"); if (c == 0) { CHECK(gone == 1, "zero means destroyed"); symx_cover("destroyed"); } }
  }
  while (mine) { owned--; mine--; c = r_ref_dec(ref); if (c == 0) { CHECK(gone == 1 && mine == 0, "zero means destroyed"); symx_cover("destroyed"); } }
}
int main(void) {
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(); int i;
  ref = r_ref_create(RREF_TYPE_COW); ((robject_t *)ref)->cleanup = cleanup; CHECK(r_ref_get(ref) == 1, "one reference to begin with");
#ifdef SHARED
  owned = 1; run(); CHECK(!gone && r_ref_get(ref) == 1, "every reference taken was counted"); owned = 0; CHECK(r_ref_dec(ref) == 0, "the last reference"); (void)i;
#else
  for (i = 1; i < NT; i++) CHECK(r_ref_inc(ref) == (ruint32)i + 1, "counts up"); owned = NT; run();
#endif
  CHECK(gone == 1, "destroyed exactly once"); CHECK(r_debug_get_allocmem() == mem, "all memory returned"); if (!symx_native()) CHECK(symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
#else                         /* memory accounting */
static size_t held; 
static void body(unsigned me) {
  int k; char *p = 0; size_t n; (void)me;
  for (k = 0; k < OPS; k++) {
    n = symx_choose("size", 1, 2);
    if (!p) { p = symx_choose("calloc", 0, 1) ? r_calloc(n, 1) : r_malloc(n); p[n - 1] = 1; }
    else if (symx_choose("free", 0, 1)) { r_free(p); p = 0; }
    else { p = r_realloc(p, n + 2); p[n + 1] = 2; }
  }
  if (p) r_free(p);
}
int main(void) {
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(); run();
  CHECK(r_debug_get_allocmem() == mem, "the accounting balances"); CHECK(r_debug_get_maxmem() >= (long)mem, "maximum"); if (!symx_native()) CHECK(symx_live_heap() == live, "all memory returned"); (void)held;
  symx_cover("end"); return 0;
}
#endif
