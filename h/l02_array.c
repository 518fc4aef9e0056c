/* L02: growable array against an ideal sequence; arbitrary start state, K arbitrary operations, symbolic elements. */
#include "symx.h"
#include <string.h>
#include "rlib/rarray.h"
#include "rlib/rmem.h"
#ifndef K
#define K 2
#endif
#ifndef N0
#define N0 5
#endif
#define CAP 40
typedef struct { uint64_t v[CAP]; uint8_t known[CAP]; unsigned len, hw; } Model; /* known=0: unspecified content; hw: slots that ever held an element, the others are zero */
static unsigned es;
static uint64_t fresh(void) { uint64_t v = symx_u64("elt"); return es == 1 ? (uint8_t)v : es == 4 ? (uint32_t)v : v; }
static uint64_t get(rarray_t *a, unsigned i) { uint64_t v = 0; memcpy(&v, r_array_slot(a, i), es); return v; }
static void setlen(Model *m, unsigned n) { for (unsigned i = m->len; i < n; i++) { m->known[i] = i >= m->hw; m->v[i] = 0; } m->len = n; }
static void same(rarray_t *a, Model *m, const char *msg) {
  if (m->len > m->hw) m->hw = m->len;
  CHECK(r_array_length(a) == m->len, "length is the ideal sequence's length");
  CHECK(r_array_size(a) >= m->len, "capacity covers the length");
  for (unsigned i = 0; i < m->len; i++) if (m->known[i]) CHECK(get(a, i) == m->v[i], msg);
}
int main(void) {
  static const unsigned sizes[] = {1, 4, 8};
  es = sizes[symx_choose("eltsize", 0, 2)];
  rarray_t *a = r_array_create(es); Model m; memset(&m, 0, sizeof m);
  unsigned n0 = symx_choose("n0", 0, N0), i;
  for (i = 0; i < n0; i++) { uint64_t v = fresh(); CHECK(r_array_add(a, &v) == i, "append returns the index"); m.v[m.len] = v; m.known[m.len++] = 1; }
  same(a, &m, "appended elements read back in order");
  for (unsigned k = 0; k < K; k++) {
    unsigned op = symx_choose("op", 0, 9); uint64_t v; unsigned idx, n, j;
    switch (op) {
    case 0: v = fresh(); CHECK(r_array_add(a, &v) == m.len, "append returns the index"); m.v[m.len] = v; m.known[m.len++] = 1; break;
    case 1: case 2: /* insert value / NULL */
      idx = symx_choose("idx", 0, m.len + 2); v = fresh(); if (op == 2) v = 0;
      CHECK(r_array_insert(a, idx, op == 1 ? &v : NULL) == idx, "insert returns the index");
      if (idx >= m.len) setlen(&m, idx + 1);
      else { for (j = m.len; j > idx; j--) { m.v[j] = m.v[j - 1]; m.known[j] = m.known[j - 1]; } m.len++; }
      m.v[idx] = v; m.known[idx] = 1; break;
    case 3: idx = symx_choose("idx", 0, m.len + 2); v = fresh();
      CHECK(r_array_replace(a, idx, &v) == idx, "replace returns the index");
      if (idx >= m.len) setlen(&m, idx + 1);
      m.v[idx] = v; m.known[idx] = 1; break;
    case 4: idx = symx_choose("idx", 0, m.len + 1); r_array_delete(a, idx);
      if (idx < m.len) { for (j = idx; j + 1 < m.len; j++) { m.v[j] = m.v[j + 1]; m.known[j] = m.known[j + 1]; } m.len--; } else symx_cover("delete-outside"); break;
    case 5: { unsigned d = symx_choose("dst", 0, m.len + 1), s = symx_choose("src", 0, m.len + 1); n = symx_choose("cnt", 0, m.len + 1);
      int r = r_array_move(a, d, s, n); Model o = m;
      if (d + n > m.len || s + n > m.len) { if (d != s) { CHECK(r != 0, "an out-of-range move reports failure"); symx_cover("move-outside"); } else if (d + n > m.len) CHECK(r != 0, "an out-of-range move reports failure"); }
      else { CHECK(r == 0, "move succeeds"); for (j = 0; j < n; j++) { m.v[d + j] = o.v[s + j]; m.known[d + j] = o.known[s + j]; } }
      break; }
    case 6: n = r_array_removelast(a); if (m.len) m.len--; CHECK(n == m.len, "removelast returns the new length"); break;
    case 7: n = symx_choose("len", 0, m.len + 3); CHECK(r_array_setlength(a, n) == n, "setlength returns the length"); if (n < m.len) m.len = n; else setlen(&m, n); break;
    case 8: n = symx_choose("more", 0, 4); r_array_expand(a, n); CHECK(r_array_size(a) >= m.len + n, "expand makes room"); break;
    case 9: { rarray_t *c = (rarray_t *)r_array_copy((robject_t *)a); CHECK(c != NULL, "copy"); same(c, &m, "a copy holds the same elements"); r_array_destroy(a); a = c; m.hw = m.len; symx_cover("copied"); break; }
    }
    same(a, &m, "every element has its ideal value after the operation");
  }
  r_array_destroy(a);
  CHECK(symx_live_heap() == 0, "destroying the array frees everything");
  symx_cover("end"); return 0;
}
