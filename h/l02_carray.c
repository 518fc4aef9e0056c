/* L02: chunked array: stable addresses, values kept while growing. */
#include "symx.h"
#include <string.h>
#include "rlib/rcarray.h"
#include "rlib/rarray.h"
#include "rlib/rmem.h"
#ifndef K
#define K 3
#endif
#define CAP 200
static uint32_t v[CAP]; static uint8_t known[CAP]; static void *addr[CAP];
int main(void) {
  rcarray_t *a = r_carray_create(4); unsigned len = 0, i, k;
  unsigned n0 = symx_choose("n0", 0, 2); n0 = n0 == 0 ? 0 : n0 == 1 ? 15 : 32; /* around the chunk boundaries */
  for (i = 0; i < n0; i++) { uint32_t x = symx_u32("elt"); CHECK(r_carray_add(a, &x) == i, "append returns the index"); v[i] = x; known[i] = 1; addr[i] = r_carray_slot(a, i); len++; }
  for (k = 0; k < K; k++) {
    uint32_t x; unsigned idx, n; static const unsigned steps[] = {0, 1, 2, 15, 16, 17, 33};
    switch (symx_choose("op", 0, 5)) {
    case 0: x = symx_u32("elt"); idx = r_carray_add(a, &x); CHECK(idx == len, "append returns the index"); v[len] = x; known[len] = 1; if (!addr[len]) addr[len] = r_carray_slot(a, len); len++; break;
    case 1: idx = len ? symx_choose("idx", 0, 1) ? len - 1 : len / 2 : 0; if (len) { x = symx_u32("elt"); r_carray_replace(a, idx, &x); v[idx] = x; known[idx] = 1; } break;
    case 2: n = len + steps[symx_choose("grow", 0, 6)]; if (n < CAP) { r_carray_setlength(a, n); for (i = len; i < n; i++) { known[i] = 0; if (!addr[i]) addr[i] = r_carray_slot(a, i); } len = n; } break;
    case 3: if (len) { n = len - 1; r_carray_setlength(a, n); len = n; } break;
    case 4: n = len + steps[symx_choose("grow", 0, 6)]; if (n < CAP) { void *p = r_carray_slot_expand(a, n); CHECK(p != NULL && p == (void *)r_carray_slot(a, n), "slot_expand gives the slot"); if (addr[n]) CHECK(addr[n] == p, "address stays"); else addr[n] = p; x = symx_u32("elt"); memcpy(p, &x, 4); if (n < len) { v[n] = x; known[n] = 1; } symx_cover("expand"); } break;
    case 5: { rcarray_t *c = (rcarray_t *)r_carray_copy((robject_t *)a); CHECK(r_carray_length(c) == len, "copy has the length"); for (i = 0; i < len; i++) { if (known[i]) CHECK(r_carray_index(c, i, uint32_t) == v[i], "copy has the values"); CHECK((void *)r_carray_slot(c, i) != addr[i], "copy is a different array"); } r_carray_destroy(c); symx_cover("copied"); break; }
    }
    CHECK(r_carray_length(a) == len, "length");
    for (i = 0; i < len; i++) { CHECK((void *)r_carray_slot(a, i) == addr[i], "an element keeps its address while the array grows"); if (known[i]) CHECK(r_carray_index(a, i, uint32_t) == v[i], "an element keeps its value"); }
  }
  r_carray_destroy(a);
  CHECK(symx_live_heap() == 0, "destroying the array frees everything");
  symx_cover("end"); return 0;
}
