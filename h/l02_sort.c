/* L02: r_array_sort leaves a sorted permutation. */
#include "symx.h"
#include "rlib/rarray.h"
#ifndef N
#define N 4
#endif
int main(void) {
  rarray_t *a = r_array_create(sizeof(uint32_t)); unsigned n = symx_choose("n", 0, N), i, j; uint32_t in[N + 1];
  for (i = 0; i < n; i++) { in[i] = symx_u32("elt"); r_array_add(a, &in[i]); }
  r_array_sort(a, uint32_t);
  CHECK(r_array_length(a) == n, "length unchanged");
  for (i = 0; i + 1 < n; i++) CHECK(r_array_index(a, i, uint32_t) <= r_array_index(a, i + 1, uint32_t), "sorted");
  for (i = 0; i < n; i++) { unsigned x = 0, y = 0; for (j = 0; j < n; j++) { x += in[j] == in[i]; y += r_array_index(a, j, uint32_t) == in[i]; } CHECK(x == y, "a permutation"); }
  r_array_destroy(a); symx_cover("end"); return 0;
}
