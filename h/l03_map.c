/* L03: the map against an ideal ordered multimap; K arbitrary operations, keys from a pool with collisions, symbolic values. */
#include "symx.h"
#include <string.h>
#include "rlib/rmap.h"
#include "rlib/rmem.h"
#ifndef K
#define K 4
#endif
static const char *pool[] = {"a", "c", "ac"}; /* with 2 buckets: a and c collide; ac shares the prefix */
#define NK 3
typedef struct { int key; size_t idx; uint64_t v[3]; } Ent;
static Ent e[16]; static unsigned n, es;
static void verify(rmap_t *m) {
  unsigned i, j; size_t p;
  for (i = 0; i < NK; i++) {
    size_t first = (size_t)-1, last = (size_t)-1;
    for (j = 0; j < n; j++) if (e[j].key == (int)i) { if (first == (size_t)-1) first = e[j].idx; last = e[j].idx; }
    CHECK(r_map_lookup(m, pool[i], strlen(pool[i])) == first, "lookup returns the first live entry of the key, or absent");
    CHECK(r_map_lookup_s(m, pool[i]) == first, "lookup_s agrees");
    CHECK(r_map_taillookup(m, pool[i], strlen(pool[i])) == last, "taillookup returns the last live entry of the key, or absent");
    CHECK(r_map_taillookup_s(m, pool[i]) == last, "taillookup_s agrees");
  }
  p = r_map_first(m);
  for (i = 0; i < n; i++) {
    CHECK(p == e[i].idx, "forward iteration visits every live entry once in insertion order");
    rstring_t *k = r_map_key(m, p); CHECK(k && k->size == strlen(pool[e[i].key]) && !memcmp(k->str, pool[e[i].key], k->size), "key of a live entry");
    uint64_t v[3]; void *pv = r_map_value(m, p); CHECK(pv != NULL, "value of a live entry"); memcpy(v, pv, es);
    for (j = 0; j < es / 8; j++) CHECK(v[j] == e[i].v[j], "a live entry keeps its value");
    p = r_map_next(m, p);
  }
  CHECK(p == (size_t)-1, "forward iteration ends after the last entry");
  p = r_map_last(m);
  for (i = n; i-- > 0;) { CHECK(p == e[i].idx, "backward iteration visits every live entry once"); p = r_map_prev(m, p); }
  CHECK(p == (size_t)-1, "backward iteration ends");
}
static int live(size_t idx) { for (unsigned i = 0; i < n; i++) if (e[i].idx == idx) return i; return -1; }
int main(void) {
  es = symx_choose("big", 0, 1) ? 24 : 8;
  rmap_t *m = r_map_create(es, 1); unsigned maxidx = 0;
  verify(m);
  for (unsigned k = 0; k < K; k++) {
    switch (symx_choose("op", 0, 3)) {
    case 0: case 1: { Ent x; x.key = symx_choose("key", 0, NK - 1); int null = symx_choose("null", 0, 1); for (int j = 0; j < 3; j++) x.v[j] = null ? 0 : symx_u64("val");
      x.idx = null ? r_map_add_s(m, pool[x.key], NULL) : r_map_add(m, pool[x.key], strlen(pool[x.key]), x.v);
      CHECK(live(x.idx) < 0, "a new entry does not reuse the index of a live one"); if (x.idx < maxidx) symx_cover("reused");
      if (x.idx >= maxidx) { CHECK(x.idx == maxidx, "indices are dense"); maxidx = x.idx + 1; }
      e[n++] = x; break; }
    case 2: { size_t idx = symx_choose("idx", 0, maxidx); int l = live(idx); rboolean r = r_map_delete(m, idx);
      CHECK((r != 0) == (l >= 0), "delete succeeds exactly on live entries");
      if (l >= 0) { memmove(&e[l], &e[l + 1], (n - l - 1) * sizeof(Ent)); n--; CHECK(r_map_key(m, idx) == NULL && r_map_value(m, idx) == NULL, "a removed entry is not reachable"); CHECK(r_map_next(m, idx) == (size_t)-1, "no iteration from a removed entry"); symx_cover("deleted"); } break; }
    case 3: { size_t idx = symx_choose("idx", 0, maxidx); int l = live(idx); uint64_t v[3]; for (int j = 0; j < 3; j++) v[j] = symx_u64("val");
      size_t r = r_map_setvalue(m, idx, v); if (l >= 0) { CHECK(r == idx, "setvalue returns the index"); memcpy(e[l].v, v, sizeof v); } else CHECK(r == (size_t)-1, "setvalue of a removed entry is refused"); break; }
    }
    verify(m);
  }
  r_map_destroy(m);
  CHECK(symx_live_heap() == 0, "destroying the map frees everything");
  symx_cover("end"); return 0;
}
