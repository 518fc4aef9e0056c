/* L03: hash table and named array histories against ideal multimaps. */
#include "symx.h"
#include <string.h>
#include "rlib/rhash.h"
#include "rlib/rharray.h"
#include "rlib/rstring.h"
#include "rlib/rmem.h"
#ifndef K
#define K 4
#endif
static const char *pool[] = {"a", "c", "ac", "b"};
#define NK 4
typedef struct { int key; size_t idx; uint32_t v; } Ent;
static Ent e[32]; static unsigned n;
static size_t want(int key, int tail) { size_t r = (size_t)-1; for (unsigned j = 0; j < n; j++) if (e[j].key == key && (tail || r == (size_t)-1)) r = e[j].idx; return r; }
static size_t constHash(rconstpointer k) { return 12345; }
static void hash(void) {
  rhash_t *h = r_hash_create(symx_choose("nbits", 1, 2), r_hash_strequal, symx_choose("allcollide", 0, 1) ? constHash : r_hash_strhash);
  for (unsigned k = 0; k < K; k++) {
    int key = symx_choose("key", 0, NK - 1); char kb[4]; strcpy(kb, pool[key]);
    switch (symx_choose("op", 0, 2)) {
    case 0: e[n].key = key; e[n].idx = symx_u64("index"); symx_assume(e[n].idx != (size_t)-1); r_hash_insert_index(h, pool[key], e[n].idx); n++; break;
    case 1: { r_hash_remove(h, kb); unsigned o = 0; for (unsigned j = 0; j < n; j++) if (e[j].key != key) e[o++] = e[j]; if (o < n) symx_cover("removed"); n = o; break; }
    case 2: if (k == 1) { r_hash_removeall(h); n = 0; } break;
    }
    for (int i = 0; i < NK; i++) {
      strcpy(kb, pool[i]);
      CHECK(r_hash_lookup_index(h, kb) == want(i, 0), "lookup returns the first entry of the key or absent");
      CHECK(r_hash_taillookup_index(h, kb) == want(i, 1), "taillookup returns the last entry of the key or absent");
      rhash_node_t *c = NULL; unsigned j; for (j = 0; j < n; j++) if (e[j].key == i) { c = r_hash_nodelookup(h, c, kb); CHECK(c && r_hash_index(c) == e[j].idx, "walking a key forward visits its entries in order"); }
      CHECK(r_hash_nodelookup(h, c, kb) == NULL || (!c), "walking a key forward ends");
      c = NULL; for (j = n; j-- > 0;) if (e[j].key == i) { c = r_hash_nodetaillookup(h, c, kb); CHECK(c && r_hash_index(c) == e[j].idx, "walking a key backward visits its entries in reverse order"); }
      if (c) CHECK(r_hash_nodetaillookup(h, c, kb) == NULL, "walking a key backward ends");
    }
  }
  r_hash_destroy(h);
}
static void harr(void) {
  rharray_t *h = r_harray_create(4); unsigned count = 0; static uint32_t vals[32]; static int keys[32];
  for (unsigned k = 0; k < K; k++) {
    int key = symx_choose("key", 0, NK - 1); uint32_t v = symx_u32("val"); long r; unsigned j;
    switch (symx_choose("op", 0, 3)) {
    case 0: r = symx_choose("s", 0, 1) ? r_harray_add_s(h, pool[key], &v) : r_harray_add(h, pool[key], strlen(pool[key]), &v); CHECK(r == (long)count, "add returns the index"); keys[count] = key; vals[count++] = v; break;
    case 1: for (j = 0; j < count && keys[j] != key; j++) ; r = r_harray_replace(h, pool[key], strlen(pool[key]), &v); CHECK(r == (long)j, "replace returns the index of the first entry or of a new one"); if (j == count) keys[count++] = key; vals[j] = v; break;
    case 2: if (count) { j = symx_choose("idx", 0, count - 1); CHECK(r_harray_set(h, j, &v) == 0, "set"); vals[j] = v; } break;
    case 3: { rharray_t *c = (rharray_t *)r_harray_copy((robject_t *)h); r_harray_destroy(h); h = c; symx_cover("copied"); break; }
    }
    CHECK(r_harray_length(h) == count, "length");
    for (int i = 0; i < NK; i++) { long f = -1, l = -1; for (j = 0; j < count; j++) if (keys[j] == i) { if (f < 0) f = j; l = j; }
      CHECK(r_harray_lookup(h, pool[i], strlen(pool[i])) == f, "lookup returns the first entry of the name or -1");
      CHECK(r_harray_lookup_s(h, pool[i]) == f, "lookup_s agrees");
      CHECK(r_harray_taillookup(h, pool[i], strlen(pool[i])) == l, "taillookup returns the last entry of the name or -1");
      CHECK(r_harray_taillookup_s(h, pool[i]) == l, "taillookup_s returns the last entry of the name or -1"); if (f != l) symx_cover("dup"); }
    for (j = 0; j < count; j++) CHECK(*(uint32_t *)r_harray_get(h, j) == vals[j], "every member keeps its value");
    CHECK(r_harray_get(h, count) == NULL, "a member past the end is absent");
    CHECK(r_harray_lookup(h, "zz", 2) == -1, "an absent name is absent");
  }
  r_harray_destroy(h);
}
int main(void) {
  if (symx_choose("kind", 0, 1)) hash(); else harr();
  CHECK(symx_live_heap() == 0, "destroying frees everything");
  symx_cover("end"); return 0;
}
