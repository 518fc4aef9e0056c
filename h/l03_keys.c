/* L03: arbitrary key bytes: two entries, one lookup, every container and key type. */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "rlib/rhash.h"
#include "rlib/rharray.h"
#include "rlib/rmap.h"
#include "rlib/rstring.h"
#include "rlib/rmem.h"
#ifndef L
#define L 2
#endif
typedef struct { char b[L + 1]; unsigned len; } Key;
static unsigned alpha, nul, bits = 1, pick, one;
static void mk(Key *k, const char *nm) { unsigned i; k->len = symx_choose("len", pick, pick ? 1 : one ? 1 : L); symx_bytes(k->b, k->len, nm); if (pick) { static const unsigned char P[] = {1, 0x7f, 0x80, 0xe4, 0xff}; symx_assume((unsigned char)k->b[0] == P[symx_choose("byte", 0, 4)]); k->b[0] = (char)symx_concretize((unsigned char)k->b[0]); } for (i = 0; i < k->len; i++) { if (alpha) symx_assume(k->b[i] == 0 || (k->b[i] >= 'a' && k->b[i] < 'a' + alpha)); else if (!nul) symx_assume(k->b[i] != 0); } k->b[k->len] = 0; }
static int eq(Key *a, Key *b) { if (a->len != b->len) return 0; for (unsigned i = 0; i < a->len; i++) if (a->b[i] != b->b[i]) return 0; return 1; }
int main(void) {
  Key a, b, q; long la, lb, lq; size_t r, ra = 0, rb = 1, first, last;
  unsigned kind = symx_choose("kind", 0, 6);
  one = kind == 6; nul = kind == 4; /* these keys hold any byte */
#ifdef ALPHA
  if (kind == 0) alpha = ALPHA;
#endif
  if (kind == 3) { la = symx_u64("la"); lb = symx_u64("lb"); lq = symx_u64("lq"); }
  else if (kind == 5) { static const long V[] = {0, 7, 10, -1, -7, 100, 123456789012L, -9223372036854775807L - 1}; la = V[symx_choose("la", 0, 7)]; lb = V[symx_choose("lb", 0, 7)]; lq = V[symx_choose("lq", 0, 7)]; }
  else { if (kind == 1 && symx_choose("wide", 0, 1)) { bits = 10; pick = 1; } mk(&a, "a"); mk(&b, "b"); mk(&q, "q"); }
  int ea = kind == 3 || kind == 5 ? la == lq : eq(&a, &q), eb = kind == 3 || kind == 5 ? lb == lq : eq(&b, &q);
  first = ea ? 0 : eb ? 1 : (size_t)-1; last = eb ? 1 : ea ? 0 : (size_t)-1;
  if (kind == 0) { rharray_t *h = r_harray_create(4); r_harray_add(h, a.b, a.len, NULL); r_harray_add(h, b.b, b.len, NULL);
    /* the name buffers are the caller's: the container must have copied them */
    Key z = q; memset(&a, 'x', sizeof a); memset(&b, 'x', sizeof b);
    CHECK((size_t)r_harray_lookup(h, z.b, z.len) == first, "named array finds exactly the equal name"); CHECK((size_t)r_harray_taillookup(h, z.b, z.len) == last, "named array finds the last equal name"); r_harray_destroy(h); }
  else if (kind == 1) { rmap_t *m = r_map_create(8, bits); ra = r_map_add(m, a.b, a.len, NULL); rb = r_map_add_s(m, b.b, NULL); Key z = q; memset(&a, 'x', sizeof a); memset(&b, 'x', sizeof b);
    CHECK(ra == 0 && rb == 1, "map indices"); CHECK(r_map_lookup(m, z.b, z.len) == first, "map finds exactly the equal key"); CHECK(r_map_taillookup_s(m, z.b) == last, "map finds the last equal key"); r_map_destroy(m); }
  else if (kind == 2) { rhash_t *h = r_hash_create(1, r_hash_strequal, r_hash_strhash); r_hash_insert_index(h, a.b, 0); r_hash_insert_index(h, b.b, 1);
    CHECK(r_hash_lookup_index(h, q.b) == first, "string hash finds exactly the equal key"); CHECK(r_hash_taillookup_index(h, q.b) == last, "string hash tail lookup");
    r_hash_remove(h, q.b); CHECK(r_hash_lookup_index(h, q.b) == (size_t)-1, "removed"); CHECK((r_hash_lookup_index(h, a.b) == (size_t)-1) == (ea || 0), "removal removes exactly the equal keys"); r_hash_destroy(h); }
  else if (kind == 3) { rhash_t *h = r_hash_create(1, r_hash_longequal, r_hash_longhash); r_hash_insert_object(h, &la, &ra); r_hash_insert_object(h, &lb, &rb);
    void *p = r_hash_lookup_object(h, &lq); CHECK(p == (first == 0 ? (void *)&ra : first == 1 ? (void *)&rb : NULL), "integer hash finds exactly the equal key"); r_hash_destroy(h); }
  else if (kind == 4) { rstr_t sa = {a.b, a.len}, sb = {b.b, b.len}, sq = {q.b, q.len}; rhash_t *h = r_hash_create(1, r_hash_rstrequal, r_hash_rstrhash); r_hash_insert_index(h, &sa, 0); r_hash_insert_index(h, &sb, 1);
    CHECK(r_hash_lookup_index(h, &sq) == first, "counted-string hash finds exactly the equal key"); CHECK(r_hash_taillookup_index(h, &sq) == last, "counted-string hash tail lookup"); r_hash_destroy(h); }
  else if (kind == 6) { rstring_t *sa = r_string_create_from_str_len(a.b, a.len), *sb = r_string_create_from_str_len(b.b, b.len), *sq = r_string_create_from_str_len(q.b, q.len); rhash_t *h = r_hash_create(1, r_hash_rstring_equal, r_hash_rstring_hash); r_hash_insert_index(h, sa, 0); r_hash_insert_index(h, sb, 1);
    CHECK(r_hash_lookup_index(h, sq) == first, "string object hash finds exactly the equal key"); CHECK(r_hash_taillookup_index(h, sq) == last, "string object hash tail lookup"); r_hash_destroy(h); r_string_destroy(sa); r_string_destroy(sb); r_string_destroy(sq); }
  else { rmap_t *m = r_map_create(8, 1); r_map_add_l(m, la, NULL); r_map_add_l(m, lb, NULL); CHECK(r_map_lookup_l(m, lq) == first, "map finds exactly the equal integer key"); r_map_destroy(m); }
  if (ea) symx_cover("eq"); else symx_cover("ne");
  CHECK(symx_live_heap() == 0, "destroying frees everything");
  symx_cover("end"); return 0;
}
