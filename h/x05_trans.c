/* range insertion, normalisation, lookup and complement over the whole 32-bit character space */
#include "x_common.h"
#ifndef VIA
#define VIA 1
#endif
#ifndef K
#define K 3
#endif
static uint32_t a[K], b[K]; static unsigned d[K];
static unsigned member(rarray_t *t, unsigned dst, uint32_t x) { unsigned r = 0, i; for (i = 0; i < r_array_length(t) && !r; i++) { rex_transition_t *e = (rex_transition_t *)r_array_slot(t, i); r = e->dstuid == dst && x >= e->lowin && x <= e->highin; } return r; }
static unsigned wanted(unsigned dst, uint32_t x, unsigned n) { unsigned r = 0, i; for (i = 0; i < n && !r; i++) r = d[i] == dst && ((x >= a[i] && x <= b[i]) || (x >= b[i] && x <= a[i])); return r; }
/* The code compares characters and steps by one: both ends of the 32-bit space and a middle part, 8 bits each, represent every order and adjacency of a few ranges. FULL uses all 32 bits. */
static uint32_t chr(const char *nm) {
#ifdef ENUM
  static const uint32_t v[] = { 0, 1, 2, 0xFFFFFFFFu, 4, 0xFFFFFFFEu, 3 }; return v[symx_choose(nm, 0, ENUM)];
#elif defined(FULL)
  return symx_u32(nm);
#else
  uint32_t v = symx_u8(nm); unsigned s = symx_u8("part"); symx_assume(s < 2); return s ? 0xFFFFFF00u | v : v;
#endif
}
int main(void) {
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(); unsigned i, j, dst, nd = symx_choose("dsts", 1, 2), n = symx_choose("n", 0, K); uint32_t x = symx_u32("x"); int viastate = symx_choose("via", 0, VIA); rexstate_t *st = 0;
  rarray_t *t, *neg = r_array_create(sizeof(rex_transition_t));
  if (viastate) { st = rex_state_create(5, REX_STATETYPE_NONE); t = st->trans; } else t = r_array_create(sizeof(rex_transition_t));
  for (i = 0; i < n; i++) {
    rex_transition_t *e;
    a[i] = chr("a"); b[i] = chr("b"); d[i] = symx_choose("d", 0, nd - 1);
    e = viastate ? rex_state_addtransition(st, a[i], b[i], d[i]) : rex_transitions_add(t, a[i], b[i], 5, d[i]);
    CHECK(e->dstuid == d[i] && e->srcuid == 5 && e->type == REX_TRANSITION_INPUT, "the new transition has the given ends");
    CHECK((e->lowin == a[i] && e->highin == b[i] && a[i] <= b[i]) || (e->lowin == b[i] && e->highin == a[i] && b[i] <= a[i]), "the new transition is the given range, low end first");
    CHECK(r_array_length(t) == i + 1, "one more");
  }
  for (i = 0; i + 1 < n; i++) CHECK(((rex_transition_t *)r_array_slot(t, i))->lowin <= ((rex_transition_t *)r_array_slot(t, i + 1))->lowin, "kept in order of the low end");
  rex_transitions_normalize(t);
  for (dst = 0; dst < nd; dst++) CHECK(member(t, dst, x) == wanted(dst, x, n), "normalising changes no membership");
  CHECK(r_array_length(t) <= n, "no more ranges than before");
  for (i = 0; i < r_array_length(t); i++) { rex_transition_t *e = (rex_transition_t *)r_array_slot(t, i); CHECK(e->lowin <= e->highin && e->srcuid == 5, "a range");
    for (j = i + 1; j < r_array_length(t); j++) { rex_transition_t *f = (rex_transition_t *)r_array_slot(t, j); CHECK(f->lowin >= e->lowin, "sorted");
      if (f->dstuid == e->dstuid) CHECK(f->lowin > e->highin && f->lowin - e->highin > 1, "ranges of one destination are disjoint and not adjacent"); } }
  if (nd == 1) {
    rex_transition_t *f = rex_transitions_find(t, x);
    CHECK((f != 0) == wanted(0, x, n), "lookup finds a range exactly when the character is in the set");
    if (f) { CHECK(x >= f->lowin && x <= f->highin, "the range found contains the character"); symx_cover("found"); }
    rex_transitions_negative(neg, t, 9, 1);
    CHECK(member(neg, 1, x) == !wanted(0, x, n), "the complement is exactly the characters not covered");
    for (i = 0; i < r_array_length(neg); i++) { rex_transition_t *e = (rex_transition_t *)r_array_slot(neg, i); CHECK(e->lowin <= e->highin && e->srcuid == 9 && e->dstuid == 1, "complement ranges are well formed"); if (i) CHECK(e->lowin > ((rex_transition_t *)r_array_slot(neg, i - 1))->highin, "complement sorted and disjoint"); }
    if (!r_array_length(neg)) symx_cover("everything");
  }
  if (viastate) rex_state_destroy(st); else r_array_destroy(t);
  r_array_destroy(neg);
  CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
