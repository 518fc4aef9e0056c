/* L04: histories of list operations on two rings against ideal sequences. */
#include "symx.h"
#include "rlib/rlist.h"
#ifndef K
#define K 5
#endif
#ifndef NN
#define NN 4
#endif
static rlist_t H[2], n[NN]; static int m[2][NN], len[2], used[NN];
static void ins(int l, int at, int x) { for (int i = len[l]; i > at; i--) m[l][i] = m[l][i - 1]; m[l][at] = x; len[l]++; used[x] = 1; }
static void verify(void) {
  for (int l = 0; l < 2; l++) {
    rlist_t *h = &H[l], *p; int i = 0;
    CHECK(r_list_count(h) == (unsigned)len[l], "count"); CHECK(!!r_list_empty(h) == (len[l] == 0), "empty");
    r_list_foreach(p, h) { CHECK(i < len[l] && p == &n[m[l][i]], "forward order"); i++; } CHECK(i == len[l], "forward length");
    i = len[l]; r_list_foreachreverse(p, h) { CHECK(i > 0 && p == &n[m[l][i - 1]], "backward order"); i--; } CHECK(i == 0, "backward length");
    CHECK(r_list_first(h) == (len[l] ? &n[m[l][0]] : 0), "first"); CHECK(r_list_last(h) == (len[l] ? &n[m[l][len[l] - 1]] : 0), "last");
    for (i = 0; i < len[l]; i++) { CHECK(r_list_next(h, &n[m[l][i]]) == (i + 1 < len[l] ? &n[m[l][i + 1]] : 0), "next"); CHECK(r_list_prev(h, &n[m[l][i]]) == (i ? &n[m[l][i - 1]] : 0), "prev"); }
    CHECK(r_list_next(h, 0) == 0 && r_list_prev(h, 0) == 0, "no element");
  }
}
int main(void) {
  r_list_init(&H[0]); r_list_init(&H[1]); verify();
  for (int k = 0; k < K; k++) {
    int op = symx_choose("op", 0, 4), l = symx_choose("list", 0, 1), x = symx_choose("node", 0, NN - 1);
    if (op == 4 && x) symx_end_path();
    if (op == 0 || op == 1) { if (used[x]) symx_end_path(); for (int y = 0; y < x; y++) if (!used[y]) symx_end_path(); if (op == 0) { r_list_addh(&H[l], &n[x]); ins(l, 0, x); } else { r_list_addt(&H[l], &n[x]); ins(l, len[l], x); } }
    else if (op == 2) { if (!used[x] || l) symx_end_path(); r_list_del(&n[x]); for (l = 0; l < 2; l++) for (int i = 0; i < len[l]; i++) if (m[l][i] == x) { for (int j = i; j + 1 < len[l]; j++) m[l][j] = m[l][j + 1]; len[l]--; } used[x] = 0; symx_cover("del"); }
    else if (op == 3) { /* insert the first free node before element x of list l */
      int at = x, f = 0; while (f < NN && used[f]) f++; if (f == NN || at >= len[l]) symx_end_path(); rlist_t *e = &n[m[l][at]]; r_list_add(&n[f], e->prev, e); ins(l, at, f); symx_cover("mid"); }
    else { int o = !l, c = len[o]; int t[NN]; for (int i = 0; i < c; i++) t[i] = m[o][i]; r_list_splice(&H[o], &H[l]); len[o] = 0; for (int i = 0; i < c; i++) ins(l, i, t[i]); if (c && len[l] > c) symx_cover("splice"); }
    verify();
  }
  symx_cover("end"); return 0;
}
