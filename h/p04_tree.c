/* P04: navigation, copy, move and user types over every well-formed record forest */
#include "symx.h"
#include <string.h>
#include "rlib/rmem.h"
#include "rpa/rparecord.h"
#ifndef NODES
#define NODES 4
#endif
#define N (2 * NODES)
static int mate[N], up[N], n;
static rparecord_t orig[N];
static long as(int i, unsigned t) { /* the begin or end record of the node i belongs to */
  int s = mate[i] > i ? i : mate[i], e = mate[i] > i ? mate[i] : i;
  return t == RPA_RECORD_START ? s : e;
}
static int walked[4 * N], nw; static long stopat;
static long cb(rarray_t *r, long rec, rpointer u) { CHECK(nw < 4 * N, "a walk ends"); walked[nw++] = (int)rec; return rec == stopat ? -1 : 0; }
static int same(const rparecord_t *a, const rparecord_t *b) { return a->rule == b->rule && a->input == b->input && a->inputoff == b->inputoff && a->inputsiz == b->inputsiz && a->type == b->type && a->ruleid == b->ruleid && a->ruleuid == b->ruleuid && a->usertype == b->usertype && a->userdata == b->userdata; }
int main(void) {
  rarray_t *rs, *dst; int st[N], sp = 0, i, j, left; unsigned op;
  long live = (long)symx_live_heap();
  n = 2 * (int)symx_choose("nodes", 1, NODES);
  rs = rpa_records_create(); dst = rpa_records_create(); CHECK(rs != 0 && dst != 0, "record arrays are created");
  for (i = 0, left = n / 2; i < n; i++) {
    int o = sp == 0 ? 1 : left == 0 ? 0 : (int)symx_choose("open", 0, 1); rparecord_t r;
    memset(&r, 0, sizeof(r)); r.type = o ? RPA_RECORD_START : RPA_RECORD_END; r.rule = "r"; r.input = "xxxxxxxxxxxxxxxx" + i; r.inputoff = (unsigned long)i;
    r.usertype = symx_u32("ut"); r.ruleuid = symx_u32("uid"); r.userdata = (ruword)(100 + i);
    if (o) { up[i] = sp ? st[sp - 1] : -1; st[sp++] = i; left--; } else { sp--; mate[i] = st[sp]; mate[st[sp]] = i; up[i] = up[st[sp]]; r.usertype = orig[st[sp]].usertype; r.ruleuid = orig[st[sp]].ruleuid; }
    orig[i] = r; r_array_add(rs, &r);
  }
  CHECK(rpa_records_length(rs) == n, "the list has all records");
  i = (int)symx_choose("rec", 0, (unsigned)n + 1) - 1;
  op = symx_choose("op", 0, 4);
  if (i < 0 || i >= n) { /* outside the list */
    unsigned t = symx_choose("t", RPA_RECORD_START, RPA_RECORD_END);
    if (op == 0) CHECK(rpa_recordtree_get(rs, i, t) == -1 && rpa_recordtree_firstchild(rs, i, t) == -1 && rpa_recordtree_lastchild(rs, i, t) == -1 && rpa_recordtree_next(rs, i, t) == -1 && rpa_recordtree_prev(rs, i, t) == -1 && rpa_recordtree_parent(rs, i, t) == -1, "there is nothing outside the list");
    else if (op == 1) CHECK(rpa_record_get(rs, i) == 0 && rpa_records_slot(rs, i) == 0 && rpa_recordtree_size(rs, i) == -1, "there is no record outside the list");
    else if (op == 2) { rpa_record_setusertype(rs, i, 7, RVALSET_NONE); CHECK(rpa_record_getusertype(rs, i) == -1 && rpa_record_getruleuid(rs, i) == -1, "no user type outside the list"); for (j = 0; j < n; j++) CHECK(same(rpa_record_get(rs, j), &orig[j]), "setting outside the list changes nothing"); }
    symx_cover("outside");
  } else if (op == 0) { /* navigation, for both request types */
    unsigned t = symx_choose("t", RPA_RECORD_START, RPA_RECORD_END); int s = (int)as(i, RPA_RECORD_START), e = (int)as(i, RPA_RECORD_END); long r;
    CHECK(rpa_recordtree_get(rs, i, t) == as(i, t), "begin and end of a node find each other");
    CHECK(rpa_recordtree_firstchild(rs, i, t) == (e > s + 1 ? as(s + 1, t) : -1), "first child");
    CHECK(rpa_recordtree_lastchild(rs, i, t) == (e > s + 1 ? as(e - 1, t) : -1), "last child");
    CHECK(rpa_recordtree_next(rs, i, t) == (e + 1 < n && orig[e + 1].type == RPA_RECORD_START ? as(e + 1, t) : -1), "next sibling");
    CHECK(rpa_recordtree_prev(rs, i, t) == (s > 0 && orig[s - 1].type == RPA_RECORD_END ? as(s - 1, t) : -1), "previous sibling");
    CHECK(rpa_recordtree_parent(rs, i, t) == (up[s] >= 0 ? as(up[s], t) : -1), "parent");
    CHECK(rpa_recordtree_size(rs, i) == e - s + 1, "size of a branch");
    r = rpa_recordtree_next(rs, i, t); if (r >= 0) { CHECK(rpa_recordtree_prev(rs, r, t) == as(i, t), "next and previous are inverse"); symx_cover("sibling"); }
    r = rpa_recordtree_firstchild(rs, i, t); if (r >= 0) { CHECK(rpa_recordtree_parent(rs, r, t) == as(i, t), "the parent of a child"); symx_cover("child"); }
    CHECK(rpa_record_get(rs, i) == rpa_records_slot(rs, i) && same(rpa_record_get(rs, i), &orig[i]), "access by index");
  } else if (op == 1) { /* walk */
    int s = (int)as(i, RPA_RECORD_START), e = (int)as(i, RPA_RECORD_END); long r; stopat = (long)symx_choose("stop", 0, (unsigned)n) - 1; nw = 0;
    r = rpa_recordtree_walk(rs, i, 0, cb, 0);
    if (stopat >= s && stopat <= e) { CHECK(r == -1 && nw == stopat - s + 1, "a walk stops when the visitor says so"); symx_cover("stopped"); }
    else CHECK(r == 0 && nw == e - s + 1, "a walk visits the whole branch");
    for (j = 0; j < nw; j++) CHECK(walked[j] == s + j, "a walk visits records in order");
  } else if (op == 2) { /* copy */
    int s = (int)as(i, RPA_RECORD_START), e = (int)as(i, RPA_RECORD_END), k = (int)symx_choose("pre", 0, 1);
    if (k) r_array_add(dst, &orig[0]);
    CHECK(rpa_recordtree_copy(dst, rs, i) == e - s + 1, "copying reports the records copied");
    CHECK(rpa_records_length(dst) == e - s + 1 + k, "exactly the branch is copied");
    for (j = s; j <= e; j++) CHECK(same(rpa_record_get(dst, k + j - s), &orig[j]), "a copied branch is the branch");
    for (j = 0; j < n; j++) CHECK(same(rpa_record_get(rs, j), &orig[j]), "copying leaves the source alone");
    symx_cover("copy");
  } else if (op == 3) { /* move a block within the list */
    int s = (int)as(i, RPA_RECORD_START), sz = (int)as(i, RPA_RECORD_END) - s + 1, d = (int)symx_choose("dst", 0, (unsigned)n), r = rpa_recordtree_move(rs, d, s, sz);
    if (d + sz > n) { CHECK(r == -1, "a move beyond the end is refused"); for (j = 0; j < n; j++) CHECK(same(rpa_record_get(rs, j), &orig[j]), "a refused move changes nothing"); symx_cover("refused"); }
    else { CHECK(r == 0, "a move succeeds"); for (j = 0; j < n; j++) CHECK(same(rpa_record_get(rs, j), j >= d && j < d + sz ? &orig[s + j - d] : &orig[j]), "a move preserves the branch and leaves other records alone"); }
    CHECK(rpa_records_length(rs) == n, "a move keeps the length");
  } else { /* user types */
    static const rvalset_t OPS[] = { RVALSET_NONE, RVALSET_OR, RVALSET_XOR, RVALSET_AND }; unsigned v = symx_u32("v"), k = symx_choose("setop", 0, 3), was = orig[i].usertype, want;
    want = k == 0 ? v : k == 1 ? was | v : k == 2 ? was ^ v : was & v;
    CHECK(rpa_record_getruleuid(rs, i) == (long)orig[i].ruleuid, "the rule uid is that of the node");
    rpa_record_setusertype(rs, i, v, OPS[k]);
    for (j = 0; j < n; j++) {
      rparecord_t x = orig[j]; if (as(j, RPA_RECORD_START) == as(i, RPA_RECORD_START)) x.usertype = want;
      CHECK(same(rpa_record_get(rs, j), &x), "a user type is set on the node and on no other");
      CHECK(rpa_record_getusertype(rs, j) == (long)x.usertype, "a user type is read back from either end");
    }
    symx_cover("usertype");
  }
  rpa_records_destroy(rs); rpa_records_destroy(dst);
  CHECK((long)symx_live_heap() == live, "record arrays are released");
  symx_cover("end");
  return 0;
}
