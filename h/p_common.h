/* Grammars as syntax trees: rendering to grammar text, a reference interpreter of the documented meaning (with its parse tree),
   and the real pipeline: create, open, load, close, compile, lookup, match/parse/scan. */
#ifndef P_COMMON_H
#define P_COMMON_H
#include "symx.h"
#include <string.h>
#include "rlib/rmem.h"
#include "rlib/rarray.h"
#include "rpa/rpadbex.h"
#include "rpa/rpastat.h"
#include "rpa/rparecord.h"
enum { N_CHR, N_CLS, N_ANY, N_STR, N_REF, N_SEQ, N_ALT, N_MIN };
enum { Q1, QOPT, QMUL, QMOP };
typedef struct { unsigned char kind, q, not, neg, nkid; short kid[6]; unsigned lo, hi; const char *s; } nd_t;
#define MAXN 96
#define MAXR 8
static nd_t nd[MAXN]; static int nnd;
typedef struct { const char *name; int root; int emit; int uid; int abortf; int lrec; int base; int rec; } gr_t;
static gr_t gr[MAXR]; static int ngr;
static char gtxt[1024]; static int gn;
static void g_reset(void) { nnd = 0; ngr = 0; gn = 0; gtxt[0] = 0; }
static int n_new(int kind) { nd_t *n = &nd[nnd]; memset(n, 0, sizeof(*n)); n->kind = (unsigned char)kind; return nnd++; }
static int n_chr(unsigned c) { int n = n_new(N_CHR); nd[n].lo = c; return n; }
static int n_cls(unsigned lo, unsigned hi) { int n = n_new(N_CLS); nd[n].lo = lo; nd[n].hi = hi; return n; }
static int n_any(void) { return n_new(N_ANY); }
static int n_str(const char *s) { int n = n_new(N_STR); nd[n].s = s; return n; }
static int n_ref(int r) { int n = n_new(N_REF); nd[n].lo = (unsigned)r; return n; }
static int n_op(int kind, int a, int b) { int n = n_new(kind); nd[n].kid[nd[n].nkid++] = (short)a; if (b >= 0) nd[n].kid[nd[n].nkid++] = (short)b; return n; }
static int n_add(int n, int k) { nd[n].kid[nd[n].nkid++] = (short)k; return n; }
static int n_q(int n, int q) { nd[n].q = (unsigned char)q; return n; }
static int n_not(int n) { nd[n].not = 1; return n; }
static int g_rule(const char *name, int root) { gr[ngr].name = name; gr[ngr].root = root; gr[ngr].emit = 1; gr[ngr].uid = 0; gr[ngr].abortf = 0; gr[ngr].lrec = 0; return ngr++; }
static void tx(const char *s) { while (*s) gtxt[gn++] = *s++; gtxt[gn] = 0; }
static int enc8(unsigned c, char *o) {
  if (c < 0x80) { o[0] = (char)c; return 1; }
  if (c < 0x800) { o[0] = (char)(0xC0 | c >> 6); o[1] = (char)(0x80 | (c & 63)); return 2; }
  if (c < 0x10000) { o[0] = (char)(0xE0 | c >> 12); o[1] = (char)(0x80 | (c >> 6 & 63)); o[2] = (char)(0x80 | (c & 63)); return 3; }
  o[0] = (char)(0xF0 | c >> 18); o[1] = (char)(0x80 | (c >> 12 & 63)); o[2] = (char)(0x80 | (c >> 6 & 63)); o[3] = (char)(0x80 | (c & 63)); return 4;
}
static void txc(unsigned c) { gn += enc8(c, gtxt + gn); gtxt[gn] = 0; }
static int g_style; /* 0: 'a' <A>; 1: "a" <:A:>; 2: bare characters, numeric classes in hex, wide spacing; 3: numeric classes in decimal, no spacing */
static void txnum(unsigned v, int hex) { char b[12]; int i = 12; b[--i] = 0; do { unsigned d = v % (hex ? 16 : 10); b[--i] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= hex ? 16 : 10; } while (v); tx(hex ? "#x" : "#"); tx(b + i); }
static void tx_chr(unsigned c) {
  if (g_style == 2) { if (c >= 'a' && c <= 'z') txc(c); else { tx("["); txnum(c, 1); tx("]"); } return; }
  if (g_style == 3) { tx("["); txnum(c, 0); tx("]"); return; }
  txc(g_style == 1 ? '"' : '\''); txc(c); txc(g_style == 1 ? '"' : '\'');
}
/* binding strength: ALT 0, MIN 1, SEQ 2, element 3 */
static void g_render(int n, int prec) {
  nd_t *d = &nd[n]; int own = d->kind == N_ALT ? 0 : d->kind == N_MIN ? 1 : d->kind == N_SEQ ? 2 : 3;
  int par = own < prec || ((d->q || d->not) && own < 3) || (d->q && d->kind == N_STR) || (d->not && d->kind == N_STR), i;
  if (d->not) tx("^");
  if (par) { tx("("); }
  switch (d->kind) {
  case N_CHR: tx_chr(d->lo); break;
  case N_CLS:
    txc('[');
    if (g_style >= 2 || d->lo <= 32) { int hx = g_style != 3 || d->lo == 0; txnum(d->lo, hx); if (d->hi != d->lo) { txc('-'); txnum(d->hi, hx); } }
    else { txc(d->lo); if (d->hi != d->lo) { txc('-'); txc(d->hi); } }
    txc(']'); break;
  case N_ANY: tx("."); break;
  case N_STR: if (g_style >= 2) { const char *q; for (q = d->s; *q; q++) { if (g_style == 2) tx(" "); tx_chr((unsigned char)*q); } } else { tx(g_style ? "\"" : "'"); tx(d->s); tx(g_style ? "\"" : "'"); } break;
  case N_REF: tx(g_style & 1 ? "<:" : "<"); tx(gr[d->lo].name); tx(g_style & 1 ? ":>" : ">"); break;
  default:
    for (i = 0; i < d->nkid; i++) {
      if (i) { const char *op = d->kind == N_ALT ? "|" : d->kind == N_MIN ? "-" : ""; if (g_style == 3) tx(op); else { tx(g_style == 2 ? "\t " : " "); tx(op); tx(d->kind == N_SEQ ? "" : " "); } }
      g_render(d->kid[i], d->kind == N_ALT ? 1 : d->kind == N_MIN ? 2 : 3);
    }
  }
  if (par) tx(")");
  if (d->q) tx(d->q == QOPT ? "?" : d->q == QMUL ? "+" : "*");
}
static void g_text(void) {
  int i;
  if (g_style == 2) tx("# a comment\n\n");
  for (i = 0; i < ngr; i++) { tx(gr[i].name); tx(g_style == 3 ? "::=" : " ::= "); g_render(gr[i].root, 0); tx("\n"); }
}
/* reference interpreter over a sequence of characters */
#define MAXIN 12
static unsigned or_in[MAXIN + 1]; static int or_n; static int or_icase;
typedef struct { int type, rule, off, siz; } orec_t;
#define MAXREC 192
static orec_t orc[MAXREC]; static int nor; static int or_abort, or_abortpos; /* 1 + rule that aborted */
static long or_steps;
/* the other case of a letter: ASCII, Latin-1, Greek, Cyrillic */
static unsigned other(unsigned c) {
  if (c < 128) return c >= 'A' && c <= 'Z' ? c + 32 : c >= 'a' && c <= 'z' ? c - 32 : c;
  if (c >= 0xC0 && c <= 0xDE && c != 0xD7) return c + 32; if (c >= 0xE0 && c <= 0xFE && c != 0xF7) return c - 32;
  if (c >= 0x391 && c <= 0x3AB && c != 0x3A2) return c + 32; if (c >= 0x3B1 && c <= 0x3CB && c != 0x3C2) return c - 32;
  if (c >= 0x410 && c <= 0x42F) return c + 32; if (c >= 0x430 && c <= 0x44F) return c - 32;
  return c;
}
/* characters of those blocks whose case partner is disputable */
static int odd_case(unsigned c) { return c == 0xD7 || c == 0xF7 || c == 0xDF || c == 0xFF || c == 0x390 || c == 0x3B0 || c == 0x3A2 || c == 0x3C2; }
static int o_elem(int n, int p); static int o_rule(int r, int p);
static int o_is(unsigned c, unsigned lo, unsigned hi) {
  int r = c >= lo && c <= hi;
  if (or_icase && !r) { unsigned d = other(c); r = d >= lo && d <= hi; }
  return r;
}
static int o_base(int n, int p) {
  nd_t *d = &nd[n]; int i, q, r, sv = nor, any;
  switch (d->kind) {
  case N_CHR: return p < or_n && o_is(or_in[p], d->lo, d->lo) ? 1 : -1;
  case N_CLS: return p < or_n && o_is(or_in[p], d->lo, d->hi) ? 1 : -1;
  case N_ANY: return p < or_n ? 1 : -1;
  case N_STR: for (i = 0; d->s[i]; i++) if (!(p + i < or_n && o_is(or_in[p + i], (unsigned char)d->s[i], (unsigned char)d->s[i]))) return -1; return i;
  case N_REF: return o_rule((int)d->lo, p);
  case N_SEQ: for (i = 0, q = p; i < d->nkid; i++) { r = o_elem(d->kid[i], q); if (or_abort) return -1; if (r < 0) { nor = sv; return -1; } q += r; } return q - p;
  case N_ALT: for (i = 0; i < d->nkid; i++) { r = o_elem(d->kid[i], p); if (or_abort) return -1; if (r > 0) return r; nor = sv; } return -1;
  case N_MIN:
    for (any = 0, i = 1; i < d->nkid && !any; i++) { r = o_elem(d->kid[i], p); if (or_abort) return -1; if (r > 0) any = 1; nor = sv; }
    if (any) return -1;
    return o_elem(d->kid[0], p);
  }
  return -1;
}
static int o_quant(int n, int p) {
  int q = nd[n].q, r, t = 0, sv;
  if (q == Q1) return o_base(n, p);
  if (q == QOPT) { sv = nor; r = o_base(n, p); if (or_abort) return -1; if (r <= 0) { nor = sv; return 0; } return r; }
  for (;;) { sv = nor; r = o_base(n, p + t); if (or_abort) return -1; if (r <= 0) { nor = sv; break; } t += r; }
  return t > 0 ? t : q == QMOP ? 0 : -1;
}
static int o_elem(int n, int p) {
  int r, sv = nor;
  if (!nd[n].not) return o_quant(n, p);
  r = o_quant(n, p); nor = sv; if (or_abort) return -1;
  return r >= 0 ? -1 : p < or_n ? 1 : -1;
}
/* left recursion: a rule that can reach itself at its own start is a base followed by any number of recursive tails */
static int o_inprog[MAXR]; static orec_t o_seed[MAXREC]; static int o_nseed, o_seedlen, o_head; static int o_anylr;
static int reach_n(int n, int target, unsigned seen);
static int reach_r(int r, int target, unsigned seen) { if (r == target) return 1; if (seen >> r & 1) return 0; return reach_n(gr[r].root, target, seen | 1u << r); }
static int reach_n(int n, int target, unsigned seen) {
  nd_t *d = &nd[n]; int i;
  if (d->kind == N_REF) return reach_r((int)d->lo, target, seen);
  if (d->kind == N_SEQ || d->kind == N_MIN) return reach_n(d->kid[0], target, seen);
  if (d->kind == N_ALT) for (i = 0; i < d->nkid; i++) if (reach_n(d->kid[i], target, seen)) return 1;
  return 0;
}
static int reach_body(int r, int target) { return reach_n(gr[r].root, target, 0); }
static void o_start(int r, int p) { if (gr[r].emit && nor < MAXREC) { orc[nor].type = RPA_RECORD_START; orc[nor].rule = r; orc[nor].off = p; nor++; } }
static void o_end(int r, int p, int me, int len) { if (gr[r].emit && nor < MAXREC) { orc[nor].type = RPA_RECORD_END; orc[nor].rule = r; orc[nor].off = p; orc[nor].siz = len; nor++; orc[me].siz = len; } }
static int o_grow(int n, int p) { /* match n at p going through the recursive reference, which stands for the seed */
  nd_t *d = &nd[n]; int i, q, r, sv = nor, me = nor;
  switch (d->kind) {
  case N_REF:
    if ((int)d->lo == o_head) { for (i = 0; i < o_nseed && nor < MAXREC; i++) orc[nor++] = o_seed[i]; return o_seedlen; }
    o_start((int)d->lo, p); r = o_grow(gr[d->lo].root, p); if (or_abort) return -1; if (r <= 0) { nor = sv; return -1; } o_end((int)d->lo, p, me, r); return r;
  case N_SEQ: q = o_grow(d->kid[0], p); if (or_abort) return -1; if (q < 0) { nor = sv; return -1; }
    for (i = 1, q += p; i < d->nkid; i++) { r = o_elem(d->kid[i], q); if (or_abort) return -1; if (r < 0) { nor = sv; return -1; } q += r; } return q - p;
  case N_ALT: for (i = 0; i < d->nkid; i++) if (reach_n(d->kid[i], o_head, 0)) { r = o_grow(d->kid[i], p); if (or_abort) return -1; if (r > 0) return r; nor = sv; } return -1;
  }
  return -1;
}
static int o_lrec(int r, int p) {
  int sv = nor, me = nor, len, l2, i, shd = o_head, ssl = o_seedlen, sns = o_nseed, sip = o_inprog[r]; static orec_t save[16][MAXREC]; static int depth;
  CHECK(depth < 16, "oracle: bounded nesting of left recursion");
  for (i = 0; i < sns; i++) save[depth][i] = o_seed[i];
  o_inprog[r] = p + 1; depth++;
  o_start(r, p); len = o_elem(gr[r].root, p);
  if (or_abort) { depth--; return -1; }
  o_inprog[r] = sip;
  if (len <= 0) { nor = sv; len = -1; if (gr[r].abortf) { or_abort = 1 + r; or_abortpos = p; } }
  else {
    o_end(r, p, me, len);
    for (;;) {
      o_head = r; o_seedlen = len; o_nseed = nor - sv; for (i = 0; i < o_nseed; i++) o_seed[i] = orc[sv + i];
      nor = sv; o_start(r, p); l2 = o_grow(gr[r].root, p);
      if (or_abort) { depth--; return -1; }
      if (l2 <= len) { nor = sv; for (i = 0; i < o_nseed; i++) orc[nor++] = o_seed[i]; break; }
      o_end(r, p, me, l2); len = l2;
    }
  }
  depth--; o_head = shd; o_seedlen = ssl; o_nseed = sns; for (i = 0; i < sns; i++) o_seed[i] = save[depth][i];
  return len;
}
static int o_rule(int r, int p) {
  int sv = nor, me = nor, len, i;
  if (or_abort) return -1;
  if (o_anylr && reach_body(r, r)) {
    if (o_inprog[r] == p + 1) return -1;
    for (i = 0; i < ngr; i++) if (i != r && o_inprog[i] == p + 1 && reach_body(i, r) && reach_body(r, i)) break;
    if (i == ngr) return o_lrec(r, p);
  }
  o_start(r, p);
  len = o_elem(gr[r].root, p);
  if (or_abort) return -1;
  if (len <= 0) { nor = sv; if (gr[r].abortf) { or_abort = 1 + r; or_abortpos = p; } return -1; }
  o_end(r, p, me, len);
  return len;
}
/* match of rule r at p: length in characters, 0 when there is none; records in orc[0..nor) */
static int o_match(int r, int p) { int l; nor = 0; or_abort = 0; l = o_rule(r, p); if (l <= 0) nor = 0; return or_abort ? -1 : l > 0 ? l : 0; }

static rpadbex_t *g_db(int optim, int bitmap) {
  rpadbex_t *db = rpa_dbex_create();
  CHECK(db != 0, "a database is created");
  rpa_dbex_cfgset(db, RPA_DBEXCFG_OPTIMIZATIONS, (unsigned long)optim); rpa_dbex_cfgset(db, RPA_DBEXCFG_BITMAP, (unsigned long)bitmap);
  CHECK(rpa_dbex_open(db) == 0, "a fresh database opens");
  return db;
}
static void g_load(rpadbex_t *db) {
  long n = (long)strlen(gtxt);
  CHECK(rpa_dbex_load(db, gtxt, (unsigned long)n) == n, "a well-formed grammar is accepted in full");
  rpa_dbex_close(db);
  CHECK(rpa_dbex_compile(db) == 0, "a well-formed grammar compiles");
}
#endif
