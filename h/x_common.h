/* Independent reading of the documented pattern language: parser, and the set of prefix lengths in the language. */
#ifndef X_COMMON_H
#define X_COMMON_H
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "symx.h"
#include "rlib/rmem.h"
#include "rlib/rutf.h"
#include "rex/rexdb.h"
#include "rex/rexdfa.h"
#include "rex/rexregex.h"
#include "rex/rexnfasimulator.h"
#include "rex/rexdfasimulator.h"
#include "rex/rextransition.h"

enum { XN_SET, XN_CAT, XN_ALT, XN_REP };
#define XN_INF 1000u
typedef struct { int kind, a, b; unsigned min, max; int nr, neg; uint32_t lo[6], hi[6]; } xnode;
static xnode xn[96]; static int xnn;
/* ---- parser */
typedef struct { const unsigned char *p, *e; int err; } xps;
#define XEOF (-1)
static int xp_peek(xps *x, int *len) {
  int c, n, i; *len = 0;
  if (x->p >= x->e) return XEOF;
  c = *x->p; n = 1;
  if (c >= 0xC2 && c < 0xE0 && x->e - x->p >= 2) { n = 2; c &= 0x1F; } else if (c >= 0xE0 && c < 0xF0 && x->e - x->p >= 3) { n = 3; c &= 0x0F; } else if (c >= 0xF0 && x->e - x->p >= 4) { n = 4; c &= 7; }
  for (i = 1; i < n; i++) c = (c << 6) | (x->p[i] & 0x3F);
  if (c == '\n' || c == '\r') return XEOF;
  *len = n; return c;
}
static int xp_get(xps *x) { int n, c = xp_peek(x, &n); x->p += n; return c; }
static void xp_skip(xps *x, int nl) {
  for (;;) {
    if (x->p < x->e && (*x->p == ' ' || *x->p == '\t' || (nl && (*x->p == '\n' || *x->p == '\r' || *x->p == '\v' || *x->p == '\f')))) { x->p++; continue; }
    if (x->e - x->p >= 2 && x->p[0] == '\\' && x->p[1] == '\n') { x->p += 2; continue; }
    if (x->e - x->p >= 3 && x->p[0] == '\\' && x->p[1] == '\r' && x->p[2] == '\n') { x->p += 3; continue; }
    return;
  }
}
static int xp_la(xps *x) { int n; return xp_peek(x, &n); }
static int xp_esc(int c) { switch (c) { case 'r': return '\r'; case 'n': return '\n'; case 't': return '\t'; case '0': return 0; case 'f': return '\f'; case 'v': return '\v'; } return c; }
static int xp_new(int kind) { xnode *n = &xn[xnn]; memset(n, 0, sizeof *n); n->kind = kind; return xnn++; }
static void xp_range(xnode *n, uint32_t a, uint32_t b) { n->lo[n->nr] = a < b ? a : b; n->hi[n->nr++] = a < b ? b : a; }
static int xp_alt(xps *x);
static int xp_isd(int c, int base) { return base == 16 ? (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F') : base == 8 ? c >= '0' && c <= '7' : c >= '0' && c <= '9'; }
static uint32_t xp_item(xps *x) {
  int c = xp_get(x); uint32_t v = 0; int base = 10;
  if (c == '[' || c == ']' || c == '-' || c == XEOF) { x->err = 1; return 0; }
  if (c == '\\') { c = xp_get(x); if (c == XEOF) x->err = 1; return (uint32_t)xp_esc(c); }
  if (c != '#') return (uint32_t)c;
  c = xp_la(x);
  if (c == 'x' || c == 'X') { base = 16; xp_get(x); }
  else if (c == '0') { xp_get(x); base = 8; c = xp_la(x); if (c == 'x' || c == 'X') { base = 16; xp_get(x); } }
  else if (!xp_isd(c, 10)) { x->err = 1; return 0; }
  while (xp_isd(xp_la(x), base)) { c = xp_get(x); v = v * base + (c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10); }
  return v;
}
static int xp_factor(xps *x) {
  int c = xp_la(x), n;
  if (c == XEOF || (c < 128 && c > 0 && strchr("{}*?+])|", c))) { x->err = 1; return 0; }
  xp_get(x);
  if (c == '(') {
    xp_skip(x, 0); n = xp_alt(x); if (x->err) return 0;
    if (xp_la(x) != ')') { x->err = 1; return 0; }
    xp_get(x); xp_skip(x, 0); return n;
  }
  n = xp_new(XN_SET);
  if (c == '[') {
    if (xp_la(x) == '^') { xn[n].neg = 1; xp_get(x); }
    do {
      uint32_t a = xp_item(x), b = a; if (x->err) return 0;
      if (xp_la(x) == '-') { xp_get(x); b = xp_item(x); if (x->err) return 0; }
      xp_range(&xn[n], a, b);
    } while (xp_la(x) != ']');
    xp_get(x);
  } else if (c == '.') { xp_range(&xn[n], 0, '\n' - 1); xp_range(&xn[n], '\n' + 1, 0xFFFFFFFFu); }
  else {
    if (c == '\\') { c = xp_get(x); if (c == XEOF) { x->err = 1; return 0; } c = xp_esc(c); }
    xp_range(&xn[n], c, c);
  }
  xp_skip(x, 0); return n;
}
static unsigned xp_num(xps *x) { unsigned v = 0; if (!xp_isd(xp_la(x), 10)) { x->err = 1; return 0; } while (xp_isd(xp_la(x), 10)) v = v * 10 + (xp_get(x) - '0'); xp_skip(x, 0); return v; }
static int xp_q(xps *x) {
  int f = xp_factor(x), c, n; if (x->err) return 0;
  c = xp_la(x);
  if (c != '*' && c != '?' && c != '+' && c != '{') return f;
  n = xp_new(XN_REP); xn[n].a = f; xp_get(x);
  if (c == '*') xn[n].max = XN_INF;
  else if (c == '?') xn[n].max = 1;
  else if (c == '+') xn[n].min = 1, xn[n].max = XN_INF;
  else {
    xp_skip(x, 0); xn[n].min = xn[n].max = xp_num(x); if (x->err) return 0;
    if (xp_la(x) == ',') { xp_get(x); xp_skip(x, 0); if (xp_isd(xp_la(x), 10)) xn[n].max = xp_num(x); else xn[n].max = XN_INF; }
    if (xp_la(x) != '}' || xn[n].min > xn[n].max) { x->err = 1; return 0; }
    xp_get(x);
  }
  xp_skip(x, 0); return n;
}
static int xp_cat(xps *x) {
  int n = xp_q(x), m, c; if (x->err) return 0;
  while ((c = xp_la(x)) != XEOF && c != '|' && c != ')') { int q = xp_q(x); if (x->err) return 0; m = xp_new(XN_CAT); xn[m].a = n; xn[m].b = q; n = m; }
  return n;
}
static int xp_alt(xps *x) {
  int n = xp_cat(x), m, q; if (x->err) return 0;
  while (xp_la(x) == '|') { xp_get(x); xp_skip(x, 1); q = xp_cat(x); if (x->err) return 0; m = xp_new(XN_ALT); xn[m].a = n; xn[m].b = q; n = m; }
  return n;
}
/* root node, or -1 when the text is not a pattern */
static int x_parse(const char *s, size_t n) {
  xps x = { (const unsigned char *)s, (const unsigned char *)s + n, 0 }; int r;
  xp_skip(&x, 0); r = xp_alt(&x);
  return x.err || xp_la(&x) != XEOF ? -1 : r;
}
/* ---- meaning */
static unsigned xs_n; static uint32_t xs_c[16];   /* the subject's characters */
/* one path per answer: what remains of the comparison is concrete */
static unsigned xm_in(const xnode *n, uint32_t c) { unsigned r = 0; int i; for (i = 0; i < n->nr; i++) r |= (unsigned)(c >= n->lo[i]) & (unsigned)(c <= n->hi[i]); return symx_concretize(n->neg ? r ^ 1u : r); }
/* positions reachable from the positions in m */
static unsigned x_mt(int i, unsigned m) {
  const xnode *n = &xn[i]; unsigned r = 0, k;
  switch (n->kind) {
  case XN_SET: for (k = 0; k < xs_n; k++) if ((m >> k) & 1u && xm_in(n, xs_c[k])) r |= 1u << (k + 1); return r;
  case XN_CAT: return x_mt(n->b, x_mt(n->a, m));
  case XN_ALT: return x_mt(n->a, m) | x_mt(n->b, m);
  }
  for (k = 0; k < n->min; k++) m = x_mt(n->a, m);
  r = m;
  for (k = n->min; k < n->max && k < n->min + xs_n; k++) { m = x_mt(n->a, m); r |= m; }
  return r;
}
/* ---- pattern generator */
static char xg_t[160]; static unsigned xg_n;
static void xg_s(const char *s) { while (*s) xg_t[xg_n++] = *s++; }

static const char *const xg_atoms[] = { "a", "b", ".", "[ab]", "[^a]", "[a-c]", "[c-a]", "[bz-a]", "[^b-d0]", "\\.", "[\\]\\-a]", "[#x61-#x63]", "[^#0-#97]", "[aab-d]", "\\n", " a ", "[#98a]",
  "\xC3\xA9", "\xE2\x82\xAC", "[\xC3\xA9-\xE2\x82\xAC]", "[^\xC3\xA9]", "\xF0\x9F\x98\x80", "[#x10000-#xFFFFFFFF]", "\\\xC3\xA9", "\xC4\xAB" };
#define XG_ASCII 17
#define XG_ALL 25
static const char *const xg_quants[] = { "", "?", "*", "+", "{2}", "{1,2}", "{0}", "{2,}", "{0,2}", "{3}", "{0,1}", "{1,}", "{0,}", "{1}", "{ 2 , 3 }" };
#define XG_NQ 15
static void xg_atom(const char *nm, unsigned lo, unsigned hi) { xg_s(xg_atoms[symx_choose(nm, lo, hi)]); }
static void xg_quant(unsigned hi) { xg_s(xg_quants[symx_choose("q", 0, hi)]); }
#endif
