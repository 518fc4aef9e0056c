/* the JSON record parser against an independent reader of the JSON grammar */
#include "symx.h"
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include "rexjson.h"
#ifndef N
#define N 4
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#define MAXV 24
static unsigned char *t; static size_t n;
#define IS(i, c) ((i) < n && symx_concretize(t[i] == (unsigned char)(c)))
#define IN(i, lo, hi) ((i) < n && symx_concretize(t[i] >= (unsigned char)(lo) && t[i] <= (unsigned char)(hi)))
static int digit(size_t i) { return IN(i, '0', '9'); }
static int hex(size_t i) { return digit(i) || IN(i, 'a', 'f') || IN(i, 'A', 'F'); }
static size_t blanks(size_t i) { while (IS(i, ' ') || IS(i, '\t') || IS(i, '\n') || IS(i, '\r')) i++; return i; }
static size_t string_end(size_t i) { /* end of the string that begins at i, 0 when there is none */
  if (!IS(i, '"')) return 0;
  for (i++; i < n;) {
    if (IS(i, '"')) return i + 1;
    if (IN(i, 0, 0x1f)) return 0;
    if (!IS(i, '\\')) { i++; continue; }
    if (IS(i + 1, 'u')) { if (!(hex(i + 2) && hex(i + 3) && hex(i + 4) && hex(i + 5))) return 0; i += 6; }
    else if (IS(i + 1, '"') || IS(i + 1, '\\') || IS(i + 1, '/') || IS(i + 1, 'b') || IS(i + 1, 'f') || IS(i + 1, 'n') || IS(i + 1, 'r') || IS(i + 1, 't')) i += 2;
    else return 0;
  }
  return 0;
}
static size_t number_end(size_t i, int *isint) {
  size_t e; if (IS(i, '-')) i++;
  if (IS(i, '0')) i++; else if (digit(i)) { while (digit(i)) i++; } else return 0;
  *isint = 1; e = i;
  if (IS(e, '.') && digit(e + 1)) { *isint = 0; e++; while (digit(e)) e++; i = e; }
  if (IS(e, 'e') || IS(e, 'E')) { e++; if (IS(e, '+') || IS(e, '-')) e++; if (digit(e)) { *isint = 0; while (digit(e)) e++; i = e; } }
  return i;
}
static size_t word_end(size_t i, const char *w) { for (; *w; w++, i++) if (!IS(i, *w)) return 0; return i; }
/* expected tree */
static struct { rexjson_valuetype_t type; size_t name, namesize, value, valuesize; int begin, end, child, next; } v[MAXV];
static int nv, nr, begun, maxdepth; static size_t bad;
static int fail(size_t i) { bad = i; return -1; }
/* reads a value at i, leaves the end in *e; -1 with the offending position in bad */
static int value(size_t i, size_t *e, int depth, size_t name, size_t namesize) {
  int me, last = -1, c, isint = 0; size_t x;
  begun++; if (depth > maxdepth) maxdepth = depth;
  i = blanks(i); if (begun > MAXV) { symx_end_path(); }
  me = nv++; v[me].name = name; v[me].namesize = namesize; v[me].value = i; v[me].child = v[me].next = -1; v[me].begin = nr++;
  if (IS(i, '{') || IS(i, '[')) {
    int obj = IS(i, '{'), first = 1; size_t j = blanks(i + 1); v[me].type = obj ? REXJSON_VALUE_OBJECT : REXJSON_VALUE_ARRAY;
    if (!IS(j, obj ? '}' : ']')) for (;;) {
      size_t ns = 0, nz = 0;
      if (obj) { j = blanks(j); x = string_end(j); if (!x) return fail(j); ns = j; nz = x - j; j = blanks(x); if (!IS(j, ':')) return fail(j); j++; }
      if ((c = value(j, &x, depth + 1, ns, nz)) < 0) return -1;
      if (first) v[me].child = c; else v[last].next = c;
      last = c; first = 0; j = blanks(x);
      if (IS(j, ',')) { j++; continue; }
      break;
    }
    if (!IS(j, obj ? '}' : ']')) return fail(j);
    x = j + 1;
  }
  else if ((x = string_end(i))) v[me].type = REXJSON_VALUE_STRING;
  else if ((x = number_end(i, &isint))) v[me].type = isint ? REXJSON_VALUE_INT : REXJSON_VALUE_NUMBER;
  else if ((x = word_end(i, "true"))) v[me].type = REXJSON_VALUE_TRUE;
  else if ((x = word_end(i, "false"))) v[me].type = REXJSON_VALUE_FALSE;
  else if ((x = word_end(i, "null"))) v[me].type = REXJSON_VALUE_NULL;
  else return fail(i);
  v[me].valuesize = x - i; v[me].end = nr++; *e = x; return me;
}
int main(void) {
  static const char pre[] = PRE, post[] = POST; size_t a = sizeof pre - 1, z = sizeof post - 1, k, e = 0, i; int ok; rexjson_t ctx; rexjson_record_t *r; ssize_t ret;
#ifdef ALPHA
  static const char al[] = ALPHA;
#endif
#ifdef LIMITS
  size_t nrec = symx_choose("records", 0, 8), lev = symx_choose("levels", 0, 3);
#else
  size_t nrec = 2 * MAXV, lev = MAXV;
#endif
  k = symx_choose("n", NLO, N); n = a + k + z;
  t = malloc(n ? n : 1); memcpy(t, pre, a); symx_bytes(t + a, k, "t"); memcpy(t + a + k, post, z);
#ifdef ALPHA
  for (i = 0; i < k; i++) { size_t j; int m = 0; for (j = 0; j + 1 < sizeof al; j++) m |= t[a + i] == (unsigned char)al[j]; symx_assume(m); }
#endif
  if (!n) { free(t); t = malloc(0); }
  r = malloc(nrec * sizeof *r); memset(r, 0, nrec * sizeof *r);
  symx_fork_select();
  ret = rexjson_parse_buffer(&ctx, r, nrec, (const char *)t, n, lev);
  ok = value(0, &e, 1, 0, 0) >= 0;
  if (ok && nrec >= 2u * nv && lev >= (size_t)maxdepth) {
    CHECK(ret >= 0 || 0, "a JSON value is accepted");
    CHECK(ret == (ssize_t)v[0].valuesize, "the size of the value is returned");
    CHECK(rexjson_get_error(&ctx) == REXJSON_E_NONE, "no error is reported");
    for (i = 0; i < (size_t)nv; i++) {
      rexjson_record_t *b = r + v[i].begin, *f = r + v[i].end;
      CHECK(b->rectype == REXJSON_RECORD_BEGIN && f->rectype == REXJSON_RECORD_END, "the records are nested like the values");
      CHECK(b->valtype == v[i].type && f->valtype == v[i].type, "the type of a value");
      CHECK(b->value == v[i].value && b->valuesize == v[i].valuesize && f->value == v[i].value && f->valuesize == v[i].valuesize, "the position and size of a value");
      CHECK(b->namesize == v[i].namesize && f->namesize == v[i].namesize && (!b->namesize || (b->name == v[i].name && f->name == v[i].name)), "the position and size of a name");
      CHECK(rexjson_recordtree_firstchild(r, nrec, v[i].begin) == (v[i].child < 0 ? -1 : v[v[i].child].begin), "the first child of a value");
      CHECK(rexjson_recordtree_next(r, nrec, v[i].begin) == (v[i].next < 0 ? -1 : v[v[i].next].begin), "the value that follows");
      CHECK(rexjson_recordtree_firstchild(r, nrec, v[i].end) == -1 && rexjson_recordtree_next(r, nrec, v[i].end) == -1, "an end record has neither");
    }
    for (i = 2 * nv; i < nrec; i++) CHECK(r[i].rectype == REXJSON_RECORD_NONE, "no record beyond the tree");
    CHECK(rexjson_recordtree_firstchild(r, nrec, nrec) == -1 && rexjson_recordtree_next(r, nrec, -1) == -1, "no record outside the array");
#ifdef DUMP
    { size_t len; const char *o; int lines = 0; cap_begin(); rexjson_dump_tree(stdout, r, nrec, 0, (const char *)t, 0); o = cap_end(&len); for (i = 0; i < len; i++) lines += symx_concretize(o[i] == '\n'); CHECK(lines == nv, "the tree is printed with one line for each value");
      lines = 0; cap_begin(); rexjson_dump_records(stdout, r, nrec, (const char *)t); o = cap_end(&len); for (i = 0; i < len; i++) lines += symx_concretize(o[i] == '\n'); CHECK(lines == 2 * nv, "the records are printed with one line each"); }
#endif
    symx_cover("accepted");
  } else {
    int er = rexjson_get_error(&ctx), norec = nrec < 2u * begun, nolev = lev < (size_t)maxdepth;
    CHECK(ret < 0, "what does not begin with a JSON value, or does not fit, is refused");
    CHECK(er == REXJSON_E_UNEXPECTEDCHAR || er == REXJSON_E_NOMEM || er == REXJSON_E_MAXRECURSIONS, "an error code is set");
    if (!norec) CHECK(er != REXJSON_E_NOMEM, "there were enough records");
    if (!nolev) CHECK(er != REXJSON_E_MAXRECURSIONS, "there were enough levels");
    if (ok) CHECK(er != REXJSON_E_UNEXPECTEDCHAR, "nothing was unexpected");
    if (er == REXJSON_E_UNEXPECTEDCHAR) CHECK(rexjson_get_error_offset(&ctx) == bad, "the error offset is that of the first unexpected token");
    else CHECK(rexjson_get_error_offset(&ctx) <= n, "the error offset is inside the buffer");
    if (ok) symx_cover("limits"); else symx_cover("refused");
  }
  free(t); free(r); symx_cover("end"); return 0;
}
