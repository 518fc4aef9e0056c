/* L04: string helpers against reference definitions written here; every source is an exact-size heap block. */
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include "rlib/rstring.h"
#include "rlib/rmem.h"
#ifndef L
#define L 3
#endif
static char *mk(unsigned *n, const char *nm, int nul) { *n = symx_choose("len", 0, L); char *p = malloc(*n + 1); symx_bytes(p, *n, nm); if (nul) for (unsigned i = 0; i < *n; i++) symx_assume(p[i] != 0); p[*n] = 0; return p; }
static int cmp(const char *a, const char *b, unsigned n) { for (unsigned i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static int sg(int x) { return x < 0 ? -1 : x > 0; }
static int is(rstring_t *s, const char *a, unsigned na, const char *b, unsigned nb) { if (s->size != na + nb || s->str[na + nb] != 0) return 0; int ok = 1; for (unsigned i = 0; i < na; i++) ok &= s->str[i] == a[i]; for (unsigned i = 0; i < nb; i++) ok &= s->str[na + i] == b[i]; return ok; }
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static long clen(const char *s, unsigned n) { for (unsigned i = 0; i < n; i++) if (!s[i]) return i; return n; }
int main(void) {
  unsigned na, nb, t = symx_choose("fn", 0, 9);
  if (t == 0) { char *a = mk(&na, "a", 1), *b = mk(&nb, "b", 1); unsigned n = symx_choose("n", 0, L + 1);
    CHECK(sg(r_strcmp(a, b)) == cmp(a, b, L + 1), "strcmp"); CHECK(sg(r_strncmp(a, b, n)) == cmp(a, b, n), "strncmp"); CHECK(r_strlen(a) == na, "strlen"); CHECK(r_strlen(0) == 0, "strlen of nothing");
    int e = na == n && cmp(a, b, n) == 0; CHECK(!!r_stringncmp(a, b, n) == e, "stringncmp is equality with a counted string"); if (e) symx_cover("eq"); free(a); free(b); }
  else if (t == 1) { char *a = mk(&na, "a", 1), *b = mk(&nb, "b", 1); int c = (signed char)symx_u8("c"); long at = -1, ac = -1;
    for (unsigned i = 0; i + nb <= na; i++) if (at < 0 && !memcmp(a + i, b, nb)) at = i;
    for (unsigned i = 0; i <= na; i++) if (ac < 0 && a[i] == (char)c) ac = i;
    CHECK(r_strstr(a, b) == (at < 0 ? 0 : a + at), "strstr"); CHECK(r_strchr(a, c) == (ac < 0 ? 0 : a + ac), "strchr"); if (at > 0) symx_cover("found"); free(a); free(b); }
  else if (t == 2) { /* duplication of counted, unterminated text: never read past the count */
    unsigned n = symx_choose("n", 0, L); char *a = malloc(n ? n : 1); symx_bytes(a, n, "a"); long c = clen(a, n);
    char *d = r_strndup(a, n); CHECK((long)r_strlen(d) == c, "strndup length"); int ok = 1; for (long i = 0; i < c; i++) ok &= d[i] == a[i]; CHECK(ok, "strndup bytes"); r_free(d);
    rstr_t *r = r_rstrdup(a, n); CHECK(r->size == n && r->str[n] == 0, "rstrdup size"); ok = 1; for (unsigned i = 0; i < n; i++) ok &= r->str[i] == a[i]; CHECK(ok, "rstrdup keeps every byte"); r_rstr_free(r);
    rstring_t *s = r_string_create_from_str_len(a, n); CHECK(is(s, a, c, "", 0), "string from counted text"); r_string_destroy(s); free(a); symx_cover("dup"); }
  else if (t == 3) { char *a = mk(&na, "a", 1); char *d = r_strdup(a); CHECK(!cmp(a, d, L + 2), "strdup"); r_free(d);
    rstring_t *s = r_string_create_from_ansi(a), *s0 = r_string_create_from_ansi(0); CHECK(is(s, a, na, "", 0), "string from text"); CHECK(is(s0, "", 0, "", 0), "string from nothing");
    rstring_t *c = r_string_create_from_string(s), *v = (rstring_t *)s->obj.copy(&s->obj); CHECK(is(c, a, na, "", 0) && is(v, a, na, "", 0) && c->str != s->str && v->str != s->str, "copies are equal and separate");
    r_string_destroy(s); CHECK(is(c, a, na, "", 0) && is(v, a, na, "", 0), "copies survive the original"); r_string_destroy(s0); r_string_destroy(c); r_string_destroy(v); free(a); }
  else if (t == 4) { char *a = mk(&na, "a", 1), *b = mk(&nb, "b", 1); unsigned n = symx_choose("n", 0, L), k = n < nb ? n : nb;
    rstring_t *s = r_string_create_from_ansi(a), *u = r_string_create_from_ansi(b), *c = r_string_cat(s, u);
    CHECK(is(c, a, na, b, nb), "concatenation"); CHECK(is(s, a, na, "", 0) && is(u, b, nb, "", 0), "operands unchanged");
    r_string_cat_len(s, b, n); CHECK(is(s, a, na, b, k), "counted append"); r_string_cat_len(s, 0, 2); CHECK(is(s, a, na, b, k), "appending nothing"); r_string_cat_len(c, b, n); CHECK(c->size == na + nb + k, "second append");
    r_string_destroy(s); r_string_destroy(u); r_string_destroy(c); free(a); free(b); symx_cover("cat"); }
  else if (t == 5) { char *a = mk(&na, "a", 1), *b = mk(&nb, "b", 1); unsigned n = symx_choose("n", 0, L + 1), k = n < nb ? n : nb;
    char *d = malloc(na + nb + 1); CHECK(r_strcpy(d, a) == d && !cmp(d, a, L + 2), "strcpy"); CHECK(r_strcat(d, b) == d && !cmp(d, a, na) && !cmp(d + na, b, L + 2), "strcat"); free(d);
    d = malloc(na + k + 1); r_strcpy(d, a); r_strncat(d, b, n); CHECK(!cmp(d, a, na) && !cmp(d + na, b, k) && d[na + k] == 0, "strncat"); free(d);
    d = malloc(n + 1); d[n] = 77; r_strncpy(d, b, n); CHECK(!cmp(d, b, n) && d[n] == 77 && (n <= nb || d[nb] == 0), "strncpy"); free(d); free(a); free(b); }
  else if (t == 6 || t == 7) { char *a = mk(&na, "a", 1); static const int B[] = {10, 16, 8, 2}; int base = B[symx_choose("base", 0, 3)]; for (unsigned i = 0; i < na; i++) symx_assume(a[i] == ' ' || a[i] == '-' || (a[i] >= '0' && a[i] <= '9') || (a[i] >= 'a' && a[i] <= 'g') || (a[i] >= 'A' && a[i] <= 'B') || a[i] == 'z');
    unsigned i = 0; int neg = 0; while (a[i] == ' ') i++; if (a[i] == '-') { neg = 1; i++; } unsigned st = i; long v = 0; while (dig(a[i]) < base) v = v * base + dig(a[i++]); char *e; long end = i == st ? 0 : i; if (neg) v = -v;
    if (t == 6) CHECK(r_strtol(a, &e, base) == v && e == a + end, "strtol"); else CHECK(r_strtoul(a, &e, base) == (size_t)v && e == a + end, "strtoul"); if (neg && v) symx_cover("neg"); free(a); }
  else if (t == 8) { static const long V[] = {0, 7, -1, 2147483648L, -9223372036854775807L - 1, 9223372036854775807L, 1234567890123L}; static const char *T[] = {"0", "7", "-1", "2147483648", "-9223372036854775808", "9223372036854775807", "1234567890123"};
    int i = symx_choose("v", 0, 6); rstring_t *s = r_string_create_from_int(V[i]); CHECK(is(s, T[i], strlen(T[i]), "", 0), "string from integer"); r_string_destroy(s); }
  else { static const double V[] = {0, 1.5, -2.25, 1e10, 0.1}; static const char *T[] = {"0.000000", "1.500000", "-2.250000", "10000000000.000000", "0.100000"};
    int i = symx_choose("v", 0, 4); rstring_t *s = r_string_create_from_double(V[i]); CHECK(is(s, T[i], strlen(T[i]), "", 0), "string from double"); char *e; CHECK(r_strtod(T[i], &e) == V[i] && !*e, "strtod"); r_string_destroy(s); char b[4]; int n = r_snprintf(b, 4, "%d", 12345); CHECK(n == 5 && !strcmp(b, "123"), "snprintf truncates"); }
  CHECK(symx_live_heap() == 0 && r_debug_get_allocmem() == 0, "all memory returned");
  symx_cover("end"); return 0;
}
