/* The part of the C library the code under test uses, as plain C so that it
 * can be executed symbolically.  Behaviour follows ISO C / POSIX in the C locale. */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#undef errno
typedef unsigned char uc;
int *__errno_location(void) { static int e; return &e; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return (uc)*a - (uc)*b; }
int strncmp(const char *a, const char *b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (uc)*a - (uc)*b : 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char *)h; if (!*h) return 0; } }
int memcmp(const void *a, const void *b, size_t n) { const uc *x = a, *y = b; int r = 0; while (n--) { int d = (int)x[n] - (int)y[n]; r = d ? d : r; } return r; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *s, int c, size_t n) { const uc *p = s; for (; n--; p++) if (*p == (uc)c) return (void *)p; return 0; }
void *mempcpy(void *d, const void *s, size_t n);
extern void *malloc(size_t); extern void *realloc(void *, size_t); extern void free(void *);
extern void *memcpy(void *, const void *, size_t); extern void *memset(void *, int, size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *p = malloc(n); if (p) memcpy(p, s, n); return p; }
/* ctype */
#define UP 0x100
#define LO 0x200
#define AL 0x400
#define DI 0x800
#define XD 0x1000
#define SP 0x2000
#define PR 0x4000
#define GR 0x8000
#define BL 1
#define CN 2
#define PU 4
#define AN 8
#define C8(x) x, x, x, x, x, x, x, x
#define P1 (PR | GR | PU)
#define D1 (DI | XD | PR | GR | AN)
#define U1 (UP | AL | PR | GR | AN)
#define L1 (LO | AL | PR | GR | AN)
#define S1 (CN | SP)
static const unsigned short ctb[384] = {
  [128] = CN, CN, CN, CN, CN, CN, CN, CN, CN, CN | SP | BL, S1, S1, S1, S1, CN, CN, C8(CN), C8(CN),
  SP | PR | BL, P1, P1, P1, P1, P1, P1, P1, C8(P1), D1, D1, D1, D1, D1, D1, D1, D1, D1, D1, P1, P1, P1, P1, P1, P1,
  P1, U1 | XD, U1 | XD, U1 | XD, U1 | XD, U1 | XD, U1 | XD, U1, C8(U1), C8(U1), U1, U1, U1, P1, P1, P1, P1, P1,
  P1, L1 | XD, L1 | XD, L1 | XD, L1 | XD, L1 | XD, L1 | XD, L1, C8(L1), C8(L1), L1, L1, L1, P1, P1, P1, P1, CN };
const unsigned short **__ctype_b_loc(void) { static const unsigned short *p = ctb + 128; return &p; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int32_t lowt[384], upt[384];
static void ctinit(void) { for (int i = 0; i < 384; i++) { int c = i - 128; lowt[i] = c < -1 ? c & 255 : tolower(c); upt[i] = c < -1 ? c & 255 : toupper(c); } }
const int32_t **__ctype_tolower_loc(void) { static const int32_t *p; if (!p) { ctinit(); p = lowt + 128; } return &p; }
const int32_t **__ctype_toupper_loc(void) { static const int32_t *p; if (!p) { ctinit(); p = upt + 128; } return &p; }
int isalnum(int c) { return ctb[128 + c] & AN; } int isalpha(int c) { return ctb[128 + c] & AL; } int isdigit(int c) { return ctb[128 + c] & DI; }
int isspace(int c) { return ctb[128 + c] & SP; } int isxdigit(int c) { return ctb[128 + c] & XD; } int isprint(int c) { return ctb[128 + c] & PR; }
int isupper(int c) { return ctb[128 + c] & UP; } int islower(int c) { return ctb[128 + c] & LO; } int iscntrl(int c) { return ctb[128 + c] & CN; } int ispunct(int c) { return ctb[128 + c] & PU; }
/* numbers */
static int digv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static uint64_t sto(const char *s, char **e, int b, int sg) {
  const char *p = s; int neg = 0, any = 0, ov = 0; uint64_t v = 0;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  if (*p == '-') neg = 1, p++; else if (*p == '+') p++;
  if ((b == 0 || b == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv(p[2]) < 16) p += 2, b = 16;
  if (b == 0) b = *p == '0' ? 8 : 10;
  for (; digv(*p) < b; p++) { any = 1; uint64_t n = v * b + digv(*p); if (v > (~0ull - digv(*p)) / b) ov = 1; v = n; }
  if (e) *e = (char *)(any ? p : s);
  if (sg) { if (ov || v > (neg ? 1ull << 63 : ~0ull >> 1)) { *__errno_location() = ERANGE; return neg ? 1ull << 63 : ~0ull >> 1; } }
  else if (ov) { *__errno_location() = ERANGE; return ~0ull; }
  return neg ? -v : v;
}
long strtol(const char *s, char **e, int b) { return sto(s, e, b, 1); }
unsigned long strtoul(const char *s, char **e, int b) { return sto(s, e, b, 0); }
long long strtoll(const char *s, char **e, int b) { return sto(s, e, b, 1); }
unsigned long long strtoull(const char *s, char **e, int b) { return sto(s, e, b, 0); }
long __isoc23_strtol(const char *s, char **e, int b) { return sto(s, e, b, 1); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return sto(s, e, b, 0); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return sto(s, e, b, 1); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return sto(s, e, b, 0); }
int atoi(const char *s) { return sto(s, 0, 10, 1); }
long atol(const char *s) { return sto(s, 0, 10, 1); }
double strtod(const char *s, char **e) {
  const char *p = s; int neg = 0, any = 0, ex = 0; double v = 0;
  while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
  if (*p == '-') neg = 1, p++; else if (*p == '+') p++;
  for (; *p >= '0' && *p <= '9'; p++) v = v * 10 + (*p - '0'), any = 1;
  if (*p == '.') for (p++; *p >= '0' && *p <= '9'; p++) v = v * 10 + (*p - '0'), ex--, any = 1;
  if (any && (*p == 'e' || *p == 'E')) { const char *q = p + 1; int en = 0, x = 0; if (*q == '-') en = 1, q++; else if (*q == '+') q++; if (*q >= '0' && *q <= '9') { for (; *q >= '0' && *q <= '9'; q++) if (x < 10000) x = x * 10 + (*q - '0'); ex += en ? -x : x; p = q; } }
  if (e) *e = (char *)(any ? p : s);
  if (ex < 0) { if (ex < -400) v = 0; else { double q = 1; while (ex > -300 && ex++ < 0) q *= 10; v /= q; while (ex++ < 0) v /= 10; } } else { if (ex > 400 && v != 0) ex = 400; while (ex-- > 0) v *= 10; }
  return neg ? -v : v;
}
double atof(const char *s) { return strtod(s, 0); }
double fmod(double a, double b) { double x = a < 0 ? -a : a, y = b < 0 ? -b : b; if (!(y > 0) || x != x) return (a - a) / (a - a); if (x < 9e15 && y >= 1) { double q = (double)(int64_t)(x / y); x -= q * y; if (x < 0) x += y; if (x >= y) x -= y; } return a < 0 ? -x : x; }
/* streams: every stream is a capture buffer */
typedef struct _IO_FILE { char *buf; size_t len, cap; const char *in; size_t inlen, inpos; int err; } FILE;
static char outb[1 << 16], errb[1 << 12];
static FILE f_out = {outb, 0, sizeof outb}, f_err = {errb, 0, sizeof errb}, f_in;
FILE *stdout = &f_out, *stderr = &f_err, *stdin = &f_in;
static void put(FILE *f, char c) { if (f->len < f->cap) f->buf[f->len++] = c; }
int fputc(int c, FILE *f) { put(f, c); return (uc)c; }
int putc(int c, FILE *f) { return fputc(c, f); }
int putchar(int c) { return fputc(c, stdout); }
int fputs(const char *s, FILE *f) { while (*s) put(f, *s++); return 1; }
int puts(const char *s) { fputs(s, stdout); put(stdout, '\n'); return 1; }
size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { const char *c = p; size_t t = s * n; if (f->len + t <= f->cap) { memcpy(f->buf + f->len, c, t); f->len += t; } else for (size_t i = 0; i < t; i++) put(f, c[i]); return n; }
int fflush(FILE *f) { return 0; }
int ferror(FILE *f) { return 0; }
void cap_begin(void) { f_out.len = 0; }
const char *cap_end(size_t *n) { *n = f_out.len; put(&f_out, 0); f_out.len = 0; return outb; }
/* formatted output */
typedef struct { char *b; size_t cap, n; FILE *f; } Sink;
static void emit(Sink *k, char c) { if (k->f) put(k->f, c); else if (k->n < k->cap) k->b[k->n] = c; k->n++; }
static void pad(Sink *k, char c, long n) { while (n-- > 0) emit(k, c); }
static int fmtDouble(char *o, double v, int prec, char conv) {
  /* decimal expansion good to 17 significant digits; used on concrete values only */
  int n = 0; if (v != v) { o[0] = 'n'; o[1] = 'a'; o[2] = 'n'; return 3; }
  if (v < 0) { o[n++] = '-'; v = -v; }
  if (v > 1.7e308) { o[n++] = 'i'; o[n++] = 'n'; o[n++] = 'f'; return n; }
  if (prec < 0) prec = 6;
  int e10 = 0; double m = v;
  if (conv == 'f') { if (v < 1e18) { uint64_t ip = (uint64_t)v; double fr = v - (double)ip; uint64_t sc = 1; int p = prec > 17 ? 17 : prec; for (int i = 0; i < p; i++) sc *= 10; uint64_t fi = (uint64_t)(fr * (double)sc + 0.5); if (fi >= sc) ip++, fi -= sc; char t[24]; int c = 0; do t[c++] = '0' + ip % 10, ip /= 10; while (ip); while (c) o[n++] = t[--c]; if (prec) { o[n++] = '.'; for (int i = 0; i < p; i++) { sc /= 10; o[n++] = '0' + (fi / sc) % 10; } for (int i = p; i < prec; i++) o[n++] = '0'; } return n; } conv = 'e'; }
  if (m != 0) { while (m >= 10) m /= 10, e10++; while (m < 1) m *= 10, e10--; }
  int nd = conv == 'e' ? prec + 1 : (prec ? prec : 1); if (nd > 17) nd = 17; char d[20]; uint64_t sc = 1; for (int i = 1; i < nd; i++) sc *= 10;
  uint64_t q = (uint64_t)(m * (double)sc + 0.5); if (q >= sc * 10) q /= 10, e10++;
  for (int i = nd; i-- > 0;) d[i] = '0' + q % 10, q /= 10;
  if (conv == 'g' && e10 >= -4 && e10 < nd) { while (nd > 1 && nd > e10 + 1 && d[nd - 1] == '0') nd--; if (e10 < 0) { o[n++] = '0'; o[n++] = '.'; for (int i = -1; i > e10; i--) o[n++] = '0'; for (int i = 0; i < nd; i++) o[n++] = d[i]; } else for (int i = 0; i < nd; i++) { if (i == e10 + 1) o[n++] = '.'; o[n++] = d[i]; } return n; }
  if (conv == 'g') while (nd > 1 && d[nd - 1] == '0') nd--;
  o[n++] = d[0]; if (nd > 1) { o[n++] = '.'; for (int i = 1; i < nd; i++) o[n++] = d[i]; }
  o[n++] = 'e'; o[n++] = e10 < 0 ? '-' : '+'; if (e10 < 0) e10 = -e10; if (e10 > 99) o[n++] = '0' + e10 / 100; o[n++] = '0' + e10 / 10 % 10; o[n++] = '0' + e10 % 10; return n;
}
static int fmt(Sink *k, const char *f, va_list ap) {
  for (; *f; f++) {
    if (*f != '%') { emit(k, *f); continue; }
    f++; int left = 0, zero = 0, plus = 0, sp = 0, alt = 0, l = 0, prec = -1; long w = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) left = 1, w = -w; f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') prec = va_arg(ap, int), f++; else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j' || *f == 't') { if (*f == 'h') l--; else l++; f++; }
    char t[400]; int n = 0; uint64_t v; int neg = 0; int base = 10; char hex = 'a';
    switch (*f) {
    case 'c': { char c = va_arg(ap, int); if (!left) pad(k, ' ', w - 1); emit(k, c); if (left) pad(k, ' ', w - 1); break; }
    case 's': { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; long m = 0; while ((prec < 0 || m < prec) && s[m]) m++; if (!left) pad(k, ' ', w - m); for (long i = 0; i < m; i++) emit(k, s[i]); if (left) pad(k, ' ', w - m); break; }
    case 'd': case 'i': { int64_t x = l > 0 ? va_arg(ap, int64_t) : va_arg(ap, int); neg = x < 0; v = neg ? -(uint64_t)x : (uint64_t)x; goto num; }
    case 'p': alt = 1; l = 1; /* fallthrough */
    case 'x': base = 16; goto un;
    case 'X': base = 16; hex = 'A'; goto un;
    case 'o': base = 8; goto un;
    case 'u': un: v = l > 0 ? va_arg(ap, uint64_t) : va_arg(ap, unsigned); plus = sp = 0; if (l == -1) v = (uint16_t)v; else if (l == -2) v = (uint8_t)v;
    num: { int64_t c = 0; uint64_t ov = v; if (!(v == 0 && prec == 0)) do { int d = v % base; t[c++] = d < 10 ? '0' + d : hex + d - 10; v /= base; } while (v); while (c < prec && c < 300) t[c++] = '0';
      char pre[3]; int np = 0; if (neg) pre[np++] = '-'; else if (plus) pre[np++] = '+'; else if (sp) pre[np++] = ' '; if (alt && base == 16 && ov) { pre[np++] = '0'; pre[np++] = hex == 'a' ? 'x' : 'X'; }
      if (!left && !(zero && prec < 0)) pad(k, ' ', w - c - np); for (int i = 0; i < np; i++) emit(k, pre[i]); if (!left && zero && prec < 0) pad(k, '0', w - c - np); n = c; while (c) emit(k, t[--c]); if (left) pad(k, ' ', w - n - np); break; }
    case 'f': case 'e': case 'g': n = fmtDouble(t, va_arg(ap, double), prec, *f); if (!left) pad(k, ' ', w - n); for (int i = 0; i < n; i++) emit(k, t[i]); if (left) pad(k, ' ', w - n); break;
    case '%': emit(k, '%'); break;
    default: return -1;
    }
  }
  return k->n;
}
int vsnprintf(char *b, size_t c, const char *f, va_list ap) { Sink k = {b, c ? c - 1 : 0, 0, 0}; int r = fmt(&k, f, ap); if (c) b[k.n < c - 1 ? k.n : c - 1] = 0; return r; }
int vsprintf(char *b, const char *f, va_list ap) { return vsnprintf(b, 1u << 30, f, ap); }
int snprintf(char *b, size_t c, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, c, f, ap); va_end(ap); return r; }
int sprintf(char *b, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 30, f, ap); va_end(ap); return r; }
int vfprintf(FILE *o, const char *f, va_list ap) { Sink k = {0, 0, 0, o}; return fmt(&k, f, ap); }
int fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(o, f, ap); va_end(ap); return r; }
int vprintf(const char *f, va_list ap) { return vfprintf(stdout, f, ap); }
int printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(stdout, f, ap); va_end(ap); return r; }
/* time: a fixed clock (no property depends on time) */
long clock(void) { return 0; }
long time(long *t) { if (t) *t = 0; return 0; }
void qsort(void *b, size_t n, size_t s, int (*c)(const void *, const void *)) { char *p = b; char t[256]; for (size_t i = 1; i < n; i++) for (size_t j = i; j && c(p + (j - 1) * s, p + j * s) > 0; j--) { memcpy(t, p + (j - 1) * s, s); memcpy(p + (j - 1) * s, p + j * s, s); memcpy(p + j * s, t, s); } }
