/* the scanner generator: definition file in, C tables out; the tables are read back and run */
#include <stdio.h>
#include "x_common.h"
#include "rexcc.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef K
#define K 3
#endif
#ifndef L
#define L 3
#endif
#ifndef AHI
#define AHI 3
#endif
#ifndef NQ
#define NQ 3
#endif
#define NP 6
static char *txt; static size_t tn;
/* ---- independent reading of a definition file (after the prologue) */
static struct { size_t id, idn, re, ren; } def[NP]; static int nd;
#define IS(i, c) ((i) < tn && symx_concretize((unsigned char)txt[i] == (unsigned char)(c)))
static size_t eol(size_t i) { if (IS(i, '\n')) return 1; return IS(i, '\r') && IS(i + 1, '\n') ? 2 : 0; }
static size_t delim(size_t i) { size_t j = i + 2, e; if (!IS(i, '%') || !IS(i + 1, '%')) return 0; if (IS(j, ' ') || IS(j, '\t')) j++; e = eol(j); return e ? j + e - i : 0; }
/* a blank, some text, and the end of the line (an end of line after a backslash continues it if another one follows) */
static size_t restline(size_t i) {
  size_t j = i + 1, last = 0; if (!IS(i, ' ') && !IS(i, '\t')) return 0;
  for (; j < tn; j++) if (IS(j, '\n')) { if (j < i + 2) return 0; last = j + 1; if (IS(j - 1, '\\') || (IS(j - 1, '\r') && j >= i + 3 && IS(j - 2, '\\'))) continue; return last - i; }
  return last ? last - i : 0;
}
static size_t word(size_t i) {
  size_t j = i;
  if (IS(i, '\'')) { size_t last = 0; for (j = i + 1; j < tn && !IS(j, '\n'); j++) if (IS(j, '\'') && j > i + 1) last = j; return last ? last + 1 - i : 0; }
  { unsigned char o[128] = { 1 }, in[128] = { 0 }; size_t last = 0; /* outside, inside double quotes */
    for (j = i; j < tn && j - i < 126; j++) { size_t k = j - i;
      if (o[k]) { last = j; if (IS(j, '"')) in[k + 1] = 1; else if (!(IS(j, '\t') || IS(j, '\r') || IS(j, '\n') || IS(j, '\'') || IS(j, ' '))) o[k + 1] = 1; }
      if (in[k]) { if (IS(j, '"')) o[k + 1] = 1; else if (!IS(j, '\n')) in[k + 1] = 1; if (IS(j, '\\') && IS(j + 1, '"')) in[k + 2] = 1; }
      if (!o[k + 1] && !in[k + 1] && !in[k + 2]) break; }
    if (j - i < 127 && o[j - i]) last = j;
    return last - i; }
}
/* offset of the epilogue, 0 when the text is malformed */
static size_t readdefs(size_t i) {
  size_t n, m; nd = 0;
  while (i < tn) {
    if ((n = delim(i))) return i + n;
    if ((n = restline(i))) { i += n; continue; }
    if (IS(i, ' ') || IS(i, '\t')) { i++; continue; }
    if ((n = eol(i))) { i += n; continue; }
    if (!(n = word(i)) || !(m = restline(i + n))) return 0;
    if (nd == NP) symx_end_path();
    def[nd].id = i; def[nd].idn = n; def[nd].re = i + n; def[nd++].ren = m; i += n + m;
  }
  return 0;
}
/* ---- reading the tables back */
static rexdfss_t acc[64], sub[256]; static rexdft_t tr[256]; static rexdfs_t st[64]; static int accid[64], subid[256]; static rexdfa_t dfa;
static const char *out; static size_t on;
static size_t find(const char *s, size_t from) { size_t i, k; for (i = from; i < on; i++) { for (k = 0; s[k] && i + k < on && symx_concretize(out[i + k] == s[k]); k++) ; if (!s[k]) return i; } return (size_t)-1; }
static int bad; static const char *rp;
static void lit(const char *s) { for (; *s; s++) { if (*s == ' ') { while (*rp == ' ' || *rp == '\t' || *rp == '\n') rp++; } else if (*rp == *s) rp++; else { bad = 1; return; } } }
static unsigned long num(void) { unsigned long v = 0; if (*rp < '0' || *rp > '9') bad = 1; while (*rp >= '0' && *rp <= '9') v = v * 10 + (*rp++ - '0'); return v; }
/* 0 or the identifier of a definition, by its text */
static int idof(unsigned long *v) {
  int k; size_t i;
  if (*rp != '(') { *v = num(); return -1; }
  lit("(rexuserdata_t)(");
  for (k = 0; k < nd; k++) {
    for (i = 0; i < def[k].idn && symx_concretize(rp[i] == txt[def[k].id + i]); i++) ;
    if (i == def[k].idn && rp[i] == ')' && rp[i + 1] == ' ' && rp[i + 2] == '}') { rp += i + 1; *v = 0; return k; }
  }
  bad = 1; return -1;
}
static unsigned nacc, nsub, ntr, nst;
static unsigned subs(rexdfss_t *t, int *ids, unsigned max) {
  unsigned n = 0; unsigned long a, b, c;
  for (;; n++) { lit(" {"); lit(" "); a = num(); lit(" , "); b = num(); lit(" , "); if (bad || n >= max) { bad = 1; return 0; } ids[n] = idof(&c); lit(" },"); t[n].type = a; t[n].uid = b; t[n].userdata = ids[n] < 0 ? c : (unsigned long)ids[n]; if (!a && !b && ids[n] < 0) break; if (bad) return 0; }
  lit(" };"); return n;
}
static size_t tables(void) {
  size_t p = find("static rexdfss_t accsubstates[] =", 0); unsigned long v[7]; unsigned i; CHECK(p != (size_t)-1, "tables are written"); if (p == (size_t)-1) return 0;
  rp = out + p; lit("static rexdfss_t"); lit(" accsubstates[]"); lit(" = {"); nacc = subs(acc, accid, 64);
  lit(" static"); lit(" rexdfss_t"); lit(" substates[]"); lit(" = {"); nsub = subs(sub, subid, 256);
  lit(" static"); lit(" rexdft_t"); lit(" transitions[]"); lit(" = {");
  for (ntr = 0; !bad; ntr++) { lit(" { "); v[0] = num(); lit(" , "); v[1] = num(); lit(" , "); v[2] = num(); lit(" },"); if (bad || ntr >= 256) { bad = 1; break; } tr[ntr].lowin = v[0]; tr[ntr].highin = v[1]; tr[ntr].state = v[2]; CHECK(v[0] == tr[ntr].lowin && v[1] == tr[ntr].highin && v[2] == tr[ntr].state, "numbers fit"); lit(" "); if (*rp == '}') break; }
  lit(" }; static"); lit(" rexdfs_t"); lit(" states[]"); lit(" = {");
  for (nst = 0; !bad; nst++) { lit(" {"); for (i = 0; i < 7; i++) { lit(" "); v[i] = num(); lit(" "); if (i < 6) lit(","); } lit("},"); if (bad || nst >= 64) { bad = 1; break; } st[nst].type = v[0]; st[nst].trans = v[1]; st[nst].ntrans = v[2]; st[nst].accsubstates = v[3]; st[nst].naccsubstates = v[4]; st[nst].substates = v[5]; st[nst].nsubstates = v[6]; lit(" "); if (*rp == '}') break; }
  lit(" };"); lit(" static"); lit(" rexdfa_t"); lit(" ccdfa"); lit(" = {");
  lit(" "); v[0] = num(); lit(", states, "); v[1] = num(); lit(", transitions, "); v[2] = num(); lit(", accsubstates, "); v[3] = num(); lit(", substates, 0, 0, 0, 0, {0, }, };");
  CHECK(!bad, "the tables read back"); if (bad) return 0;
  /* the last row of every table is a terminator of zeros */
  CHECK(v[0] == nst && v[1] == ntr && v[2] == nacc && v[3] == nsub, "the sizes are those of the tables");
  dfa.nstates = nst; dfa.states = st; dfa.ntrans = ntr; dfa.trans = tr; dfa.naccsubstates = nacc; dfa.accsubstates = acc; dfa.nsubstates = nsub; dfa.substates = sub;
  return (size_t)(rp - out);
}
/* the automaton of the tables against the meaning of the patterns on every subject */
static void meaning(int *root, int subst) {
  unsigned i, k, m[NP], j; rexuint_t s = REX_DFA_STARTSTATE;
  for (i = 0; i < nst; i++) { CHECK(st[i].trans + st[i].ntrans <= ntr && st[i].accsubstates + st[i].naccsubstates <= nacc && st[i].substates + st[i].nsubstates <= nsub, "every state's rows are in the tables");
    for (j = 0; j < st[i].ntrans; j++) { rexdft_t *t = &tr[st[i].trans + j]; CHECK(t->lowin <= t->highin && t->state < nst && (!j || t[-1].highin < t->lowin), "transitions are ordered and lead to states"); } }
  CHECK(subst ? nsub > 0 : nsub == 0, "substates are written when asked for");
  xs_n = K; for (i = 0; i < K; i++) xs_c[i] = symx_u32("c");
  for (k = 0; k < (unsigned)nd; k++) m[k] = x_mt(root[k], 1);
  for (i = 0; i <= K; i++) {
    unsigned a = 0, first = NP, want = 0, wf = NP; int prev = -1;
    for (j = 0; j < st[s].naccsubstates; j++) { int id = accid[st[s].accsubstates + j]; CHECK(acc[st[s].accsubstates + j].type == REX_STATETYPE_ACCEPT && id >= 0, "an accepting row names a token"); if (id < 0) return; a |= 1u << id; if (j == 0) first = id; CHECK(id > prev, "tokens in the order of their definitions"); prev = id; }
    for (k = 0; k < (unsigned)nd; k++) if (m[k] >> i & 1) { want |= 1u << k; if (wf == NP) wf = k; }
    if (i) { CHECK((st[s].type == REX_STATETYPE_ACCEPT) == (st[s].naccsubstates > 0), "accepting states name their tokens"); CHECK(a == want, "accepts exactly the tokens whose pattern matches"); if (want) CHECK(first == wf, "the first definition comes first"); if (want) symx_cover("accepts"); }
    if (i == K) break;
    REX_DFA_NEXT(&dfa, s, xs_c[i], &s); if (s == 0) { for (j = i + 1; j <= K; j++) for (k = 0; k < (unsigned)nd; k++) CHECK(!(m[k] >> j & 1), "no token where the tables end"); symx_cover("dead"); break; }
  }
}
#if MODE != 3
static int root[NP]; static size_t mem;
/* loads, converts and writes as the tool does */
static void run(size_t pro, size_t protext) {
  size_t epi, len, p, q, i; int ok, subst, ret; rexcc_t *cc; rbuffer_t b;
  cc = rex_cc_create(); memset(&b, 0, sizeof b); b.s = txt; b.size = tn;
  cap_begin(); ret = rex_cc_load_buffer(cc, &b); cap_end(&len);
  ok = pro && (epi = readdefs(pro)); if (ok) for (i = 0; i < (size_t)nd; i++) { root[i] = x_parse(txt + def[i].re, def[i].ren); if (root[i] < 0) ok = 0; }
  if (!ok) { CHECK(ret < 0, "a malformed definition file is reported"); CHECK(cc->startuid < 0, "and nothing is generated"); symx_cover("malformed"); }
  else {
    CHECK(ret == 0, "a well-formed definition file is loaded"); CHECK((cc->startuid >= 0) == (nd > 0), "there is something to generate when there are patterns");
    if (ret == 0 && cc->startuid >= 0) {
      rexdb_t *db = rex_db_createdfa(cc->nfa, cc->startuid); subst = symx_choose("subst", 0, MODE == 0);
      cc->dfa = rex_db_todfa(db, subst); rex_db_destroy(db);
      cap_begin(); CHECK(rex_cc_output(cc, stdout) == 0, "written"); out = cap_end(&on);
      q = tables(); if (bad || !q) return;
      CHECK(nst == cc->dfa->nstates && ntr == cc->dfa->ntrans && nacc == cc->dfa->naccsubstates && nsub == cc->dfa->nsubstates, "as many rows as the automaton in memory");
      for (i = 0; i < nst; i++) { rexdfs_t *s = rex_dfa_state(cc->dfa, i); unsigned j; CHECK(s->type == st[i].type && s->ntrans == st[i].ntrans && s->naccsubstates == st[i].naccsubstates && s->nsubstates == st[i].nsubstates, "states as in memory");
        for (j = 0; j < s->ntrans; j++) { rexdft_t *t = rex_dfa_transition(cc->dfa, i, j), *u = &tr[st[i].trans + j]; CHECK(t->lowin == u->lowin && t->highin == u->highin && t->state == u->state, "transitions as in memory"); }
        for (j = 0; j < s->naccsubstates; j++) { rexdfss_t *t = rex_dfa_accsubstate(cc->dfa, i, j), *u = &acc[st[i].accsubstates + j]; CHECK(t->type == u->type && t->uid == u->uid && t->userdata == u->userdata, "accepting substates as in memory"); }
        for (j = 0; j < s->nsubstates; j++) { rexdfss_t *t = rex_dfa_substate(cc->dfa, i, j), *u = &sub[st[i].substates + j]; CHECK(t->type == u->type && t->uid == u->uid && (t->type != REX_STATETYPE_ACCEPT || t->userdata == u->userdata), "substates as in memory"); } }
      p = find("static rexdfss_t accsubstates[] =", 0);
      if (protext) { if (p && out[p - 1] == '\n') p--; CHECK(p >= protext, "the prologue is written before the tables"); if (p < protext) return;
        for (i = 0; i < protext; i++) CHECK(out[p - protext + i] == txt[i], "the prologue is copied unchanged"); symx_cover("prologue"); }
      CHECK(on >= q + (tn - epi), "the epilogue is written after the tables"); if (on < q + (tn - epi)) return;
      for (i = 0; i < tn - epi; i++) CHECK(out[on - (tn - epi) + i] == txt[epi + i], "the epilogue is copied unchanged");
      for (i = q; i < on - (tn - epi); i++) CHECK(out[i] == '\n' || out[i] == ' ', "nothing else follows the tables");
      meaning(root, subst); symx_cover("written");
    } else symx_cover("empty");
  }
  rex_cc_destroy(cc);
  CHECK(r_debug_get_allocmem() == mem, "all memory returned");
}
static void ts(const char *s) { while (*s) txt[tn++] = *s++; }
static void tsym(size_t n, const char *nm, const char *al) { size_t i, j; symx_bytes(txt + tn, n, nm); if (al) for (i = 0; i < n; i++) { int m = 0; for (j = 0; al[j]; j++) m |= txt[tn + i] == al[j]; symx_assume(m); txt[tn + i] = symx_concretize((unsigned char)txt[tn + i]); } tn += n; }
int main(void) {
  size_t pro = 0, protext = 0, i; char *exact; mem = r_debug_get_allocmem();
  symx_fork_select();
  if (!rex_cc_tokensdfa()) CHECK(0, "the tokens of definition files compile");
  txt = malloc(512);
#if MODE == 0              /* generated patterns */
  { int k, np = symx_choose("np", 1, NPAT); ts("%%\n"); pro = 3;
    for (k = 0; k < np; k++) { char id[2] = { (char)('A' + k), 0 }; ts(id); ts(symx_choose("tab", 0, 1) ? "\t" : "  "); xg_n = 0; xg_atom("a", 0, AHI); xg_quant(NQ); if (k == 0) { xg_atom("a", 0, 2); xg_quant(1); } xg_t[xg_n] = 0; ts(xg_t); ts(k == 0 ? "\n" : "\r\n"); }
    ts("%%\n"); }
#elif MODE == 1            /* symbolic prologue, symbolic epilogue */
  { size_t a = symx_choose("prologue", 0, L), z = symx_choose("epilogue", 0, L); int d = symx_choose("delim", 0, 2);
    tsym(a, "p", 0); for (i = 0; i + 2 < a; i++) symx_assume(!(txt[i] == '%' && txt[i + 1] == '%' && (txt[i + 2] == '\n' || (i + 3 < a && txt[i + 2] == '\r' && txt[i + 3] == '\n'))));
    ts(d == 0 ? "%%\n" : d == 1 ? "%%\r\n" : "%\n"); protext = a; pro = d == 2 ? 0 : tn;
    ts("A a\n\nB\tb \\\n c\n"); ts("%%\n"); if (d == 2) tn -= 3;
    tsym(z, "e", d == 2 ? "a%" : 0); }
#else                      /* symbolic definitions */
  { static const char *const pre[] = { "%%\n", "%%\nB b\n", "%%\n'\"' b\n", "%%\nA a|\\\n" }, *const post[] = { "\n%%\n", "%%\r\nX", " a\n%%\n", "" };
    ts(pre[symx_choose("pre", 0, PREHI)]); pro = 3; tsym(symx_choose("n", 0, L), "t", ALPHA); ts(post[symx_choose("post", 0, 3)]); }
#endif
  exact = malloc(tn); memcpy(exact, txt, tn); free(txt); txt = exact;
  run(pro, protext);
  free(exact); symx_cover("end"); return 0;
}
#else
/* ---- the tool itself: options, exit code, what it prints */
#include "rexccdep.h"
int rexcc_main(int argc, const char *argv[]);
static int opened, closed, refuse; static char content[64];
FILE *x06_fopen(const char *n, const char *m) { CHECK(!strcmp(n, "out.c") && m[0] == 'w', "only the output file is created"); if (refuse) return 0; opened++; return stdout; }
int x06_fclose(FILE *f) { CHECK(f == stdout, "a file that is open is closed"); closed++; return 0; }
void rex_buffer_unmap_file(rbuffer_t *b) { free(b->s); r_free(b); }
rbuffer_t *rex_buffer_map_file(const char *fn) {
  rbuffer_t *b; CHECK(!strcmp(fn, "in.x"), "the named file is read"); if (!content[0]) return 0;
  b = (rbuffer_t *)r_malloc(sizeof *b); memset(b, 0, sizeof *b); b->size = strlen(content); b->s = malloc(b->size); memcpy(b->s, content, b->size); b->alt_destroy = rex_buffer_unmap_file; return b;
}
int main(void) {
  static const char *const files[] = { "", "P\n%%\nA a\nB b|c*\n%%\nE", "%%\nA a\n", "A a\n", "%%\nA (a\n%%\n", "%%\nA\n%%\n", "%%\n%%\n", "%%\nA a\nB [\n%%\nE" };
  static const char *const opts[] = { "-s", "-t", "-D", "-N", "-d", "-v", "-h", "--help" };
  static const int good[] = { 0, 1, 0, 0, 0, 0, 1, 0 };
  const char *argv[8]; int argc = 1, i, ret, f = symx_choose("file", 0, 7), no = symx_choose("options", 0, 2), withfile = symx_choose("named", 0, 1), out_ = symx_choose("out", 0, 2), info = 0, dump = 0, s = 0, t = 0; size_t mem = r_debug_get_allocmem(); static int root[NP];
  argv[0] = "rexcc"; strcpy(content, files[f]);
  if (out_ == 1) { argv[argc++] = "-o"; argv[argc++] = "out.c"; refuse = symx_choose("refuse", 0, 1); }
  for (i = 0; i < no; i++) { int o = symx_choose("o", 0, 7); argv[argc++] = opts[o]; if (o == 0) s = 1; if (o == 1) t = 1; if (o >= 2 && o <= 4) dump = 1; if (o >= 5) info = 1; }
  if (withfile) argv[argc++] = "in.x";
  if (out_ == 2) { argv[argc++] = "-o"; argv[argc++] = "out.c"; refuse = symx_choose("refuse", 0, 1); }
  argv[argc] = 0;
  cap_begin(); ret = rexcc_main(argc, argv); out = cap_end(&on);
  if (argc == 1 || info) { CHECK(ret == 0, "help and version succeed"); }
  else if (refuse) CHECK(ret != 0, "an output file that cannot be created is an error");
  else if (withfile) CHECK((ret == 0) == good[f], "the exit code tells whether the tables were generated");
  if (withfile && !info && !refuse && good[f] && f == 1 && !dump && argc > 1) {
    txt = content; tn = strlen(content); CHECK(readdefs(5) == tn - 1, "definitions"); for (i = 0; i < nd; i++) root[i] = x_parse(txt + def[i].re, def[i].ren);
    CHECK(tables() > 0, "the tables are written"); if (!bad) meaning(root, s); symx_cover("written");
  } else if (!dump) { CHECK(find("rexdfss_t accsubstates", 0) == (size_t)-1, "no tables"); symx_cover("nothing"); }
  else symx_cover("dumped");
  if (t && !info && !refuse) CHECK(find("(leaked 0 Bytes)", 0) != (size_t)-1, "the statistics say that nothing leaked");
  CHECK(r_debug_get_allocmem() == mem, "all memory returned");
  symx_cover("end"); return 0;
}
#endif
