/* subset construction and table export: accept sets after every prefix, structure of every state */
#include "x_common.h"
#ifndef K
#define K 4
#endif
#ifndef NP
#define NP 2
#endif
#ifndef NQ
#define NQ 4
#endif
#ifndef ALO
#define ALO 0
#endif
#ifndef AHI
#define AHI 3
#endif
#ifndef SHAPE
#define SHAPE 0
#endif
#define U0 100
int main(void) {
  size_t mem = r_debug_get_allocmem(), live = symx_live_heap(); unsigned i, j, k; int root[NP]; long start = -1; int withsub; symx_fork_select(); withsub = symx_choose("sub", 0, 1);
  rexdb_t *nfa = rex_db_create(REXDB_TYPE_NFA), *dfa; rexdfa_t *t; rex_nfasimulator_t *ns; rex_dfasimulator_t *ds;
  for (i = 0; i < NP; i++) {
    unsigned s = xg_n;
#if SHAPE == 0
    xg_atom("a", ALO, AHI); xg_quant(NQ); xg_atom("a", 0, 1);
#elif SHAPE == 1
    xg_s("("); xg_atom("a", ALO, AHI); xg_quant(NQ); xg_atom("a", 0, 1); xg_s(")"); xg_quant(NQ);
#elif SHAPE == 2
    xg_s("("); xg_atom("a", ALO, AHI); xg_s("|"); xg_atom("a", ALO, AHI); xg_quant(NQ); xg_atom("a", 0, 1); xg_s(")"); xg_quant(NQ);
#else
    xg_atom("a", ALO, AHI); xg_quant(NQ);
#endif
    root[i] = x_parse(xg_t + s, xg_n - s); CHECK(root[i] >= 0, "generated pattern is well formed");
    start = rex_db_addexpression(nfa, start, xg_t + s, xg_n - s, U0 + i);
    CHECK(start >= 0, "a well-formed pattern is accepted");
  }
  dfa = rex_db_createdfa(nfa, start); CHECK(dfa != 0, "conversion succeeds");
  t = rex_db_todfa(dfa, withsub); CHECK(t != 0, "export succeeds");
  CHECK(t->nstates == rex_db_numstates(dfa) && rex_dfa_state(t, t->nstates) == 0, "as many states");
  for (i = 0; i < t->nstates; i++) {
    rexdfs_t *s = rex_dfa_state(t, i); uint32_t at = 0; int done = 0; rexstate_t *ds = rex_db_getstate(dfa, i);
    CHECK(s->ntrans == r_array_length(ds->trans) && s->type == ds->type, "table state equals automaton state");
    for (j = 0; j < s->ntrans; j++) {
      rexdft_t *r = rex_dfa_transition(t, i, j); rex_transition_t *dr = (rex_transition_t *)r_array_slot(ds->trans, j);
      CHECK(r->lowin == dr->lowin && r->highin == dr->highin && r->state == dr->dstuid, "table transition equals automaton transition");
      CHECK(!done && r->lowin == at && r->highin >= r->lowin, "transitions are ordered, disjoint and leave no gap");
      CHECK(r->state < t->nstates, "a transition leads to a state");
      done = r->highin == 0xFFFFFFFFu; at = r->highin + 1;
    }
    CHECK(done, "transitions cover every character");
    CHECK(!rex_dfa_transition(t, i, s->ntrans) && !rex_dfa_accsubstate(t, i, s->naccsubstates) && !rex_dfa_substate(t, i, s->nsubstates), "indices beyond the end are refused");
    CHECK((s->type == REX_STATETYPE_DEAD) == (i == 0), "state 0 and only it is dead");
    CHECK((s->type == REX_STATETYPE_START) == (i == 1), "state 1 is the start");
    { unsigned acc = 0; for (j = 0; j < s->naccsubstates; j++) { rexdfss_t *ss = rex_dfa_accsubstate(t, i, j); CHECK(ss->type == REX_STATETYPE_ACCEPT && ss->userdata >= U0 && ss->userdata < U0 + NP, "accepting sub-state names a pattern");
        CHECK(!j || ss->uid > rex_dfa_accsubstate(t, i, j - 1)->uid, "accepting sub-states in order of definition"); acc++; }
      if (i > 1) CHECK((s->type == REX_STATETYPE_ACCEPT) == (acc > 0), "accepting exactly when a sub-state accepts");
      if (withsub) { unsigned a2 = 0; for (j = 0; j < s->nsubstates; j++) { rexdfss_t *ss = rex_dfa_substate(t, i, j); rexstate_t *o = rex_db_getstate(nfa, ss->uid); CHECK(o && o->type == ss->type && o->userdata == ss->userdata, "sub-state describes its automaton state"); a2 += ss->type == REX_STATETYPE_ACCEPT; } CHECK(a2 == acc, "same accepting sub-states"); }
      else CHECK(s->nsubstates == 0 && !rex_dfa_substate(t, i, 0), "no sub-states exported"); }
  }
  /* behaviour on every character sequence */
  ns = rex_nfasimulator_create(); ds = rex_dfasimulator_create();
  xs_n = K; for (i = 0; i < K; i++) xs_c[i] = symx_u32("c");
  rex_nfasimulator_start(ns, nfa, start); rex_dfasimulator_start(ds, dfa, REX_DFA_STARTSTATE);
  { unsigned q = REX_DFA_STARTSTATE, m[NP]; int nalive = 1; size_t fed = 0;
    for (k = 0; k < K; k++) {
      static const int sz[] = {2, 1, 4, 3, 1, 2}; int w = sz[k % 6]; unsigned want = 0, gt = 0, gn = 0, gd = 0, na = r_array_length(ns->accepts), da = r_array_length(ds->accepts); rexdfs_t *s;
      q = rex_dfa_next(t, q, xs_c[k]); s = rex_dfa_state(t, q);
      for (j = 0; j < s->naccsubstates; j++) gt |= 1u << (rex_dfa_accsubstate(t, q, j)->userdata - U0);
      fed += w; nalive = rex_nfasimulator_next(ns, nfa, xs_c[k], w) > 0;
      for (j = na; j < r_array_length(ns->accepts); j++) { rex_accept_t *a = (rex_accept_t *)r_array_slot(ns->accepts, j); CHECK((int)a->count == k + 1 && a->inputsize == fed, "accept position"); gn |= 1u << (a->state->userdata - U0); }
      size_t u = rex_dfasimulator_next(ds, dfa, xs_c[k], w); CHECK(u == q, "simulator and table are in the same state");
      if (r_array_length(ds->accepts) > da) { rex_accept_t *a = (rex_accept_t *)r_array_lastslot(ds->accepts); CHECK((int)a->count == k + 1 && a->inputsize == fed && a->state->uid == q, "accept position"); gd = 1; }
      xs_n = k + 1;
      for (i = 0; i < NP; i++) { m[i] = x_mt(root[i], 1); want |= ((m[i] >> (k + 1)) & 1) << i; }
      CHECK(gt == want, "the table accepts exactly the patterns that match this prefix");
      CHECK(gn == want, "the simulation accepts exactly the patterns that match this prefix");
      CHECK((s->type == REX_STATETYPE_ACCEPT) == (want != 0) && gd == (want != 0), "accepting state");
      CHECK(nalive == (q != REX_DFA_DEADSTATE), "dead exactly when no pattern can continue");
      if (want == (1u << NP) - 1) symx_cover("all"); if (want) symx_cover("some"); if (!q) { symx_cover("dead"); break; }
    } }
  rex_nfasimulator_destroy(ns); rex_dfasimulator_destroy(ds); rex_dfa_destroy(t); rex_db_destroy(dfa); rex_db_destroy(nfa);
  CHECK(r_debug_get_allocmem() == mem && symx_live_heap() == live, "all memory returned");
  symx_cover("end"); return 0;
}
