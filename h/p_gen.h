/* Enumeration of grammars: one solver-forked index decides the start rule's expression, another the helper rule. */
#ifndef P_GEN_H
#define P_GEN_H
#include "p_common.h"
#ifndef ELEMS
#define ELEMS 24
#endif
#ifndef NA
#define NA 2
#endif
#ifndef ALO
#define ALO 0
#endif
static const struct { unsigned char k, q, not; } EL[] = {
  {0, Q1, 0}, {1, QOPT, 0}, {5, Q1, 0}, {0, QMUL, 0}, {2, QMOP, 0}, {0, Q1, 1}, {4, Q1, 0}, {3, Q1, 0},
  {5, QMUL, 0}, {5, QOPT, 0}, {5, Q1, 1}, {2, Q1, 0}, {0, QOPT, 0}, {1, Q1, 0}, {0, QMOP, 0}, {2, QMUL, 0}, {5, QMOP, 0}, {4, QMUL, 0}, {3, QOPT, 0}, {2, Q1, 1}, {0, QMUL, 1}, {3, QMOP, 0}, {2, QOPT, 0}, {4, QOPT, 0} };
static int mk(int e) {
  int n;
  switch (EL[e].k) { case 0: n = n_chr('a'); break; case 1: n = n_chr('b'); break; case 2: n = n_cls('a', 'b'); break; case 3: n = n_any(); break; case 4: n = n_str("ab"); break; default: n = n_ref(1); }
  n_q(n, EL[e].q); if (EL[e].not) n_not(n); return n;
}
static int take(unsigned *x, unsigned n) { int r = (int)(*x % n); *x /= n; return r; }
/* helper rule bodies; two of them use a third rule B */
static int gen_helper(void) {
  unsigned ae = symx_choose("A", ALO, ALO + NA - 1); int a, b = -1;
  switch (ae) {
  case 0: a = n_op(N_ALT, n_str("ab"), n_chr('b')); break;
  case 1: a = n_op(N_SEQ, n_ref(2), n_q(n_ref(2), QOPT)); b = n_op(N_ALT, n_chr('b'), n_chr('a')); break;
  case 2: a = n_op(N_ALT, n_op(N_SEQ, n_ref(2), n_chr('b')), n_op(N_SEQ, n_ref(2), n_chr('a'))); b = n_q(n_chr('a'), QOPT); break;
  case 3: a = n_q(n_chr('b'), QMOP); break;
  case 4: a = n_op(N_ALT, n_op(N_SEQ, n_chr('a'), n_q(n_ref(1), QOPT)), n_chr('b')); break;      /* right recursion */
  default: a = n_op(N_SEQ, n_chr('a'), n_q(n_ref(2), QMOP)); b = n_op(N_SEQ, n_chr('b'), n_q(n_ref(1), QOPT)); break; /* mutual recursion */
  }
  g_rule("A", a); if (b >= 0) g_rule("B", b);
  return (int)ae;
}
static void gen_grammar(void) {
  unsigned x; int s = 0;
#if SIZE == 1
  x = symx_choose("g", 0, ELEMS - 1);
  s = mk((int)x);
#elif SIZE == 2
  x = symx_choose("g", 0, 3 * ELEMS * ELEMS - 1);
  { int k = N_SEQ + take(&x, 3), l = mk(take(&x, ELEMS)), m = mk(take(&x, ELEMS)); s = n_op(k, l, m); }
#else
  /* shapes: flat of three; a pair inside an operator, left or right, with any quantifier */
  x = symx_choose("g", 0, 3 * ELEMS * ELEMS * ELEMS * 17 - 1);
  { int k = N_SEQ + take(&x, 3), l = mk(take(&x, ELEMS)), m = mk(take(&x, ELEMS)), o = mk(take(&x, ELEMS)), sh = take(&x, 17);
    if (sh == 0) s = n_add(n_op(k, l, m), o);
    else { int side, k2, q, in; sh--; side = sh & 1; sh >>= 1; q = sh & 3; sh >>= 2; k2 = N_SEQ + (k - N_SEQ + 1 + sh) % 3;
      in = n_q(n_op(k2, m, o), q); s = side ? n_op(k, in, l) : n_op(k, l, in); } }
#endif
  g_rule("S", s);
  gen_helper();
}
#endif
