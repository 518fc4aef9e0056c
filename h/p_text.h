/* Grammars whose terminals lie inside and outside ASCII; as syntax trees */
#ifndef P_TEXT_H
#define P_TEXT_H
#include "p_common.h"
#define NTEXTG 18
static void text_grammar(unsigned g) {
  int s;
  switch (g) {
  case 0: s = n_chr('a'); break;
  case 1: s = n_str("ab"); break;
  case 2: s = n_op(N_SEQ, n_q(n_cls('a', 'b'), QMUL), n_chr('c')); break;
  case 3: s = n_chr(0x416); break;
  case 4: s = n_q(n_cls(0x410, 0x44f), QMUL); break;
  case 5: s = n_op(N_SEQ, n_chr(0x20ac), n_any()); break;
  case 6: s = n_op(N_SEQ, n_any(), n_chr('a')); break;
  case 7: s = n_op(N_SEQ, n_not(n_chr('a')), n_chr('B')); break;
  case 8: s = n_op(N_ALT, n_op(N_MIN, n_chr('a'), n_str("ab")), n_op(N_SEQ, n_chr('b'), n_chr(0xe9))); break;
  case 9: s = n_op(N_ALT, n_chr(0x1f600), n_chr('z')); break;
  case 10: s = n_op(N_SEQ, n_cls(0x80, 0x10ffff), n_q(n_chr('a'), QMOP)); break;
  case 11: s = n_op(N_SEQ, n_q(n_chr('a'), QOPT), n_chr(0x7ff)); break;
  case 12: s = n_q(n_ref(1), QMUL); break;
  case 13: s = n_op(N_ALT, n_op(N_SEQ, n_ref(0), n_chr('b')), n_chr(0xe9)); break;
  case 14: s = n_op(N_SEQ, n_op(N_SEQ, n_chr('a'), n_any()), n_chr('A')); break;
  case 15: s = n_cls(0, 0x20); break;
  case 16: s = n_op(N_SEQ, n_cls('Z', 'c'), n_q(n_cls(0xd0, 0xe5), QMOP)); break;
  default: s = n_op(N_ALT, n_op(N_SEQ, n_cls(0x391, 0x3a1), n_cls(0x3b1, 0x3b2)), n_q(n_cls(0xffff, 0x10000), QMUL)); break;
  }
  g_rule("S", s);
  if (g == 12) g_rule("A", n_op(N_ALT, n_chr('a'), n_chr(0xe9)));
  o_anylr = g == 13;
}
#endif
