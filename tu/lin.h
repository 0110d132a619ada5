// Linearisability of a small concurrent history: thread 0 makes one operation of any form, thread 1 two non-blocking ones.
#ifndef LIN_H
#define LIN_H
#include "conc.h"
#define R_LIN "concurrent operations take effect one at a time, each between its call and its return"
enum { L_PUSH, L_PULL, L_CLOSE, L_SIZE };
static int ln_k[3], ln_try[3], ln_r[3], ln_v[3], ln_before[3], ln_done, ln_pre, ln_cap, ln_max; static void* ln_q;
static inline void ln_begin(int o, int k, int t, int v) { ln_k[o] = k; ln_try[o] = t; ln_v[o] = v; ln_before[o] = ln_done; }
static inline void ln_end(int o, int r) { ln_r[o] = r; ln_done = ln_done | (1 << o); }
// does the order a, b, c explain what was seen?
static bool ln_explains(int a, int b, int c) {
  int q[4], n = 0, cl = 0, ord[3] = { a, b, c }; if (ln_pre) { q[0] = 1; n = 1; }
  for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) if (ln_before[ord[i]] & (1 << ord[j])) return false;
  for (int i = 0; i < 3; i++) { int o = ord[i];
    if (ln_k[o] == L_PUSH) { int w = cl ? CLOSED : n == ln_cap ? (ln_try[o] ? LN_FULL : -1) : OK; if (ln_r[o] != w) return false; if (w == OK) { q[n] = ln_v[o]; n = n + 1; } }
    else if (ln_k[o] == L_PULL) { int w = n ? OK : cl ? CLOSED : ln_try[o] ? EMPTY : -1; if (ln_r[o] != w) return false; if (w == OK) { int m = 0; if (ln_max) for (int j = 1; j < n; j++) if (q[j] > q[m]) m = j; if (ln_v[o] != q[m]) return false; for (int j = m + 1; j < n; j++) q[j - 1] = q[j]; n = n - 1; } }
    else if (ln_k[o] == L_CLOSE) cl = 1;
    else if (ln_r[o] != n) return false; }
  return true;
}
static void ln_rest() {
  for (int i = 0; i < 2; i++) if (sa_T[i].st != T_DONE) return;
  SA_ASSERT(ln_explains(0, 1, 2) || ln_explains(0, 2, 1) || ln_explains(1, 0, 2) || ln_explains(1, 2, 0) || ln_explains(2, 0, 1) || ln_explains(2, 1, 0), R_LIN); MUST("a history");
}
template <class A, int LO, int HI> static void ln_thread(void* p) {
  A& a = *(A*)ln_q; int i = (int)(long)p;
  if (i == 0) { int c = LO + __sa_choose(HI - LO); if (c < 8) { El e(2); ln_begin(0, L_PUSH, c / 2 == 1 || c / 2 == 2, 2); ln_end(0, a.push(c / 2, c & 1, e)); } else { ln_begin(0, L_PULL, c == 10 || c == 11, 0); int v = 0; int r = a.pull(c - 8, v); ln_v[0] = v; ln_end(0, r); } return; }
  for (int o = 1; o < 3; o++) { switch (__sa_choose(4)) {
    case 0: { El e(2 + o); ln_begin(o, L_PUSH, 1, 2 + o); ln_end(o, a.push(1, true, e)); break; }
    case 1: { ln_begin(o, L_PULL, 1, 0); int v = 0; int r = a.pull(2, v); ln_v[o] = v; ln_end(o, r); break; }
    case 2: ln_begin(o, L_CLOSE, 0, 0); a.close(); ln_end(o, 0); break;
    default: ln_begin(o, L_SIZE, 0, 0); ln_end(o, a.size()); } }
}
// the first thread's operation is one of LO..HI-1 (0-7 pushes, 8-12 pulls)
template <class A, int LO, int HI> static void lin(int cap, int mx = 0) {
  A a; ln_q = &a; ln_cap = cap; ln_max = mx; ln_done = 0; ln_pre = sa_bool(); for (int i = 0; i < 3; i++) ln_k[i] = ln_try[i] = ln_r[i] = ln_v[i] = ln_before[i] = 0;
  if (ln_pre) { El e(1); a.push(0, true, e); }
  sa_at_rest = ln_rest; sa_spurious_left = 0; sa_run(2, ln_thread<A, LO, HI>);
}
#endif
