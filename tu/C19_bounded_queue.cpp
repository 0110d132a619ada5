// C19: bounded queue
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=5
// @link: thread once
#include "queues.h"
ENTRY E_hist_1() { history<FB<1> >(1, 2, 0); }
ENTRY E_hist_2() { history<FB<2> >(2, 2, 0); }
ENTRY E_hist_3() { history<FB<3> >(3, 2, 0); }
ENTRY E_hist_throw_1() { history<FB<1> >(1, 1, 1); }
ENTRY E_hist_throw_2() { history<FB<2> >(2, 1, 1); }
ENTRY E_busy() { busy<FB<1> >(); }
ENTRY E_busy_2() { busy<FB<2> >(); }
#if BOOST_THREAD_VERSION == 2 || defined SA_THOROUGH
ENTRY E_conc_pull() { conc<FB<1> >(2, 1, 1, 0, 0, 0); }
ENTRY E_conc_push() { conc<FB<1> >(1, 2, 1, 0, 0, 0); }
ENTRY E_conc_wait_pull() { conc<FB<1> >(2, 1, 1, 0, 3, 4); }
ENTRY E_conc_wait_push() { conc<FB<1> >(1, 2, 1, 0, 3, 4); }
ENTRY E_conc_value() { conc<FB<1> >(2, 2, 0, 0, 4, 1); }
ENTRY E_conc_producers() { conc<FB<1> >(1, 3, 0, 0, 3, 5); }
ENTRY E_conc_consumers() { conc<FB<1> >(3, 1, 0, 0, 0, 4); }
ENTRY E_conc_consumers_close() { conc<FB<1> >(2, 0, 1, 0, 0, 4); }
ENTRY E_conc_producers_close() { conc<FB<1> >(0, 3, 1, 0, 3, 4); }
ENTRY E_conc_try_pull() { conc<FB<1> >(1, 2, 1, 0, 3, 2); }
ENTRY E_conc_try_push() { conc<FB<1> >(2, 1, 1, 0, 1, 4); }
ENTRY E_conc_nonblocking_pull() { conc<FB<1> >(1, 2, 1, 0, 0, 3); }
ENTRY E_conc_nonblocking_push() { conc<FB<1> >(1, 2, 1, 0, 2, 0); }
ENTRY E_conc_two() { conc<FB<1> >(1, 1, 1, 1, 3, 4); }
ENTRY E_conc_two_2() { conc<FB<2> >(1, 1, 1, 1, 0, 0); }
ENTRY E_conc_two_pulls() { conc<FB<1> >(1, 3, 0, 2, 3, 0); }
ENTRY E_conc_two_pushes() { conc<FB<2> >(2, 1, 0, 3, 0, 4); }
ENTRY E_conc_mixed() { conc<FB<1> >(2, 2, 0, 0, -1, -1); }
#endif
#ifdef SA_THOROUGH
ENTRY E_conc_pull_5() { conc<FB<1> >(2, 2, 1, 0, 0, 0); }
ENTRY E_conc_wait_5() { conc<FB<1> >(2, 2, 1, 0, 3, 4); }
#endif
// --- the older interface of the same queue
template <int C> struct FO { BQ q; FO() : q(C) {}
  int push(int f, bool rv, El& e) { try { switch (f) { case 0: case 3: case 4: if (rv) q.push(boost::move(e)); else q.push((const El&)e); return OK;
    case 1: return (rv ? q.try_push(boost::move(e)) : q.try_push((const El&)e)) ? OK : FULL; default: return (rv ? q.try_push(boost::no_block, boost::move(e)) : q.try_push(boost::no_block, (const El&)e)) ? OK : busy_on ? BUSY : FULL; } } catch (boost::sync_queue_is_closed&) { return CLOSED; } }
  int pull(int f, int& v) { El e; try { switch (f) { case 0: q.pull(e); break; case 1: { El x(q.pull()); v = x.v; return OK; } case 2: if (!q.try_pull(e)) return EMPTY; break; case 3: if (busy_on || sa_bool()) { if (!q.try_pull(boost::no_block, e)) return busy_on ? BUSY : EMPTY; break; } else { boost::shared_ptr<El> p = q.try_pull(); if (!p) return EMPTY; v = p->v; return OK; }
    default: { boost::shared_ptr<El> p = q.ptr_pull(); v = p->v; return OK; } } v = e.v; return OK; } catch (boost::sync_queue_is_closed&) { return CLOSED; } }
  FACE_OBS(C) };
ENTRY E_old_hist_1() { history<FO<1> >(1, 2, 0); }
ENTRY E_old_hist_2() { history<FO<2> >(2, 2, 0); }
ENTRY E_old_hist_throw() { history<FO<1> >(1, 1, 1); }
ENTRY E_old_busy() { busy<FO<1> >(); }
#if BOOST_THREAD_VERSION == 2 || defined SA_THOROUGH
ENTRY E_old_conc() { conc<FO<1> >(1, 2, 1, 0, 0, 0); }
ENTRY E_old_conc_ptr() { conc<FO<1> >(2, 1, 1, 0, 0, 4); }
ENTRY E_old_conc_value() { conc<FO<1> >(2, 2, 0, 0, 0, 1); }
ENTRY E_old_conc_two_pulls() { conc<FO<1> >(1, 3, 0, 2, 0, 0); }
ENTRY E_old_conc_try() { conc<FO<1> >(1, 2, 1, 0, 1, 0); }
#endif
ENTRY E_capacity() { int c = 1 + __sa_choose(3); BQ q(c); SA_ASSERT(q.capacity() == (size_t)c, R_OBS); MUST("capacity"); }
// --- linearisability
#define LN_FULL FULL
#include "lin.h"
ENTRY E_lin_push() { lin<FB<1>, 0, 8>(1); }
ENTRY E_lin_pull() { lin<FB<1>, 8, 13>(1); }
ENTRY E_lin_push_2() { lin<FB<2>, 0, 8>(2); }
ENTRY E_lin_pull_2() { lin<FB<2>, 8, 13>(2); }
ENTRY E_old_lin_push() { lin<FO<1>, 0, 8>(1); }
ENTRY E_old_lin_pull() { lin<FO<1>, 8, 13>(1); }
