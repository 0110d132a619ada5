// C18: concurrent queues and deques, their adaptors and views
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=5
// @link: thread once
#include "queues.h"
ENTRY E_hist_queue() { history<FQ<SQ> >(2, 2, 0); }
ENTRY E_hist_deque() { history<FD<SD> >(2, 2, 0); }
ENTRY E_hist_queue_throw() { history<FQ<SQ> >(2, 1, 1); }
ENTRY E_hist_deque_throw() { history<FD<SD> >(2, 1, 1); }
ENTRY E_hist_queue_default() { history<FQ<SQd, 98> >(2, 2, 0, 4); }
ENTRY E_hist_deque_default() { history<FD<SDd, 98> >(2, 2, 0, 4); }
ENTRY E_hist_queue_adaptor() { history<FA<SQ> >(2, 1, 0); }
ENTRY E_hist_deque_adaptor() { history<FDA<SD> >(2, 1, 0); }
ENTRY E_hist_queue_view() { history<FV<SQ> >(2, 1, 0); }
ENTRY E_hist_deque_view() { history<FW<SD> >(2, 1, 0); }
ENTRY E_busy_queue() { busy<FQ<SQ> >(); }
ENTRY E_busy_deque() { busy<FD<SD> >(); }
ENTRY E_busy_queue_adaptor() { busy<FA<SQ> >(); }
ENTRY E_busy_deque_adaptor() { busy<FDA<SD> >(); }
ENTRY E_busy_queue_view() { busy<FV<SQ> >(); }
ENTRY E_busy_deque_view() { busy<FW<SD> >(); }
ENTRY E_conc_queue_pull() { conc<FQ<SQ> >(2, 2, 1, 0, 0, 0); }
ENTRY E_conc_queue_value() { conc<FQ<SQ> >(2, 2, 0, 0, 1, 1); }
ENTRY E_conc_queue_wait() { conc<FQ<SQ> >(2, 2, 1, 0, 3, 4); }
ENTRY E_conc_queue_try() { conc<FQ<SQ> >(2, 1, 1, 0, 1, 2); }
ENTRY E_conc_queue_nonblocking() { conc<FQ<SQ> >(1, 2, 1, 0, 2, 4); }
ENTRY E_conc_queue_two() { conc<FQ<SQ> >(1, 1, 1, 1, 0, 4); }
ENTRY E_conc_deque_pull() { conc<FD<SD> >(2, 2, 1, 0, 0, 0); }
ENTRY E_conc_deque_value() { conc<FD<SD> >(2, 2, 0, 0, 1, 1); }
ENTRY E_conc_deque_wait() { conc<FD<SD> >(2, 2, 1, 0, 3, 4); }
ENTRY E_conc_deque_try() { conc<FD<SD> >(2, 1, 1, 0, 1, 2); }
ENTRY E_conc_deque_nonblocking() { conc<FD<SD> >(1, 2, 1, 0, 2, 4); }
ENTRY E_conc_deque_two() { conc<FD<SD> >(1, 1, 1, 1, 0, 4); }
// --- linearisability
#define LN_FULL FULL
#include "lin.h"
ENTRY E_lin_queue_push() { lin<FQ<SQ>, 0, 8>(99); }
ENTRY E_lin_queue_pull() { lin<FQ<SQ>, 8, 13>(99); }
ENTRY E_lin_deque_push() { lin<FD<SD>, 0, 8>(99); }
ENTRY E_lin_deque_pull() { lin<FD<SD>, 8, 13>(99); }
