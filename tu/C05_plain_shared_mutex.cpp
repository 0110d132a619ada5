// C05: the second shared mutex without upgrade ownership: no lost wake-up, no residue
// @variants: -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=2
// @link: thread once
#define BOOST_THREAD_V2_SHARED_MUTEX
#define SA_PLAIN_SHM
#include "shm.h"
#define W (B(0) | B(14))
#define R (B(3) | B(9))
#define X (B(0) | B(1) | B(2) | B(3) | B(4) | B(5) | B(9) | B(14))
#if BOOST_THREAD_VERSION == 4
ENTRY E_any() { sa_at_rest = rest_check; go(2, X, X); }
ENTRY E_w_w_r() { sa_at_rest = rest_check; go(3, W, W, R); }
ENTRY E_r_r_w() { sa_at_rest = rest_check; go(3, R, R, W); }
ENTRY E_r_tw_r() { sa_at_rest = rest_check; go(3, R, B(2) | B(14), R); }
ENTRY E_w_tr_r() { sa_at_rest = rest_check; go(3, W, B(5) | B(9), R); }
ENTRY E_w_tw_r() { sa_at_rest = rest_check; go(3, W, B(2) | B(14), R); }
#ifdef SA_THOROUGH
ENTRY E_any3() { sa_at_rest = rest_check; go(3, X, X, W | R); }
#endif
#else
#define FORM(n, name) ENTRY E_form_##name() { form = n; sa_at_rest = rest_check; go(2, B(2) | B(5) | B(9) | B(14), W | R); }
FORM(1, system_time)
FORM(2, relative_time)
FORM(3, for_)
FORM(4, system_clock)
#endif
