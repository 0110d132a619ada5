// C04: shared/upgradable mutex - exclusion between readers, upgrader and writer for every interleaving
// @variants: -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_V2_SHARED_MUTEX ; -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_V2_SHARED_MUTEX
// @link: thread once
#include "shm.h"
#if BOOST_THREAD_VERSION == 4
ENTRY E_excl_any() { go(2, ALL, G_EXCL); }
ENTRY E_shared_any() { go(2, ALL, G_SHARED); }
ENTRY E_shared_to_excl_any() { go(2, ALL, G_SH2EX); }
ENTRY E_shared_to_upgrade_any() { go(2, ALL, G_SH2UP); }
ENTRY E_upgrade_any() { go(2, ALL, G_UP); }
ENTRY E_upgrade_to_excl_any() { go(2, ALL, G_UP2EX); }
ENTRY E_downgrade_any() { go(2, ALL, G_EX2); }
ENTRY E_w_r_u() { go(3, B(0) | B(14), B(3) | B(9), B(6) | B(18) | B(14)); }
ENTRY E_r_r_u() { go(3, B(3) | B(9), B(3) | B(9), B(6) | B(18) | B(14)); }
ENTRY E_u_r_c() { go(3, B(6) | B(17) | B(18) | B(14), B(3) | B(9), B(3) | B(9) | B(11) | B(14)); }
ENTRY E_form_for_s2x() { form = 3; go(2, B(3) | B(11) | B(9) | B(14), ALL); }
ENTRY E_form_for_s2u() { form = 3; go(2, B(3) | B(13) | B(9) | B(17), ALL); }
#ifdef SA_THOROUGH
ENTRY E_full_w() { go(3, B(0) | B(1) | B(2) | B(14) | B(15), B(3) | B(5) | B(9) | B(11) | B(14), B(6) | B(17) | B(18) | B(20) | B(14)); }
ENTRY E_full_u() { go(3, B(6) | B(8) | B(17) | B(18) | B(14) | B(21) | B(9), B(3) | B(9) | B(13) | B(17), B(3) | B(9) | B(11) | B(14)); }
ENTRY E_full_any() { go(2, ALL, ALL); }
#endif
#else
// the date_time and relative forms of the timed operations
#define FORM(n, name) ENTRY E_form_##name##_excl() { form = n;  go(2, B(2) | B(14), B(0) | B(14) | B(3) | B(9) | B(6) | B(17)); } \
  ENTRY E_form_##name##_shared() { form = n;  go(2, B(5) | B(9), B(0) | B(14) | B(3) | B(9) | B(6) | B(17)); } \
  ENTRY E_form_##name##_upgrade() { form = n;  go(2, B(8) | B(17) | B(18) | B(20) | B(14), B(0) | B(14) | B(3) | B(9) | B(6) | B(17)); }
FORM(1, system_time)
FORM(2, relative_time)
FORM(3, for_)
FORM(4, system_clock)
#endif
