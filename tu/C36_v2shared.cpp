// C36: order of lock acquisitions in the histories of C25_v2shared.cpp
// @variants: -DBOOST_THREAD_VERSION=4
// @link: thread once
// @tlim: 200
#define SA_LOCKORDER
#include "C25_v2shared.cpp"
