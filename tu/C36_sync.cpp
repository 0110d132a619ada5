// C36: order of lock acquisitions in the histories of C25_sync.cpp
// @variants: -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_USES_DATETIME
// @link: thread once future
// @tlim: 200
#define SA_LOCKORDER
#include "C25_sync.cpp"
