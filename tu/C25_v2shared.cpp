// C25: lock-set discipline of the second implementation of the shared mutexes
// @variants: -DBOOST_THREAD_VERSION=4
// @link: thread once
// @tlim: 200
#define BOOST_THREAD_V2_SHARED_MUTEX
#define ONLY_SHARED
#include "C25_sync.cpp"
