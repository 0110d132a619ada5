// C31: the timed operations of the second implementation of the shared mutexes
// @variants: -DBOOST_THREAD_VERSION=2 -DBOOST_THREAD_USES_DATETIME -DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS ; -DBOOST_THREAD_VERSION=4
// @link: thread once
#define BOOST_THREAD_V2_SHARED_MUTEX
#define ONLY_SHARED
#include "C31_timed.cpp"
