// C07: the second implementation of the shared mutexes has no interruption points either
// @variants: -DBOOST_THREAD_VERSION=2 ; -DBOOST_THREAD_VERSION=4 -DBOOST_THREAD_PROVIDES_INTERRUPTIONS
// @link: thread once future
#define BOOST_THREAD_V2_SHARED_MUTEX
#define ONLY_SHARED
#include "C07_interruption.cpp"
