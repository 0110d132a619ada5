// C36: order of lock acquisitions in the histories of C25_threads.cpp
// @variants: -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=2
// @link: thread once future
// @tlim: 250
#define SA_LOCKORDER
#include "C25_threads.cpp"
