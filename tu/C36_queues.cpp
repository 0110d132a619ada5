// C36: order of lock acquisitions in the histories of C25_queues.cpp
// @variants: -DBOOST_THREAD_VERSION=5
// @link: thread once future
// @tlim: 200
#define SA_LOCKORDER
#include "C25_queues.cpp"
