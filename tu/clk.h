// A clock the analysis controls: time is a number of seconds that never goes back, may advance whenever it is
// read, and has reached the deadline when a timed wait reports a time-out.
#ifndef CLK_H
#define CLK_H
#include "conc.h"
#include <boost/chrono/system_clocks.hpp>
#include <time.h>
static int sa_now, sa_tmax = 3, sa_frozen, sa_back, sa_sys_max;   // sa_back: the system clock may be set back by a second
static long sa_dl[SA_MAXT + 1];
static inline int sa_read_clock() { if (!sa_frozen && !sa_probe && sa_now < sa_tmax && sa_bool()) sa_now = sa_now + 1; return sa_now; }
namespace boost { namespace chrono {
steady_clock::time_point steady_clock::now() BOOST_NOEXCEPT { return time_point(nanoseconds(sa_read_clock() * 1000000000ll)); }
system_clock::time_point system_clock::now() BOOST_NOEXCEPT { int t = sa_read_clock(); if (sa_back && t > 0 && sa_bool()) t = t - 1; if (t > sa_sys_max) sa_sys_max = t; return time_point(system_clock::duration(t * (1000000000ll / (system_clock::period::den == 1000000000 ? 1 : 1000000000 / system_clock::period::den)))); }
} }
extern "C" int clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = sa_read_clock(); ts->tv_nsec = 0; return 0; }
static void clk_wait() { int i = sa_me(); if (i >= 0) sa_dl[i] = sa_T[i].timed ? sa_wait_sec + (sa_wait_nsec > 0) : -1; }
static void clk_timed(int r) { int i = sa_me(); if (i >= 0 && r == ETIMEDOUT && sa_dl[i] > sa_now) { if (sa_dl[i] > sa_tmax) __sa_stop(); sa_now = sa_dl[i]; } }
static inline void clk_on(int tmax) { sa_now = 0; sa_tmax = tmax; sa_wait_hook = clk_wait; sa_timed_hook = clk_timed; }
typedef boost::chrono::steady_clock SC; typedef boost::chrono::seconds sec;
static inline SC::time_point at(int s) { return SC::time_point(boost::chrono::nanoseconds(s * 1000000000ll)); }
#endif
