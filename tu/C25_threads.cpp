// C25: lock-set discipline of the data of a thread, shared between the thread and the owners of its handle
// @variants: -DBOOST_THREAD_VERSION=4 ; -DBOOST_THREAD_VERSION=2
// @link: thread once future
// @tlim: 250
#include "clk.h"
#include "lockset.h"
#include <boost/thread/thread_only.hpp>
#include <boost/thread/condition_variable.hpp>
#include <boost/thread/tss.hpp>
#include <boost/thread/future.hpp>
namespace boost { namespace detail { thread_data_base* get_or_make_current_thread_data(); } }
static void warm() { (void)boost::detail::get_or_make_current_thread_data(); }
static boost::thread* h; static boost::mutex* m; static boost::condition_variable* cv; static boost::condition_variable_any* ca; static boost::thread_specific_ptr<int>* ts; static int nx, started;
static void atx() { ls_user(); MUST("at-exit function"); }
static void cleanup(int*) { ls_user(); MUST("cleanup"); }
static void inside() {
  MUST("inside"); started = 1;
  while (sa_bool()) { try { switch (__sa_choose(12)) {
      case 0: boost::this_thread::interruption_point(); break; case 1: (void)boost::this_thread::interruption_requested(); break; case 2: { boost::this_thread::disable_interruption d; (void)boost::this_thread::interruption_enabled(); boost::this_thread::restore_interruption r(d); } break;
      case 3: { boost::unique_lock<boost::mutex> l(*m); cv->wait(l); } break; case 4: { boost::unique_lock<boost::mutex> l(*m); cv->wait_for(l, sec(1)); } break; case 5: { boost::unique_lock<boost::mutex> l(*m); ca->wait(l); } break;
      case 6: boost::this_thread::sleep_for(sec(1)); break; case 7: if (nx) __sa_stop(); nx = 1; boost::this_thread::at_thread_exit(&atx); break; case 8: if (nx) __sa_stop(); nx = 1; ts->reset(new int(1)); break;
      case 9: if (nx) __sa_stop(); nx = 1; { boost::unique_lock<boost::mutex> l(*m); boost::notify_all_at_thread_exit(*cv, boost::move(l)); } return; case 10: (void)boost::this_thread::get_id(); break; default: cv->notify_all(); } } catch (boost::thread_interrupted&) { MUST("interrupted"); }
    SA_ASSERT(ls_held() == 0, R_RELEASED); sa_idle(); }
}
static void outer(void* a) {
  if (!(long)a) { warm(); boost::mutex mm; boost::condition_variable cc; boost::condition_variable_any aa; m = &mm; cv = &cc; ca = &aa; boost::thread_specific_ptr<int> tt(&cleanup); ts = &tt; boost::thread t(&inside); h = &t; ls_watch(t.thread_info.get(), sizeof(boost::detail::thread_data_base), "thread data"); boost::detail::thread_data_ptr keep(t.thread_info);
    while (sa_bool()) { switch (__sa_choose(9)) { case 0: t.interrupt(); break; case 1: (void)t.interruption_requested(); break; case 2: (void)t.joinable(); break; case 3: (void)t.get_id(); break; case 4: (void)t.native_handle(); break;
        case 5: if (t.joinable()) t.join(); break; case 6: if (t.joinable()) (void)t.try_join_for(sec(1)); break; case 7: { boost::lock_guard<boost::mutex> l(mm); cc.notify_one(); } break; default: if (t.joinable()) t.detach(); }
      SA_ASSERT(ls_held() == 0, R_RELEASED); sa_idle(); }
    MUST("done"); __sa_stop(); }
}
ENTRY E_thread_data() { warm(); nx = started = 0; clk_on(1); sa_frozen = 1; sa_preempt = 0; sa_noprobe = 1; sa_spurious_left = 0; sa_run(1, outer); }
