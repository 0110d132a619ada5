From 5d1049ca16a9464d5cad0e87838b81fa5186d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 01/58] fix: timed_lock with a special duration must not report
 a lock it did not take

---
 include/boost/thread/pthread/mutex.hpp           | 2 +-
 include/boost/thread/pthread/recursive_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/mutex.hpp b/include/boost/thread/pthread/mutex.hpp
index 94a7388..a6262ba 100644
--- a/include/boost/thread/pthread/mutex.hpp
+++ b/include/boost/thread/pthread/mutex.hpp
@@ -142,7 +142,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index 2aaf425..de4d981 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -248,7 +248,7 @@ namespace boost
             }
             if (relative_time.is_special())
             {
-                return true;
+                return try_lock();
             }
             detail::platform_duration d(relative_time);
 #if defined(BOOST_THREAD_HAS_MONO_CLOCK) && !defined(BOOST_THREAD_INTERNAL_CLOCK_IS_MONO)
-- 
2.43.0


From 3c125df49d55048a512941c0dd2aa2daaec22bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 02/58] fix: timed shared-to-exclusive conversion must not
 overtake a pending upgrade

---
 include/boost/thread/pthread/shared_mutex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index d4b8280..b52e3e4 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -105,6 +105,11 @@ namespace boost
                 return shared_count==1;
             }
 
+            bool one_shared_not_upgraded () const
+            {
+                return shared_count==1 && ! upgrade;
+            }
+
             void lock_shared ()
             {
                 ++shared_count;
@@ -569,7 +574,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::one_shared_not_upgraded, &state)))
           {
               return false;
           }
-- 
2.43.0


From c46cc3c29aa4b1b25e1b6d850028d5b2a09c2f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 03/58] fix: unlock_shared must wake the last owner waiting to
 convert to exclusive

---
 include/boost/thread/pthread/shared_mutex.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index b52e3e4..fd0707f 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -266,6 +266,11 @@ namespace boost
                 }
                 release_waiters();
             }
+            else if (state.one_shared())
+            {
+                // The remaining owner may be waiting to convert its ownership to exclusive.
+                shared_cond.notify_all();
+            }
         }
 
         void lock()
-- 
2.43.0


From e5bc706017cde41507d8dc2f9f5c51e1d0d32813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 04/58] fix: wait for upgrade ownership on the condition that
 unlock_upgrade notifies

---
 include/boost/thread/pthread/shared_mutex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/pthread/shared_mutex.hpp b/include/boost/thread/pthread/shared_mutex.hpp
index fd0707f..6c8a198 100644
--- a/include/boost/thread/pthread/shared_mutex.hpp
+++ b/include/boost/thread/pthread/shared_mutex.hpp
@@ -633,7 +633,7 @@ namespace boost
 #endif
           boost::unique_lock<boost::mutex> lk(state_change);
           state.assert_lock_shared();
-          if(!exclusive_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
+          if(!shared_cond.wait_until(lk, abs_time, boost::bind(&state_data::can_lock_upgrade, &state)))
           {
               return false;
           }
-- 
2.43.0


From 0f2b9712e23631150787c9d912be70ceba4e8223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:29 +0000
Subject: [PATCH 05/58] fix: release at-thread-exit notifications when the
 thread exits, not when its data is destroyed

---
 src/pthread/thread.cpp | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 9deef7a..c68c25c 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -46,21 +46,35 @@ namespace boost
 {
     namespace detail
     {
-        thread_data_base::~thread_data_base()
+        namespace
         {
-            for (notify_list_t::iterator i = notify.begin(), e = notify.end();
-                    i != e; ++i)
+            // Releases what was handed over for the exit of the thread: the locks passed to
+            // notify_all_at_thread_exit() and the shared states made ready at thread exit.
+            void run_at_thread_exit_notifications(thread_data_base& data)
             {
-                i->second->unlock();
-                i->first->notify_all();
-            }
+                thread_data_base::notify_list_t notify;
+                notify.swap(data.notify);
+                for (thread_data_base::notify_list_t::iterator i = notify.begin(), e = notify.end();
+                        i != e; ++i)
+                {
+                    i->second->unlock();
+                    i->first->notify_all();
+                }
 //#ifndef BOOST_NO_EXCEPTIONS
-            for (async_states_t::iterator i = async_states_.begin(), e = async_states_.end();
-                    i != e; ++i)
-            {
-                (*i)->notify_deferred();
-            }
+                thread_data_base::async_states_t async_states;
+                async_states.swap(data.async_states_);
+                for (thread_data_base::async_states_t::iterator i = async_states.begin(), e = async_states.end();
+                        i != e; ++i)
+                {
+                    (*i)->notify_deferred();
+                }
 //#endif
+            }
+        }
+
+        thread_data_base::~thread_data_base()
+        {
+            run_at_thread_exit_notifications(*this);
         }
 
         struct thread_exit_callback_node
@@ -194,6 +208,8 @@ namespace boost
 #endif
                 detail::tls_destructor(thread_info.get());
                 detail::set_current_thread_data(0);
+                // a thread object may keep the thread data alive: don't wait for its destruction
+                detail::run_at_thread_exit_notifications(*thread_info);
                 boost::lock_guard<boost::mutex> lock(thread_info->data_mutex);
                 thread_info->done=true;
                 thread_info->done_condition.notify_all();
-- 
2.43.0


From 709f9eaa0b8efe543e18c70f7c5b91501ebb5f20 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 06/58] fix: refuse a second result while the first one waits
 for the thread's exit

---
 include/boost/thread/future.hpp | 34 +++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 154114a..649f731 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -464,7 +464,7 @@ namespace boost
             void set_exception_deferred(exception_ptr e)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (has_value(lk))
+              if (is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -484,6 +484,12 @@ namespace boost
               detail::make_ready_at_thread_exit(shared_from_this());
             }
 
+            // a result has been set, possibly waiting to be made ready at thread exit
+            bool is_satisfied(unique_lock<boost::mutex>& ) const
+            {
+                return done || is_constructed;
+            }
+
             bool has_value() const
             {
                 boost::lock_guard<boost::mutex> lock(this->mutex);
@@ -669,7 +675,7 @@ namespace boost
             void set_value_deferred(source_reference_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -684,7 +690,7 @@ namespace boost
             void set_value_deferred(rvalue_source_type result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -810,7 +816,7 @@ namespace boost
             void set_value_deferred(T& result_)
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -885,7 +891,7 @@ namespace boost
             void set_value_deferred()
             {
               unique_lock<boost::mutex> lk(this->mutex);
-              if (this->has_value(lk))
+              if (this->is_satisfied(lk))
               {
                   throw_exception(promise_already_satisfied());
               }
@@ -2375,7 +2381,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2386,7 +2392,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2398,7 +2404,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2453,7 +2459,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2466,7 +2472,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2651,7 +2657,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2670,7 +2676,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2836,7 +2842,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
@@ -2856,7 +2862,7 @@ namespace boost
         {
             lazy_init();
             boost::unique_lock<boost::mutex> lock(future_->mutex);
-            if(future_->done)
+            if(future_->is_satisfied(lock))
             {
                 boost::throw_exception(promise_already_satisfied());
             }
-- 
2.43.0


From 38f90ecd79e6b778e5981c07711c47354f4d3b4e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 07/58] fix: move assignment of a promise breaks the promise it
 overwrites

---
 include/boost/thread/future.hpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 649f731..9059f2b 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2333,10 +2333,9 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the overwritten state is abandoned as if by the destructor
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+            swap(temp);
             return *this;
         }
 
@@ -2624,10 +2623,9 @@ namespace boost
         }
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the overwritten state is abandoned as if by the destructor
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+            swap(temp);
             return *this;
         }
 
@@ -2807,10 +2805,9 @@ namespace boost
 
         promise & operator=(BOOST_THREAD_RV_REF(promise) rhs) BOOST_NOEXCEPT
         {
-            future_=BOOST_THREAD_RV(rhs).future_;
-            future_obtained=BOOST_THREAD_RV(rhs).future_obtained;
-            BOOST_THREAD_RV(rhs).future_.reset();
-            BOOST_THREAD_RV(rhs).future_obtained=false;
+            // the overwritten state is abandoned as if by the destructor
+            promise temp(static_cast<BOOST_THREAD_RV_REF(promise)>(rhs));
+            swap(temp);
             return *this;
         }
 
-- 
2.43.0


From 7688ea430b70d284975de9bef86f1f5e4a4608a8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:31:53 +0000
Subject: [PATCH 08/58] fix: satisfying a promise without a shared state throws
 instead of dereferencing null

---
 include/boost/thread/future.hpp | 57 +++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 9059f2b..2fbd103 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2348,6 +2348,7 @@ namespace boost
 #ifdef BOOST_THREAD_PROVIDES_EXECUTORS
         void set_executor(executor_ptr_type aex)
         {
+          lazy_init();
           lazy_init();
           if (future_.get()==0)
           {
@@ -2379,6 +2380,10 @@ namespace boost
             set_value(TR const &  r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2390,6 +2395,10 @@ namespace boost
         void set_value(source_reference_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2402,6 +2411,10 @@ namespace boost
         void set_value(rvalue_source_type r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2457,6 +2470,10 @@ namespace boost
         void emplace(BOOST_THREAD_FWD_REF(Args) ...args)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2470,6 +2487,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2502,6 +2523,7 @@ namespace boost
         template <class TR>
         typename boost::enable_if_c<is_copy_constructible<TR>::value && is_same<R, TR>::value, void>::type set_value_at_thread_exit(TR const& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2511,6 +2533,7 @@ namespace boost
 #else
         void set_value_at_thread_exit(source_reference_type r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2520,6 +2543,7 @@ namespace boost
 #endif
         void set_value_at_thread_exit(BOOST_THREAD_RV_REF(R) r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2528,6 +2552,7 @@ namespace boost
         }
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2544,6 +2569,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2654,6 +2683,10 @@ namespace boost
         void set_value(R& r)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2673,6 +2706,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2702,6 +2739,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit(R& r)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2711,6 +2749,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2727,6 +2766,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
@@ -2838,6 +2881,10 @@ namespace boost
         void set_value()
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2858,6 +2905,10 @@ namespace boost
         void set_exception(boost::exception_ptr p)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             boost::unique_lock<boost::mutex> lock(future_->mutex);
             if(future_->is_satisfied(lock))
             {
@@ -2887,6 +2938,7 @@ namespace boost
         // setting the result with deferred notification
         void set_value_at_thread_exit()
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2896,6 +2948,7 @@ namespace boost
 
         void set_exception_at_thread_exit(exception_ptr e)
         {
+          lazy_init();
           if (future_.get()==0)
           {
               boost::throw_exception(promise_moved());
@@ -2912,6 +2965,10 @@ namespace boost
         void set_wait_callback(F f)
         {
             lazy_init();
+            if (future_.get()==0)
+            {
+                boost::throw_exception(promise_moved());
+            }
             future_->set_wait_callback(f,this);
         }
         void notify_deferred()
-- 
2.43.0


From 749c4fb1fcbaf3cbfa53f810dc4b129c96437f84 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 09/58] fix: shared_future::get_or returns the alternative when
 the result is an exception

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 2fbd103..d79439f 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2239,7 +2239,7 @@ namespace boost
             {
                 boost::throw_exception(future_uninitialized());
             }
-            this->future_->wait();
+            this->future_->wait(false);
             if (this->future_->has_value()) return this->future_->get_sh();
             else return boost::move(v);
         }
-- 
2.43.0


From 80f3d11f73d796743017a6679553eb1de2b2d703 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 10/58] fix: make_shared_future() returns a ready future

---
 include/boost/thread/future.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index d79439f..453c6a8 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4525,6 +4525,7 @@ namespace detail {
 
   inline shared_future<void> make_shared_future()  {
     promise<void> p;
+    p.set_value();
     return BOOST_THREAD_MAKE_RV_REF(p.get_future().share());
   }
 
-- 
2.43.0


From cf5c7f4082c66439945a5ea76067b584680a77f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 11/58] fix: promise<R&>::set_value_deferred reports a missing
 shared state as the other operations do

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 453c6a8..c76107b 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -2699,7 +2699,7 @@ namespace boost
             lazy_init();
             if (future_.get()==0)
             {
-                boost::throw_exception(promise_already_satisfied());
+                boost::throw_exception(promise_moved());
             }
             future_->set_value_deferred(r);
         }
-- 
2.43.0


From abefe885f45cb1b2dac8305884be15bbb422da01 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 12/58] fix: unwrapping a missing inner future yields
 broken_promise, as documented

---
 include/boost/thread/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index c76107b..4269ef6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5484,7 +5484,7 @@ namespace detail
             boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
             unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(future_uninitialized()), lk);
+            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
           }
         }
       } else {
@@ -5524,7 +5524,7 @@ namespace detail
             boost::unique_lock<boost::mutex> lk2(unwrapped.future_->mutex);
             unwrapped.future_->set_continuation_ptr(this->shared_from_this(), lk2);
           } else {
-            this->mark_exceptional_finish_internal(boost::copy_exception(future_uninitialized()), lk);
+            this->mark_exceptional_finish_internal(boost::copy_exception(broken_promise()), lk);
           }
         }
       } else {
-- 
2.43.0


From a52e3803a4c6d5c8e239ecbea5aa2d65c1a11c91 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 13/58] fix: a deferred continuation waits for its parent
 without holding its own lock

---
 include/boost/thread/future.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 4269ef6..64e5a3c 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4871,7 +4871,11 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      {
+        // waiting may run the function of a deferred parent
+        relocker relock(lk);
+        this->parent.wait();
+      }
       this->call(lk);
     }
 
@@ -4894,7 +4898,11 @@ namespace detail {
     }
 
     virtual void execute(boost::unique_lock<boost::mutex>& lk) {
-      this->parent.wait();
+      {
+        // waiting may run the function of a deferred parent
+        relocker relock(lk);
+        this->parent.wait();
+      }
       this->call(lk);
     }
 
-- 
2.43.0


From 33d3090e8a61c46d17743dbdf6eb292aadf84777 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 14/58] fix: a deferred function returning a reference is
 called without holding the shared state's lock

---
 include/boost/thread/future.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 64e5a3c..5b6bbbd 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1087,7 +1087,11 @@ namespace boost
           virtual void execute(boost::unique_lock<boost::mutex>& lck) {
             try
             {
-              this->mark_finished_with_result_internal(func_(), lck);
+              Fp local_fuct=boost::move(func_);
+              relocker relock(lck);
+              Rp& res = local_fuct();
+              relock.lock();
+              this->mark_finished_with_result_internal(res, lck);
             }
             catch (...)
             {
-- 
2.43.0


From f76330d93f4aa55c567589f1230fb85aa55e01fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 15/58] fix: wait_for_any counts the invalid futures it skips,
 so that it names the ready one

---
 include/boost/thread/futures/wait_for_any.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 3f5d7b0..aadda2b 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -105,8 +105,8 @@ namespace boost
             f.future_->unnotify_when_ready(waiter.handle);
             throw;
           }
-          ++future_count;
         }
+        ++future_count;
       }
 
 #ifndef BOOST_NO_CXX11_VARIADIC_TEMPLATES
-- 
2.43.0


From 12fd457f3e3772a2479ed09116ce37a2ae31f170 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 16/58] fix: wait_for_any locks the shared states without
 imposing an order on them

---
 include/boost/thread/future.hpp               | 3 ++-
 include/boost/thread/futures/wait_for_any.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 5b6bbbd..614cb3d 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1160,8 +1160,9 @@ namespace boost
                 {
                     for(count_type_portable i=0;i<count;++i)
                     {
-                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex));
+                        locks[i]=BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(futures[i].future_->mutex,boost::defer_lock));
                     }
+                    lock();
                 }
 
                 void lock()
diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index aadda2b..4051282 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -62,8 +62,9 @@ namespace boost
         {
           for (count_type_portable i = 0; i < count; ++i)
           {
-            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex()));
+            locks[i] = BOOST_THREAD_MAKE_RV_REF(boost::unique_lock<boost::mutex>(waiters[i].future_->mutex(), boost::defer_lock));
           }
+          lock();
         }
 
         void lock()
-- 
2.43.0


From c18cbac08bf5cee6966b8a72c22eddbf4ee275ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 17/58] fix: wait_for_any accepts several futures that refer to
 the same state

---
 include/boost/thread/future.hpp               | 12 +++++++++++-
 include/boost/thread/futures/wait_for_any.hpp | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 614cb3d..f1b43d6 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1183,6 +1183,16 @@ namespace boost
             std::vector<registered_waiter> futures_;
             count_type future_count;
 
+            // several shared futures may refer to the same state: it must be locked only once
+            bool is_registered(boost::shared_ptr<detail::shared_state_base> const& f) const
+            {
+                for(count_type i=0;i<futures_.size();++i)
+                {
+                    if(futures_[i].future_==f) return true;
+                }
+                return false;
+            }
+
         public:
             future_waiter():
                 future_count(0)
@@ -1191,7 +1201,7 @@ namespace boost
             template<typename F>
             void add(F& f)
             {
-                if(f.future_)
+                if(f.future_ && !is_registered(f.future_))
                 {
                   registered_waiter waiter(f.future_,f.future_->notify_when_ready(cv),future_count);
                   try {
diff --git a/include/boost/thread/futures/wait_for_any.hpp b/include/boost/thread/futures/wait_for_any.hpp
index 4051282..ae58a66 100644
--- a/include/boost/thread/futures/wait_for_any.hpp
+++ b/include/boost/thread/futures/wait_for_any.hpp
@@ -85,6 +85,16 @@ namespace boost
       std::vector<registered_waiter> waiters_;
       count_type future_count;
 
+      // several shared futures may refer to the same state: it must be locked only once
+      bool is_registered(Future& f) const
+      {
+        for (count_type i = 0; i < waiters_.size(); ++i)
+        {
+          if (&waiters_[i].future_->mutex() == &f.mutex()) return true;
+        }
+        return false;
+      }
+
     public:
       waiter_for_any_in_seq() :
         future_count(0)
@@ -94,7 +104,7 @@ namespace boost
       template <typename F>
       void add(F& f)
       {
-        if (f.valid())
+        if (f.valid() && !is_registered(f))
         {
           registered_waiter waiter(f, f.notify_when_ready(cv), future_count);
           try
-- 
2.43.0


From c17effa4004ecf38ea7646904989f2dac1a57bf8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 18/58] fix: a moved-from devector is empty, so that a queue
 whose elements were taken out stays usable

---
 include/boost/thread/csbl/devector.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/csbl/devector.hpp b/include/boost/thread/csbl/devector.hpp
index c2bc0bb..3df0c70 100644
--- a/include/boost/thread/csbl/devector.hpp
+++ b/include/boost/thread/csbl/devector.hpp
@@ -45,7 +45,10 @@ namespace boost
       devector(BOOST_RV_REF(devector) x) BOOST_NOEXCEPT
          :  data_(boost::move(x.data_)),
             front_index_(x.front_index_)
-      {}
+      {
+        x.data_.clear();
+        x.front_index_ = 0;
+      }
 
       devector& operator=(BOOST_COPY_ASSIGN_REF(devector) x)
       {
@@ -64,6 +67,8 @@ namespace boost
       {
         data_ = boost::move(x.data_);
         front_index_ = x.front_index_;
+        x.data_.clear();
+        x.front_index_ = 0;
         return *this;
       }
 
-- 
2.43.0


From 010b47711b2dfc8f5186532c69f8e9201dae4596 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 19/58] fix: sync_bounded_queue reports its exact size after
 the ring has wrapped around

---
 .../boost/thread/concurrent_queues/sync_bounded_queue.hpp    | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index c081bfe..3e45832 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -124,10 +124,9 @@ namespace concurrent
     {
       return capacity_-1;
     }
-    inline size_type size(lock_guard<mutex>& lk) const BOOST_NOEXCEPT
+    inline size_type size(lock_guard<mutex>& ) const BOOST_NOEXCEPT
     {
-      if (full(lk)) return capacity(lk);
-      return ((in_+capacity(lk)-out_) % capacity(lk));
+      return ((in_+capacity_-out_) % capacity_);
     }
 
     inline void throw_if_closed(unique_lock<mutex>&);
-- 
2.43.0


From 53d97bbc437ad0a7f1e0807e7ca9cb4e0242ee90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 20/58] fix: sync_bounded_queue::wait_push_back returns closed
 when the queue is closed while it waits

---
 .../concurrent_queues/sync_bounded_queue.hpp  | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
index 3e45832..9f494a0 100644
--- a/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_bounded_queue.hpp
@@ -541,8 +541,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(const ValueType& elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(elem, wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(elem, in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
@@ -587,6 +589,22 @@ namespace concurrent
     }
   }
 
+  template <typename ValueType>
+  typename sync_bounded_queue<ValueType>::size_type sync_bounded_queue<ValueType>::wait_until_not_full(unique_lock<mutex>& lk, bool & closed)
+  {
+    for (;;)
+    {
+      if (closed_) {closed=true; return in_;}
+      size_type in_p_1 = inc(in_);
+      if (in_p_1 != out_) // ! full()
+      {
+        return in_p_1;
+      }
+      ++waiting_full_;
+      not_full_.wait(lk);
+    }
+  }
+
 #ifndef BOOST_THREAD_QUEUE_DEPRECATE_OLD
   template <typename ValueType>
   void sync_bounded_queue<ValueType>::push(const ValueType& elem)
@@ -646,8 +664,10 @@ namespace concurrent
   template <typename ValueType>
   queue_op_status sync_bounded_queue<ValueType>::wait_push_back(BOOST_THREAD_RV_REF(ValueType) elem, unique_lock<mutex>& lk)
   {
-    if (closed(lk)) return queue_op_status::closed;
-    push_at(boost::move(elem), wait_until_not_full(lk), lk);
+    bool is_closed = false;
+    size_type in_p_1 = wait_until_not_full(lk, is_closed);
+    if (is_closed) return queue_op_status::closed;
+    push_at(boost::move(elem), in_p_1, lk);
     return queue_op_status::success;
   }
   template <typename ValueType>
-- 
2.43.0


From 6672af932b1b9d4ba45e653ae9a45ea0dba5ac08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 21/58] fix: timed pull from an empty queue survives a clock
 that is set back

---
 include/boost/thread/concurrent_queues/sync_timed_queue.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
index fd8d5a3..518fc51 100644
--- a/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
+++ b/include/boost/thread/concurrent_queues/sync_timed_queue.hpp
@@ -289,6 +289,7 @@ namespace detail
       if (not_empty_and_time_reached(lk)) return queue_op_status::success;
       if (super::closed(lk)) return queue_op_status::closed;
       if (clock::now() >= tp) return super::empty(lk) ? queue_op_status::timeout : queue_op_status::not_ready;
+      if (super::empty(lk)) continue; // the clock has been set back meanwhile
 
       const time_point tpmin((std::min)(tp, detail::limit_timepoint(super::data_.top().time)));
       super::cond_.wait_until(lk, tpmin);
-- 
2.43.0


From ae6be211ee75c31f1816a931f5ea23f47f0f5def Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 22/58] fix: a thread pool that is destroyed still executes the
 closures it has accepted

---
 include/boost/thread/executors/basic_thread_pool.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index ef40ea0..250a77b 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -98,7 +98,8 @@ namespace executors
           }
           catch (boost::thread_interrupted&)
           {
-            return;
+            // The closures accepted before the pool was closed must still be executed.
+            if (! work_queue.closed()) return;
           }
         }
       }
-- 
2.43.0


From 5a6efe441e21f05f8df0dd185c3f6980e08664a4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 23/58] fix: a thread pool that cannot start all its threads
 joins those it has started

---
 include/boost/thread/executors/basic_thread_pool.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index 250a77b..edf43a4 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -157,6 +157,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -183,6 +184,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -202,6 +204,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
@@ -221,6 +224,7 @@ namespace executors
       catch (...)
       {
         close();
+        interrupt_and_join();
         throw;
       }
     }
-- 
2.43.0


From 3f30b9dbd907dcad59f979ca8d96d143501f35e5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:32:30 +0000
Subject: [PATCH 24/58] fix: tasks of a thread_executor may use it while its
 destructor joins them

---
 include/boost/thread/executors/thread_executor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/thread_executor.hpp b/include/boost/thread/executors/thread_executor.hpp
index 9de87b1..c0c641a 100644
--- a/include/boost/thread/executors/thread_executor.hpp
+++ b/include/boost/thread/executors/thread_executor.hpp
@@ -38,8 +38,8 @@ namespace executors
     bool closed_;
     typedef scoped_thread<> thread_t;
     typedef csbl::vector<thread_t> threads_type;
-    threads_type threads_;
     mutable mutex mtx_;
+    threads_type threads_; // joined by the destructor before mtx_ is destroyed
 
     /**
      * Effects: try to execute one task.
-- 
2.43.0


From a50ccd789de5250723eeca188943f16a7f705f05 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 25/58] fix: the destructor of serial_executor_cont waits for
 the closures it has accepted

---
 include/boost/thread/executors/serial_executor_cont.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/thread/executors/serial_executor_cont.hpp b/include/boost/thread/executors/serial_executor_cont.hpp
index baccf73..357e815 100644
--- a/include/boost/thread/executors/serial_executor_cont.hpp
+++ b/include/boost/thread/executors/serial_executor_cont.hpp
@@ -99,6 +99,11 @@ namespace executors
     {
       // signal to the worker thread that there will be no more submissions.
       close();
+      // the closures not yet executed refer to ex_.
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      this_thread::disable_interruption do_not_disturb;
+#endif
+      if (fut_.valid()) fut_.wait();
     }
 
     /**
-- 
2.43.0


From e847ed9063598a97b930b654a8c4b57571d855fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 26/58] fix: a scheduled thread pool that cannot start all its
 threads joins those it has started

---
 .../thread/executors/scheduled_thread_pool.hpp     | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index 6202f2d..c66bf0b 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -26,9 +26,19 @@ namespace executors
 
     scheduled_thread_pool(size_t num_threads) : super()
     {
-      for(size_t i = 0; i < num_threads; i++)
+      try
       {
-        _workers.create_thread(bind(&super::loop, this));
+        for(size_t i = 0; i < num_threads; i++)
+        {
+          _workers.create_thread(bind(&super::loop, this));
+        }
+      }
+      catch (...)
+      {
+        this->close();
+        _workers.interrupt_all();
+        _workers.join_all();
+        throw;
       }
     }
 
-- 
2.43.0


From dcb7fa579d7b774f0e32ffa51e9b46d9bdf1a775 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:13:22 +0000
Subject: [PATCH 27/58] fix: synchronized_value: comparing a value with itself
 locked its mutex twice

---
 include/boost/thread/synchronized_value.hpp | 25 +++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/boost/thread/synchronized_value.hpp b/include/boost/thread/synchronized_value.hpp
index 4e48a85..bba8303 100644
--- a/include/boost/thread/synchronized_value.hpp
+++ b/include/boost/thread/synchronized_value.hpp
@@ -840,6 +840,11 @@ namespace boost
      */
     bool operator==(synchronized_value const& rhs)  const
     {
+      if(&rhs == this)
+      {
+        strict_lock<mutex_type> lk(mtx_);
+        return value_ == value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -852,6 +857,11 @@ namespace boost
      */
     bool operator<(synchronized_value const& rhs) const
     {
+      if(&rhs == this)
+      {
+        strict_lock<mutex_type> lk(mtx_);
+        return value_ < value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -864,6 +874,11 @@ namespace boost
      */
     bool operator>(synchronized_value const& rhs) const
     {
+      if(&rhs == this)
+      {
+        strict_lock<mutex_type> lk(mtx_);
+        return value_ > value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -872,6 +887,11 @@ namespace boost
     }
     bool operator<=(synchronized_value const& rhs) const
     {
+      if(&rhs == this)
+      {
+        strict_lock<mutex_type> lk(mtx_);
+        return value_ <= value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
@@ -880,6 +900,11 @@ namespace boost
     }
     bool operator>=(synchronized_value const& rhs) const
     {
+      if(&rhs == this)
+      {
+        strict_lock<mutex_type> lk(mtx_);
+        return value_ >= value_;
+      }
       unique_lock<mutex_type> lk1(mtx_, defer_lock);
       unique_lock<mutex_type> lk2(rhs.mtx_, defer_lock);
       lock(lk1,lk2);
-- 
2.43.0


From 523e0e093f48cc530bf355c559d086e8736da85b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:28:35 +0000
Subject: [PATCH 28/58] fix: making a shared state ready does not allocate
 memory before it launches the continuations

---
 include/boost/thread/future.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index f1b43d6..39acc0e 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -285,8 +285,8 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock)
             {
                 if (! continuations.empty()) {
-                  continuations_type the_continuations = continuations;
-                  continuations.clear();
+                  continuations_type the_continuations;
+                  the_continuations.swap(continuations);
                   relocker rlk(lock);
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) {
                     (*it)->launch_continuation();
@@ -305,8 +305,8 @@ namespace boost
             void do_continuation(boost::unique_lock<boost::mutex>& lock) \
             { \
                 if (! this->continuations.empty()) { \
-                  continuations_type the_continuations = this->continuations; \
-                  this->continuations.clear(); \
+                  continuations_type the_continuations; \
+                  the_continuations.swap(this->continuations); \
                   relocker rlk(lock); \
                   for (continuations_type::iterator it = the_continuations.begin(); it != the_continuations.end(); ++it) { \
                     (*it)->launch_continuation(); \
-- 
2.43.0


From e8c55114ec9bc3de07f159f3dafa05e9561b1faa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 29/58] fix: at_thread_exit releases the function when it
 cannot be registered

---
 include/boost/thread/detail/thread.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/thread.hpp b/include/boost/thread/detail/thread.hpp
index a1bfe64..6e36975 100644
--- a/include/boost/thread/detail/thread.hpp
+++ b/include/boost/thread/detail/thread.hpp
@@ -26,6 +26,7 @@
 #include <boost/thread/detail/invoke.hpp>
 #include <boost/thread/detail/is_convertible.hpp>
 #include <boost/assert.hpp>
+#include <boost/core/no_exceptions_support.hpp>
 #include <list>
 #include <algorithm>
 #include <boost/core/ref.hpp>
@@ -854,7 +855,16 @@ namespace boost
         void at_thread_exit(F f)
         {
             detail::thread_exit_function_base* const thread_exit_func=detail::heap_new<detail::thread_exit_function<F> >(f);
-            detail::add_thread_exit_function(thread_exit_func);
+            BOOST_TRY
+            {
+                detail::add_thread_exit_function(thread_exit_func);
+            }
+            BOOST_CATCH(...)
+            {
+                detail::heap_delete(thread_exit_func);
+                BOOST_RETHROW
+            }
+            BOOST_CATCH_END
         }
     }
 }
-- 
2.43.0


From b357785c0e2e96480474345ef895ae9b63eceedf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 30/58] fix: notify_all_at_thread_exit unlocks the lock when it
 cannot be registered

---
 src/pthread/thread.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index c68c25c..4674024 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -808,7 +808,8 @@ namespace boost
         detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
         if(current_thread_data)
         {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.release());
+            current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
+            lk.release();
         }
     }
 
-- 
2.43.0


From 2058d0350f8f1d5b2ee69e67ac195ba760790111 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 31/58] fix: recursive_mutex::lock reports a failure with
 lock_error

---
 include/boost/thread/pthread/recursive_mutex.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/pthread/recursive_mutex.hpp b/include/boost/thread/pthread/recursive_mutex.hpp
index de4d981..a3550c9 100644
--- a/include/boost/thread/pthread/recursive_mutex.hpp
+++ b/include/boost/thread/pthread/recursive_mutex.hpp
@@ -105,7 +105,11 @@ namespace boost
 #ifdef BOOST_THREAD_HAS_PTHREAD_MUTEXATTR_SETTYPE
         void lock()
         {
-            BOOST_VERIFY(!posix::pthread_mutex_lock(&m));
+            int const res=posix::pthread_mutex_lock(&m);
+            if (res)
+            {
+                boost::throw_exception(lock_error(res,"boost: mutex lock failed in pthread_mutex_lock"));
+            }
         }
 
         void unlock()
@@ -270,7 +274,11 @@ namespace boost
 #ifdef BOOST_USE_PTHREAD_RECURSIVE_TIMEDLOCK
         void lock()
         {
-            BOOST_VERIFY(!posix::pthread_mutex_lock(&m));
+            int const res=posix::pthread_mutex_lock(&m);
+            if (res)
+            {
+                boost::throw_exception(lock_error(res,"boost: mutex lock failed in pthread_mutex_lock"));
+            }
         }
 
         void unlock()
-- 
2.43.0


From a62b3dea0356bca49df157debf47ff25d70dc55b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 32/58] fix: thread_group::create_thread does not start a
 thread that it cannot add to the group

---
 include/boost/thread/detail/thread_group.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/detail/thread_group.hpp b/include/boost/thread/detail/thread_group.hpp
index 4105c73..1b15c3a 100644
--- a/include/boost/thread/detail/thread_group.hpp
+++ b/include/boost/thread/detail/thread_group.hpp
@@ -76,8 +76,11 @@ namespace boost
         thread* create_thread(F threadfunc)
         {
             boost::lock_guard<shared_mutex> guard(m);
+            // the place in the list is made before the thread is started
+            std::list<thread*> place(1, static_cast<thread*>(0));
             boost::csbl::unique_ptr<thread> new_thread(new thread(threadfunc));
-            threads.push_back(new_thread.get());
+            place.front() = new_thread.get();
+            threads.splice(threads.end(), place);
             return new_thread.release();
         }
 
-- 
2.43.0


From ac6c15f2f3645f01a05d331a03fb7aa222187c83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 33/58] fix: a promise whose result cannot be registered for
 the exit of the thread remains unsatisfied

---
 include/boost/thread/future.hpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 39acc0e..6658762 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -471,6 +471,22 @@ namespace boost
               exception=e;
               this->is_constructed = true;
             }
+            // Registers the state with the current thread. When that fails the result is withdrawn, so that
+            // the promise remains unsatisfied.
+            void publish_at_thread_exit()
+            {
+              try
+              {
+                detail::make_ready_at_thread_exit(shared_from_this());
+              }
+              catch (...)
+              {
+                boost::lock_guard<boost::mutex> lk(this->mutex);
+                exception=exception_ptr();
+                this->is_constructed = false;
+                throw;
+              }
+            }
             void set_exception_at_thread_exit(exception_ptr e)
             {
               set_exception_deferred(e);
@@ -481,7 +497,7 @@ namespace boost
 //              }
 //              exception=e;
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->publish_at_thread_exit();
             }
 
             // a result has been set, possibly waiting to be made ready at thread exit
@@ -726,7 +742,7 @@ namespace boost
 //#endif
 //
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->publish_at_thread_exit();
             }
             void set_value_at_thread_exit(rvalue_source_type result_)
             {
@@ -749,7 +765,7 @@ namespace boost
 //#endif
 //#endif
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->publish_at_thread_exit();
             }
 
         private:
@@ -832,7 +848,7 @@ namespace boost
 //                  throw_exception(promise_already_satisfied());
 //              result= &result_;
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->publish_at_thread_exit();
             }
 
         private:
@@ -906,7 +922,7 @@ namespace boost
 //                  throw_exception(promise_already_satisfied());
 //              }
 //              this->is_constructed = true;
-              detail::make_ready_at_thread_exit(shared_from_this());
+              this->publish_at_thread_exit();
             }
         private:
             shared_state(shared_state const&);
-- 
2.43.0


From 35e1fcd7cf4f49a09c21c21f5f4344ff7a5b1be3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 34/58] fix: future::then leaves the future valid when the
 continuation cannot be attached

---
 include/boost/thread/future.hpp | 40 ++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 6658762..30067bb 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4940,6 +4940,30 @@ namespace detail {
     virtual void launch_continuation() {    }
   };
 
+  ////////////////////////////////
+  // attach_continuation: when it fails the future keeps its shared state
+  ////////////////////////////////
+  template<typename ShSt, typename F>
+  void attach_continuation(ShSt& state, F& f, boost::unique_lock<boost::mutex> &lock) {
+    try {
+      state.init(lock);
+    } catch(...) {
+      f = boost::move(state.parent);
+      throw;
+    }
+  }
+#ifdef BOOST_THREAD_PROVIDES_EXECUTORS
+  template<typename ShSt, typename F, typename Ex>
+  void attach_continuation(ShSt& state, F& f, boost::unique_lock<boost::mutex> &lock, Ex& ex) {
+    try {
+      state.init(lock, ex);
+    } catch(...) {
+      f = boost::move(state.parent);
+      throw;
+    }
+  }
+#endif
+
   ////////////////////////////////
   // make_future_deferred_continuation_shared_state
   ////////////////////////////////
@@ -4950,8 +4974,8 @@ namespace detail {
       BOOST_THREAD_RV_REF(F) f, BOOST_THREAD_FWD_REF(Fp) c) {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<future_deferred_continuation_shared_state<F, Rp, Cont> >
-        h(new future_deferred_continuation_shared_state<F, Rp, Cont>(boost::move(f), boost::forward<Fp>(c)));
-    h->init(lock);
+        h(boost::make_shared<future_deferred_continuation_shared_state<F, Rp, Cont> >(boost::move(f), boost::forward<Fp>(c)));
+    attach_continuation(*h, f, lock);
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
 
@@ -4965,8 +4989,8 @@ namespace detail {
       BOOST_THREAD_FWD_REF(Fp) c) {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<future_async_continuation_shared_state<F,Rp, Cont> >
-        h(new future_async_continuation_shared_state<F,Rp, Cont>(boost::move(f), boost::forward<Fp>(c)));
-    h->init(lock);
+        h(boost::make_shared<future_async_continuation_shared_state<F,Rp, Cont> >(boost::move(f), boost::forward<Fp>(c)));
+    attach_continuation(*h, f, lock);
 
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
@@ -4980,8 +5004,8 @@ namespace detail {
       BOOST_THREAD_FWD_REF(Fp) c) {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<future_sync_continuation_shared_state<F,Rp, Cont> >
-        h(new future_sync_continuation_shared_state<F,Rp, Cont>(boost::move(f), boost::forward<Fp>(c)));
-    h->init(lock);
+        h(boost::make_shared<future_sync_continuation_shared_state<F,Rp, Cont> >(boost::move(f), boost::forward<Fp>(c)));
+    attach_continuation(*h, f, lock);
 
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
@@ -4998,8 +5022,8 @@ namespace detail {
       BOOST_THREAD_FWD_REF(Fp) c) {
     typedef typename decay<Fp>::type Cont;
     shared_ptr<future_executor_continuation_shared_state<F,Rp, Cont> >
-        h(new future_executor_continuation_shared_state<F,Rp, Cont>(boost::move(f), boost::forward<Fp>(c)));
-    h->init(lock, ex);
+        h(boost::make_shared<future_executor_continuation_shared_state<F,Rp, Cont> >(boost::move(f), boost::forward<Fp>(c)));
+    attach_continuation(*h, f, lock, ex);
 
     return BOOST_THREAD_FUTURE<Rp>(h);
   }
-- 
2.43.0


From ffcee6f3b14bf1ee2c8336a1efde5dd9fa13fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:48 +0000
Subject: [PATCH 35/58] fix: no_interruption_point sleeps no longer return
 early when a signal arrives

---
 src/pthread/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index 4674024..db30820 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -40,6 +40,7 @@
 #include <string>
 #include <set>
 #include <vector>
+#include <errno.h>
 #include <string.h> // memcmp.
 
 namespace boost
@@ -472,7 +473,9 @@ namespace boost
                         BOOST_VERIFY(!pthread_delay_np(&ts.getTs()));
 #       endif
 #   elif defined(BOOST_HAS_NANOSLEEP)
-                        nanosleep(&ts.getTs(), 0);
+                        // a signal handler may end the sleep early
+                        timespec rem = ts.getTs();
+                        while (nanosleep(&rem, &rem) == -1 && errno == EINTR) {}
 #   else
                         // This should never be reached due to BOOST_THREAD_SLEEP_FOR_IS_STEADY
 #   endif
-- 
2.43.0


From 4cd9cf81bcbbdfedf1dc1c0f61c0336e9038fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 36/58] fix: completion_latch::try_wait and its timed waits do
 not block until the latch opens

---
 include/boost/thread/completion_latch.hpp | 26 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/boost/thread/completion_latch.hpp b/include/boost/thread/completion_latch.hpp
index 03f4e89..9e5caf9 100644
--- a/include/boost/thread/completion_latch.hpp
+++ b/include/boost/thread/completion_latch.hpp
@@ -53,7 +53,11 @@ namespace boost
       {
         that_.leavers_.cond_.wait(lk, detail::counter_is_zero(that_.leavers_));
         that_.waiters_.inc_and_notify_all();
-        that_.leavers_.cond_.wait(lk, detail::counter_is_not_zero(that_.leavers_));
+      }
+      // requires the count to be zero
+      void leave()
+      {
+        that_.leavers_.cond_.wait(lk_, detail::counter_is_not_zero(that_.leavers_));
       }
       ~around_wait()
       {
@@ -112,14 +116,17 @@ namespace boost
       boost::unique_lock<boost::mutex> lk(mutex_);
       around_wait aw(*this, lk);
       count_.cond_.wait(lk, detail::counter_is_zero(count_));
+      aw.leave();
     }
 
     /// @return true if the internal counter is already 0, false otherwise
     bool try_wait()
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
+      if (count_ != 0) return false;
       around_wait aw(*this, lk);
-      return (count_ == 0);
+      aw.leave();
+      return true;
     }
 
     /// try to wait for a specified amount of time
@@ -129,9 +136,10 @@ namespace boost
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
       around_wait aw(*this, lk);
-      return count_.cond_.wait_for(lk, rel_time, detail::counter_is_zero(count_))
-              ? cv_status::no_timeout
-              : cv_status::timeout;
+      if (!count_.cond_.wait_for(lk, rel_time, detail::counter_is_zero(count_)))
+        return cv_status::timeout;
+      aw.leave();
+      return cv_status::no_timeout;
     }
 
     /// try to wait until the specified time_point is reached
@@ -141,9 +149,10 @@ namespace boost
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
       around_wait aw(*this, lk);
-      return count_.cond_.wait_until(lk, abs_time, detail::counter_is_zero(count_))
-          ? cv_status::no_timeout
-          : cv_status::timeout;
+      if (!count_.cond_.wait_until(lk, abs_time, detail::counter_is_zero(count_)))
+        return cv_status::timeout;
+      aw.leave();
+      return cv_status::no_timeout;
     }
 
     /// Decrement the count and notify anyone waiting if we reach zero.
@@ -170,6 +179,7 @@ namespace boost
       }
       around_wait aw(*this, lk);
       count_.cond_.wait(lk, detail::counter_is_zero(count_));
+      aw.leave();
     }
     void sync()
     {
-- 
2.43.0


From 6aaa9b5b3aad6d6bc361aec2f8efdafb2f614872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 37/58] fix: a thread that waits after a completion_latch has
 opened is not blocked for ever

---
 include/boost/thread/completion_latch.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/boost/thread/completion_latch.hpp b/include/boost/thread/completion_latch.hpp
index 9e5caf9..f8ee098 100644
--- a/include/boost/thread/completion_latch.hpp
+++ b/include/boost/thread/completion_latch.hpp
@@ -71,6 +71,7 @@ namespace boost
       if (--count_ == 0)
       {
         waiters_.cond_.wait(lk, detail::counter_is_not_zero(waiters_));
+        open_ = true;
         leavers_.assign_and_notify_all(waiters_);
         count_.cond_.notify_all();
         waiters_.cond_.wait(lk, detail::counter_is_zero(waiters_));
@@ -87,7 +88,7 @@ namespace boost
 
     /// Constructs a latch with a given count.
     completion_latch(std::size_t count) :
-      count_(count), funct_(noop()), waiters_(0), leavers_(0)
+      count_(count), funct_(noop()), waiters_(0), leavers_(0), open_(count == 0)
     {
     }
 
@@ -97,11 +98,11 @@ namespace boost
     count_(count),
     funct_(boost::move(funct)),
     waiters_(0),
-    leavers_(0)
+    leavers_(0), open_(count == 0)
     {
     }
     completion_latch(std::size_t count, void(*funct)()) :
-      count_(count), funct_(funct), waiters_(0), leavers_(0)
+      count_(count), funct_(funct), waiters_(0), leavers_(0), open_(count == 0)
     {
     }
 
@@ -114,6 +115,7 @@ namespace boost
     void wait()
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
+      if (open_) return;
       around_wait aw(*this, lk);
       count_.cond_.wait(lk, detail::counter_is_zero(count_));
       aw.leave();
@@ -123,6 +125,7 @@ namespace boost
     bool try_wait()
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
+      if (open_) return true;
       if (count_ != 0) return false;
       around_wait aw(*this, lk);
       aw.leave();
@@ -135,6 +138,7 @@ namespace boost
     cv_status wait_for(const chrono::duration<Rep, Period>& rel_time)
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
+      if (open_) return cv_status::no_timeout;
       around_wait aw(*this, lk);
       if (!count_.cond_.wait_for(lk, rel_time, detail::counter_is_zero(count_)))
         return cv_status::timeout;
@@ -148,6 +152,7 @@ namespace boost
     cv_status wait_until(const chrono::time_point<Clock, Duration>& abs_time)
     {
       boost::unique_lock<boost::mutex> lk(mutex_);
+      if (open_) return cv_status::no_timeout;
       around_wait aw(*this, lk);
       if (!count_.cond_.wait_until(lk, abs_time, detail::counter_is_zero(count_)))
         return cv_status::timeout;
@@ -193,6 +198,7 @@ namespace boost
       boost::lock_guard<boost::mutex> lk(mutex_);
       //BOOST_ASSERT(count_ == 0);
       count_ = count;
+      open_ = (count == 0);
     }
 
     /// Resets the latch with the new completion function.
@@ -226,6 +232,7 @@ namespace boost
     completion_function funct_;
     detail::counter waiters_;
     detail::counter leavers_;
+    bool open_; // the threads that waited when the count reached zero have been released
   };
 
 } // namespace boost
-- 
2.43.0


From fad29450fdc060b382e368b84982c91ac0d43151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 38/58] fix: a timed attempt on a v2 shared_mutex that gives up
 wakes those it kept out

---
 include/boost/thread/v2/shared_mutex.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 70ba47d..a8fa492 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -307,6 +307,7 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -328,6 +329,7 @@ namespace boost {
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -685,6 +687,7 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -706,6 +709,7 @@ namespace boost {
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -911,6 +915,7 @@ namespace boost {
         ++num_readers;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
+        gate1_.notify_all();
         return false;
       }
       return true;
@@ -1022,6 +1027,7 @@ namespace boost {
         ++num_readers;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
+        gate1_.notify_all();
         return false;
       }
       return true;
-- 
2.43.0


From 3b0810d91781a33489df6722ec083c8c5a8c66c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 39/58] fix: acquiring a v2 shared_mutex is not an interruption
 point; an interrupted attempt left it locked

---
 include/boost/thread/v2/shared_mutex.hpp | 59 +++++++++++++++++++++++-
 1 file changed, 58 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index a8fa492..06d55d6 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -152,7 +152,7 @@ public:
 #include <boost/thread/detail/config.hpp>
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/condition_variable.hpp>
-#include <boost/thread/mutex.hpp>
+#include <boost/thread/detail/thread_interruption.hpp>
 #ifdef BOOST_THREAD_USES_CHRONO
 #include <boost/chrono.hpp>
 #endif
@@ -274,6 +274,9 @@ namespace boost {
 
     inline void shared_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer, this));
       state_ |= write_entered_;
@@ -296,6 +299,9 @@ namespace boost {
     bool shared_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -318,6 +324,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer, this)))
@@ -351,6 +360,9 @@ namespace boost {
 
     inline void shared_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&shared_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -376,6 +388,9 @@ namespace boost {
     bool shared_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -393,6 +408,9 @@ namespace boost {
     template<typename T>
     bool shared_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &shared_mutex::no_writer_no_max_readers, this)))
@@ -654,6 +672,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader, this));
       state_ |= write_entered_;
@@ -676,6 +697,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -698,6 +722,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
@@ -732,6 +759,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_shared()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -757,6 +787,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_shared_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -774,6 +807,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_shared(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_max_readers, this)))
@@ -810,6 +846,9 @@ namespace boost {
 
     inline void upgrade_mutex::lock_upgrade()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       gate1_.wait(lk, boost::bind(&upgrade_mutex::no_writer_no_upgrader_no_max_readers, this));
       count_t num_readers = (state_ & n_readers_) + 1;
@@ -835,6 +874,9 @@ namespace boost {
     bool upgrade_mutex::try_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -852,6 +894,9 @@ namespace boost {
     template<typename T>
     bool upgrade_mutex::timed_lock_upgrade(T const & abs_or_rel_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader_no_max_readers, this)))
@@ -899,6 +944,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -955,6 +1003,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_shared_and_lock_upgrade_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(one_or_more_readers());
       if (!gate1_.wait_until(lk, abs_time, boost::bind(
@@ -985,6 +1036,9 @@ namespace boost {
 
     inline void upgrade_mutex::unlock_upgrade_and_lock()
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
@@ -1014,6 +1068,9 @@ namespace boost {
     bool upgrade_mutex::try_unlock_upgrade_and_lock_until(
         const boost::chrono::time_point<Clock, Duration>& abs_time)
     {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      boost::this_thread::disable_interruption do_not_disturb;
+#endif
       boost::unique_lock<mutex_t> lk(mut_);
       BOOST_ASSERT(no_writer());
       BOOST_ASSERT(one_upgrader());
-- 
2.43.0


From d17836d177e468faf7114e19ac3e4a46aa23f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 40/58] fix: relative timed_lock of a v2 shared_mutex waits no
 longer than asked for

---
 include/boost/thread/v2/shared_mutex.hpp | 50 ++++++++++++++++++------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 06d55d6..57ead65 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -234,8 +234,22 @@ namespace boost {
           const boost::chrono::time_point<Clock, Duration>& abs_time);
 #endif
 #if defined BOOST_THREAD_USES_DATETIME
-      template<typename T>
-      bool timed_lock(T const & abs_or_rel_time);
+      bool timed_lock(system_time const & abs_time);
+      bool timed_lock(xtime const & abs_time)
+      {
+        return timed_lock(system_time(abs_time));
+      }
+      template<typename TimeDuration>
+      bool timed_lock(TimeDuration const & rel_time)
+      {
+        // one deadline for both gates
+        if (rel_time.is_pos_infinity())
+        {
+          lock();
+          return true;
+        }
+        return rel_time.is_special() ? try_lock() : timed_lock(get_system_time() + rel_time);
+      }
 #endif
       void unlock();
 
@@ -321,20 +335,19 @@ namespace boost {
 #endif
 
 #if defined BOOST_THREAD_USES_DATETIME
-    template<typename T>
-    bool shared_mutex::timed_lock(T const & abs_or_rel_time)
+    inline bool shared_mutex::timed_lock(system_time const & abs_time)
     {
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
       boost::this_thread::disable_interruption do_not_disturb;
 #endif
       boost::unique_lock<mutex_t> lk(mut_);
-      if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
+      if (!gate1_.timed_wait(lk, abs_time, boost::bind(
             &shared_mutex::no_writer, this)))
       {
         return false;
       }
       state_ |= write_entered_;
-      if (!gate2_.timed_wait(lk, abs_or_rel_time, boost::bind(
+      if (!gate2_.timed_wait(lk, abs_time, boost::bind(
             &shared_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
@@ -554,8 +567,22 @@ namespace boost {
           const boost::chrono::time_point<Clock, Duration>& abs_time);
 #endif
 #if defined BOOST_THREAD_USES_DATETIME
-      template<typename T>
-      bool timed_lock(T const & abs_or_rel_time);
+      bool timed_lock(system_time const & abs_time);
+      bool timed_lock(xtime const & abs_time)
+      {
+        return timed_lock(system_time(abs_time));
+      }
+      template<typename TimeDuration>
+      bool timed_lock(TimeDuration const & rel_time)
+      {
+        // one deadline for both gates
+        if (rel_time.is_pos_infinity())
+        {
+          lock();
+          return true;
+        }
+        return rel_time.is_special() ? try_lock() : timed_lock(get_system_time() + rel_time);
+      }
 #endif
       void unlock();
 
@@ -719,20 +746,19 @@ namespace boost {
 #endif
 
 #if defined BOOST_THREAD_USES_DATETIME
-    template<typename T>
-    bool upgrade_mutex::timed_lock(T const & abs_or_rel_time)
+    inline bool upgrade_mutex::timed_lock(system_time const & abs_time)
     {
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
       boost::this_thread::disable_interruption do_not_disturb;
 #endif
       boost::unique_lock<mutex_t> lk(mut_);
-      if (!gate1_.timed_wait(lk, abs_or_rel_time, boost::bind(
+      if (!gate1_.timed_wait(lk, abs_time, boost::bind(
             &upgrade_mutex::no_writer_no_upgrader, this)))
       {
         return false;
       }
       state_ |= write_entered_;
-      if (!gate2_.timed_wait(lk, abs_or_rel_time, boost::bind(
+      if (!gate2_.timed_wait(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
         state_ &= ~write_entered_;
-- 
2.43.0


From f44fd8ad35b1bc5c002b75f5fef374e9b77d1d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:58 +0000
Subject: [PATCH 41/58] fix: a timed conversion of a v2 shared_mutex that gives
 up counts the readers that are left

---
 include/boost/thread/v2/shared_mutex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/v2/shared_mutex.hpp b/include/boost/thread/v2/shared_mutex.hpp
index 57ead65..314814c 100644
--- a/include/boost/thread/v2/shared_mutex.hpp
+++ b/include/boost/thread/v2/shared_mutex.hpp
@@ -986,7 +986,8 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // readers may have left meanwhile
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= num_readers;
         gate1_.notify_all();
@@ -1107,7 +1108,8 @@ namespace boost {
       if (!gate2_.wait_until(lk, abs_time, boost::bind(
             &upgrade_mutex::no_readers, this)))
       {
-        ++num_readers;
+        // readers may have left meanwhile
+        num_readers = (state_ & n_readers_) + 1;
         state_ &= ~(write_entered_ | n_readers_);
         state_ |= (upgradable_entered_ | num_readers);
         gate1_.notify_all();
-- 
2.43.0


From e724e12825805d736eaf9aa3b855fcb03225f56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 42/58] fix: destroying a thread pool or a scheduler in an
 interrupted thread terminated the program

---
 .../boost/thread/executors/basic_thread_pool.hpp  | 15 +++++++++++++++
 .../thread/executors/scheduled_thread_pool.hpp    |  6 ++++++
 include/boost/thread/executors/scheduler.hpp      |  4 ++++
 .../boost/thread/executors/scheduling_adaptor.hpp |  4 ++++
 4 files changed, 29 insertions(+)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index edf43a4..d1ae752 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -157,6 +157,9 @@ namespace executors
       catch (...)
       {
         close();
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        this_thread::disable_interruption do_not_disturb;
+#endif
         interrupt_and_join();
         throw;
       }
@@ -184,6 +187,9 @@ namespace executors
       catch (...)
       {
         close();
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        this_thread::disable_interruption do_not_disturb;
+#endif
         interrupt_and_join();
         throw;
       }
@@ -204,6 +210,9 @@ namespace executors
       catch (...)
       {
         close();
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        this_thread::disable_interruption do_not_disturb;
+#endif
         interrupt_and_join();
         throw;
       }
@@ -224,6 +233,9 @@ namespace executors
       catch (...)
       {
         close();
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        this_thread::disable_interruption do_not_disturb;
+#endif
         interrupt_and_join();
         throw;
       }
@@ -238,6 +250,9 @@ namespace executors
       // signal to all the worker threads that there will be no more submissions.
       close();
       // joins all the threads before destroying the thread pool resources (e.g. the queue).
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      this_thread::disable_interruption do_not_disturb;
+#endif
       interrupt_and_join();
     }
 
diff --git a/include/boost/thread/executors/scheduled_thread_pool.hpp b/include/boost/thread/executors/scheduled_thread_pool.hpp
index c66bf0b..8b6f860 100644
--- a/include/boost/thread/executors/scheduled_thread_pool.hpp
+++ b/include/boost/thread/executors/scheduled_thread_pool.hpp
@@ -36,6 +36,9 @@ namespace executors
       catch (...)
       {
         this->close();
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        this_thread::disable_interruption do_not_disturb;
+#endif
         _workers.interrupt_all();
         _workers.join_all();
         throw;
@@ -45,6 +48,9 @@ namespace executors
     ~scheduled_thread_pool()
     {
       this->close();
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      this_thread::disable_interruption do_not_disturb;
+#endif
       _workers.interrupt_all();
       _workers.join_all();
     }
diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 654c9fb..7631b57 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -237,6 +237,10 @@ namespace boost
       ~scheduler()
       {
         this->close();
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        // exceptions from a destructor call std::terminate
+        this_thread::disable_interruption do_not_disturb;
+#endif
         thr.interrupt();
         thr.join();
       }
diff --git a/include/boost/thread/executors/scheduling_adaptor.hpp b/include/boost/thread/executors/scheduling_adaptor.hpp
index 9a432f9..f656980 100644
--- a/include/boost/thread/executors/scheduling_adaptor.hpp
+++ b/include/boost/thread/executors/scheduling_adaptor.hpp
@@ -38,6 +38,10 @@ namespace executors
     ~scheduling_adaptor()
     {
       this->close();
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+      // exceptions from a destructor call std::terminate
+      this_thread::disable_interruption do_not_disturb;
+#endif
       _scheduler.interrupt();
       _scheduler.join();
     }
-- 
2.43.0


From fce9b8758609916e7fe98ffc9e17dc5d95b695cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 43/58] fix: an interrupted task_region was left while its
 tasks were still running

---
 .../boost/thread/experimental/parallel/v2/task_region.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/experimental/parallel/v2/task_region.hpp b/include/boost/thread/experimental/parallel/v2/task_region.hpp
index b8ec759..5add6b1 100644
--- a/include/boost/thread/experimental/parallel/v2/task_region.hpp
+++ b/include/boost/thread/experimental/parallel/v2/task_region.hpp
@@ -280,6 +280,10 @@ protected:
     {
       detail::handle_task_region_exceptions(tr.exs);
     }
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+    // the tasks refer to tr: they must have ended before it is destroyed
+    this_thread::disable_interruption do_not_disturb;
+#endif
     tr.wait_all();
   }
 
@@ -301,6 +305,10 @@ protected:
     {
       detail::handle_task_region_exceptions(tr.exs);
     }
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+    // the tasks refer to tr: they must have ended before it is destroyed
+    this_thread::disable_interruption do_not_disturb;
+#endif
     tr.wait_all();
   }
 
-- 
2.43.0


From 84f747d53123e2a6af109e99035c15c4d820e456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:57 +0000
Subject: [PATCH 44/58] fix: the polymorphic lockables had pure destructors
 without a definition: no adapter could be instantiated

---
 include/boost/thread/poly_lockable.hpp        | 6 +++---
 include/boost/thread/poly_shared_lockable.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/thread/poly_lockable.hpp b/include/boost/thread/poly_lockable.hpp
index 751d8ae..57470ee 100644
--- a/include/boost/thread/poly_lockable.hpp
+++ b/include/boost/thread/poly_lockable.hpp
@@ -22,7 +22,7 @@ namespace boost
   {
   public:
 
-    virtual ~basic_poly_lockable() = 0;
+    virtual ~basic_poly_lockable() {}
 
     virtual void lock() = 0;
     virtual void unlock() = 0;
@@ -38,7 +38,7 @@ namespace boost
   {
   public:
 
-    virtual ~poly_lockable() = 0;
+    virtual ~poly_lockable() {}
     virtual bool try_lock() = 0;
   };
   //]
@@ -47,7 +47,7 @@ namespace boost
   class timed_poly_lockable: public poly_lockable
   {
   public:
-    virtual ~timed_poly_lockable()=0;
+    virtual ~timed_poly_lockable() {}
 
     virtual bool try_lock_until(chrono::system_clock::time_point const & abs_time)=0;
     virtual bool try_lock_until(chrono::steady_clock::time_point const & abs_time)=0;
diff --git a/include/boost/thread/poly_shared_lockable.hpp b/include/boost/thread/poly_shared_lockable.hpp
index 869017b..aec8263 100644
--- a/include/boost/thread/poly_shared_lockable.hpp
+++ b/include/boost/thread/poly_shared_lockable.hpp
@@ -22,7 +22,7 @@ namespace boost
   class shared_poly_lockable: public timed_poly_lockable
   {
   public:
-    virtual ~shared_poly_lockable() = 0;
+    virtual ~shared_poly_lockable() {}
 
     virtual void lock_shared() = 0;
     virtual bool try_lock_shared() = 0;
@@ -53,7 +53,7 @@ namespace boost
   class upgrade_poly_lockable: public shared_poly_lockable
   {
   public:
-    virtual ~upgrade_poly_lockable() = 0;
+    virtual ~upgrade_poly_lockable() {}
 
     virtual void lock_upgrade() = 0;
     virtual bool try_lock_upgrade() = 0;
-- 
2.43.0


From 7231a7b8325f9f52e35deeed2975131b2e3d367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:20 +0000
Subject: [PATCH 45/58] fix: waiting on a polymorphic lockable until a time
 point of another resolution did not compile

---
 include/boost/thread/poly_lockable.hpp        |  2 +-
 include/boost/thread/poly_shared_lockable.hpp | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/poly_lockable.hpp b/include/boost/thread/poly_lockable.hpp
index 57470ee..7c272fe 100644
--- a/include/boost/thread/poly_lockable.hpp
+++ b/include/boost/thread/poly_lockable.hpp
@@ -54,7 +54,7 @@ namespace boost
     template <typename Clock, typename Duration>
     bool try_lock_until(chrono::time_point<Clock, Duration> const & abs_time)
     {
-      return try_lock_until(chrono::time_point_cast<Clock::time_point>(abs_time));
+      return try_lock_until(chrono::time_point_cast<typename Clock::duration>(abs_time));
     }
 
     virtual bool try_lock_for(chrono::nanoseconds const & relative_time)=0;
diff --git a/include/boost/thread/poly_shared_lockable.hpp b/include/boost/thread/poly_shared_lockable.hpp
index aec8263..678c152 100644
--- a/include/boost/thread/poly_shared_lockable.hpp
+++ b/include/boost/thread/poly_shared_lockable.hpp
@@ -33,7 +33,7 @@ namespace boost
     template <typename Clock, typename Duration>
     bool try_lock_shared_until(chrono::time_point<Clock, Duration> const & abs_time)
     {
-      return try_lock_shared_until(chrono::time_point_cast<Clock::time_point>(abs_time));
+      return try_lock_shared_until(chrono::time_point_cast<typename Clock::duration>(abs_time));
     }
 
     virtual bool try_lock_shared_for(chrono::nanoseconds const & relative_time)=0;
@@ -64,7 +64,7 @@ namespace boost
     template <typename Clock, typename Duration>
     bool try_lock_upgrade_until(chrono::time_point<Clock, Duration> const & abs_time)
     {
-      return try_lock_upgrade_until(chrono::time_point_cast<Clock::time_point>(abs_time));
+      return try_lock_upgrade_until(chrono::time_point_cast<typename Clock::duration>(abs_time));
     }
 
     virtual bool try_lock_upgrade_for(chrono::nanoseconds const & relative_time)=0;
@@ -81,7 +81,7 @@ namespace boost
     template <typename Clock, typename Duration>
     bool try_unlock_shared_and_lock_until(chrono::time_point<Clock, Duration> const & abs_time)
     {
-      return try_unlock_shared_and_lock_until(chrono::time_point_cast<Clock::time_point>(abs_time));
+      return try_unlock_shared_and_lock_until(chrono::time_point_cast<typename Clock::duration>(abs_time));
     }
 
     virtual bool try_unlock_shared_and_lock_for(chrono::nanoseconds const & relative_time)=0;
@@ -99,7 +99,7 @@ namespace boost
     template <typename Clock, typename Duration>
     bool try_unlock_shared_and_lock_upgrade_until(chrono::time_point<Clock, Duration> const & abs_time)
     {
-      return try_unlock_shared_and_lock_upgrade_until(chrono::time_point_cast<Clock::time_point>(abs_time));
+      return try_unlock_shared_and_lock_upgrade_until(chrono::time_point_cast<typename Clock::duration>(abs_time));
     }
 
     virtual bool try_unlock_shared_and_lock_upgrade_for(chrono::nanoseconds const & relative_time)=0;
@@ -118,7 +118,7 @@ namespace boost
     template <typename Clock, typename Duration>
     bool try_unlock_upgrade_and_lock_until(chrono::time_point<Clock, Duration> const & abs_time)
     {
-      return try_unlock_upgrade_and_lock_until(chrono::time_point_cast<Clock::time_point>(abs_time));
+      return try_unlock_upgrade_and_lock_until(chrono::time_point_cast<typename Clock::duration>(abs_time));
     }
 
     virtual bool try_unlock_upgrade_and_lock_for(chrono::nanoseconds const & relative_time)=0;
-- 
2.43.0


From 9fff70358e0f2b84daae59b624c74478d8e0483a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:38 +0000
Subject: [PATCH 46/58] fix: make_future moved the content out of a variable
 given as its value

---
 include/boost/thread/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 30067bb..a345a63 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -4398,7 +4398,7 @@ namespace detail {
   BOOST_THREAD_FUTURE<typename decay<T>::type> make_future(BOOST_THREAD_FWD_REF(T) value) {
     typedef typename decay<T>::type future_value_type;
     promise<future_value_type> p;
-    p.set_value(boost::forward<future_value_type>(value));
+    p.set_value(boost::forward<T>(value));
     return BOOST_THREAD_MAKE_RV_REF(p.get_future());
   }
 
-- 
2.43.0


From 1b48de5296b106c50f805add169c8ba692e227d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:09 +0000
Subject: [PATCH 47/58] fix: get_or and fallback_to of a future moved the
 content out of a variable given as the alternative

---
 include/boost/thread/future.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index a345a63..f1c334b 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1864,7 +1864,11 @@ namespace boost
               return this->future_->get(lk);
             }
             else {
+#ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
+              return boost::forward<R2>(v);
+#else
               return boost::move(v);
+#endif
             }
         }
 
@@ -5502,7 +5506,11 @@ namespace detail
   template <typename R2>
   inline typename boost::disable_if< is_void<R2>, BOOST_THREAD_FUTURE<R> >::type
   BOOST_THREAD_FUTURE<R>::fallback_to(BOOST_THREAD_RV_REF(R2) v) {
+#ifndef BOOST_NO_CXX11_RVALUE_REFERENCES
+    return then(detail::mfallbacker_to<R>(R(boost::forward<R2>(v))));
+#else
     return then(detail::mfallbacker_to<R>(boost::move(v)));
+#endif
   }
 
   template <typename R>
-- 
2.43.0


From dbfeeb322a8d6d7093ff99edf5b13d56b02a06ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:59 +0000
Subject: [PATCH 48/58] fix: get_or of a shared future returned a reference to
 a destroyed conversion of the alternative

---
 include/boost/thread/future.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index f1c334b..64af2dd 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -71,7 +71,11 @@ struct shared_state_base {
 #include <boost/type_traits/decay.hpp>
 #include <boost/type_traits/is_copy_constructible.hpp>
 #include <boost/type_traits/is_fundamental.hpp>
+#include <boost/type_traits/is_reference.hpp>
+#include <boost/type_traits/is_same.hpp>
 #include <boost/type_traits/is_void.hpp>
+#include <boost/type_traits/remove_cv.hpp>
+#include <boost/type_traits/remove_reference.hpp>
 #include <boost/utility/result_of.hpp>
 
 
@@ -2166,6 +2170,19 @@ namespace boost
 
   };
 
+    namespace detail
+    {
+        // an alternative of another type is converted: the result can not refer to it
+        template <typename R, typename Alternative>
+        struct shared_future_get_or_result
+        {
+            typedef typename conditional<
+                is_same<typename remove_cv<typename remove_reference<Alternative>::type>::type, R>::value || is_reference<R>::value,
+                typename shared_state<R>::shared_future_get_result_type,
+                R>::type type;
+        };
+    }
+
     template <typename R>
     class shared_future : public detail::basic_future<R>
     {
@@ -2267,7 +2284,7 @@ namespace boost
         }
 
         template <typename R2>
-        typename boost::disable_if< is_void<R2>, typename detail::shared_state<R>::shared_future_get_result_type>::type
+        typename boost::disable_if< is_void<R2>, typename detail::shared_future_get_or_result<R, R2>::type>::type
         get_or(BOOST_THREAD_RV_REF(R2) v)  const // EXTENSION
         {
             if(!this->future_)
-- 
2.43.0


From 9d5b5e8e6025555cf8fb1b571ef37e335b63c90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:07 +0000
Subject: [PATCH 49/58] fix: when_all and when_any over a range took the shared
 futures out of it

---
 include/boost/thread/future.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index 64af2dd..d59184c 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -5670,6 +5670,20 @@ namespace detail
   ////////////////////////////////
   // detail::future_async_when_all_shared_state
   ////////////////////////////////
+  // the unique futures of a range are moved, the shared futures are copied
+  template <typename F>
+  struct when_input_iterator
+  {
+    template <typename InputIterator>
+    static std::move_iterator<InputIterator> get(InputIterator it) { return std::make_move_iterator(it); }
+  };
+  template <typename R>
+  struct when_input_iterator<shared_future<R> >
+  {
+    template <typename InputIterator>
+    static InputIterator get(InputIterator it) { return it; }
+  };
+
   template<typename F>
   struct future_when_all_vector_shared_state: future_async_shared_state_base<csbl::vector<F> >
   {
@@ -5713,7 +5727,7 @@ namespace detail
   public:
     template< typename InputIterator>
     future_when_all_vector_shared_state(input_iterator_tag, InputIterator first, InputIterator last)
-    : vec_(std::make_move_iterator(first), std::make_move_iterator(last))
+    : vec_(when_input_iterator<F>::get(first), when_input_iterator<F>::get(last))
     {
     }
 
@@ -5784,7 +5798,7 @@ namespace detail
   public:
     template< typename InputIterator>
     future_when_any_vector_shared_state(input_iterator_tag, InputIterator first, InputIterator last)
-    : vec_(std::make_move_iterator(first), std::make_move_iterator(last))
+    : vec_(when_input_iterator<F>::get(first), when_input_iterator<F>::get(last))
     {
     }
 
-- 
2.43.0


From fb0f22ef5c692ac6da9d187a81291015d4c293ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:24 +0000
Subject: [PATCH 50/58] fix: submitting through scheduler::on moved the content
 out of a variable given as the task

---
 include/boost/thread/executors/scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/scheduler.hpp b/include/boost/thread/executors/scheduler.hpp
index 7631b57..b6bd99d 100644
--- a/include/boost/thread/executors/scheduler.hpp
+++ b/include/boost/thread/executors/scheduler.hpp
@@ -50,7 +50,7 @@ namespace boost
     template <class Executor, class Function>
     resubmitter<Executor, typename decay<Function>::type>
     resubmit(Executor& ex, BOOST_THREAD_FWD_REF(Function) funct) {
-      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::move(funct));
+      return resubmitter<Executor, typename decay<Function>::type >(ex, boost::forward<Function>(funct));
     }
 
     /// Wraps references to a @c Scheduler and an @c Executor providing an @c Executor that
-- 
2.43.0


From f58d6edba9457746ffbcc9783181e8fa4e23cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:22 +0000
Subject: [PATCH 51/58] fix: only the first thread of a thread pool got the
 function to run at its start

---
 include/boost/thread/executors/basic_thread_pool.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/thread/executors/basic_thread_pool.hpp b/include/boost/thread/executors/basic_thread_pool.hpp
index d1ae752..84ecf36 100644
--- a/include/boost/thread/executors/basic_thread_pool.hpp
+++ b/include/boost/thread/executors/basic_thread_pool.hpp
@@ -20,6 +20,8 @@
 #include <boost/thread/executors/work.hpp>
 #include <boost/thread/csbl/vector.hpp>
 
+#include <boost/type_traits/decay.hpp>
+
 #include <boost/config/abi_prefix.hpp>
 
 namespace boost
@@ -222,10 +224,13 @@ namespace executors
     {
       try
       {
+        typedef typename decay<AtThreadEntry>::type entry_type;
+        entry_type entry(boost::forward<AtThreadEntry>(at_thread_entry));
         threads.reserve(thread_count);
         for (unsigned i = 0; i < thread_count; ++i)
         {
-          thread th (&basic_thread_pool::worker_thread3<AtThreadEntry>, this, boost::forward<AtThreadEntry>(at_thread_entry));
+          // each thread gets a copy of its own
+          thread th (&basic_thread_pool::worker_thread3<entry_type>, this, entry);
           threads.push_back(thread_t(boost::move(th)));
           //threads.push_back(thread_t(&basic_thread_pool::worker_thread, this)); // do not compile
         }
-- 
2.43.0


From eecf8c935b9258b32f97054f9a5b4e496143cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:02 +0000
Subject: [PATCH 52/58] fix: completion_latch moved the content out of a
 variable given as its completion function

---
 include/boost/thread/completion_latch.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/thread/completion_latch.hpp b/include/boost/thread/completion_latch.hpp
index f8ee098..4c2121c 100644
--- a/include/boost/thread/completion_latch.hpp
+++ b/include/boost/thread/completion_latch.hpp
@@ -101,6 +101,14 @@ namespace boost
     leavers_(0), open_(count == 0)
     {
     }
+    template <typename F>
+    completion_latch(std::size_t count, F& funct) :
+    count_(count),
+    funct_(funct),
+    waiters_(0),
+    leavers_(0), open_(count == 0)
+    {
+    }
     completion_latch(std::size_t count, void(*funct)()) :
       count_(count), funct_(funct), waiters_(0), leavers_(0), open_(count == 0)
     {
-- 
2.43.0


From f9bdf3abf4f5caab97a3daa9797b675adc6ebc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 53/58] fix: user_scheduler::run_queued_closures dropped the
 queued closures

---
 include/boost/thread/user_scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/thread/user_scheduler.hpp b/include/boost/thread/user_scheduler.hpp
index 4d02658..02e201a 100644
--- a/include/boost/thread/user_scheduler.hpp
+++ b/include/boost/thread/user_scheduler.hpp
@@ -187,7 +187,7 @@ namespace boost
     void run_queued_closures()
     {
       sync_queue<work>::underlying_queue_type q = work_queue.underlying_queue();
-      while (q.empty())
+      while (! q.empty())
       {
         work task = q.front();
         q.pop_front();
-- 
2.43.0


From 65330fae8ccb5ebd194fc452c812649639cc3992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:36 +0000
Subject: [PATCH 54/58] fix: user_scheduler::submit moved the content out of a
 variable given as the closure

---
 include/boost/thread/user_scheduler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/thread/user_scheduler.hpp b/include/boost/thread/user_scheduler.hpp
index 02e201a..e0ed87c 100644
--- a/include/boost/thread/user_scheduler.hpp
+++ b/include/boost/thread/user_scheduler.hpp
@@ -158,9 +158,9 @@ namespace boost
     }
 
     template <typename Closure>
-    void submit(BOOST_THREAD_RV_REF(Closure) closure)
+    void submit(BOOST_THREAD_FWD_REF(Closure) closure)
     {
-      work w =boost::move(closure);
+      work w((boost::forward<Closure>(closure)));
       work_queue.push(boost::move(w));
       //work_queue.push(work(boost::move(closure))); // todo check why this doesn't work
     }
-- 
2.43.0


From 6c4297411c81cda33afc65e46fd6a91942652c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:16 +0000
Subject: [PATCH 55/58] fix: a waiter interrupted after it had been notified
 used up the notification

---
 .../thread/pthread/condition_variable.hpp     | 32 +++++++++++++++----
 include/boost/thread/pthread/thread_data.hpp  |  7 +++-
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/include/boost/thread/pthread/condition_variable.hpp b/include/boost/thread/pthread/condition_variable.hpp
index e3c511f..1b1f2d4 100644
--- a/include/boost/thread/pthread/condition_variable.hpp
+++ b/include/boost/thread/pthread/condition_variable.hpp
@@ -70,6 +70,9 @@ namespace boost
         }
 #endif
         int res=0;
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        bool interrupted=false;
+#endif
         {
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
             thread_cv_detail::lock_on_exit<unique_lock<mutex> > guard;
@@ -77,7 +80,7 @@ namespace boost
             pthread_mutex_t* the_mutex = &internal_mutex;
             guard.activate(m);
             res = posix::pthread_cond_wait(&cond,the_mutex);
-            check_for_interruption.unlock_if_locked();
+            interrupted = check_for_interruption.unlock_if_locked();
             guard.deactivate();
 #else
             pthread_mutex_t* the_mutex = m.mutex()->native_handle();
@@ -85,7 +88,7 @@ namespace boost
 #endif
         }
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
-        this_thread::interruption_point();
+        if(interrupted) this_thread::interruption_point();
 #endif
         if(res)
         {
@@ -113,6 +116,9 @@ namespace boost
         }
 #endif
         int cond_res;
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+        bool interrupted=false;
+#endif
         {
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
             thread_cv_detail::lock_on_exit<unique_lock<mutex> > guard;
@@ -120,7 +126,7 @@ namespace boost
             pthread_mutex_t* the_mutex = &internal_mutex;
             guard.activate(m);
             cond_res=posix::pthread_cond_timedwait(&cond,the_mutex,&timeout.getTs());
-            check_for_interruption.unlock_if_locked();
+            interrupted = check_for_interruption.unlock_if_locked();
             guard.deactivate();
 #else
             pthread_mutex_t* the_mutex = m.mutex()->native_handle();
@@ -128,7 +134,7 @@ namespace boost
 #endif
         }
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
-        this_thread::interruption_point();
+        if(interrupted) this_thread::interruption_point();
 #endif
         if(cond_res==ETIMEDOUT)
         {
@@ -188,6 +194,9 @@ namespace boost
         void wait(lock_type& m)
         {
             int res=0;
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+            bool interrupted=false;
+#endif
             {
                 thread_cv_detail::lock_on_exit<lock_type> guard;
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
@@ -197,11 +206,15 @@ namespace boost
 #endif
                 guard.activate(m);
                 res=posix::pthread_cond_wait(&cond,&internal_mutex);
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+                interrupted = check_for_interruption.unlock_if_locked();
+#else
                 check_for_interruption.unlock_if_locked();
+#endif
                 guard.deactivate();
             }
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
-            this_thread::interruption_point();
+            if(interrupted) this_thread::interruption_point();
 #endif
             if(res)
             {
@@ -463,6 +476,9 @@ namespace boost
           detail::internal_platform_timepoint const &timeout)
         {
           int res=0;
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+          bool interrupted=false;
+#endif
           {
               thread_cv_detail::lock_on_exit<lock_type> guard;
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
@@ -472,11 +488,15 @@ namespace boost
 #endif
               guard.activate(m);
               res=posix::pthread_cond_timedwait(&cond,&internal_mutex,&timeout.getTs());
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+              interrupted = check_for_interruption.unlock_if_locked();
+#else
               check_for_interruption.unlock_if_locked();
+#endif
               guard.deactivate();
           }
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
-          this_thread::interruption_point();
+          if(interrupted) this_thread::interruption_point();
 #endif
           if(res==ETIMEDOUT)
           {
diff --git a/include/boost/thread/pthread/thread_data.hpp b/include/boost/thread/pthread/thread_data.hpp
index c43b276..6409168 100644
--- a/include/boost/thread/pthread/thread_data.hpp
+++ b/include/boost/thread/pthread/thread_data.hpp
@@ -220,8 +220,11 @@ namespace boost
                     BOOST_VERIFY(!posix::pthread_mutex_lock(m));
                 }
             }
-            void unlock_if_locked()
+            // returns whether the wait has been interrupted. A request that comes later finds no wait to
+            // interrupt: it stays pending, since the notification that ended the wait would be lost with it.
+            bool unlock_if_locked()
             {
+              bool interrupted = false;
               if ( ! done) {
                 if (set)
                 {
@@ -229,6 +232,7 @@ namespace boost
                     lock_guard<mutex> guard(thread_info->data_mutex);
                     thread_info->cond_mutex=NULL;
                     thread_info->current_cond=NULL;
+                    interrupted = thread_info->interrupt_requested;
                 }
                 else
                 {
@@ -236,6 +240,7 @@ namespace boost
                 }
                 done = true;
               }
+              return interrupted;
             }
 
             ~interruption_checker() BOOST_NOEXCEPT_IF(false)
-- 
2.43.0


From 1d7b8aefeabbc97fb9a8938bce9f8fc95d5f0d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:18 +0000
Subject: [PATCH 56/58] fix: an interrupted future::get left the future without
 its result

---
 include/boost/thread/future.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/boost/thread/future.hpp b/include/boost/thread/future.hpp
index d59184c..7e1d3fb 100644
--- a/include/boost/thread/future.hpp
+++ b/include/boost/thread/future.hpp
@@ -1840,6 +1840,12 @@ namespace boost
                 boost::throw_exception(future_uninitialized());
             }
 #ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
+            // nothing is retrieved if the wait is interrupted
+            this->future_->wait(lk, false);
+            if (! this->future_->valid(lk))
+            {
+                boost::throw_exception(future_uninitialized());
+            }
             this->future_->invalidate(lk);
 #endif
             return this->future_->get(lk);
@@ -2105,6 +2111,12 @@ namespace boost
                     boost::throw_exception(future_uninitialized());
                 }
     #ifdef BOOST_THREAD_PROVIDES_FUTURE_INVALID_AFTER_GET
+                // nothing is retrieved if the wait is interrupted
+                this->future_->wait(lk, false);
+                if (! this->future_->valid(lk))
+                {
+                    boost::throw_exception(future_uninitialized());
+                }
                 this->future_->invalidate(lk);
     #endif
                 return this->future_->get(lk);
-- 
2.43.0


From 226d91efd1dea9af5a929c239a5e3dd98eeba4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:21 +0000
Subject: [PATCH 57/58] fix: a count-down to zero that was interrupted left the
 completion_latch neither open nor closed

---
 include/boost/thread/completion_latch.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/boost/thread/completion_latch.hpp b/include/boost/thread/completion_latch.hpp
index 4c2121c..ba32656 100644
--- a/include/boost/thread/completion_latch.hpp
+++ b/include/boost/thread/completion_latch.hpp
@@ -13,6 +13,7 @@
 #include <boost/thread/mutex.hpp>
 #include <boost/thread/lock_types.hpp>
 #include <boost/thread/condition_variable.hpp>
+#include <boost/thread/detail/thread_interruption.hpp>
 #include <boost/chrono/duration.hpp>
 #include <boost/chrono/time_point.hpp>
 #include <boost/assert.hpp>
@@ -70,12 +71,18 @@ namespace boost
       BOOST_ASSERT(count_ > 0);
       if (--count_ == 0)
       {
-        waiters_.cond_.wait(lk, detail::counter_is_not_zero(waiters_));
-        open_ = true;
-        leavers_.assign_and_notify_all(waiters_);
-        count_.cond_.notify_all();
-        waiters_.cond_.wait(lk, detail::counter_is_zero(waiters_));
-        leavers_.assign_and_notify_all(0);
+        {
+#if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
+          // leaving in between would leave the latch neither open nor closed
+          this_thread::disable_interruption no_interruption;
+#endif
+          waiters_.cond_.wait(lk, detail::counter_is_not_zero(waiters_));
+          open_ = true;
+          leavers_.assign_and_notify_all(waiters_);
+          count_.cond_.notify_all();
+          waiters_.cond_.wait(lk, detail::counter_is_zero(waiters_));
+          leavers_.assign_and_notify_all(0);
+        }
         lk.unlock();
         funct_();
         return true;
-- 
2.43.0


From 46c3264c8b45cb32d5c9d15ea6b23664445821a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 58/58] fix: what was handed over for the exit of a thread the
 library did not start was never released

---
 src/pthread/thread.cpp | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/pthread/thread.cpp b/src/pthread/thread.cpp
index db30820..415f00a 100644
--- a/src/pthread/thread.cpp
+++ b/src/pthread/thread.cpp
@@ -107,6 +107,12 @@ namespace boost
 
                     if(thread_info)
                     {
+                        // a thread that was not started by the library: the key has been cleared already
+                        bool const external=thread_info->self?true:false;
+                        if(external)
+                        {
+                            BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,data));
+                        }
                         while(!thread_info->tss_data.empty() || thread_info->thread_exit_callbacks)
                         {
 
@@ -132,7 +138,12 @@ namespace boost
                                 thread_info->tss_data.erase(current);
                             }
                         }
-                        thread_info->self.reset();
+                        if(external)
+                        {
+                            thread_info->self.reset();
+                            BOOST_VERIFY(!pthread_setspecific(current_thread_tls_key,0));
+                            run_at_thread_exit_notifications(*thread_info);
+                        }
                     }
                 }
             }
@@ -229,20 +240,9 @@ namespace boost
 #if defined BOOST_THREAD_PROVIDES_INTERRUPTIONS
                 interrupt_enabled=false;
 #endif
-            }
-            ~externally_launched_thread()
-            {
-                BOOST_ASSERT(notify.empty());
-                notify.clear();
-//#ifndef BOOST_NO_EXCEPTIONS
-                BOOST_ASSERT(async_states_.empty());
-                async_states_.clear();
-//#endif
             }
             void run()
             {}
-            void notify_all_at_thread_exit(condition_variable*, mutex*)
-            {}
 
         private:
             externally_launched_thread(externally_launched_thread&);
@@ -808,12 +808,9 @@ namespace boost
 
     BOOST_THREAD_DECL void notify_all_at_thread_exit(condition_variable& cond, unique_lock<mutex> lk)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
-            lk.release();
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->notify_all_at_thread_exit(&cond, lk.mutex());
+        lk.release();
     }
 
 //#ifndef BOOST_NO_EXCEPTIONS
@@ -821,11 +818,8 @@ namespace detail
 {
     void BOOST_THREAD_DECL make_ready_at_thread_exit(shared_ptr<shared_state_base> as)
     {
-        detail::thread_data_base* const current_thread_data(detail::get_current_thread_data());
-        if(current_thread_data)
-        {
-            current_thread_data->make_ready_at_thread_exit(as);
-        }
+        detail::thread_data_base* const current_thread_data(detail::get_or_make_current_thread_data());
+        current_thread_data->make_ready_at_thread_exit(as);
     }
 }
 //#endif
-- 
2.43.0

