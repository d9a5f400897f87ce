From 74188abc5e9a117388d6e2b1a7378d80788398ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 01/61] fix: when_all: do not complete twice when a stop
 request races with the last child

The stop callback increments the operation's count unconditionally. When the
last child has already dropped the count to zero and is waiting in
__complete() for the callback to return, the callback brings the count from
zero to one and back, and so runs __complete() a second time.
---
 include/stdexec/__detail/__when_all.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index 305bf4f..a5b19b7 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -565,8 +565,19 @@ namespace STDEXEC
       constexpr void operator()() const noexcept
       {
         // Temporarily increment the count to avoid concurrent/recursive arrivals to
-        // pull the rug under our feet. Relaxed memory order is fine here.
-        __state_->__count_.fetch_add(1, __std::memory_order_relaxed);
+        // pull the rug under our feet. Relaxed memory order is fine here. If the count
+        // has already dropped to zero, another thread is completing the operation and is
+        // waiting in __complete() for this callback to return; it must not be completed a
+        // second time from here.
+        std::size_t __count = __state_->__count_.load(__std::memory_order_relaxed);
+        do
+        {
+          if (__count == 0)
+            return;
+        }
+        while (!__state_->__count_.compare_exchange_weak(__count,
+                                                         __count + 1,
+                                                         __std::memory_order_relaxed));
 
         __state_t __expected = __started;
         // Transition to the "stopped" state if and only if we're in the
-- 
2.43.0


From 68231cdf11614557c8188d68e64cb4eae382af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 02/61] fix: split/ensure_started: ask the operation to stop
 when its last consumers leave concurrently

__detach() compared the shared_ptr use count while holding an extra reference
of its own, so two consumers leaving at the same time could both see the
other's temporary reference and neither asked the operation to stop. Count the
consumers explicitly instead.
---
 include/exec/detail/shared.hpp | 94 ++++++++++++++++++++++++----------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/include/exec/detail/shared.hpp b/include/exec/detail/shared.hpp
index 58407d9..b5d4165 100644
--- a/include/exec/detail/shared.hpp
+++ b/include/exec/detail/shared.hpp
@@ -33,6 +33,7 @@
 #include "../../stdexec/__detail/__variant.hpp"  // IWYU pragma: keep
 #include "../../stdexec/stop_token.hpp"
 
+#include <cstddef>
 #include <exception>
 #include <mutex>
 #include <utility>
@@ -144,6 +145,59 @@ namespace experimental::execution::__shared
     __local_state_base* __next_ = nullptr;
   };
 
+  ////////////////////////////////////////////////////////////////////////////////////////
+  // A consumer's reference to the shared state. There is one in each sender and in each
+  // operation state. When the last of them goes away, nobody is interested in the result any
+  // longer and the shared operation is asked to stop early.
+  template <class _ShState>
+  struct __consumer_ptr
+  {
+    constexpr explicit __consumer_ptr(std::shared_ptr<_ShState> __ptr) noexcept
+      : __ptr_(std::move(__ptr))
+    {
+      if (__ptr_)
+      {
+        __ptr_->__attach();
+      }
+    }
+
+    constexpr __consumer_ptr(__consumer_ptr&& __other) noexcept
+      : __ptr_(std::exchange(__other.__ptr_, {}))
+    {}
+
+    constexpr __consumer_ptr(__consumer_ptr const & __other) noexcept
+      : __consumer_ptr(__other.__ptr_)
+    {}
+
+    constexpr auto operator=(__consumer_ptr __other) noexcept -> __consumer_ptr&
+    {
+      std::swap(__ptr_, __other.__ptr_);
+      return *this;
+    }
+
+    constexpr ~__consumer_ptr()
+    {
+      reset();
+    }
+
+    constexpr void reset() noexcept
+    {
+      if (auto __ptr = std::exchange(__ptr_, {}))
+      {
+        __ptr->__detach();
+      }
+    }
+
+    [[nodiscard]]
+    constexpr auto operator->() const noexcept -> _ShState*
+    {
+      return __ptr_.get();
+    }
+
+   private:
+    std::shared_ptr<_ShState> __ptr_;
+  };
+
   ////////////////////////////////////////////////////////////////////////////////////////
   // The operation state of ensure_started, and each operation state of split, has one of these,
   // created when the sender is connected. There are 0 or more of them for each underlying async
@@ -154,7 +208,7 @@ namespace experimental::execution::__shared
   {
     using __stok_t         = stop_token_of_t<env_of_t<_Receiver>>;
     using __sh_state_t     = __shared_state<_CvChild, _Env>;
-    using __sh_state_ptr_t = std::shared_ptr<__sh_state_t>;
+    using __sh_state_ptr_t = __consumer_ptr<__sh_state_t>;
 
     static_assert(__one_of<_Tag, split_t, ensure_started_t>);
 
@@ -166,14 +220,6 @@ namespace experimental::execution::__shared
 
     STDEXEC_IMMOVABLE(__local_state);
 
-    constexpr ~__local_state()
-    {
-      if (__sh_state_)
-      {
-        __sh_state_->__detach();
-      }
-    }
-
     constexpr void start() noexcept
     {
       // Scenario: there are no more split senders, this is the only operation state, the
@@ -204,7 +250,7 @@ namespace experimental::execution::__shared
       // Otherwise, failed to add the waiter because of a stop-request.
       // Complete synchronously with set_stopped().
       __on_stop_.reset();
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_.reset();
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -231,7 +277,7 @@ namespace experimental::execution::__shared
       // __notify function is called from the shared state's __notify_waiters function, which
       // first sets __waiters_ to the completed state. As a result, the attempt to remove `this`
       // from the waiters list above will fail and this stop request is ignored.
-      std::exchange(__sh_state_, {})->__detach();
+      __sh_state_.reset();
       STDEXEC::set_stopped(static_cast<_Receiver&&>(__rcvr_));
     }
 
@@ -413,14 +459,15 @@ namespace experimental::execution::__shared
       }
     }
 
+    constexpr void __attach() noexcept
+    {
+      __consumers_.fetch_add(1, __std::memory_order_relaxed);
+    }
+
     constexpr void __detach() noexcept
     {
-      // increments the use count:
-      auto __started_ptr = __started_ref_.load();
-      // If the use count is 3 (one for *this, one for __started_ref_, and one for
-      // __started_ptr), then we are the final "consumer". Ask the operation to stop
-      // early.
-      if (3 == __started_ptr.use_count())
+      // If we are the final "consumer", ask the operation to stop early.
+      if (1 == __consumers_.fetch_sub(1, __std::memory_order_acq_rel))
       {
         this->__stop_source_.request_stop();
       }
@@ -431,7 +478,8 @@ namespace experimental::execution::__shared
       __started_ref_.store({}, __std::memory_order_release);
     }
 
-    __std::atomic_flag __started_{};
+    __std::atomic_flag         __started_{};
+    __std::atomic<std::size_t> __consumers_{0};
     // this shared_ptr is non-null when the operation is running:
     __std::__atomic_shared_ptr<__shared_state> __started_ref_;
     connect_result_t<_CvSender, __receiver_t>  __shared_op_;
@@ -498,14 +546,6 @@ namespace experimental::execution::__shared
     __sndr(__sndr const &)            = default;
     __sndr& operator=(__sndr const &) = default;
 
-    constexpr ~__sndr()
-    {
-      if (__sh_state_)
-      {
-        __sh_state_->__detach();
-      }
-    }
-
     template <class>
     static consteval auto get_completion_signatures()
     {
@@ -531,7 +571,7 @@ namespace experimental::execution::__shared
 
    private:
     friend struct exec::ensure_started_t;
-    std::shared_ptr<__shared_state<_CvChild, _Env>> __sh_state_;
+    __consumer_ptr<__shared_state<_CvChild, _Env>> __sh_state_;
   };
 
   template <class _Tag, class _CvChild, class _Env>
-- 
2.43.0


From da51abd840b8547d6869ed2341e32bed15955c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 03/61] fix: spawn_future: do not destroy the state inside its
 own stop request

When a stop request made the spawned operation complete inline after the
future had been started, __do_complete destroyed the state while
__try_cancel was still inside the state's stop source.
---
 include/stdexec/__detail/__spawn_future.hpp | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/stdexec/__detail/__spawn_future.hpp b/include/stdexec/__detail/__spawn_future.hpp
index fd74006..608b009 100644
--- a/include/stdexec/__detail/__spawn_future.hpp
+++ b/include/stdexec/__detail/__spawn_future.hpp
@@ -365,6 +365,10 @@ namespace STDEXEC
       //   4. any other value means __consume has "registered" its receiver to be completed
       //      by __complete when it is invoked
       __std::atomic<void*> __registered_receiver_{nullptr};
+      // Non-null only while __try_cancel is inside request_stop; set through this pointer when the
+      // operation completes a registered receiver in there, making __try_cancel responsible for
+      // clean-up.
+      bool* __completed_inline_{nullptr};
       // Type-erased completion callback.
       //
       // The void* will receive the address of the receiver, which will need to have its
@@ -450,6 +454,14 @@ namespace STDEXEC
           // "won" and __try_cancel will no-op.
           __self->__callback_(__self, __sentinel);
 
+          // The exception is __try_cancel running on this very thread, having called us from
+          // within its request_stop: then it will clean up once request_stop has returned.
+          if (__self->__completed_inline_ != nullptr)
+          {
+            *__self->__completed_inline_ = true;
+            return;
+          }
+
           // Having completed the receiver, we are responsible for cleaning up the allocated state.
           __self->__destroy();
         }
@@ -512,7 +524,19 @@ namespace STDEXEC
         //
         // This operation constitutes a write that must be published to whichever thread invokes
         // __destroy.
+        //
+        // The operation may complete inside request_stop, on this thread. If a receiver has
+        // already been registered then __do_complete would destroy *__self, and with it the stop
+        // source we're still using; it leaves that to us instead.
+        bool __completed_inline     = false;
+        __self->__completed_inline_ = &__completed_inline;
         __self->__stop_source_.request_stop();
+        if (__completed_inline)
+        {
+          __self->__destroy();
+          return;
+        }
+        __self->__completed_inline_ = nullptr;
 
         // If neither __complete nor __consume has been invoked then mark us as having stop requested.
         // This only succeeds if stop is requested very early in the process so it's quite unlikely.
-- 
2.43.0


From 8ddeb8d57ee08707c8a307df7c9755292a7ad390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:17 +0000
Subject: [PATCH 04/61] fix: repeat_n: destroy the child operation before
 completing when copying its error throws

---
 include/exec/repeat_n.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/repeat_n.hpp b/include/exec/repeat_n.hpp
index 05ec076..5105db1 100644
--- a/include/exec/repeat_n.hpp
+++ b/include/exec/repeat_n.hpp
@@ -87,6 +87,7 @@ namespace experimental::execution
         {
           if constexpr (!__nothrow_decay_copyable<_Error>)
           {
+            __state->__cleanup();
             STDEXEC::set_error(std::move(__state->__rcvr_), std::current_exception());
           }
         }
-- 
2.43.0


From 02427cdccee33206f8a6fda29edb084fee8c44c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 05/61] fix: when_any: do not complete twice when a stop
 request races with the last child

---
 include/exec/when_any.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/exec/when_any.hpp b/include/exec/when_any.hpp
index 1e1a58b..20b92ea 100644
--- a/include/exec/when_any.hpp
+++ b/include/exec/when_any.hpp
@@ -88,8 +88,19 @@ namespace experimental::execution
         constexpr void operator()() const noexcept
         {
           // Temporarily increment the count to avoid concurrent/recursive arrivals to
-          // pull the rug under our feet. Relaxed memory order is fine here.
-          __op_->__count_.fetch_add(1, __std::memory_order_relaxed);
+          // pull the rug under our feet. Relaxed memory order is fine here. If the count
+          // has already reached zero, the operation is completing (the thread completing it
+          // is waiting in __arrive() for this callback to return); it must not be completed
+          // a second time from here.
+          std::size_t __count = __op_->__count_.load(__std::memory_order_relaxed);
+          do
+          {
+            if (__count == 0)
+              return;
+          }
+          while (!__op_->__count_.compare_exchange_weak(__count,
+                                                        __count + 1,
+                                                        __std::memory_order_relaxed));
 
           __op_->__stop_source_.request_stop();
 
-- 
2.43.0


From 104990cee56ee49ee3c0c31221c07e3404e1b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:57 +0000
Subject: [PATCH 06/61] fix: bwos_lifo_queue: acquire the element when a thief
 claims it

A thief that loaded steal_tail_ and tail_ can be overtaken by an owner that takes the block back,
pops and replaces the element and grants the block again with the same steal_tail_. The claiming
compare-exchange then succeeds without synchronizing with that grant, so reading the element races
with the owner's write to it.
---
 include/exec/detail/bwos_lifo_queue.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/exec/detail/bwos_lifo_queue.hpp b/include/exec/detail/bwos_lifo_queue.hpp
index a45863c..e3e322d 100644
--- a/include/exec/detail/bwos_lifo_queue.hpp
+++ b/include/exec/detail/bwos_lifo_queue.hpp
@@ -553,7 +553,13 @@ namespace experimental::execution::bwos
       return result;
     }
     // Try to claim the item at spos by atomically incrementing steal_tail_
-    if (!steal_tail_.compare_exchange_strong(spos, spos + 1, STDEXEC::__std::memory_order_relaxed))
+    // Acquire ordering pairs with the release in grant(): between our loads above and this claim
+    // the owner may have taken the block back, replaced the item and granted the block again, with
+    // the same value of steal_tail_.
+    if (!steal_tail_.compare_exchange_strong(spos,
+                                             spos + 1,
+                                             STDEXEC::__std::memory_order_acquire,
+                                             STDEXEC::__std::memory_order_relaxed))
     {
       // Another thief claimed this item, retry
       result.status = lifo_queue_error_code::conflict;
-- 
2.43.0


From 6874beaee8aa2da50b4c3a30435076add5015848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 07/61] fix: __intrusive_queue: splice terminates the spliced
 range and keeps the other queue's tail

splice left the last spliced element linked to the rest of the other queue, kept the other queue's
old tail when the range reached its end, and dereferenced null when inserting at the front of a
non-empty queue. Its only caller wanted to forget elements it may no longer touch and now does so
directly.
---
 include/exec/static_thread_pool.hpp           | 12 ++++++++---
 .../stdexec/__detail/__intrusive_queue.hpp    | 21 +++++++++----------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index f84d038..04c0ac5 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -981,9 +981,15 @@ namespace experimental::execution
                           bwos::lifo_queue<task_base*, numa_allocator<task_base*>>& local_queue)
     {
       auto const last = local_queue.push_back(pending_queue.begin(), pending_queue.end());
-      __intrusive_queue<&task_base::next_> tmp{};
-      tmp.splice(tmp.begin(), pending_queue, pending_queue.begin(), last);
-      tmp.clear();
+      // The tasks before `last` are visible to thieves and may already be gone: forget them without
+      // touching them.
+      __intrusive_queue<&task_base::next_> rest{};
+      if (last != pending_queue.end())
+      {
+        rest = __intrusive_queue<&task_base::next_>{*last, pending_queue.back()};
+      }
+      pending_queue.clear();
+      pending_queue = std::move(rest);
     }
 
     inline auto _static_thread_pool::thread_state::try_remote(remote_poll_mode mode)
diff --git a/include/stdexec/__detail/__intrusive_queue.hpp b/include/stdexec/__detail/__intrusive_queue.hpp
index 12f5ad9..ca54e19 100644
--- a/include/stdexec/__detail/__intrusive_queue.hpp
+++ b/include/stdexec/__detail/__intrusive_queue.hpp
@@ -261,29 +261,28 @@ namespace STDEXEC
         if (other.__head_ == first.__item_)
         {
           other.__head_ = last.__item_;
-          if (other.__head_ == nullptr)
-          {
-            other.__tail_ = nullptr;
-          }
         }
         else
         {
           STDEXEC_ASSERT(first.__predecessor_ != nullptr);
           first.__predecessor_->*_Next = last.__item_;
-          last.__predecessor_->*_Next  = pos.__item_;
         }
-        if (empty())
+        if (last.__item_ == nullptr)
+        {
+          other.__tail_ = first.__predecessor_;
+        }
+        last.__predecessor_->*_Next = pos.__item_;
+        if (pos.__predecessor_ == nullptr)
         {
           __head_ = first.__item_;
-          __tail_ = last.__predecessor_;
         }
         else
         {
           pos.__predecessor_->*_Next = first.__item_;
-          if (pos.__item_ == nullptr)
-          {
-            __tail_ = last.__predecessor_;
-          }
+        }
+        if (pos.__item_ == nullptr)
+        {
+          __tail_ = last.__predecessor_;
         }
       }
 
-- 
2.43.0


From b58aa74292b3c6e814eb1d103493c2c8340c4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:25 +0000
Subject: [PATCH 08/61] fix: bulk_unchunked: do not call the function for a
 negative shape

[0, shape) is empty then; bulk and bulk_chunked already behave that way.
---
 include/stdexec/__detail/__bulk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__bulk.hpp b/include/stdexec/__detail/__bulk.hpp
index 337af08..69e704f 100644
--- a/include/stdexec/__detail/__bulk.hpp
+++ b/include/stdexec/__detail/__bulk.hpp
@@ -322,7 +322,7 @@ namespace STDEXEC
 
           STDEXEC_TRY
           {
-            for (__shape_t __i{}; __i != __shape; ++__i)
+            for (__shape_t __i{}; __i < __shape; ++__i)
             {
               __state.__data_.__fun_(__shape_t(__i), __args...);
             }
-- 
2.43.0


From 5b57f58b3eef84e97af451d69f2e2fc4401c7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 09/61] fix: static_thread_pool: run what was submitted before
 a stop request instead of dropping it

---
 include/exec/static_thread_pool.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 04c0ac5..50b8952 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1146,7 +1146,9 @@ namespace experimental::execution
         std::unique_lock lock{mut_};
         if (stop_requested_)
         {
-          return result;
+          // Do not drop work that was submitted before the stop request.
+          lock.unlock();
+          return try_remote(remote_poll_mode::before_sleep);
         }
         state expected = state::running;
         if (state_.compare_exchange_weak(expected,
-- 
2.43.0


From 16fc5c6f7d853a333c766de6d34b916a40bbfdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 10/61] fix: static_thread_pool bulk with a negative shape
 invokes nothing

---
 include/exec/static_thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 50b8952..1364477 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1499,7 +1499,7 @@ namespace experimental::execution
           }
         }
 
-        if (shared_state_.shape_)
+        if (Shape{} < shared_state_.shape_)
         {
           enqueue();
         }
-- 
2.43.0


From a1f6dc81bd83e992540f32aacb40618a675d2840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:27 +0000
Subject: [PATCH 11/61] fix: timed_thread_context: always wake the context
 after a submission

command_queue_.pop_front() returns null while a producer has exchanged the back
of the queue but not yet linked its node, and push_back() then returns false for
the next producer. The context could go to sleep with commands in its queue and
nobody left to notify it, until an unrelated deadline.
---
 include/exec/timed_thread_scheduler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index b19e5a2..e2fa3ab 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -229,8 +229,10 @@ namespace experimental::execution
                                                          STDEXEC::__std::memory_order_relaxed);
         return;
       }
-      if (command_queue_.push_back(op))
+      command_queue_.push_back(op);
       {
+        // Always notify: pop_front may return null while another producer is in the middle of a
+        // push, so that "the queue was not empty" does not imply that the context sees this command.
         std::scoped_lock lock{ready_mutex_};
         ready_ = true;
         cv_.notify_one();
-- 
2.43.0


From 41147bdd67438dc42fc0be201de013db47a157fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 12/61] fix: timed_thread_scheduler: honour a stop command that
 overtakes its schedule command

start() publishes ref_count_ == 1 before it submits the schedule command, so a
concurrent request_stop() may submit the stop command first. It then found
nothing in the heap and the operation ran until its deadline.
---
 include/exec/timed_thread_scheduler.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index e2fa3ab..4b8b602 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -105,6 +105,8 @@ namespace experimental::execution
       timed_thread_schedule_operation_base* left_  = nullptr;
       timed_thread_schedule_operation_base* right_ = nullptr;
       void (*set_stopped_)(timed_thread_operation_base*) noexcept;
+      // Only accessed by the context's thread: the stop command overtook the schedule command
+      bool stop_requested_ = false;
     };
 
     struct timed_thread_stop_operation : timed_thread_operation_base
@@ -159,7 +161,14 @@ namespace experimental::execution
           {
             auto* task  = static_cast<task_type*>(op);
             task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
-            heap_.insert(task);
+            if (task->stop_requested_)
+            {
+              task->set_stopped_(task);
+            }
+            else
+            {
+              heap_.insert(task);
+            }
           }
           else
           {
@@ -169,6 +178,10 @@ namespace experimental::execution
             {
               stop_op->target_->set_stopped_(stop_op->target_);
             }
+            else
+            {
+              stop_op->target_->stop_requested_ = true;
+            }
             stop_op->set_value_(stop_op);
           }
         }
-- 
2.43.0


From 7555e5aa4734d5fe7b7ac35e46f9643ec9cacc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 13/61] fix: timed_thread_context: complete queued commands on
 shutdown

Commands that were submitted after the context last emptied its queue and before
it was closed were dropped when the context was destroyed, and the operations
never completed.
---
 include/exec/timed_thread_scheduler.hpp | 61 ++++++++++++++-----------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/include/exec/timed_thread_scheduler.hpp b/include/exec/timed_thread_scheduler.hpp
index 4b8b602..6578d1c 100644
--- a/include/exec/timed_thread_scheduler.hpp
+++ b/include/exec/timed_thread_scheduler.hpp
@@ -151,40 +151,45 @@ namespace experimental::execution
     using stop_type    = _time_thrd_sched::timed_thread_stop_operation;
     using time_point   = std::chrono::steady_clock::time_point;
 
-    void run()
+    void process_commands()
     {
-      while (true)
+      while (command_type* op = command_queue_.pop_front())
       {
-        while (command_type* op = command_queue_.pop_front())
+        if (op->command_ == command_type::command_type::schedule)
         {
-          if (op->command_ == command_type::command_type::schedule)
+          auto* task  = static_cast<task_type*>(op);
+          task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
+          if (task->stop_requested_)
           {
-            auto* task  = static_cast<task_type*>(op);
-            task->when_ = _time_thrd_sched::when_type{task->time_point_, submission_counter_++};
-            if (task->stop_requested_)
-            {
-              task->set_stopped_(task);
-            }
-            else
-            {
-              heap_.insert(task);
-            }
+            task->set_stopped_(task);
           }
           else
           {
-            STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
-            auto* stop_op = static_cast<stop_type*>(op);
-            if (heap_.erase(stop_op->target_))
-            {
-              stop_op->target_->set_stopped_(stop_op->target_);
-            }
-            else
-            {
-              stop_op->target_->stop_requested_ = true;
-            }
-            stop_op->set_value_(stop_op);
+            heap_.insert(task);
           }
         }
+        else
+        {
+          STDEXEC_ASSERT(op->command_ == command_type::command_type::stop);
+          auto* stop_op = static_cast<stop_type*>(op);
+          if (heap_.erase(stop_op->target_))
+          {
+            stop_op->target_->set_stopped_(stop_op->target_);
+          }
+          else
+          {
+            stop_op->target_->stop_requested_ = true;
+          }
+          stop_op->set_value_(stop_op);
+        }
+      }
+    }
+
+    void run()
+    {
+      while (true)
+      {
+        process_commands();
         time_point now = std::chrono::steady_clock::now();
         task_type* op  = heap_.front();
         while (op && op->time_point_ <= now)
@@ -205,11 +210,13 @@ namespace experimental::execution
           while (
             !n_submissions_in_flight_.compare_exchange_weak(expected,
                                                             context_closed,
-                                                            STDEXEC::__std::memory_order_relaxed))
+                                                            STDEXEC::__std::memory_order_acquire))
           {
             STDEXEC::__spin_loop_pause();
             expected = 0;
           }
+          // No submission is in flight: handle the commands that were submitted before the close
+          process_commands();
           op = heap_.front();
           while (op)
           {
@@ -250,7 +257,7 @@ namespace experimental::execution
         ready_ = true;
         cv_.notify_one();
       }
-      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed);
+      n_submissions_in_flight_.fetch_sub(1, STDEXEC::__std::memory_order_release);
     }
 
     void request_stop()
-- 
2.43.0


From 339dcba6b91431f9bc2cc61a391d4c86fe513bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:07 +0000
Subject: [PATCH 14/61] fix: async_scope: unregister the consumer's stop
 callback before giving up the future state

The destructor of a spawn_future operation state that was connected but not
started hands the shared state over to the running operation, which may delete
it at once. The consumer's stop callback was still registered at that point and
could call request_stop() on the deleted state.
---
 include/exec/async_scope.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/exec/async_scope.hpp b/include/exec/async_scope.hpp
index 7635dbb..667b698 100644
--- a/include/exec/async_scope.hpp
+++ b/include/exec/async_scope.hpp
@@ -384,6 +384,9 @@ namespace experimental::execution
       {
         if (__state_ != nullptr)
         {
+          // The consumer's stop callback refers to the state, which may be deleted by the completing
+          // operation as soon as the ownership has been handed over below.
+          __forward_consumer_.reset();
           auto             __raw_state = __state_.get();
           std::unique_lock __guard{__raw_state->__mutex_};
           if (__raw_state->__data_.index() > 0)
-- 
2.43.0


From bdce942e483d72c83d70b29b1bc4c344a5de1ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 15/61] fix: __any: propagate exceptions thrown while
 constructing the wrapped object

__box's constructors were unconditionally noexcept, so a throwing copy or move
of the wrapped object terminated the program; and an object that failed to
construct in the small buffer left its vtable pointer behind, so the buffer
looked full.
---
 include/stdexec/__detail/__any.hpp | 33 ++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__any.hpp b/include/stdexec/__detail/__any.hpp
index 7325c82..7c9be69 100644
--- a/include/stdexec/__detail/__any.hpp
+++ b/include/stdexec/__detail/__any.hpp
@@ -485,12 +485,13 @@ namespace STDEXEC::__any
   template <class _Value>
   struct __box
   {
-    constexpr explicit __box(_Value __val) noexcept
+    constexpr explicit __box(_Value __val) noexcept(__nothrow_move_constructible<_Value>)
       : __val_(std::move(__val))
     {}
 
     template <class... _Args>
-    constexpr explicit __box(_Args &&...__args) noexcept
+    constexpr explicit __box(_Args &&...__args)
+      noexcept(__nothrow_constructible_from<_Value, _Args...>)
       : __val_(static_cast<_Args &&>(__args)...)
     {}
 
@@ -635,6 +636,27 @@ namespace STDEXEC::__any
     }
   };
 
+  // Constructing a model in place writes its vtable pointer to the buffer before the value
+  // is constructed. If that throws, the buffer must be marked as empty again.
+  struct __clear_guard
+  {
+    std::span<std::byte> __buff;
+    bool                 __dismissed = false;
+
+    constexpr void __dismiss() noexcept
+    {
+      __dismissed = true;
+    }
+
+    constexpr ~__clear_guard() noexcept
+    {
+      if (!__dismissed)
+      {
+        *__std::start_lifetime_as<__tagged_ptr>(__buff.data()) = __tagged_ptr();
+      }
+    }
+  };
+
   template <class _Model, class _Allocator, class... _Args>
   constexpr _Model &__emplace_into([[maybe_unused]] _Allocator const    &__alloc,
                                    [[maybe_unused]] __iroot            *&__root_ptr,
@@ -651,8 +673,11 @@ namespace STDEXEC::__any
     {
       if (STDEXEC::__any::__is_small<_Model>(__buff.size()))
       {
-        return *std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
-                                  static_cast<_Args &&>(__args)...);
+        __clear_guard __guard{__buff};
+        auto *const   __model = std::construct_at(reinterpret_cast<_Model *>(__buff.data()),
+                                                static_cast<_Args &&>(__args)...);
+        __guard.__dismiss();
+        return *__model;
       }
       else
       {
-- 
2.43.0


From 6aff7cac241b673d27b0cdc09e757e1be863eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:51 +0000
Subject: [PATCH 16/61] fix: inplace_stop_source: allow a stop callback to end
 the lifetime of the source

request_stop() goes on using the source after running a callback. A callback
that completes the operation holding the source (the stop source that
any_sender, any_scheduler, task and the parallel scheduler use to adapt another
kind of stop token, when the child completes inside its own stop callback) lets
the consumer destroy that operation, and request_stop() then locks a destroyed
source.
---
 include/stdexec/stop_token.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/stdexec/stop_token.hpp b/include/stdexec/stop_token.hpp
index a53bd91..8c38022 100644
--- a/include/stdexec/stop_token.hpp
+++ b/include/stdexec/stop_token.hpp
@@ -158,6 +158,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
     mutable STDEXEC::__std::atomic<uint8_t>                __state_{0};
     mutable STDEXEC::__stok::__inplace_stop_callback_base* __callbacks_ = nullptr;
     std::thread::id                                        __notifying_thread_;
+    bool*                                                  __destroyed_ = nullptr;
   };
 
   // [stoptoken.inplace], class inplace_stop_token
@@ -258,6 +259,8 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
   {
     STDEXEC_ASSERT((__state_.load(STDEXEC::__std::memory_order_relaxed) & __locked_flag_) == 0);
     STDEXEC_ASSERT(__callbacks_ == nullptr);
+    if (__destroyed_ != nullptr)
+      *__destroyed_ = true;
   }
 
   inline auto inplace_stop_source::request_stop() noexcept -> bool
@@ -267,6 +270,11 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
     __notifying_thread_ = std::this_thread::get_id();
 
+    // A callback may end the lifetime of this stop source, e.g. when it completes the
+    // operation whose state holds the source.
+    bool __destroyed = false;
+    __destroyed_     = &__destroyed;
+
     // We are responsible for executing callbacks.
     while (__callbacks_ != nullptr)
     {
@@ -283,6 +291,9 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
 
       __callbk->__execute();
 
+      if (__destroyed)
+        return true;
+
       if (!__removed_during_callback)
       {
         __callbk->__removed_during_callback_ = nullptr;
@@ -292,6 +303,7 @@ STDEXEC_P2300_NAMESPACE_BEGIN()
       __lock_();
     }
 
+    __destroyed_ = nullptr;
     __state_.store(__stop_requested_flag_, STDEXEC::__std::memory_order_release);
     return true;
   }
-- 
2.43.0


From 11d8a3b11e3d09e246e213ff660094c1df990b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 17/61] fix: task_scheduler: forward stop requests from
 receivers with other stop tokens

The schedule operation never registered the callback that forwards a stop
request from a receiver whose stop token is not an inplace_stop_token, so the
wrapped scheduler was never told.
---
 include/stdexec/__detail/__task_scheduler.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 476a259..2bd7080 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -312,6 +312,9 @@ namespace STDEXEC
 
       constexpr void start() noexcept
       {
+        // The backend sees the receiver's stop token. If stop has already been requested,
+        // that is for the backend to handle.
+        __rcvr_proxy_.__register_stop_callback();
         __backend_.schedule(__rcvr_proxy_, std::span{__storage_});
       }
 
-- 
2.43.0


From 5d4f2aa82d69e10b35c9a064440bc28631994b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 18/61] fix: task_scheduler: deliver an exception of a bulk
 function once, after the bulk work is done

execute() completed the receiver right away, and the backend then went on with
the other parts of the range and completed it again. An error reported by the
wrapped scheduler's bulk operation (e.g. it could not allocate its operation
state) ran into unreachable code.
---
 .../__detail/__parallel_scheduler_backend.hpp   |  3 ++-
 include/stdexec/__detail/__task_scheduler.hpp   | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index c18c4cc..ee7ca76 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -249,7 +249,8 @@ namespace STDEXEC
 
       constexpr void set_stopped() noexcept final
       {
-        if constexpr (_Infallible && unstoppable_token<__stop_token_t>)
+        if constexpr (unstoppable_token<__stop_token_t>
+                      && (_Infallible || !__callable<set_stopped_t, _Rcvr>) )
         {
           STDEXEC_ASSERT(!+"set_stopped called on an unstoppable receiver proxy");
           __std::unreachable();
diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 2bd7080..f2ed563 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -500,7 +500,7 @@ namespace STDEXEC
     //! downstream receiver.
     template <class _BulkTag, class _Policy, class _Fn, class _Rcvr, class _Values>
     struct __bulk_state final
-      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, true>
+      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy>
     {
       constexpr explicit __bulk_state(_Rcvr                        __rcvr,
                                       size_t                       __shape,
@@ -514,6 +514,12 @@ namespace STDEXEC
 
       constexpr void set_value() noexcept final
       {
+        if (__eptr_)
+        {
+          STDEXEC::set_error(std::move(this->__rcvr_), std::exception_ptr(std::move(__eptr_)));
+          return;
+        }
+
         // Send the stored values to the downstream receiver.
         __visit([](auto& __rcvr, auto& __tupl)
                 { __apply(STDEXEC::set_value, std::move(__tupl), std::move(__rcvr)); },
@@ -539,7 +545,12 @@ namespace STDEXEC
         }
         STDEXEC_CATCH_ALL
         {
-          STDEXEC::set_error(std::move(this->__rcvr_), std::current_exception());
+          // Other parts of the range may still be running, now or later. Keep the first
+          // exception until the backend reports that all of them are done.
+          if (!__failed_.exchange(true, __std::memory_order_relaxed))
+          {
+            __eptr_ = std::current_exception();
+          }
         }
       }
 
@@ -550,6 +561,8 @@ namespace STDEXEC
       _Fn                          __fn_;
       size_t                       __shape_;
       _Values                      __values_{__no_init};
+      __std::atomic<bool>          __failed_{false};
+      std::exception_ptr           __eptr_{};
       __any_task_scheduler_backend __backend_;
       alignas(STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_ALIGN) std::byte
         __storage_[STDEXEC_TASK_BULK_SCHEDULE_OPSTATE_SIZE];
-- 
2.43.0


From 1914e0cdd716846285f71e37a5aab328ae9e1f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:12 +0000
Subject: [PATCH 19/61] fix: task_scheduler: a bulk operation with a negative
 shape has no work

---
 include/stdexec/__detail/__task_scheduler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index f2ed563..1a68886 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -619,7 +619,8 @@ namespace STDEXEC
                               decltype(__child),
                               decltype(__fn),
                               _Rcvr>{std::move(__child),
-                                     static_cast<size_t>(__shape),
+                                     // A shape that is not positive stands for no work.
+                                     __shape > 0 ? static_cast<size_t>(__shape) : size_t(0),
                                      std::move(__fn),
                                      std::move(__rcvr),
                                      std::move(__attrs_.__sched_.__backend_)};
-- 
2.43.0


From b9250266c46d6f14566c35f259737e7bf73bb1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:04 +0000
Subject: [PATCH 20/61] fix: task_scheduler: run a bulk function sequentially
 when the policy is not parallel

The backend was still asked for one work item per index. Each item of a chunked
operation then ran the whole range, and item i of an unchunked operation ran
indices i .. i + shape.
---
 include/stdexec/__detail/__task_scheduler.hpp | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index 1a68886..d06c1c8 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -386,13 +386,13 @@ namespace STDEXEC
           // Start the bulk operation.
           if constexpr (__same_as<_BulkTag, bulk_chunked_t>)
           {
-            __state_->__backend_.schedule_bulk_chunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_chunked(__state_->__count(),
                                                        *__state_,
                                                        std::span{__state_->__storage_});
           }
           else
           {
-            __state_->__backend_.schedule_bulk_unchunked(__state_->__shape_,
+            __state_->__backend_.schedule_bulk_unchunked(__state_->__count(),
                                                          *__state_,
                                                          std::span{__state_->__storage_});
           }
@@ -532,10 +532,6 @@ namespace STDEXEC
       {
         STDEXEC_TRY
         {
-          using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
-          constexpr bool __parallelize =
-            __same_as<__policy_t, STDEXEC::parallel_policy>
-            || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
           __visit(__task::__get_execute_bulk_fn<__parallelize>(_BulkTag(),
                                                                __fn_,
                                                                __shape_,
@@ -558,6 +554,19 @@ namespace STDEXEC
       template <class, class, class, class, class>
       friend struct __bulk_receiver;
 
+      using __policy_t = std::remove_cvref_t<decltype(__declval<_Policy>().__get())>;
+      static constexpr bool __parallelize =
+        __same_as<__policy_t, STDEXEC::parallel_policy>
+        || __same_as<__policy_t, STDEXEC::parallel_unsequenced_policy>;
+
+      //! The number of work items for the backend. Without parallelization, one item runs
+      //! all the iterations.
+      [[nodiscard]]
+      constexpr auto __count() const noexcept -> size_t
+      {
+        return __parallelize || __shape_ == 0 ? __shape_ : 1;
+      }
+
       _Fn                          __fn_;
       size_t                       __shape_;
       _Values                      __values_{__no_init};
-- 
2.43.0


From 74727072df8ae7a879058e993ba738f3e2b3616e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:55 +0000
Subject: [PATCH 21/61] fix: task_scheduler: do not name set_stopped of
 receivers that a bulk operation cannot stop

Receivers behind unstoppable tokens need not accept set_stopped (continues_on
rejects it at compile time).
---
 .../__detail/__parallel_scheduler_backend.hpp        |  8 +++++---
 include/stdexec/__detail/__task_scheduler.hpp        | 12 ++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler_backend.hpp b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
index ee7ca76..bb876b1 100644
--- a/include/stdexec/__detail/__parallel_scheduler_backend.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler_backend.hpp
@@ -204,7 +204,10 @@ namespace STDEXEC
 
     // Partially implements the _RcvrProxy interface (either receiver_proxy or
     // bulk_item_receiver_proxy) in terms of a concrete receiver type _Rcvr.
-    template <class _Rcvr, class _RcvrProxy, bool _Infallible = false>
+    template <class _Rcvr,
+              class _RcvrProxy,
+              bool _Infallible         = false,
+              bool _StoppedOnlyByToken = _Infallible>
     struct STDEXEC_ATTRIBUTE(empty_bases) __receiver_proxy_base
       : _RcvrProxy
       , __stop_callback_for<stop_token_of_t<env_of_t<_Rcvr>>>
@@ -249,8 +252,7 @@ namespace STDEXEC
 
       constexpr void set_stopped() noexcept final
       {
-        if constexpr (unstoppable_token<__stop_token_t>
-                      && (_Infallible || !__callable<set_stopped_t, _Rcvr>) )
+        if constexpr (_StoppedOnlyByToken && unstoppable_token<__stop_token_t>)
         {
           STDEXEC_ASSERT(!+"set_stopped called on an unstoppable receiver proxy");
           __std::unreachable();
diff --git a/include/stdexec/__detail/__task_scheduler.hpp b/include/stdexec/__detail/__task_scheduler.hpp
index d06c1c8..1cdd49f 100644
--- a/include/stdexec/__detail/__task_scheduler.hpp
+++ b/include/stdexec/__detail/__task_scheduler.hpp
@@ -500,7 +500,7 @@ namespace STDEXEC
     //! downstream receiver.
     template <class _BulkTag, class _Policy, class _Fn, class _Rcvr, class _Values>
     struct __bulk_state final
-      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy>
+      : __detail::__receiver_proxy_base<_Rcvr, bulk_item_receiver_proxy, false, true>
     {
       constexpr explicit __bulk_state(_Rcvr                        __rcvr,
                                       size_t                       __shape,
@@ -864,11 +864,11 @@ namespace STDEXEC
   {
     // Implementation of the get_start_scheduler_t query for __receiver_proxy_base and
     // __proxy_env from __parallel_scheduler_backend.hpp.
-    template <class _Rcvr, class _Proxy, bool _Infallible>
-    constexpr void
-    __receiver_proxy_base<_Rcvr, _Proxy, _Infallible>::__query(get_start_scheduler_t,
-                                                               __type_index __value_type,
-                                                               void*        __dest) const noexcept
+    template <class _Rcvr, class _Proxy, bool _Infallible, bool _StoppedOnlyByToken>
+    constexpr void __receiver_proxy_base<_Rcvr, _Proxy, _Infallible, _StoppedOnlyByToken>::__query(
+      get_start_scheduler_t,
+      __type_index __value_type,
+      void*        __dest) const noexcept
     {
       if (__value_type == __mtypeid<task_scheduler>)
       {
-- 
2.43.0


From d4a13d857f1e97fe45f589633019fd46c50b3cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:23 +0000
Subject: [PATCH 22/61] fix: start_now: connecting a sender may throw

---
 include/exec/start_now.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/exec/start_now.hpp b/include/exec/start_now.hpp
index b445231..6068c9a 100644
--- a/include/exec/start_now.hpp
+++ b/include/exec/start_now.hpp
@@ -213,6 +213,13 @@ namespace experimental::execution
       }
     };
 
+    // Starting the senders nests each of them in the scope and connects the result.
+    template <class _Env, class _AsyncScope, class... _Senders>
+    inline constexpr bool __nothrow_start =
+      ((noexcept(STDEXEC::__declval<_AsyncScope&>().nest(STDEXEC::__declval<_Senders>()))
+        && STDEXEC::__nothrow_connectable<nest_result_t<_AsyncScope, _Senders>, __receiver<_Env>>)
+       && ...);
+
     struct start_now_t
     {
       template <STDEXEC::__queryable         _Env,
@@ -220,7 +227,10 @@ namespace experimental::execution
                 STDEXEC::sender... _Sender>
       constexpr auto operator()(_Env __env, _AsyncScope& __scope, _Sender&&... __sndr) const
         noexcept(STDEXEC::__nothrow_move_constructible<std::unwrap_reference_t<_Env>>
-                 && (STDEXEC::__nothrow_move_constructible<_Sender> && ...))
+                 && (STDEXEC::__nothrow_move_constructible<_Sender> && ...)
+                 && __nothrow_start<STDEXEC::__as_root_env_t<std::unwrap_reference_t<_Env>>,
+                                    _AsyncScope,
+                                    _Sender...>)
       {
         using __local_env_t = STDEXEC::__as_root_env_t<std::unwrap_reference_t<_Env>>;
         static_assert(!STDEXEC::sender<_Env>,
@@ -243,7 +253,8 @@ namespace experimental::execution
 
       template <exec::__scope::__async_scope _AsyncScope, STDEXEC::sender... _Sender>
       constexpr auto operator()(_AsyncScope& __scope, _Sender&&... __sndr) const
-        noexcept((STDEXEC::__nothrow_move_constructible<_Sender> && ...))
+        noexcept((STDEXEC::__nothrow_move_constructible<_Sender> && ...)
+                 && __nothrow_start<STDEXEC::__root_env, _AsyncScope, _Sender...>)
       {
         static_assert(!STDEXEC::sender<_AsyncScope>,
                       "The first argument to start_now() must be either an environment or an "
-- 
2.43.0


From a4af8a655ec71dc398cbaefd432a5d4c4ce0a1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:23 +0000
Subject: [PATCH 23/61] fix: fork_join: connecting the child may throw

---
 include/exec/fork_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/fork_join.hpp b/include/exec/fork_join.hpp
index f2b1f71..8279e56 100644
--- a/include/exec/fork_join.hpp
+++ b/include/exec/fork_join.hpp
@@ -130,7 +130,7 @@ namespace experimental::execution
       using _cache_sndr_t = _fork_join::_cache_sndr_t<_variant_t<_child_completions_t>, _domain_t>;
 
       STDEXEC_ATTRIBUTE(host, device)
-      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr) noexcept
+      constexpr explicit _opstate_t(Sndr&& sndr, Closures&& closures, Rcvr rcvr)
         : _rcvr_(static_cast<Rcvr&&>(rcvr))
         , _fork_opstate_(STDEXEC::connect(STDEXEC::__apply(_mk_when_all_fn{},
                                                            static_cast<Closures&&>(closures),
@@ -266,7 +266,7 @@ namespace experimental::execution
       }
 
       static constexpr auto __connect =
-        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr) noexcept
+        []<class _Receiver, class _Sender>(_Sender&& __sndr, _Receiver __rcvr)
         -> _fork_join::_opstate_t<STDEXEC::__child_of<_Sender>,
                                   STDEXEC::__data_of<_Sender>,
                                   _Receiver>
-- 
2.43.0


From d3f913a26286ca690bc78fbf6d935230440feb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:23 +0000
Subject: [PATCH 24/61] fix: memory_resource_adaptor: refuse sizes whose padded
 size is not representable

---
 include/exec/__memory_resource_adaptor.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/exec/__memory_resource_adaptor.hpp b/include/exec/__memory_resource_adaptor.hpp
index 46a4d71..c9e6e5e 100644
--- a/include/exec/__memory_resource_adaptor.hpp
+++ b/include/exec/__memory_resource_adaptor.hpp
@@ -175,6 +175,12 @@ namespace experimental::execution
           // for the possible rightward shift and the copy of a pointer, we need to
           // allocate extra space, and __bytes + __align - 1 + sizeof(void *) is the most
           // we might need.
+          if (__bytes > static_cast<std::size_t>(-1) - (__align - 1 + sizeof(void *)))
+          {
+            // the size of the upstream buffer is not representable
+            STDEXEC_THROW(std::bad_alloc());
+          }
+
           std::size_t __upstreamSize = __bytes + __align - 1 + sizeof(void *);
           void *const __buffer       = __traits::allocate(__alloc_, __upstreamSize);
 
-- 
2.43.0


From 212508200304ee6c2abd39b7a4067295dd49a9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:23 +0000
Subject: [PATCH 25/61] fix: any_allocator: align the blocks for the element
 type

---
 include/stdexec/__detail/__any_allocator.hpp | 34 ++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__any_allocator.hpp b/include/stdexec/__detail/__any_allocator.hpp
index c0ff20e..dd94d18 100644
--- a/include/stdexec/__detail/__any_allocator.hpp
+++ b/include/stdexec/__detail/__any_allocator.hpp
@@ -31,6 +31,11 @@ import stdexec;
 #  include "__memory.hpp"
 #  include "__typeinfo.hpp"
 
+#  include <cstddef>
+#  include <cstring>
+#  include <memory>
+#  include <new>
+
 #  include "__prologue.hpp"
 
 STDEXEC_PRAGMA_IGNORE_GNU("-Warray-bounds")
@@ -112,19 +117,44 @@ namespace STDEXEC
     [[nodiscard]]
     constexpr auto allocate(size_t __n) -> _Ty*
     {
-      void* __void_ptr = __alloc_.allocate(__n * sizeof(_Ty));
+      if (__n > (static_cast<size_t>(-1) - __extra) / sizeof(_Ty))
+      {
+        STDEXEC_THROW(std::bad_array_new_length());
+      }
+
+      void* __void_ptr = __alloc_.allocate(__n * sizeof(_Ty) + __extra);
+      if constexpr (alignof(_Ty) > 1)
+      {
+        // The wrapped allocator allocates bytes, so the block it returns is not necessarily
+        // aligned for _Ty. Shift to the first suitable address and keep the address of the block
+        // right behind the elements, where deallocate can find it.
+        void* const  __block = __void_ptr;
+        size_t const __bytes = __n * sizeof(_Ty);
+        size_t       __space = __bytes + alignof(_Ty) - 1;
+        __void_ptr           = std::align(alignof(_Ty), __bytes, __void_ptr, __space);
+        std::memcpy(static_cast<std::byte*>(__void_ptr) + __bytes, &__block, sizeof(__block));
+      }
       return static_cast<_Ty*>(__void_ptr);
     }
 
     constexpr void deallocate(_Ty* __ptr, size_t __n) noexcept
     {
       void* __void_ptr = static_cast<void*>(__ptr);
-      __alloc_.deallocate(static_cast<std::byte*>(__void_ptr), __n * sizeof(_Ty));
+      if constexpr (alignof(_Ty) > 1)
+      {
+        std::memcpy(&__void_ptr,
+                    static_cast<std::byte*>(__void_ptr) + __n * sizeof(_Ty),
+                    sizeof(__void_ptr));
+      }
+      __alloc_.deallocate(static_cast<std::byte*>(__void_ptr), __n * sizeof(_Ty) + __extra);
     }
 
     constexpr auto operator==(__any_allocator const &) const noexcept -> bool = default;
 
    private:
+    // The room needed to align a block of bytes for _Ty and to remember where the block starts:
+    static constexpr size_t __extra = alignof(_Ty) > 1 ? alignof(_Ty) - 1 + sizeof(void*) : 0;
+
     struct __alloc_impl final : __any::__any<__detail::__byte_allocator>
     {
       using __alloc_impl::__any::__any;
-- 
2.43.0


From e42704af9b2092deea19f8931cc20795b0303db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 26/61] fix: reschedule_coroutine_on rethrows a scheduling
 error instead of terminating

---
 include/exec/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 1b0cbda..3360bbb 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -468,7 +468,7 @@ namespace experimental::execution
         }
       }
 
-      void await_resume() noexcept
+      void await_resume()
       {
         if (__eptr_)
         {
-- 
2.43.0


From a7a4080ff5b0f849adf493e4946fd5cc8dbf24aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 27/61] fix: parallel_scheduler operations release the backend
 and the inner operation they never started or that did not complete with a
 value

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5d0c290..5fb0499 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -171,9 +171,10 @@ namespace STDEXEC
     schedule:
     - __receiver_adapter::__vtable -- 8
     - __receiver_adapter::__rcvr_ (Rcvr) -- assuming 0
+    - __system_op::__sched_impl_ (std::shared_ptr) -- 16
     - __system_op::__preallocated_ (__preallocated) -- 72
     ---------------------
-    Total: 80; extra 8 bytes compared to backend needs.
+    Total: 96; extra 24 bytes compared to backend needs.
 
     for bulk:
     - __bulk_state_base::__fun_ (_Fn) -- 0 (assuming empty function)
@@ -199,13 +200,8 @@ namespace STDEXEC
       /// Constructs `this` from `__rcvr` and `__sched_impl`.
       __system_op(_Rcvr&& __rcvr, __backend_ptr_t __sched_impl)
         : __rcvr_{std::forward<_Rcvr>(__rcvr)}
-      {
-        /// Before the operation starts, we store the scheduler implementation in
-        /// __preallocated_. After the operation starts, we don't need this pointer
-        /// anymore, and the storage can be used by the backend
-        auto* __p = &__preallocated_.__as<__backend_ptr_t>();
-        std::construct_at(__p, std::move(__sched_impl));
-      }
+        , __sched_impl_{std::move(__sched_impl)}
+      {}
 
       STDEXEC_IMMOVABLE(__system_op);
 
@@ -218,18 +214,18 @@ namespace STDEXEC
           __rcvr_.set_stopped();
           return;
         }
-        auto& __sched_impl = __preallocated_.__as<__backend_ptr_t>();
-        auto  __impl       = std::move(__sched_impl);
-        std::destroy_at(&__sched_impl);
+        // Scheduling the work may complete the operation and destroy *this.
+        auto __impl = std::move(__sched_impl_);
         __impl->schedule(__rcvr_, __preallocated_.__as_storage());
       }
 
       /// Object that receives completion from the work described by the sender.
       __receiver_proxy<_Rcvr> __rcvr_;
 
+      /// The backend interface for the scheduler; released when the operation starts.
+      __backend_ptr_t __sched_impl_;
+
       /// Preallocated space for storing the operation state on the implementation size.
-      /// We also store here the backend interface for the scheduler before we actually
-      /// start the operation.
       __aligned_storage<STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_SIZE,
                         STDEXEC_PARALLEL_SCHEDULER_SCHEDULE_OP_ALIGN>
         __preallocated_;
@@ -597,12 +593,16 @@ namespace STDEXEC
       /// Preallocated space for storing the inner operation state, and then storage space for the backend call.
       __aligned_storage<_PreallocatedSize, _PreallocatedAlign> __preallocated_;
 
+      /// Whether the preallocated space holds the inner operation state.
+      bool __has_inner_op_{false};
+
       /// Destroys the inner operation state object, and returns the preallocated storage for it to be used by the backend.
       static auto
       __prepare_storage_for_backend_impl(__bulk_state_base_t* __base) -> std::span<std::byte>
       {
         auto* __self = static_cast<__system_bulk_op*>(__base);
         // We don't need anymore the storage for the previous operation state.
+        __self->__has_inner_op_ = false;
         __self->__preallocated_.template __as<__inner_op_state>().~__inner_op_state();
         // Reuse the preallocated storage for the backend.
         return __self->__preallocated_.__as_storage();
@@ -624,6 +624,16 @@ namespace STDEXEC
 
         // Start using the preallocated buffer to store the inner operation state.
         new (__preallocated_.__as_ptr()) __inner_op_state(static_cast<_InitF&&>(__initFunc)(*this));
+        __has_inner_op_ = true;
+      }
+
+      ~__system_bulk_op()
+      {
+        // The inner operation state is still there if the backend was never called.
+        if (__has_inner_op_)
+        {
+          __preallocated_.template __as<__inner_op_state>().~__inner_op_state();
+        }
       }
 
       __system_bulk_op(__system_bulk_op const &)                    = delete;
-- 
2.43.0


From ea9ed4c0d9f65e0ded18cd74f43ac0d56869dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 28/61] fix: parallel_scheduler bulk reports a throwing value
 move as an error instead of terminating

---
 .../stdexec/__detail/__parallel_scheduler.hpp | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 5fb0499..18d2d71 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -367,12 +367,20 @@ namespace STDEXEC
       void set_value() noexcept override
       {
         auto __state = reinterpret_cast<_BulkState*>(this);
-        auto __args  = std::move(__base_t::__arguments_.__get());
-        __base_t::__arguments_.__destroy();
-        std::destroy_at(this);
-        std::apply([&](auto&&... __args)
-                   { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
-                   std::move(__args));
+        STDEXEC_TRY
+        {
+          auto __args = std::move(__base_t::__arguments_.__get());
+          __base_t::__arguments_.__destroy();
+          std::destroy_at(this);
+          std::apply([&](auto&&... __args) noexcept
+                     { STDEXEC::set_value(std::move(__state->__rcvr_), std::move(__args)...); },
+                     std::move(__args));
+        }
+        STDEXEC_CATCH_ALL
+        {
+          // Only moving the values out can throw, so the storage still holds them.
+          set_error(std::current_exception());
+        }
       }
 
       /// Calls `set_error()` on the final receiver of the bulk operation, passing `__ex`.
@@ -516,8 +524,17 @@ namespace STDEXEC
         // Store the input data in the shared state.
         using __typed_forward_args_receiver_t =
           __typed_forward_args_receiver<_Previous, _BulkState, _As...>;
-        auto __r = new (&__state_.__forward_args_helper_)
-          __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        __typed_forward_args_receiver_t* __r = nullptr;
+        STDEXEC_TRY
+        {
+          __r = new (&__state_.__forward_args_helper_)
+            __typed_forward_args_receiver_t(std::forward<_As>(__as)...);
+        }
+        STDEXEC_CATCH_ALL
+        {
+          STDEXEC::set_error(std::move(__state_.__rcvr_), std::current_exception());
+          return;
+        }
 
         auto __scheduler = __sched_;
         auto __size      = static_cast<size_t>(__state_.__size_);
-- 
2.43.0


From 8fa0cf76c214602fcf08d7ef72c6959de0f6ce0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:53 +0000
Subject: [PATCH 29/61] fix: parallel_scheduler bulk treats a negative shape as
 empty

---
 include/stdexec/__detail/__parallel_scheduler.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__parallel_scheduler.hpp b/include/stdexec/__detail/__parallel_scheduler.hpp
index 18d2d71..e200389 100644
--- a/include/stdexec/__detail/__parallel_scheduler.hpp
+++ b/include/stdexec/__detail/__parallel_scheduler.hpp
@@ -412,7 +412,7 @@ namespace STDEXEC
           size_t __increments = 1;
           if constexpr (!_BulkState::__parallelize)
           {
-            __increments = static_cast<size_t>(__state->__size_);
+            __increments = __state->__item_count();
           }
           for (size_t __i = __begin; __i < __begin + __increments; __i++)
           {
@@ -426,7 +426,7 @@ namespace STDEXEC
           if constexpr (!_BulkState::__parallelize)
           {
             __begin = 0;
-            __end   = static_cast<size_t>(__state->__size_);
+            __end   = __state->__item_count();
           }
           std::apply([&](auto&&... __args) { __state->__fun_(__begin, __end, __args...); },
                      __base_t::__arguments_.__get());
@@ -497,6 +497,13 @@ namespace STDEXEC
         , __rcvr_{std::move(__rcvr)}
         , __size_{__size}
       {}
+
+      /// The number of items of the bulk operation; a negative size means there are none.
+      [[nodiscard]]
+      auto __item_count() const noexcept -> size_t
+      {
+        return __size_ > 0 ? static_cast<size_t>(__size_) : 0;
+      }
     };
 
     /// Receiver that is used in "bulk" to connect to the input sender of the bulk operation.
@@ -537,7 +544,7 @@ namespace STDEXEC
         }
 
         auto __scheduler = __sched_;
-        auto __size      = static_cast<size_t>(__state_.__size_);
+        auto __size      = __state_.__item_count();
 
         auto __storage = __state_.__prepare_storage_for_backend(&__state_);
         // This might destroy the `this` object.
-- 
2.43.0


From 431e360f78cc84b31682ea46e62a5a41abfb4568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:58 +0000
Subject: [PATCH 30/61] fix: merge_each: complete the outer item when a nested
 sequence cannot be obtained

An item of the outer sequence that failed or was stopped never completed
the producer's next receiver, so the merge hung.
---
 include/exec/sequence/merge_each.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 397e312..90a9f4b 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -1029,7 +1029,7 @@ namespace experimental::execution
           if constexpr (!__is_nothrow)
           {
             __op_->store_error(std::current_exception());
-            __op_->nested_sequence_break();
+            __next_seq_op_->nested_sequence_break();
           }
         }
       }
@@ -1038,12 +1038,12 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         __op_->store_error(static_cast<_Error&&>(__error));
-        __op_->nested_sequence_break();
+        __next_seq_op_->nested_sequence_break();
       }
 
       void set_stopped() noexcept
       {
-        __op_->nested_sequence_complete();
+        __next_seq_op_->nested_sequence_complete();
       }
 
       using __env_t = typename _OperationBase::__nested_stop_env_t;
-- 
2.43.0


From c8bfeb4c825f9ab600e9e491920d24d579013ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:58 +0000
Subject: [PATCH 31/61] fix: merge_each: store an item's error before
 completing the item

Completing the item may destroy the operation that owns the error.
---
 include/exec/sequence/merge_each.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 90a9f4b..3f77d4f 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -573,8 +573,9 @@ namespace experimental::execution
       void set_error(_Error&& __error) noexcept
       {
         auto __op = __op_;
-        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
+        // Completing the receiver may destroy the operation that owns the error.
         __op->store_error(static_cast<_Error&&>(__error));
+        STDEXEC::set_stopped(static_cast<_NestedValueReceiver&&>(__nested_value_op_->__rcvr_));
         __op->nested_value_break();
       }
 
-- 
2.43.0


From ea10e640e5c402b25c38df1e9ee641e100646b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:58 +0000
Subject: [PATCH 32/61] fix: merge_each: an error stops the other operations
 for unstoppable receivers too

---
 include/exec/sequence/merge_each.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index 3f77d4f..c62a241 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -116,20 +116,12 @@ namespace experimental::execution
 
       bool stop_requested() const noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.stop_requested();
-        }
-        return false;
+        return __stop_source_.stop_requested();
       }
 
       bool request_stop() noexcept
       {
-        if constexpr (!unstoppable_token<__stop_token_t>)
-        {
-          return __stop_source_.request_stop();
-        }
-        return false;
+        return __stop_source_.request_stop();
       }
 
       inplace_stop_token get_token() const & noexcept
-- 
2.43.0


From ac2566dfd4acc5125ac28c94a1be82484222f44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:58 +0000
Subject: [PATCH 33/61] fix: merge_each: do not wrap the outer sequence's
 exception_ptr in another exception

---
 include/exec/sequence/merge_each.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/exec/sequence/merge_each.hpp b/include/exec/sequence/merge_each.hpp
index c62a241..1d1fe35 100644
--- a/include/exec/sequence/merge_each.hpp
+++ b/include/exec/sequence/merge_each.hpp
@@ -354,7 +354,11 @@ namespace experimental::execution
         case __completion_t::__stopped:
           // We are the first child to complete with an error, so we must save the error. (Any
           // subsequent errors are ignored.)
-          if constexpr (__nothrow_decay_copyable<_Error>)
+          if constexpr (__decays_to<_Error, std::exception_ptr>)
+          {
+            __ex_ = static_cast<_Error&&>(__error);
+          }
+          else if constexpr (__nothrow_decay_copyable<_Error>)
           {
             __ex_ = std::make_exception_ptr(static_cast<_Error&&>(__error));
           }
-- 
2.43.0


From 237d11c9db53c438da9601a6501fda627101496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:09 +0000
Subject: [PATCH 34/61] fix: io_uring_context: a second run submitted the
 wakeup operation that the kernel still holds

---
 include/exec/linux/io_uring_context.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 011cf1f..084428e 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -556,9 +556,9 @@ namespace experimental::execution
             // Make emplacement of stop source visible to other threads and open the door for new submissions.
             __n_submissions_in_flight_.store(0, STDEXEC::__std::memory_order_release);
           }
-          else
+          else if (__n_total_submitted_ == 0)
           {
-            // This can only happen for the very first pass of run_until_stopped()
+            // The wakeup operation is still submitted if a previous run was broken out of.
             __wakeup_operation_.start();
           }
         }
-- 
2.43.0


From 8d8a99e690c9520610f814c2c36f8b6601d41c9a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:23:27 +0000
Subject: [PATCH 35/61] fix: io_uring_context: complete timed operations that
 are started after the context has stopped

---
 include/exec/linux/io_uring_context.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 084428e..d5f1dd2 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -1043,7 +1043,8 @@ namespace experimental::execution
 
       void complete(::io_uring_cqe const & __cqe) noexcept
       {
-        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) == 1)
+        // The count is zero if the operation is stopped before it has been submitted.
+        if (__n_ops_.fetch_sub(1, STDEXEC::__std::memory_order_relaxed) <= 1)
         {
           __on_context_stop_.reset();
           __on_receiver_stop_.reset();
-- 
2.43.0


From b57a6e59e9c3df9218e611141e48b65669891a10 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:24:14 +0000
Subject: [PATCH 36/61] fix: io_uring_context: run's operation completed with
 an error and then completed again

---
 include/exec/linux/io_uring_context.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index d5f1dd2..6091ae8 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -669,6 +669,7 @@ namespace experimental::execution
           {
             __callback.reset();
             STDEXEC::set_error(static_cast<_Rcvr&&>(__rcvr_), std::current_exception());
+            return;
           }
           __callback.reset();
           if (__context_.stop_requested())
-- 
2.43.0


From ef60db648f170c31face3673d70abe57edf4e72d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:25:28 +0000
Subject: [PATCH 37/61] fix: io_uring_context: complete the requests found at
 the end of the shutdown instead of submitting them

---
 include/exec/linux/io_uring_context.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 6091ae8..3343a0c 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -613,14 +613,12 @@ namespace experimental::execution
                          == __no_new_submissions);
           // There could have been requests in flight. Complete all of them
           // and then stop it, finally.
+          // Nothing is left in the io_uring, so there is nothing to cancel either.
           __pending_.append(__requests_.pop_all_reversed());
-          __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
-                                                                      __pending_),
-                                                                    __params_.cq_entries,
-                                                                    true);
-          STDEXEC_ASSERT(__result.__n_submitted == 0);
-          STDEXEC_ASSERT(__result.__pending.empty());
-          __completion_queue_.complete(static_cast<__task_queue&&>(__result.__ready));
+          while (!__pending_.empty())
+          {
+            __stop(__pending_.pop_front());
+          }
         }
       }
 
-- 
2.43.0


From 81e91da704f5c8a099d4208e0690721e5a25bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:09 +0000
Subject: [PATCH 38/61] fix: io_uring_context: a stop request could be missed
 before the cancellations were enqueued

---
 include/exec/linux/io_uring_context.hpp | 30 +++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index 3343a0c..f538886 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -433,13 +433,19 @@ namespace experimental::execution
                                            "context"));
         }
         __n_submissions_in_flight_.store(0, STDEXEC::__std::memory_order_relaxed);
+        __is_stopping_.store(false, STDEXEC::__std::memory_order_relaxed);
         __stop_source_.reset();
         __stop_source_.emplace();
       }
 
       auto request_stop() noexcept -> std::error_code
       {
-        __stop_source_->request_stop();
+        if (__stop_source_->request_stop())
+        {
+          // Every stop callback has returned, so all cancellations have been enqueued. Until then the
+          // thread that drives the io context must remain receptive to wakeups.
+          __is_stopping_.store(true, STDEXEC::__std::memory_order_release);
+        }
         return try_wakeup();
       }
 
@@ -508,11 +514,13 @@ namespace experimental::execution
         STDEXEC_ASSERT(0 <= __n_total_submitted_
                        && std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
         __u32 __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
+        // Once the context is stopping, every cancellation is in the request queue.
+        bool __is_stopped = __is_stopping();
         __pending_.append(__requests_.pop_all_reversed());
         __submission_result __result = __submission_queue_.submit(static_cast<__task_queue&&>(
                                                                     __pending_),
                                                                   __max_submissions,
-                                                                  __stop_source_->stop_requested());
+                                                                  __is_stopped);
         __n_total_submitted_ += __result.__n_submitted;
         __n_newly_submitted_ += __result.__n_submitted;
         STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -522,11 +530,12 @@ namespace experimental::execution
           __n_total_submitted_ -= __completion_queue_.complete(
             static_cast<__task_queue&&>(__result.__ready));
           STDEXEC_ASSERT(0 <= __n_total_submitted_);
+          __is_stopped = __is_stopping();
           __pending_.append(__requests_.pop_all_reversed());
           __max_submissions = __params_.cq_entries - static_cast<__u32>(__n_total_submitted_);
           __result          = __submission_queue_.submit(static_cast<__task_queue&&>(__pending_),
                                                 __max_submissions,
-                                                __stop_source_->stop_requested());
+                                                __is_stopped);
           __n_total_submitted_ += __result.__n_submitted;
           __n_newly_submitted_ += __result.__n_submitted;
           STDEXEC_ASSERT(std::cmp_less_equal(__n_total_submitted_, __params_.cq_entries));
@@ -552,6 +561,7 @@ namespace experimental::execution
           int __in_flight = __n_submissions_in_flight_.load(STDEXEC::__std::memory_order_relaxed);
           if (__in_flight == __no_new_submissions)
           {
+            __is_stopping_.store(false, STDEXEC::__std::memory_order_relaxed);
             __stop_source_.emplace();
             // Make emplacement of stop source visible to other threads and open the door for new submissions.
             __n_submissions_in_flight_.store(0, STDEXEC::__std::memory_order_release);
@@ -569,7 +579,7 @@ namespace experimental::execution
         {
           run_some();
           if (__n_total_submitted_ == 0
-              || (__n_total_submitted_ == 1
+              || (__n_total_submitted_ == 1 && !__is_stopping()
                   && __break_loop_.load(STDEXEC::__std::memory_order_acquire)))
           {
             __break_loop_.store(false, STDEXEC::__std::memory_order_relaxed);
@@ -593,9 +603,8 @@ namespace experimental::execution
           __pending_.append(__requests_.pop_all_reversed());
         }
         STDEXEC_ASSERT(__n_total_submitted_ <= 1);
-        if (__stop_source_->stop_requested() && __pending_.empty())
+        if (__is_stopping() && __n_total_submitted_ == 0 && __pending_.empty())
         {
-          STDEXEC_ASSERT(__n_total_submitted_ == 0);
           // try to shutdown the request queue
           int __n_in_flight_expected = 0;
           while (
@@ -723,6 +732,12 @@ namespace experimental::execution
      private:
       friend struct __wakeup_operation;
 
+      [[nodiscard]]
+      auto __is_stopping() const noexcept -> bool
+      {
+        return __is_stopping_.load(STDEXEC::__std::memory_order_acquire);
+      }
+
       // This constant is used for __n_submissions_in_flight to indicate that no new submissions
       // to this context will be completed by this context.
       static constexpr int __no_new_submissions = -1;
@@ -730,6 +745,7 @@ namespace experimental::execution
       STDEXEC::__std::atomic<bool>                __is_running_{false};
       STDEXEC::__std::atomic<int>                 __n_submissions_in_flight_{0};
       STDEXEC::__std::atomic<bool>                __break_loop_{false};
+      STDEXEC::__std::atomic<bool>                __is_stopping_{false};
       std::ptrdiff_t                              __n_total_submitted_{0};
       std::ptrdiff_t                              __n_newly_submitted_{0};
       std::optional<STDEXEC::inplace_stop_source> __stop_source_{std::in_place};
@@ -742,7 +758,7 @@ namespace experimental::execution
 
     inline void __wakeup_operation::start() & noexcept
     {
-      if (!__context_->__stop_source_->stop_requested())
+      if (!__context_->__is_stopping())
       {
         __context_->__pending_.push_front(this);
       }
-- 
2.43.0


From 4ecd84cb297faa2accd64ca86284612d55f0483d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 05:26:08 +0000
Subject: [PATCH 39/61] fix: io_uring_context: a timed operation's stop
 operation could be enqueued twice

---
 include/exec/linux/io_uring_context.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/exec/linux/io_uring_context.hpp b/include/exec/linux/io_uring_context.hpp
index f538886..08fe320 100644
--- a/include/exec/linux/io_uring_context.hpp
+++ b/include/exec/linux/io_uring_context.hpp
@@ -905,7 +905,8 @@ namespace experimental::execution
 
       static constexpr __task_vtable __vtable{&__ready_, &__submit_, &__complete_};
 
-      _Base* __op_;
+      _Base*                       __op_;
+      STDEXEC::__std::atomic<bool> __started_{false};
      public:
       explicit __stop_operation(_Base* __op) noexcept
         : __task(__vtable)
@@ -942,6 +943,12 @@ namespace experimental::execution
 
       void start() & noexcept
       {
+        // Both the context and the receiver can request the stop, also after the operation has been
+        // completed by the io_uring.
+        if (__started_.exchange(true, STDEXEC::__std::memory_order_relaxed))
+        {
+          return;
+        }
         int expected = 1;
         if (__op_->__n_ops_.compare_exchange_strong(expected,
                                                     2,
-- 
2.43.0


From 6ef4226e631d9576dba6602dbcd3d245444fc81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:22 +0000
Subject: [PATCH 40/61] fix: finally: advertise the exceptions of storing the
 initial result and of connect

---
 include/stdexec/__detail/__finally.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/stdexec/__detail/__finally.hpp b/include/stdexec/__detail/__finally.hpp
index 82565d3..968d93a 100644
--- a/include/stdexec/__detail/__finally.hpp
+++ b/include/stdexec/__detail/__finally.hpp
@@ -167,7 +167,8 @@ namespace STDEXEC
       constexpr explicit __final_opstate(__cleanup_callback_t* __cleanup_callback,
                                          _CvFinalSender&&      __final,
                                          _Receiver&&           __rcvr,
-                                         _Env2                 __env2) noexcept
+                                         _Env2                 __env2)
+        noexcept(__nothrow_connectable<_CvFinalSender, __final_receiver_t>)
         : __opstate_base<_Storage, _Receiver, _Env2>{static_cast<_Receiver&&>(__rcvr),
                                                      static_cast<_Env2&&>(__env2)}
         , __cleanup_callback_{__cleanup_callback}
@@ -230,6 +231,8 @@ namespace STDEXEC
       constexpr explicit __opstate(_CvInitialSender&& __initial,
                                    _CvFinalSender&&   __final,
                                    _Receiver          __rcvr)
+        noexcept(__nothrow_connectable<_CvFinalSender, typename __base_t::__final_receiver_t>
+                 && __nothrow_connectable<_CvInitialSender, __initial_receiver_t>)
         : __base_t(&__cleanup_initial_opstate,
                    static_cast<_CvFinalSender&&>(__final),
                    static_cast<_Receiver&&>(__rcvr),
@@ -335,10 +338,11 @@ namespace STDEXEC
           {
             // The finally sender's completion signatures are ...
             return STDEXEC::__concat_completion_signatures(
-              // ... the initial sender's completions with value types decayed ...
+              // ... the initial sender's completions with value and error types decayed ...
               STDEXEC::__transform_completion_signatures(
                 __initial_completions,
-                __decay_arguments<set_value_t, __finally_t>()),
+                __decay_arguments<set_value_t, __finally_t>(),
+                __decay_arguments<set_error_t, __finally_t>()),
               // ... and the final sender's error and stopped completions ...
               STDEXEC::__transform_completion_signatures(__final_completions,
                                                          __ignore_completion()));
@@ -359,8 +363,11 @@ namespace STDEXEC
 
       template <__decays_to<__sender> _Self, class _Receiver>
       STDEXEC_EXPLICIT_THIS_BEGIN(auto connect)(this _Self&& __self,
-                                                _Receiver&&  __receiver) noexcept
-        -> __opstate_t<_Self, _Receiver>
+                                                _Receiver&&  __receiver)
+        noexcept(__nothrow_constructible_from<__opstate_t<_Self, _Receiver>,
+                                              __copy_cvref_t<_Self, _InitialSender>,
+                                              __copy_cvref_t<_Self, _FinalSender>,
+                                              _Receiver>) -> __opstate_t<_Self, _Receiver>
       {
         return __opstate_t<_Self, _Receiver>{static_cast<_Self&&>(__self).__initial_sndr_,
                                              static_cast<_Self&&>(__self).__final_sndr_,
-- 
2.43.0


From c4013874a5f42ae5a4aae3b282d237f8fd9be3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:29 +0000
Subject: [PATCH 41/61] fix: repeat: a throwing copy of the child terminated
 the program

---
 include/exec/repeat_until.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/exec/repeat_until.hpp b/include/exec/repeat_until.hpp
index 0cfb494..35a1a14 100644
--- a/include/exec/repeat_until.hpp
+++ b/include/exec/repeat_until.hpp
@@ -369,7 +369,8 @@ namespace experimental::execution
 
     template <class _CvSender, class _Env>
     static constexpr auto
-    transform_sender(STDEXEC::set_value_t, _CvSender &&__sndr, _Env const &) noexcept
+    transform_sender(STDEXEC::set_value_t, _CvSender &&__sndr, _Env const &)
+      noexcept(STDEXEC::__nothrow_decay_copyable<STDEXEC::__child_of<_CvSender>>)
     {
       using namespace STDEXEC;
       using __child_t               = __child_of<_CvSender>;
-- 
2.43.0


From 132baac236d7970e3c23741b3a55242363d81e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:41 +0000
Subject: [PATCH 42/61] fix: let: a throwing move of the function terminated
 connect

---
 include/stdexec/__detail/__let.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 9777fcc..5304f2e 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -174,7 +174,8 @@ namespace STDEXEC
                                         _CvFn           __cv,
                                         _Sender const & __sndr,
                                         _Fun            __fn,
-                                        _Receiver&&     __rcvr) noexcept
+                                        _Receiver&&     __rcvr)
+        noexcept(__nothrow_move_constructible<_Fun>)
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
-- 
2.43.0


From d03fac47e34c3d6aa8647599597d7b3fb5fc714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:15 +0000
Subject: [PATCH 43/61] fix: schedule_all: start() used the operation state
 after the last item had completed

The completion of the last item destroys the operation; start() now holds a
count of its own until it is done with the operation state, no task is handed
to the pool under the operation's mutex, and the items' writes happen before
the completion.
---
 include/exec/static_thread_pool.hpp | 44 +++++++++++++++++------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 1364477..9f60358 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1582,7 +1582,9 @@ namespace experimental::execution
         bool                                 has_started_{false};
         __intrusive_queue<&task_base::next_> tasks_{};
         std::size_t                          tasks_size_{};
-        __std::atomic<std::size_t>           countdown_{std::ranges::size(range_)};
+        // one count for each item, and one that start() holds for as long as it uses this object
+        __std::atomic<std::size_t> countdown_{
+          static_cast<std::size_t>(std::ranges::size(range_)) + 1};
       };
 
       template <class Range, class ItemReceiver>
@@ -1666,6 +1668,14 @@ namespace experimental::execution
           , rcvr_(static_cast<Receiver&&>(rcvr))
         {}
 
+        void arrive_() noexcept
+        {
+          if (this->countdown_.fetch_sub(1, __std::memory_order_acq_rel) == 1)
+          {
+            STDEXEC::set_value(static_cast<Receiver&&>(rcvr_));
+          }
+        }
+
         Receiver rcvr_;
       };
 
@@ -1676,20 +1686,12 @@ namespace experimental::execution
 
         void set_value() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive_();
         }
 
         void set_stopped() noexcept
         {
-          std::size_t countdown = op_->countdown_.fetch_sub(1, __std::memory_order_relaxed);
-          if (countdown == 1)
-          {
-            STDEXEC::set_value(static_cast<Receiver&&>(op_->rcvr_));
-          }
+          op_->arrive_();
         }
 
         auto get_env() const noexcept -> env_of_t<Receiver>
@@ -1761,10 +1763,7 @@ namespace experimental::execution
               STDEXEC::start(items_[i].__get());
             }
 
-            std::unique_lock lock{this->start_mutex_};
-            this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
-            this->tasks_size_ = 0;
-            lock.unlock();
+            enqueue_started_(remote_queue, false);
             i0 += chunk_size;
           }
 
@@ -1773,12 +1772,21 @@ namespace experimental::execution
             STDEXEC::start(items_[i].__get());
           }
 
-          std::unique_lock lock{this->start_mutex_};
-          this->has_started_ = true;
-          this->pool_.bulk_enqueue(remote_queue, std::move(this->tasks_), this->tasks_size_);
+          enqueue_started_(remote_queue, true);
+          this->arrive_();
         }
 
        private:
+        void enqueue_started_(remote_queue& queue, bool has_started) noexcept
+        {
+          std::unique_lock lock{this->start_mutex_};
+          this->has_started_ = has_started;
+          auto tasks         = std::move(this->tasks_);
+          auto tasks_size    = std::exchange(this->tasks_size_, 0);
+          lock.unlock();
+          this->pool_.bulk_enqueue(queue, std::move(tasks), tasks_size);
+        }
+
         using allocator_t     = allocator_of_t<Receiver const &>;
         using item_sender_t   = item_sender<Range>;
         using next_sender_t   = next_sender_of_t<Receiver, item_sender_t>;
-- 
2.43.0


From bc281f288b7819bc7a9fb1f558f1adaf814ab880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:37 +0000
Subject: [PATCH 44/61] fix: schedule_all: a failing allocation in subscribe
 terminated the program

---
 include/exec/static_thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/exec/static_thread_pool.hpp b/include/exec/static_thread_pool.hpp
index 9f60358..39b274d 100644
--- a/include/exec/static_thread_pool.hpp
+++ b/include/exec/static_thread_pool.hpp
@@ -1816,14 +1816,14 @@ namespace experimental::execution
         {}
 
         template <exec::sequence_receiver_of<item_types> Receiver>
-        auto subscribe(Receiver rcvr) && noexcept -> opstate<Range, Receiver>
+        auto subscribe(Receiver rcvr) && -> opstate<Range, Receiver>
         {
           return opstate<Range, Receiver>{std::move(range_), *pool_, std::move(rcvr)};
         }
 
         template <exec::sequence_receiver_of<item_types> Receiver>
           requires __decay_copyable<Range const &>
-        auto subscribe(Receiver rcvr) const & noexcept -> opstate<Range, Receiver>
+        auto subscribe(Receiver rcvr) const & -> opstate<Range, Receiver>
         {
           return opstate<Range, Receiver>{range_, *pool_, std::move(rcvr)};
         }
-- 
2.43.0


From c49557ec79c435a7139e66abfed96fdfa8b3f9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:37 +0000
Subject: [PATCH 45/61] fix: ignore_all_values: an item error whose copy throws
 terminated the program

---
 include/exec/sequence/ignore_all_values.hpp | 41 +++++++++++++++++++--
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/include/exec/sequence/ignore_all_values.hpp b/include/exec/sequence/ignore_all_values.hpp
index 0ca0e9d..daa0b60 100644
--- a/include/exec/sequence/ignore_all_values.hpp
+++ b/include/exec/sequence/ignore_all_values.hpp
@@ -67,7 +67,27 @@ namespace experimental::execution
         int __expected = 0;
         if (__emplaced_.compare_exchange_strong(__expected, 1, __std::memory_order_relaxed))
         {
-          __result_.template emplace<__decayed_tuple<_Args...>>(static_cast<_Args&&>(__args)...);
+          using __eptr_tuple_t = __decayed_tuple<set_error_t, std::exception_ptr>;
+          if constexpr (__nothrow_decay_copyable<_Args...>
+                        || !__variant_emplaceable<_ResultsStorage,
+                                                  __eptr_tuple_t,
+                                                  set_error_t,
+                                                  std::exception_ptr>)
+          {
+            __result_.template emplace<__decayed_tuple<_Args...>>(static_cast<_Args&&>(__args)...);
+          }
+          else
+          {
+            STDEXEC_TRY
+            {
+              __result_.template emplace<__decayed_tuple<_Args...>>(
+                static_cast<_Args&&>(__args)...);
+            }
+            STDEXEC_CATCH_ALL
+            {
+              __result_.template emplace<__eptr_tuple_t>(set_error_t(), std::current_exception());
+            }
+          }
           __emplaced_.store(2, __std::memory_order_release);
         }
       }
@@ -251,11 +271,18 @@ namespace experimental::execution
     using __is_set_value_signature_t =
       __mbool<__same_as<set_value_t, __signature_tag_t<_Signature>>>;
 
+    // The completions of the sequence, and those of storing the error of an item
+    template <class _Completions>
+    using __completions_t = __concat_completion_signatures_t<
+      _Completions,
+      __eptr_completion_unless_t<
+        __error_types_t<_Completions, __qq<__mand_t>, __q<__nothrow_decay_copyable_t>>>>;
+
     // Storage for the non-set_value completions
     template <class _Sender, class _Env>
     using __result_variant_t =
       __mapply<__mremove_if<__q1<__is_set_value_signature_t>, __qq<__results_storage>>,
-               __sequence_completion_signatures_of_t<_Sender, _Env>>;
+               __completions_t<__sequence_completion_signatures_of_t<_Sender, _Env>>>;
 
     template <class _Sender, class _Receiver>
     struct __operation
@@ -317,7 +344,15 @@ namespace experimental::execution
       static consteval auto __get_completion_signatures()
       {
         static_assert(sender_for<_Sender, ignore_all_values_t>);
-        return __sequence_completion_signatures_of<__child_of<_Sender>, _Env...>();
+        auto __completions = __sequence_completion_signatures_of<__child_of<_Sender>, _Env...>();
+        if constexpr (__merror<decltype(__completions)>)
+        {
+          return __completions;
+        }
+        else
+        {
+          return __completions_t<decltype(__completions)>();
+        }
       }
 
       static constexpr auto __connect =
-- 
2.43.0


From bd5c1ccdbd5296bdbeacbd363dc7a1cdde22d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:37 +0000
Subject: [PATCH 46/61] fix: subscribe: exceptions of set_next, begin, or a
 child's subscribe terminated the program

---
 include/exec/sequence/iterate.hpp        | 7 ++++++-
 include/exec/sequence/merge.hpp          | 7 ++++++-
 include/exec/sequence/transform_each.hpp | 7 ++++++-
 include/exec/sequence_senders.hpp        | 5 +++--
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/exec/sequence/iterate.hpp b/include/exec/sequence/iterate.hpp
index a85f37c..927c857 100644
--- a/include/exec/sequence/iterate.hpp
+++ b/include/exec/sequence/iterate.hpp
@@ -178,7 +178,12 @@ namespace experimental::execution
     struct __subscribe_fn
     {
       template <class _Range>
-      constexpr auto operator()(__ignore, _Range&& __range) noexcept
+      constexpr auto operator()(__ignore, _Range&& __range)
+        noexcept(noexcept(std::ranges::begin(static_cast<_Range&&>(__range)))
+                 && noexcept(std::ranges::end(static_cast<_Range&&>(__range)))
+                 && __nothrow_move_constructible<_Receiver,
+                                                 std::ranges::iterator_t<_Range>,
+                                                 std::ranges::sentinel_t<_Range>>)
       {
         return __operation{std::ranges::begin(static_cast<_Range&&>(__range)),
                            std::ranges::end(static_cast<_Range&&>(__range)),
diff --git a/include/exec/sequence/merge.hpp b/include/exec/sequence/merge.hpp
index ddf6fa0..af6e241 100644
--- a/include/exec/sequence/merge.hpp
+++ b/include/exec/sequence/merge.hpp
@@ -107,6 +107,8 @@ namespace experimental::execution
       using result_sender_t = __combine::result_sender_t<_ReceiverDependent, _Sequences...>;
 
       explicit __operation(_Receiver __rcvr, _Sequences... __sequences)
+        noexcept(__nothrow_move_constructible<_Receiver, _Sequences...>
+                 && __nothrow_connectable<result_sender_t<_Receiver>, __result_receiver<_Receiver>>)
         : __operation_base<_Receiver>{static_cast<_Receiver&&>(__rcvr)}
         , __op_result_{
             STDEXEC::connect(STDEXEC::when_all(exec::ignore_all_values(
@@ -130,7 +132,10 @@ namespace experimental::execution
       {
         template <class _Receiver, class... _Sequences>
         auto operator()(_Receiver& __rcvr, __ignore, __ignore, _Sequences... __sequences)
-          noexcept(__nothrow_decay_copyable<_Sequences...>) -> __operation<_Receiver, _Sequences...>
+          noexcept(__nothrow_constructible_from<__operation<_Receiver, _Sequences...>,
+                                                _Receiver,
+                                                _Sequences...>)
+            -> __operation<_Receiver, _Sequences...>
         {
           return __operation<_Receiver, _Sequences...>{static_cast<_Receiver&&>(__rcvr),
                                                        static_cast<_Sequences&&>(__sequences)...};
diff --git a/include/exec/sequence/transform_each.hpp b/include/exec/sequence/transform_each.hpp
index 74a5d49..ae8006f 100644
--- a/include/exec/sequence/transform_each.hpp
+++ b/include/exec/sequence/transform_each.hpp
@@ -104,6 +104,8 @@ namespace experimental::execution
     struct __operation : __operation_base<_Receiver, _Adaptor>
     {
       __operation(_Sender&& __sndr, _Receiver __rcvr, _Adaptor __adaptor)
+        noexcept(__nothrow_move_constructible<_Receiver, _Adaptor>
+                 && __nothrow_subscribable<_Sender, __receiver<_Receiver, _Adaptor>>)
         : __operation_base<_Receiver, _Adaptor>{static_cast<_Receiver&&>(__rcvr),
                                                 static_cast<_Adaptor&&>(__adaptor)}
         , __opstate_{
@@ -125,7 +127,10 @@ namespace experimental::execution
 
       template <class _Adaptor, class _Sequence>
       auto operator()(__ignore, _Adaptor __adaptor, _Sequence&& __sequence)
-        noexcept(__nothrow_decay_copyable<_Adaptor, _Sequence>)
+        noexcept(__nothrow_constructible_from<__operation<_Sequence, _Receiver, _Adaptor>,
+                                              _Sequence,
+                                              _Receiver,
+                                              _Adaptor>)
           -> __operation<_Sequence, _Receiver, _Adaptor>
       {
         return {static_cast<_Sequence&&>(__sequence),
diff --git a/include/exec/sequence_senders.hpp b/include/exec/sequence_senders.hpp
index a1c5f97..236fa58 100644
--- a/include/exec/sequence_senders.hpp
+++ b/include/exec/sequence_senders.hpp
@@ -812,8 +812,9 @@ namespace experimental::execution
                                               __stopped_means_break<_Receiver>>;
           __check_operation_state<__result_t>();
           constexpr bool __nothrow_subscribe =
-            __nothrow_connectable<next_sender_of_t<_Receiver, __tfx_seq_t>,
-                                  __stopped_means_break<_Receiver>>;
+            __nothrow_callable<set_next_t, _Receiver&, __tfx_seq_t>
+            && __nothrow_connectable<next_sender_of_t<_Receiver, __tfx_seq_t>,
+                                     __stopped_means_break<_Receiver>>;
           return __declfn<__result_t, __nothrow_subscribe && __nothrow_tfx_seq>();
         }
         else if constexpr (__subscribable_with_static_member<__tfx_seq_t, _Receiver>)
-- 
2.43.0


From 2f75812e248b572bd075762a43c14dd5ee90cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:45 +0000
Subject: [PATCH 47/61] fix: let: a throwing allocator-aware construction of
 the function or data terminated connect

---
 include/stdexec/__detail/__basic_sender.hpp |  5 +-
 include/stdexec/__detail/__let.hpp          |  5 +-
 include/stdexec/__detail/__memory.hpp       | 55 +++++++++++++++++++++
 3 files changed, 61 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__basic_sender.hpp b/include/stdexec/__detail/__basic_sender.hpp
index 49933cf..0f9e317 100644
--- a/include/stdexec/__detail/__basic_sender.hpp
+++ b/include/stdexec/__detail/__basic_sender.hpp
@@ -112,7 +112,7 @@ namespace STDEXEC
       template <class _CvData>
       STDEXEC_ATTRIBUTE(host, device)
       constexpr __state(_Receiver __rcvr, _CvData&& __data)
-        noexcept(__nothrow_decay_copyable<_CvData>)
+        noexcept(STDEXEC::__nothrow_allocator_aware_forward<_CvData, _Receiver>())
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __data_(STDEXEC::__allocator_aware_forward(static_cast<_CvData&&>(__data), __rcvr_))
       {}
@@ -168,7 +168,8 @@ namespace STDEXEC
 
       static constexpr auto __get_state =  //
         []<class _Sender, class _Receiver>(_Sender&& __sndr, _Receiver&& __rcvr) noexcept(
-          __nothrow_decay_copyable<__data_of<_Sender>>)
+          STDEXEC::__nothrow_allocator_aware_forward<__data_of<_Sender>,
+                                                     std::remove_cvref_t<_Receiver>>())
         -> __state<std::remove_cvref_t<_Receiver>, std::remove_cvref_t<__data_of<_Sender>>>
       {
         return __state{static_cast<_Receiver&&>(__rcvr),
diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index 5304f2e..b51448a 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -175,7 +175,7 @@ namespace STDEXEC
                                         _Sender const & __sndr,
                                         _Fun            __fn,
                                         _Receiver&&     __rcvr)
-        noexcept(__nothrow_move_constructible<_Fun>)
+        noexcept(STDEXEC::__nothrow_allocator_aware_forward<_Fun, _Receiver>())
         : __rcvr_(static_cast<_Receiver&&>(__rcvr))
         , __fn_(STDEXEC::__allocator_aware_forward(static_cast<_Fun&&>(__fn), __rcvr_))
         // TODO(ericniebler): this needs a fallback:
@@ -304,7 +304,8 @@ namespace STDEXEC
 
       constexpr explicit __opstate(_CvChild&& __child, _Fun __fn, _Receiver&& __rcvr)
         noexcept(__nothrow_connectable<_CvChild, __first_rcvr_t>
-                 && __nothrow_move_constructible<_Fun>)
+                 && __nothrow_move_constructible<_Fun>
+                 && STDEXEC::__nothrow_allocator_aware_forward<_Fun, _Receiver>())
         : __opstate::__opstate_base(_SetTag(),
                                     __copy_cvref_fn<_CvChild>{},
                                     __child,
diff --git a/include/stdexec/__detail/__memory.hpp b/include/stdexec/__detail/__memory.hpp
index 36d9602..7716cd8 100644
--- a/include/stdexec/__detail/__memory.hpp
+++ b/include/stdexec/__detail/__memory.hpp
@@ -103,6 +103,37 @@ namespace STDEXEC
 
   /////////////////////////////////////////////////////////////////////////////////////////
   // __allocator_aware_forward: https://eel.is/c++draft/exec#snd.expos-49
+
+  // Whether std::make_obj_using_allocator<__decay_t<_Ty>>(alloc, obj) may not throw
+  template <class _Alloc, class _Ty>
+  [[nodiscard]]
+  consteval auto __nothrow_make_obj_using_alloc() noexcept -> bool
+  {
+    using __value_t = __decay_t<_Ty>;
+    if constexpr (__is_instance_of<__value_t, std::pair>)
+    {
+      using __first_t  = __copy_cvref_t<_Ty, typename __value_t::first_type>;
+      using __second_t = __copy_cvref_t<_Ty, typename __value_t::second_type>;
+      return STDEXEC::__nothrow_make_obj_using_alloc<_Alloc, __first_t>()
+          && STDEXEC::__nothrow_make_obj_using_alloc<_Alloc, __second_t>();
+    }
+    else if constexpr (!std::uses_allocator_v<__value_t, _Alloc>)
+    {
+      return __nothrow_decay_copyable<_Ty>;
+    }
+    else if constexpr (__std::constructible_from<__value_t,
+                                                 std::allocator_arg_t,
+                                                 _Alloc const &,
+                                                 _Ty>)
+    {
+      return __nothrow_constructible_from<__value_t, std::allocator_arg_t, _Alloc const &, _Ty>;
+    }
+    else
+    {
+      return __nothrow_constructible_from<__value_t, _Ty, _Alloc const &>;
+    }
+  }
+
   template <class _Alloc>
   struct __obj_using_alloc_fn
   {
@@ -110,6 +141,7 @@ namespace STDEXEC
 
     template <class... _Args>
     constexpr auto operator()([[maybe_unused]] _Args &&...__args) const
+      noexcept((STDEXEC::__nothrow_make_obj_using_alloc<_Alloc, _Args>() && ...))
     {
       return __tuple{
         std::make_obj_using_allocator<__decay_t<_Args>>(__alloc_,
@@ -124,6 +156,29 @@ namespace STDEXEC
     return __obj_using_alloc_fn<_Alloc>{__alloc};
   }
 
+  // Whether constructing an object from __allocator_aware_forward(obj, ctx) may not throw
+  template <class _Ty, class _Context>
+  [[nodiscard]]
+  consteval auto __nothrow_allocator_aware_forward() noexcept -> bool
+  {
+    if constexpr (!__callable<get_allocator_t, env_of_t<_Context>>)
+    {
+      return __nothrow_decay_copyable<_Ty>;
+    }
+    else
+    {
+      using __alloc_t = __decay_t<__call_result_t<get_allocator_t, env_of_t<_Context>>>;
+      if constexpr (__is_instance_of<__decay_t<_Ty>, __tuple>)
+      {
+        return __nothrow_applicable<__obj_using_alloc_fn<__alloc_t>, _Ty>;
+      }
+      else
+      {
+        return STDEXEC::__nothrow_make_obj_using_alloc<__alloc_t, _Ty>();
+      }
+    }
+  }
+
   template <class _Ty, class _Context>
   [[nodiscard]]
   constexpr auto __allocator_aware_forward(_Ty &&__obj, _Context const &__ctx) -> decltype(auto)
-- 
2.43.0


From d2c82aa21c33e20521df80c1784a6bdeb0b631f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:04 +0000
Subject: [PATCH 48/61] fix: bulk on a thread_pool_base pool handles narrow and
 negative shapes

The number of agents was the minimum of the shape and the available parallelism
cast to the shape's type: with an 8-bit shape and a pool of 256 threads no agent
was enqueued and the operation never completed. A negative shape enqueued about
2^32 agents.
---
 include/exec/thread_pool_base.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index ed4f44c..2fb7956 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -37,6 +37,7 @@ import stdexec;
 #  include "../stdexec/__detail/__transform_completion_signatures.hpp"
 #  include "../stdexec/__detail/__type_traits.hpp"
 
+#  include <algorithm>
 #  include <atomic>
 #  include <concepts>
 #  include <cstdint>
@@ -207,8 +208,12 @@ namespace experimental::execution
         {
           // With work stealing, is std::min necessary, or can we feel free to ask for more agents (tasks)
           // than we can actually deal with at one time?
+          //
+          // The minimum is computed in 64 bits: a narrow Shape need not be able to represent the
+          // available parallelism.
           return static_cast<std::uint32_t>(
-            (std::min) (shape_, static_cast<Shape>(pool_.available_parallelism())));
+            (std::min) (shape_ > Shape{} ? static_cast<std::uint64_t>(shape_) : std::uint64_t{0},
+                        static_cast<std::uint64_t>(pool_.available_parallelism())));
         }
 
         template <class F>
@@ -329,7 +334,7 @@ namespace experimental::execution
             state.data_.template emplace<tuple_t>(static_cast<As&&>(as)...);
           }
 
-          if (state.shape_)
+          if (Shape{} < state.shape_)
           {
             enqueue();
           }
-- 
2.43.0


From 14fd489a114b545c3a9dcdefcd8cb48323fcdf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:04 +0000
Subject: [PATCH 49/61] fix: bulk on a thread_pool_base pool accepts values
 that are not default constructible or copyable

The storage for the predecessor's values was a variant that default constructed
the first tuple of values, and whether storing them can throw was decided for a
copy instead of for the values that are delivered.
---
 include/exec/thread_pool_base.hpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index 2fb7956..adc1c65 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -188,10 +188,11 @@ namespace experimental::execution
       template <class CvSender, class Receiver, class Shape, class Fun, bool MayThrow>
       struct bulk_shared_state : _pool_::task_base
       {
-        using variant_t = STDEXEC::__value_types_of_t<CvSender,
-                                                      STDEXEC::env_of_t<Receiver>,
-                                                      STDEXEC::__q<STDEXEC::__decayed_std_tuple>,
-                                                      STDEXEC::__q<STDEXEC::__std_variant>>;
+        using variant_t = STDEXEC::__value_types_of_t<
+          CvSender,
+          STDEXEC::env_of_t<Receiver>,
+          STDEXEC::__q<STDEXEC::__decayed_std_tuple>,
+          STDEXEC::__munique<STDEXEC::__mbind_front_q<std::variant, std::monostate>>>;
 
         variant_t        data_;
         DerivedPoolType& pool_;
@@ -219,9 +220,16 @@ namespace experimental::execution
         template <class F>
         void apply(F f)
         {
-          std::visit([&](auto& tupl) -> void
-                     { std::apply([&](auto&... args) -> void { f(args...); }, tupl); },
-                     data_);
+          std::visit(
+            [&]<class Tuple>(Tuple& tupl) -> void
+            {
+              // the monostate is there only until the predecessor completes with values
+              if constexpr (!std::same_as<Tuple, std::monostate>)
+              {
+                std::apply([&](auto&... args) -> void { f(args...); }, tupl);
+              }
+            },
+            data_);
         }
 
         explicit bulk_shared_state(DerivedPoolType& pool, Receiver rcvr, Shape shape, Fun fun)
@@ -401,8 +409,7 @@ namespace experimental::execution
         template <class Self, class... Env>
         using _with_error_invoke_t = STDEXEC::__eptr_completion_unless_t<STDEXEC::__value_types_t<
           STDEXEC::__completion_signatures_of_t<STDEXEC::__copy_cvref_t<Self, Sender>, Env...>,
-          STDEXEC::__mtransform<STDEXEC::__q1<_pool_::__decay_ref_t>,
-                                STDEXEC::__mbind_front_q<bulk_non_throwing, Fun, Shape>>,
+          STDEXEC::__mbind_front_q<bulk_non_throwing, Fun, Shape>,
           STDEXEC::__q<STDEXEC::__mand>>>;
 
         template <class... Tys>
-- 
2.43.0


From 5141ee32f2cd57d215ba56c1df42c0bf1ee57b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:40 +0000
Subject: [PATCH 50/61] fix: bulk on a thread_pool_base pool checks the call it
 makes for noexcept

The function is called with the two ends of a range; whether that can throw was
decided for a call with a single index.
---
 include/exec/thread_pool_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index adc1c65..5b8a071 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -179,7 +179,7 @@ namespace experimental::execution
       template <class Fun, class Shape, class... Args>
       using bulk_non_throwing = STDEXEC::__mbool<
         // If function invocation doesn't throw
-        STDEXEC::__nothrow_callable<Fun, Shape, _pool_::__decay_ref_t<Args>...> &&
+        STDEXEC::__nothrow_callable<Fun&, Shape, Shape, _pool_::__decay_ref_t<Args>...> &&
         // and emplacing a tuple doesn't throw
         noexcept(STDEXEC::__decayed_std_tuple<Args...>(STDEXEC::__declval<Args>()...))
         // there's no need to advertise completion with `exception_ptr`
-- 
2.43.0


From f21b61f01c4b82f7044e0719703684338f26c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:40 +0000
Subject: [PATCH 51/61] fix: bulk on a thread_pool_base pool honours sequenced
 and unsequenced policies

The policy was ignored: with seq or unseq the function ran concurrently on several
of the pool's threads. Only par and par_unseq permit that.
---
 include/exec/thread_pool_base.hpp | 33 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index 5b8a071..cda3bd0 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -92,8 +92,12 @@ namespace experimental::execution
         {
           auto sch =
             STDEXEC::get_completion_scheduler<STDEXEC::set_value_t>(STDEXEC::get_env(child), env);
-          using sender_t =
-            scheduler::template bulk_sender_t<decltype(child), decltype(shape), decltype(fun)>;
+          using policy_t = std::remove_cvref_t<decltype(pol.__get())>;
+          // a sequenced or unsequenced policy keeps the work on a single thread
+          constexpr bool parallelize = std::same_as<policy_t, STDEXEC::parallel_policy>
+                                    || std::same_as<policy_t, STDEXEC::parallel_unsequenced_policy>;
+          using sender_t = scheduler::
+            template bulk_sender_t<parallelize, decltype(child), decltype(shape), decltype(fun)>;
           return sender_t{*sch.pool_,
                           STDEXEC::__forward_like<Sender>(child),
                           shape,
@@ -185,7 +189,7 @@ namespace experimental::execution
         // there's no need to advertise completion with `exception_ptr`
         >;
 
-      template <class CvSender, class Receiver, class Shape, class Fun, bool MayThrow>
+      template <bool Parallelize, class CvSender, class Receiver, class Shape, class Fun, bool MayThrow>
       struct bulk_shared_state : _pool_::task_base
       {
         using variant_t = STDEXEC::__value_types_of_t<
@@ -214,7 +218,8 @@ namespace experimental::execution
           // available parallelism.
           return static_cast<std::uint32_t>(
             (std::min) (shape_ > Shape{} ? static_cast<std::uint64_t>(shape_) : std::uint64_t{0},
-                        static_cast<std::uint64_t>(pool_.available_parallelism())));
+                        Parallelize ? static_cast<std::uint64_t>(pool_.available_parallelism())
+                                    : std::uint64_t{1}));
         }
 
         template <class F>
@@ -306,12 +311,13 @@ namespace experimental::execution
         }
       };
 
-      template <class CvSender, class Receiver, class Shape, class Fun, bool MayThrow>
+      template <bool Parallelize, class CvSender, class Receiver, class Shape, class Fun, bool MayThrow>
       struct bulk_receiver
       {
         using receiver_concept = STDEXEC::receiver_tag;
 
-        using shared_state = bulk_shared_state<CvSender, Receiver, Shape, Fun, MayThrow>;
+        using shared_state =
+          bulk_shared_state<Parallelize, CvSender, Receiver, Shape, Fun, MayThrow>;
 
         void enqueue() noexcept
         {
@@ -374,7 +380,7 @@ namespace experimental::execution
         shared_state& shared_state_;
       };
 
-      template <class CvSender, class Receiver, std::integral Shape, class Fun>
+      template <bool Parallelize, class CvSender, class Receiver, std::integral Shape, class Fun>
       struct bulk_opstate
       {
         static constexpr bool may_throw =
@@ -383,8 +389,9 @@ namespace experimental::execution
                                        STDEXEC::__mbind_front_q<bulk_non_throwing, Fun, Shape>,
                                        STDEXEC::__q<STDEXEC::__mand>>::value;
 
-        using bulk_rcvr     = bulk_receiver<CvSender, Receiver, Shape, Fun, may_throw>;
-        using shared_state  = bulk_shared_state<CvSender, Receiver, Shape, Fun, may_throw>;
+        using bulk_rcvr = bulk_receiver<Parallelize, CvSender, Receiver, Shape, Fun, may_throw>;
+        using shared_state =
+          bulk_shared_state<Parallelize, CvSender, Receiver, Shape, Fun, may_throw>;
         using inner_opstate = STDEXEC::connect_result_t<CvSender, bulk_rcvr>;
 
         void start() & noexcept
@@ -401,7 +408,7 @@ namespace experimental::execution
         inner_opstate inner_op_;
       };
 
-      template <class Sender, std::integral Shape, class Fun>
+      template <bool Parallelize, class Sender, std::integral Shape, class Fun>
       struct bulk_sender
       {
         using sender_concept = STDEXEC::sender_tag;
@@ -424,7 +431,7 @@ namespace experimental::execution
 
         template <class Self, class Receiver>
         using bulk_opstate_t =
-          bulk_opstate<STDEXEC::__copy_cvref_t<Self, Sender>, Receiver, Shape, Fun>;
+          bulk_opstate<Parallelize, STDEXEC::__copy_cvref_t<Self, Sender>, Receiver, Shape, Fun>;
 
         explicit bulk_sender(DerivedPoolType& pool, Sender sndr, Shape shape, Fun fun)
           : pool_(pool)
@@ -487,8 +494,8 @@ namespace experimental::execution
         Fun              fun_;
       };
 
-      template <STDEXEC::sender Sender, std::integral Shape, class Fun>
-      using bulk_sender_t = bulk_sender<STDEXEC::__decay_t<Sender>, Shape, Fun>;
+      template <bool Parallelize, STDEXEC::sender Sender, std::integral Shape, class Fun>
+      using bulk_sender_t = bulk_sender<Parallelize, STDEXEC::__decay_t<Sender>, Shape, Fun>;
 
       friend thread_pool_base;
 
-- 
2.43.0


From f64226a54b89dd2af016a93a7861728e16f6a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:16 +0000
Subject: [PATCH 52/61] fix: bulk_unchunked on a thread_pool_base pool

The transform of bulk_unchunked was declared but never defined, so that the
algorithm could not be used on these pools.
---
 include/exec/thread_pool_base.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/exec/thread_pool_base.hpp b/include/exec/thread_pool_base.hpp
index cda3bd0..724bd07 100644
--- a/include/exec/thread_pool_base.hpp
+++ b/include/exec/thread_pool_base.hpp
@@ -28,6 +28,7 @@ import stdexec;
 #else
 #  include "../stdexec/__detail/__execution_fwd.hpp"
 
+#  include "../stdexec/__detail/__bulk.hpp"
 #  include "../stdexec/__detail/__connect.hpp"
 #  include "../stdexec/__detail/__env.hpp"
 #  include "../stdexec/__detail/__meta.hpp"
@@ -82,7 +83,10 @@ namespace experimental::execution
 
     struct domain : STDEXEC::default_domain
     {
-      template <sender_for<STDEXEC::bulk_chunked_t> Sender, class Env>
+      template <sender_for Sender, class Env>
+        requires STDEXEC::__one_of<STDEXEC::tag_of_t<Sender>,
+                                   STDEXEC::bulk_chunked_t,
+                                   STDEXEC::bulk_unchunked_t>
       static constexpr auto transform_sender(STDEXEC::set_value_t, Sender&& sndr, Env const & env)
       {
         auto& [tag, data, child] = sndr;
@@ -96,12 +100,17 @@ namespace experimental::execution
           // a sequenced or unsequenced policy keeps the work on a single thread
           constexpr bool parallelize = std::same_as<policy_t, STDEXEC::parallel_policy>
                                     || std::same_as<policy_t, STDEXEC::parallel_unsequenced_policy>;
+          // a bulk_unchunked becomes a bulk_chunked that calls the function for each index
+          using chunked_fun_t = STDEXEC::__if_c<
+            STDEXEC::__std::same_as<STDEXEC::tag_of_t<Sender>, STDEXEC::bulk_unchunked_t>,
+            STDEXEC::__bulk::__as_bulk_chunked_fn<STDEXEC::__decay_t<decltype(fun)>>,
+            STDEXEC::__decay_t<decltype(fun)>>;
           using sender_t = scheduler::
-            template bulk_sender_t<parallelize, decltype(child), decltype(shape), decltype(fun)>;
+            template bulk_sender_t<parallelize, decltype(child), decltype(shape), chunked_fun_t>;
           return sender_t{*sch.pool_,
                           STDEXEC::__forward_like<Sender>(child),
                           shape,
-                          STDEXEC::__forward_like<Sender>(fun)};
+                          chunked_fun_t{STDEXEC::__forward_like<Sender>(fun)}};
         }
         else
         {
@@ -115,9 +124,6 @@ namespace experimental::execution
             STDEXEC::_WITH_ENVIRONMENT_(Env)>();
         }
       }
-
-      template <sender_for<STDEXEC::bulk_unchunked_t> Sender, class Env>
-      static constexpr auto transform_sender(STDEXEC::set_value_t, Sender&& sndr, Env const & env);
     };
 
     struct scheduler
-- 
2.43.0


From 7aec84044c4ea75bad452ed81532b2521918f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:21 +0000
Subject: [PATCH 53/61] fix: asio completion_token: initiating function that
 completes and then throws

The handler for exceptions of the initiating function used the operation state,
which an immediate completion may already have ended.
---
 include/exec/asio/completion_token.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/exec/asio/completion_token.hpp b/include/exec/asio/completion_token.hpp
index b2ea377..bc68243 100644
--- a/include/exec/asio/completion_token.hpp
+++ b/include/exec/asio/completion_token.hpp
@@ -393,7 +393,9 @@ namespace experimental::execution::asio
         }
         STDEXEC_CATCH_ALL
         {
-          if (!base_::ex_)
+          //  In the case of an immediate completion *this may already be outside its
+          //  lifetime and there's no one left to whom to report the exception
+          if (frame && !base_::ex_)
           {
             base_::ex_ = std::current_exception();
           }
-- 
2.43.0


From 17e868d887149b29f4247f706caa3616ae5d4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:28 +0000
Subject: [PATCH 54/61] fix: then, upon_*, bulk, stopped_as_optional:
 attributes claimed the wrong completion behavior or scheduler

An adaptor that turns the completions of one channel into another channel's
forwarded the attributes of the child's same-named channel only.
---
 include/stdexec/__detail/__bulk.hpp           | 20 +----
 include/stdexec/__detail/__senders.hpp        | 81 +++++++++++++++++++
 .../__detail/__stopped_as_optional.hpp        |  6 ++
 include/stdexec/__detail/__then.hpp           |  2 +-
 include/stdexec/__detail/__upon_error.hpp     |  2 +-
 include/stdexec/__detail/__upon_stopped.hpp   |  6 ++
 6 files changed, 96 insertions(+), 21 deletions(-)

diff --git a/include/stdexec/__detail/__bulk.hpp b/include/stdexec/__detail/__bulk.hpp
index 69e704f..d2d453e 100644
--- a/include/stdexec/__detail/__bulk.hpp
+++ b/include/stdexec/__detail/__bulk.hpp
@@ -196,24 +196,6 @@ namespace STDEXEC
     template <class _Fun>
     STDEXEC_HOST_DEVICE_DEDUCTION_GUIDE __as_bulk_chunked_fn(_Fun) -> __as_bulk_chunked_fn<_Fun>;
 
-    template <class _Child>
-    struct __attrs : env<__fwd_env_t<env_of_t<_Child>>>
-    {
-      using __base_t = env<__fwd_env_t<env_of_t<_Child>>>;
-      using __base_t::query;
-
-      constexpr explicit __attrs(_Child const & __child) noexcept
-        : __base_t{__fwd_env(STDEXEC::get_env(__child))}
-      {}
-
-      template <class... _Env>
-      STDEXEC_ATTRIBUTE(nodiscard, always_inline, host, device)
-      constexpr auto query(__get_completion_behavior_t<set_value_t>, _Env&&...) const noexcept
-      {
-        return STDEXEC::__get_completion_behavior<set_value_t, _Child, _Env...>();
-      }
-    };
-
     template <class _AlgoTag>
     struct __impl_base : __sexpr_defaults
     {
@@ -221,7 +203,7 @@ namespace STDEXEC
       static constexpr auto __get_attrs =  //
         []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
       {
-        return __attrs{__child};
+        return __handler_attrs<set_value_t, _Child>{{__child}};
       };
 
       template <class _CvSender, class... _Env>
diff --git a/include/stdexec/__detail/__senders.hpp b/include/stdexec/__detail/__senders.hpp
index fd6a5ef..aae3e62 100644
--- a/include/stdexec/__detail/__senders.hpp
+++ b/include/stdexec/__detail/__senders.hpp
@@ -26,8 +26,10 @@ import stdexec;
 #  include "__execution_fwd.hpp"
 
 // include these after __execution_fwd.hpp
+#  include "__completion_behavior.hpp"
 #  include "__completion_signatures.hpp"  // IWYU pragma: export
 #  include "__connect.hpp"                // IWYU pragma: export
+#  include "__queries.hpp"
 #  include "__sender_concepts.hpp"        // IWYU pragma: export
 
 #  include "__prologue.hpp"
@@ -68,6 +70,85 @@ namespace STDEXEC
   template <class _Sender, class... _Env>
   concept __nofail_sender = __never_sends<set_error_t, _Sender, _Env...>;
 
+  /////////////////////////////////////////////////////////////////////////////
+  // The behavior of _Sender's _Tag completions if it has any; otherwise, the identity for
+  // operator| on completion behaviors.
+  template <class _Tag, class _Sender, class... _Env>
+  STDEXEC_ATTRIBUTE(nodiscard, always_inline, host, device)
+  constexpr auto __completion_behavior_if_sent() noexcept
+  {
+    if constexpr (__never_sends<_Tag, _Sender, _Env...>)
+    {
+      using __behavior_t = __completion_behavior::__behavior;
+      return std::integral_constant<__behavior_t, __behavior_t(0)>();
+    }
+    else
+    {
+      return STDEXEC::__get_completion_behavior<_Tag, _Sender, _Env...>();
+    }
+  }
+
+  // The combined behavior of all the completions of _Sender.
+  template <class _Sender, class... _Env>
+  STDEXEC_ATTRIBUTE(nodiscard, always_inline, host, device)
+  constexpr auto __any_completion_behavior() noexcept
+  {
+    return STDEXEC::__completion_behavior_if_sent<set_value_t, _Sender, _Env...>()
+         | STDEXEC::__completion_behavior_if_sent<set_error_t, _Sender, _Env...>()
+         | STDEXEC::__completion_behavior_if_sent<set_stopped_t, _Sender, _Env...>();
+  }
+
+  // The attributes of a sender adaptor that synchronously turns the _HandledTag completions
+  // of _Sender into value or error completions, and passes the others through.
+  template <class _HandledTag, class _Sender>
+  struct __handler_attrs : __sync_attrs<_Sender>
+  {
+    using __base_t = __sync_attrs<_Sender>;
+
+    // Whether all _Tag completions come from _Tag completions of _Sender
+    template <class _Tag, class... _Env>
+    static constexpr bool __only_from_same_tag = __same_as<_Tag, _HandledTag>
+                                              || __same_as<_Tag, set_stopped_t>
+                                              || __never_sends<_HandledTag, _Sender, _Env...>;
+
+    template <class _Tag, class... _Env>
+    [[nodiscard]]
+    constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
+    {
+      if constexpr (__only_from_same_tag<_Tag, _Env...>)
+      {
+        return STDEXEC::__get_completion_behavior<_Tag, _Sender, _Env...>();
+      }
+      else
+      {
+        return STDEXEC::__completion_behavior_if_sent<_Tag, _Sender, _Env...>()
+             | STDEXEC::__get_completion_behavior<_HandledTag, _Sender, _Env...>();
+      }
+    }
+
+    template <class _Tag, class... _Env>
+      requires __only_from_same_tag<_Tag, _Env...>
+            && __queryable_with<env_of_t<_Sender>, get_completion_scheduler_t<_Tag>, _Env const &...>
+    [[nodiscard]]
+    constexpr auto
+    query(get_completion_scheduler_t<_Tag> __query, _Env const &...__env) const noexcept
+      -> __query_result_t<env_of_t<_Sender>, get_completion_scheduler_t<_Tag>, _Env const &...>
+    {
+      return __base_t::query(__query, __env...);
+    }
+
+    template <__forwarding_query _Query, class... _Args>
+      requires(!__completion_query<_Query> || __is_instance_of<_Query, get_completion_domain_t>)
+           && __queryable_with<env_of_t<_Sender>, _Query, _Args...>
+    [[nodiscard]]
+    constexpr auto query(_Query __query, _Args &&...__args) const
+      noexcept(__nothrow_queryable_with<env_of_t<_Sender>, _Query, _Args...>)
+        -> __query_result_t<env_of_t<_Sender>, _Query, _Args...>
+    {
+      return __base_t::query(__query, static_cast<_Args &&>(__args)...);
+    }
+  };
+
   /////////////////////////////////////////////////////////////////////////////
   // early sender type-checking
   STDEXEC_MODULE_EXPORT_AUTHORING
diff --git a/include/stdexec/__detail/__stopped_as_optional.hpp b/include/stdexec/__detail/__stopped_as_optional.hpp
index 7070f02..862b2f6 100644
--- a/include/stdexec/__detail/__stopped_as_optional.hpp
+++ b/include/stdexec/__detail/__stopped_as_optional.hpp
@@ -62,6 +62,12 @@ namespace STDEXEC
 
     struct __stopped_as_optional_impl : __sexpr_defaults
     {
+      static constexpr auto __get_attrs =
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
+      {
+        return __handler_attrs<set_stopped_t, _Child>{{__child}};
+      };
+
       static consteval auto __get_value_transform_fn() noexcept
       {
         return []<class... _Ts>()
diff --git a/include/stdexec/__detail/__then.hpp b/include/stdexec/__detail/__then.hpp
index c1a5084..8d53e5b 100644
--- a/include/stdexec/__detail/__then.hpp
+++ b/include/stdexec/__detail/__then.hpp
@@ -47,7 +47,7 @@ namespace STDEXEC
       static constexpr auto __get_attrs =
         []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
       {
-        return __sync_attrs{__child};
+        return __handler_attrs<set_value_t, _Child>{{__child}};
       };
 
       template <class _Fun>
diff --git a/include/stdexec/__detail/__upon_error.hpp b/include/stdexec/__detail/__upon_error.hpp
index 0fba0f3..af3107d 100644
--- a/include/stdexec/__detail/__upon_error.hpp
+++ b/include/stdexec/__detail/__upon_error.hpp
@@ -47,7 +47,7 @@ namespace STDEXEC
       static constexpr auto __get_attrs =
         []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
       {
-        return __sync_attrs{__child};
+        return __handler_attrs<set_error_t, _Child>{{__child}};
       };
 
       template <class _Fun>
diff --git a/include/stdexec/__detail/__upon_stopped.hpp b/include/stdexec/__detail/__upon_stopped.hpp
index a6b0eab..5b5f36e 100644
--- a/include/stdexec/__detail/__upon_stopped.hpp
+++ b/include/stdexec/__detail/__upon_stopped.hpp
@@ -42,6 +42,12 @@ namespace STDEXEC
   {
     struct __upon_stopped_impl : __sexpr_defaults
     {
+      static constexpr auto __get_attrs =
+        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept
+      {
+        return __handler_attrs<set_stopped_t, _Child>{{__child}};
+      };
+
       template <class _Sender, class... _Env>
       static consteval auto __get_completion_signatures()
       {
-- 
2.43.0


From 844d503e3af1ba3b69cc254e97cbf609534cca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:28 +0000
Subject: [PATCH 55/61] fix: let: attributes claimed the predecessor's
 completion behavior and scheduler

The secondary sender may complete elsewhere and later; an exec::task that
awaited such a sender resumed on the wrong context.
---
 include/stdexec/__detail/__let.hpp | 74 ++++++++++++++++++++++++++++--
 1 file changed, 71 insertions(+), 3 deletions(-)

diff --git a/include/stdexec/__detail/__let.hpp b/include/stdexec/__detail/__let.hpp
index b51448a..7f6f028 100644
--- a/include/stdexec/__detail/__let.hpp
+++ b/include/stdexec/__detail/__let.hpp
@@ -341,6 +341,75 @@ namespace STDEXEC
       __op_state_variant_t __storage_{__no_init};
     };
 
+    // The attributes of a let_ sender. The secondary senders may complete anywhere, so the
+    // let_ sender has no completion scheduler of its own, and its completions have the
+    // combined behavior of the predecessor and of all the senders that _Fun can return.
+    template <class _LetTag, class _Fun, class _Child>
+    struct __attrs
+    {
+      using __set_tag_t = STDEXEC::__t<_LetTag>;
+
+      template <class _SetTag, class... _Env>
+      struct __result_behavior_fn
+      {
+        template <class... _Ts>
+        using __f = decltype(STDEXEC::__completion_behavior_if_sent<
+                             _SetTag,
+                             __invoke_result_t<_Fun, __decay_t<_Ts>&...>,
+                             __result_env_t<__set_tag_t, _Child, _Env>...>());
+      };
+
+      template <class _SetTag, class _Env>
+      [[nodiscard]]
+      constexpr auto query(__get_completion_behavior_t<_SetTag>, _Env const &) const noexcept
+      {
+        if constexpr (__sends<__set_tag_t, _Child, _Env>)
+        {
+          return STDEXEC::__get_completion_behavior<__set_tag_t, _Child, _Env>()
+               | __passed_through<_SetTag, _Env>()
+               | __gather_completions_t<__set_tag_t,
+                                        __completion_signatures_of_t<_Child, _Env>,
+                                        __result_behavior_fn<_SetTag, _Env>,
+                                        __mbind_front_q<__call_result_t,
+                                                        __completion_behavior::__common_t>>();
+        }
+        else if constexpr (sender_in<_Child, _Env>)
+        {
+          return STDEXEC::__get_completion_behavior<_SetTag, _Child, _Env>();
+        }
+        else
+        {
+          return __completion_behavior::__unknown;
+        }
+      }
+
+      template <__forwarding_query _Query, class... _Args>
+        requires(!__completion_query<_Query> || __is_instance_of<_Query, get_completion_domain_t>)
+             && __queryable_with<env_of_t<_Child>, _Query, _Args...>
+      [[nodiscard]]
+      constexpr auto query(_Query, _Args&&... __args) const
+        noexcept(__nothrow_queryable_with<env_of_t<_Child>, _Query, _Args...>)
+          -> __query_result_t<env_of_t<_Child>, _Query, _Args...>
+      {
+        return __query<_Query>()(STDEXEC::get_env(__child_), static_cast<_Args&&>(__args)...);
+      }
+
+      template <class _SetTag, class _Env>
+      static constexpr auto __passed_through() noexcept
+      {
+        if constexpr (__same_as<_SetTag, __set_tag_t>)
+        {
+          return STDEXEC::__get_completion_behavior<__set_tag_t, _Child, _Env>();
+        }
+        else
+        {
+          return STDEXEC::__completion_behavior_if_sent<_SetTag, _Child, _Env>();
+        }
+      }
+
+      _Child const & __child_;
+    };
+
     // // The set_value completions of:
     // //
     // //   * a let_value sender are:
@@ -596,10 +665,9 @@ namespace STDEXEC
 
      public:
       static constexpr auto __get_attrs =
-        []<class _Child>(__ignore, __ignore, _Child const & __child) noexcept -> decltype(auto)
+        []<class _Fun, class _Child>(__ignore, _Fun const &, _Child const & __child) noexcept
       {
-        // TODO(ericniebler): this needs a proper implementation
-        return __fwd_env(STDEXEC::get_env(__child));
+        return __attrs<_LetTag, _Fun, _Child>{__child};
       };
 
       template <class _CvSender, class... _Env>
-- 
2.43.0


From 24d57fdf54d8a6a68a0a0982df646832316f7162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:28 +0000
Subject: [PATCH 56/61] fix: continues_on: wrong completion scheduler, domain
 and behavior of errors and stopped

They are delivered from the scheduling operation's value completion.
---
 include/stdexec/__detail/__continues_on.hpp | 42 +++++++++++++++------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/include/stdexec/__detail/__continues_on.hpp b/include/stdexec/__detail/__continues_on.hpp
index 871bbbc..5c1cc2e 100644
--- a/include/stdexec/__detail/__continues_on.hpp
+++ b/include/stdexec/__detail/__continues_on.hpp
@@ -179,11 +179,13 @@ namespace STDEXEC
       //! the scheduler's completion scheduler if it has one.
       //!
       //! Otherwise, if the scheduler's sender never completes with @c _SetTag, then a
-      //! @c _SetTag completion can only come from the original sender, so return the
-      //! original sender's completion scheduler.
+      //! @c _SetTag completion can only come from the original sender. It is delivered from
+      //! the scheduler's value completion, so return the scheduler's value completion
+      //! scheduler.
       template <class _SetTag, class... _Env>
         requires(__same_as<_SetTag, set_value_t>
-                 || __never_sends<_SetTag, _Sender, __fwd_env_t<_Env>...>)
+                 || (__never_sends<_SetTag, _Sender, __fwd_env_t<_Env>...>
+                     && !__never_sends<_SetTag, schedule_result_t<_Scheduler>, __fwd_env_t<_Env>...>))
              && (!__has_decay_copy_errors<_SetTag, _Env...>())
       [[nodiscard]]
       constexpr auto
@@ -194,16 +196,16 @@ namespace STDEXEC
       }
 
       //! @overload
-      template <class _SetTag, class... _Env>
+      template <__one_of<set_error_t, set_stopped_t> _SetTag, class... _Env>
         requires __never_sends<_SetTag, schedule_result_t<_Scheduler>, __fwd_env_t<_Env>...>
       [[nodiscard]]
       constexpr auto
       query(get_completion_scheduler_t<_SetTag>, _Env const &... __env) const noexcept
-        -> __call_result_t<get_completion_scheduler_t<_SetTag>,
-                           env_of_t<_Sender>,
+        -> __call_result_t<get_completion_scheduler_t<set_value_t>,
+                           _Scheduler,
                            __fwd_env_t<_Env>...>
       {
-        return get_completion_scheduler<_SetTag>(__attrs_, __fwd_env(__env)...);
+        return get_completion_scheduler<set_value_t>(__sch_, __fwd_env(__env)...);
       }
 
       //! @brief Queries the completion domain for a given @c _SetTag.
@@ -233,7 +235,20 @@ namespace STDEXEC
 
       //! @overload
       template <__one_of<set_error_t, set_stopped_t> _SetTag, class... _Env>
-        requires(!__has_decay_copy_errors<_SetTag, _Env...>())
+        requires __never_sends<_SetTag, schedule_result_t<_Scheduler>, __fwd_env_t<_Env>...>
+      [[nodiscard]]
+      constexpr auto
+      query(get_completion_domain_t<_SetTag>, _Env const &...) const noexcept -> __unless_one_of_t<
+        __completion_domain_of_t<set_value_t, schedule_result_t<_Scheduler>, __fwd_env_t<_Env>...>,
+        indeterminate_domain<>>
+      {
+        return {};
+      }
+
+      //! @overload
+      template <__one_of<set_error_t, set_stopped_t> _SetTag, class... _Env>
+        requires(!__never_sends<_SetTag, schedule_result_t<_Scheduler>, __fwd_env_t<_Env>...>)
+             && (!__has_decay_copy_errors<_SetTag, _Env...>())
       [[nodiscard]]
       constexpr auto
       query(get_completion_domain_t<_SetTag>, _Env const &...) const noexcept -> __unless_one_of_t<
@@ -247,7 +262,8 @@ namespace STDEXEC
 
       //! @overload
       template <class _SetTag, class... _Env>
-        requires(__has_decay_copy_errors<_SetTag, _Env...>())
+        requires(!__never_sends<_SetTag, schedule_result_t<_Scheduler>, __fwd_env_t<_Env>...>)
+             && (__has_decay_copy_errors<_SetTag, _Env...>())
       [[nodiscard]]
       constexpr auto
       query(get_completion_domain_t<_SetTag>, _Env const &...) const noexcept -> __unless_one_of_t<
@@ -269,10 +285,12 @@ namespace STDEXEC
       constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
       {
         using _SchSender = schedule_result_t<_Scheduler>;
+        // Every completion of the original sender starts the scheduler's sender, whose value
+        // completion delivers the original sender's results.
         constexpr auto cb_sched =
-          STDEXEC::__get_completion_behavior<_Tag, _SchSender, __fwd_env_t<_Env>...>();
-        constexpr auto cb_sndr =
-          STDEXEC::__get_completion_behavior<_Tag, _Sender, __fwd_env_t<_Env>...>();
+          STDEXEC::__get_completion_behavior<set_value_t, _SchSender, __fwd_env_t<_Env>...>()
+          | STDEXEC::__completion_behavior_if_sent<_Tag, _SchSender, __fwd_env_t<_Env>...>();
+        constexpr auto cb_sndr = STDEXEC::__any_completion_behavior<_Sender, __fwd_env_t<_Env>...>();
         return cb_sched | cb_sndr;
       }
 
-- 
2.43.0


From 744176fa9d3b2a9a3c5b6fc05816c23fb0a20685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:28 +0000
Subject: [PATCH 57/61] fix: when_all: completion behavior of errors and
 stopped ignored the other channels of the senders

---
 include/stdexec/__detail/__when_all.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/stdexec/__detail/__when_all.hpp b/include/stdexec/__detail/__when_all.hpp
index a5b19b7..048ca4b 100644
--- a/include/stdexec/__detail/__when_all.hpp
+++ b/include/stdexec/__detail/__when_all.hpp
@@ -702,8 +702,18 @@ namespace STDEXEC
       [[nodiscard]]
       constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
       {
-        return __completion_behavior::__common(
-          STDEXEC::__get_completion_behavior<_Tag, _Senders, _Env...>()...);
+        if constexpr (__same_as<_Tag, set_value_t>)
+        {
+          return __completion_behavior::__common(
+            STDEXEC::__get_completion_behavior<_Tag, _Senders, _Env...>()...);
+        }
+        else
+        {
+          // An error or stopped completion is delivered when the last of the senders
+          // completes, whatever that sender completes with.
+          return __completion_behavior::__common(
+            STDEXEC::__any_completion_behavior<_Senders, _Env...>()...);
+        }
       }
     };
 
-- 
2.43.0


From bfd81c9ede823d7b47e273325d66a66b2372345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:28 +0000
Subject: [PATCH 58/61] fix: sequence: completion scheduler and behavior of
 errors and stopped ignored one of the senders

---
 include/stdexec/__detail/__sequence.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/stdexec/__detail/__sequence.hpp b/include/stdexec/__detail/__sequence.hpp
index e4c61fd..458e36f 100644
--- a/include/stdexec/__detail/__sequence.hpp
+++ b/include/stdexec/__detail/__sequence.hpp
@@ -112,10 +112,12 @@ namespace STDEXEC
       }
 
       // We only know the error or stopped completion scheduler if exactly one of the two
-      // senders knows its error/stopped completion scheduler.
+      // senders sends errors/stopped, and knows its error/stopped completion scheduler.
       template <__one_of<set_error_t, set_stopped_t> _Tag, class... _Env>
         requires(__has_completion_scheduler_for<_Tag, _CvSender1, __fwd_env_t<_Env>...>
-                 != __has_completion_scheduler_for<_Tag, _CvSender2, __env2_t<_Env>...>)
+                 && __never_sends<_Tag, _CvSender2, __env2_t<_Env>...>)
+             || (__has_completion_scheduler_for<_Tag, _CvSender2, __env2_t<_Env>...>
+                 && __never_sends<_Tag, _CvSender1, __fwd_env_t<_Env>...>)
       [[nodiscard]]
       constexpr auto query(get_completion_scheduler_t<_Tag>, _Env &&...__env) const noexcept
       {
@@ -161,8 +163,9 @@ namespace STDEXEC
       constexpr auto query(__get_completion_behavior_t<_Tag>, _Env &&...) const noexcept
       {
         return __completion_behavior::__common(
-          STDEXEC::__get_completion_behavior<_Tag, _CvSender1, __fwd_env_t<_Env>...>(),
-          STDEXEC::__get_completion_behavior<_Tag, _CvSender2, __env2_t<_Env>...>());
+          STDEXEC::__get_completion_behavior<set_value_t, _CvSender1, __fwd_env_t<_Env>...>(),
+          STDEXEC::__completion_behavior_if_sent<_Tag, _CvSender1, __fwd_env_t<_Env>...>(),
+          STDEXEC::__completion_behavior_if_sent<_Tag, _CvSender2, __env2_t<_Env>...>());
       }
 
       // For queries that are not related to completion schedulers, domains, or behaviors,
-- 
2.43.0


From f85d3d90e7ceda8dec50be911ffe71c1526a261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:28 +0000
Subject: [PATCH 59/61] fix: starts_on: claimed the child's completion
 scheduler for failures to schedule

---
 include/stdexec/__detail/__starts_on.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stdexec/__detail/__starts_on.hpp b/include/stdexec/__detail/__starts_on.hpp
index 21ccbd2..2bd6600 100644
--- a/include/stdexec/__detail/__starts_on.hpp
+++ b/include/stdexec/__detail/__starts_on.hpp
@@ -91,6 +91,8 @@ namespace STDEXEC
       // environment
       template <class _SetTag, class... _Env>
         requires(!__completes_where_it_starts<_SetTag, env_of_t<_Child>, __env2_t<_Env>...>)
+             && (__same_as<_SetTag, set_value_t>
+                 || __never_sends<_SetTag, schedule_result_t<_Scheduler>, _Env...>)
       STDEXEC_ATTRIBUTE(nodiscard, always_inline, host, device)
       constexpr auto query(get_completion_scheduler_t<_SetTag> __query,
                            _Env&&... __env) const noexcept
-- 
2.43.0


From 67657b0ab0b963997b82ed27a66c90162c888cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:28 +0000
Subject: [PATCH 60/61] fix: affine: claimed inline or asynchronous completion
 for a channel whatever it transforms to

---
 include/stdexec/__detail/__affine.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/stdexec/__detail/__affine.hpp b/include/stdexec/__detail/__affine.hpp
index 2306561..adb6880 100644
--- a/include/stdexec/__detail/__affine.hpp
+++ b/include/stdexec/__detail/__affine.hpp
@@ -146,17 +146,15 @@ namespace STDEXEC
         requires __callable<__get_completion_behavior_t<_Tag>, env_of_t<_Sender>, _Env const &...>
       constexpr auto query(__get_completion_behavior_t<_Tag>, _Env const &...) const noexcept
       {
-        constexpr auto __behavior = __get_completion_behavior<_Tag, _Sender, _Env...>();
-
-        // When the child sender completes inline, we can return "inline" here instead of
-        // "__asynchronous_affine".
-        if constexpr (__behavior == __completion_behavior::__inline_completion)
+        // When the child sender is already affine, it is used as-is.
+        if constexpr (sizeof...(_Env) != 0 && (__is_affine<_Sender, _Env> && ...))
         {
-          return __completion_behavior::__inline_completion;
+          return __get_completion_behavior<_Tag, _Sender, _Env...>();
         }
         else
         {
-          return __completion_behavior::__asynchronous_affine;
+          return __completion_behavior::__inline_completion
+               | __completion_behavior::__asynchronous_affine;
         }
       }
 
-- 
2.43.0


From 521e99cbeb2b04da0ce5dc22f9ddf06fb7e0fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:31 +0000
Subject: [PATCH 61/61] fix: task: awaiting a sender whose error or stopped
 completion comes from elsewhere resumed the coroutine there

---
 include/exec/task.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/exec/task.hpp b/include/exec/task.hpp
index 3360bbb..53dca6f 100644
--- a/include/exec/task.hpp
+++ b/include/exec/task.hpp
@@ -602,9 +602,7 @@ namespace experimental::execution
           requires __start_scheduler_provider<_Context>
         auto await_transform(_CvSender&& __sndr) noexcept -> decltype(auto)
         {
-          if constexpr (__completes_where_it_starts<set_value_t,
-                                                    env_of_t<_CvSender>,
-                                                    __promise_context_t&>)
+          if constexpr (STDEXEC::__affine::__is_affine<_CvSender, __promise_context_t&>)
           {
             return STDEXEC::as_awaitable(static_cast<_CvSender&&>(__sndr), *this);
           }
-- 
2.43.0

