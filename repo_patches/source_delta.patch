From 8edf7267261057b141ea1de889c45acffe086293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 01/58] fix: race doesn't drop the error of a void awaitable,
 start awaitables after the result is decided or interrupt its own transaction

---
 include/boost/cobalt/detail/race.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 006608f..ac9a9a1 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -197,6 +197,8 @@ struct race_variadic_impl
         if (this_.has_result())
           boost::throw_exception(std::runtime_error("Another transaction already started"));
         this_.cancel[idx] = nullptr;
+        // the transaction itself must not get interrupted
+        this_.working[idx] = nullptr;
         // reserve the index early bc
         this_.index = idx;
         this_.cancel_all();
@@ -217,11 +219,9 @@ struct race_variadic_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
             this_.index = Idx;
-            if (res.has_error())
-              this_.assign_error(res);
-          }
+          if (this_.index == Idx && res.has_error())
+            this_.assign_error(res);
           if constexpr(!all_void)
             if (this_.index == Idx && !res.has_error())
               this_.result.emplace(variant2::in_place_index<Idx>);
@@ -313,7 +313,7 @@ struct race_variadic_impl
         return false;
 
       for (std::size_t idx = 1u;
-           idx < tuple_size; idx++) // we'
+           idx < tuple_size && !this->has_result(); idx++) // we'
       {
         auto l = impls[idx](*this);
         const auto d = l.done();
@@ -521,6 +521,9 @@ struct race_ranged_impl
         if (this_.has_result())
           boost::throw_exception(std::runtime_error("Another transaction already started"));
         this_.cancel[idx] = nullptr;
+        // the transaction itself must not get interrupted
+        if constexpr (traits::interruptible)
+          this_.working[idx] = nullptr;
         // reserve the index early bc
         this_.index = idx;
         this_.cancel_all();
@@ -541,11 +544,9 @@ struct race_ranged_impl
         {
           auto res = co_await aw;
           if (!this_.has_result())
-          {
-            if (res.has_error())
-              this_.assign_error(res);
             this_.index = idx;
-          }
+          if (this_.index == idx && res.has_error())
+            this_.assign_error(res);
         }
         else
         {
@@ -624,7 +625,7 @@ struct race_ranged_impl
         return false;
 
       for (auto itr = std::next(reorder.begin());
-           itr < reorder.end(); std::advance(itr, 1)) // we'
+           itr < reorder.end() && !this->has_result(); std::advance(itr, 1)) // we'
       {
         auto l = await_impl(*this, *itr);
         auto d = l.done();
-- 
2.43.0


From ecc2ef16c817655f73a4882fff8627ea7de758df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 02/58] fix: channel hands the value or slot to a woken
 operation at once, so it can't be claimed by another one before the
 resumption

---
 include/boost/cobalt/impl/channel.hpp | 30 +++++++++++++++++++--------
 src/channel.cpp                       | 12 +++++++++--
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index dead930..f8df2e2 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -178,13 +178,9 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     return {system::in_place_error, asio::error::operation_aborted, &loc};
   }
 
-  T value = chn->buffer_.empty() ? std::move(*direct) : std::move(chn->buffer_.front());
-  if (!chn->buffer_.empty())
-  {
+  T value = direct ? std::move(*direct) : std::move(chn->buffer_.front());
+  if (!direct)
     chn->buffer_.pop_front();
-    if (direct)
-      chn->buffer_.push_back(std::move(*direct));
-  }
 
   if (!chn->write_queue_.empty())
   {
@@ -192,7 +188,20 @@ system::result<T> channel<T>::read_op::await_resume(const struct as_result_tag &
     BOOST_ASSERT(chn->read_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // take the value now, so that no other write can claim the free slot before `op` gets resumed.
+      op.direct = true;
+      if constexpr (std::is_copy_constructible_v<T>)
+      {
+        if (op.ref.index() == 0)
+          chn->buffer_.push_back(std::move(*variant2::get<0>(op.ref)));
+        else
+          chn->buffer_.push_back(*variant2::get<1>(op.ref));
+      }
+      else
+        chn->buffer_.push_back(std::move(*op.ref));
+
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
@@ -313,8 +322,11 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
     BOOST_ASSERT(chn->write_queue_.empty());
     if (op.await_ready())
     {
-      // unlink?
-      op.unlink();
+      // hand out the value now, so that no other read can claim it before `op` gets resumed.
+      op.direct.emplace(std::move(chn->buffer_.front()));
+      chn->buffer_.pop_front();
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
diff --git a/src/channel.cpp b/src/channel.cpp
index eb7333d..a484b64 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -70,7 +70,11 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
     BOOST_ASSERT(chn->read_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // claim the slot now, so that no other write can take it before `op` gets resumed.
+      op.direct = true;
+      chn->n_++;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
@@ -114,7 +118,11 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
     BOOST_ASSERT(chn->write_queue_.empty());
     if (op.await_ready())
     {
-      op.unlink();
+      // claim the signal now, so that no other read can take it before `op` gets resumed.
+      op.direct = true;
+      chn->n_--;
+      op.cancel_slot.clear();
+      op.transactional_unlink();
       BOOST_ASSERT(op.awaited_from);
       asio::post(chn->executor_, std::move(op.awaited_from));
     }
-- 
2.43.0


From 857cb819457a6b1189809301c353995ad52e3d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 03/58] fix: channel operations leave the queue when
 interrupted and start their own transaction when completing at once

---
 include/boost/cobalt/channel.hpp      |  4 ++++
 include/boost/cobalt/impl/channel.hpp | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/boost/cobalt/channel.hpp b/include/boost/cobalt/channel.hpp
index 26c7f2c..d1a0670 100644
--- a/include/boost/cobalt/channel.hpp
+++ b/include/boost/cobalt/channel.hpp
@@ -90,6 +90,7 @@ struct channel
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -133,6 +134,7 @@ struct channel
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -251,6 +253,7 @@ struct channel<void>
       if (!direct)
       {
         this->cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
@@ -292,6 +295,7 @@ struct channel<void>
       if (!direct)
       {
         cancelled = true;
+        this->unlink();
         if (this->awaited_from)
           this->awaited_from.release().resume();
       }
diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index f8df2e2..0567c39 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -111,6 +111,10 @@ std::coroutine_handle<void> channel<T>::read_op::await_suspend(std::coroutine_ha
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
+  // we'll complete, so this is the transaction - which might interrupt other awaitables, thus check again after.
+  if (!chn->write_queue_.empty() && begin_transaction)
+    begin_transaction(h.address());
+
   if (chn->write_queue_.empty())
   {
     chn->read_queue_.push_back(*this);
@@ -242,6 +246,10 @@ std::coroutine_handle<void> channel<T>::write_op::await_suspend(std::coroutine_h
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
   BOOST_ASSERT(this->chn->buffer_.full());
+  // we'll complete, so this is the transaction - which might interrupt other awaitables, thus check again after.
+  if (!chn->read_queue_.empty() && begin_transaction)
+    begin_transaction(h.address());
+
   if (chn->read_queue_.empty())
   {
     chn->write_queue_.push_back(*this);
@@ -380,6 +388,10 @@ std::coroutine_handle<void> channel<void>::read_op::await_suspend(std::coroutine
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
   // nothing to read currently, enqueue
+  // we'll complete, so this is the transaction - which might interrupt other awaitables, thus check again after.
+  if (!chn->write_queue_.empty() && begin_transaction)
+    begin_transaction(h.address());
+
   if (chn->write_queue_.empty())
   {
     chn->read_queue_.push_back(*this);
@@ -416,6 +428,10 @@ std::coroutine_handle<void> channel<void>::write_op::await_suspend(std::coroutin
   if constexpr (requires {h.promise().begin_transaction();})
     begin_transaction = +[](void * p){std::coroutine_handle<Promise>::from_address(p).promise().begin_transaction();};
 
+  // we'll complete, so this is the transaction - which might interrupt other awaitables, thus check again after.
+  if (!chn->read_queue_.empty() && begin_transaction)
+    begin_transaction(h.address());
+
   if (chn->read_queue_.empty())
   {
     chn->write_queue_.push_back(*this);
-- 
2.43.0


From c14b822df605894d4cd76938e6d6190e3c57b004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:37 +0000
Subject: [PATCH 04/58] fix: closed channel<void> yields the remaining signals,
 write awaited after close fails

---
 include/boost/cobalt/impl/channel.hpp | 2 +-
 src/channel.cpp                       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/impl/channel.hpp b/include/boost/cobalt/impl/channel.hpp
index 0567c39..2e561d8 100644
--- a/include/boost/cobalt/impl/channel.hpp
+++ b/include/boost/cobalt/impl/channel.hpp
@@ -298,7 +298,7 @@ system::result<void>  channel<T>::write_op::await_resume(const struct as_result_
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
diff --git a/src/channel.cpp b/src/channel.cpp
index a484b64..64b5024 100644
--- a/src/channel.cpp
+++ b/src/channel.cpp
@@ -50,7 +50,7 @@ system::result<void>  channel<void>::read_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (chn->is_closed_)
+  if (chn->is_closed_ && chn->n_ == 0u && !direct)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
@@ -98,7 +98,7 @@ system::result<void> channel<void>::write_op::await_resume(const struct as_resul
   if (cancel_slot.is_connected())
     cancel_slot.clear();
 
-  if (closed)
+  if (closed || (chn->is_closed_ && !direct))
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return {system::in_place_error, asio::error::broken_pipe, &loc};
-- 
2.43.0


From b03b36861391af06720657c53da395b17d9c38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:31 +0000
Subject: [PATCH 05/58] fix: promise move-assignment from or over a promise
 whose coroutine is gone

Assigning to a finished promise read its destroyed coroutine frame, and a
promise moved from by assignment was left looking unfinished: awaiting it hung
and destroying it later read the frame after it was freed.
---
 include/boost/cobalt/detail/promise.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index b8655a8..2fbe808 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -133,7 +133,7 @@ struct promise_receiver : promise_value_holder<T>
 
   promise_receiver& operator=(promise_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
@@ -151,6 +151,7 @@ struct promise_receiver : promise_value_holder<T>
       lhs.exception = moved_from_exception();
     }
 
+    lhs.done = true;
     return *this;
   }
 
-- 
2.43.0


From 8e3f2761059c0d3ed1ced1b8c0f462c7ecb8d05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 06/58] fix: allocate task frames from the global default
 resource as documented

The frame came from the resource of the thread creating the task, while
get_allocator() and the documentation name pmr::get_default_resource().
---
 include/boost/cobalt/detail/task.hpp |  9 +++++++++
 include/boost/cobalt/this_coro.hpp   | 13 ++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/task.hpp b/include/boost/cobalt/detail/task.hpp
index 8dedd0b..f749b28 100644
--- a/include/boost/cobalt/detail/task.hpp
+++ b/include/boost/cobalt/detail/task.hpp
@@ -327,6 +327,15 @@ struct task_promise
     this->reset_cancellation_source(signal.slot());
   }
 
+#if !defined(BOOST_COBALT_NO_PMR)
+  // a task may outlive the thread (or run()) it got created in, so its frame must not use the thread's resource.
+  template<typename ... Args>
+  static void * operator new(const std::size_t size, Args & ... args)
+  {
+    return promise_memory_resource_base::allocate_frame(size, detail::get_memory_resource_from_args_global(args...));
+  }
+#endif
+
   struct initial_awaitable
   {
     task_promise * promise;
diff --git a/include/boost/cobalt/this_coro.hpp b/include/boost/cobalt/this_coro.hpp
index 2aba8c5..4c58ead 100644
--- a/include/boost/cobalt/this_coro.hpp
+++ b/include/boost/cobalt/this_coro.hpp
@@ -340,7 +340,11 @@ struct promise_memory_resource_base
   template<typename ... Args>
   static void * operator new(const std::size_t size, Args & ... args)
   {
-    auto res = detail::get_memory_resource_from_args(args...);
+    return allocate_frame(size, detail::get_memory_resource_from_args(args...));
+  }
+
+  static void * allocate_frame(const std::size_t size, pmr::memory_resource * res)
+  {
     const auto p = res->allocate(size + sizeof(std::max_align_t));
     auto pp = static_cast<pmr::memory_resource**>(p);
     *pp = res;
@@ -356,6 +360,11 @@ struct promise_memory_resource_base
 #else
   template<typename ... Args>
   static void * operator new(const std::size_t size, Args & ... args)
+  {
+    return allocate_frame(size, detail::get_memory_resource_from_args(args...));
+  }
+
+  static void * allocate_frame(const std::size_t size, pmr::memory_resource * res)
   {
     using tt = std::pair<pmr::memory_resource *, std::size_t>;
 
@@ -363,8 +372,6 @@ struct promise_memory_resource_base
     constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
                               + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
 
-
-    auto res = detail::get_memory_resource_from_args(args...);
     const auto p = res->allocate(size + (block_size * sizeof(std::max_align_t)));
     new (p) tt(res, size);
     return static_cast<std::max_align_t*>(p) + block_size;
-- 
2.43.0


From a550ddc2d58a0dc55a25f039a855ff2810913e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 07/58] fix: awaiting an eager generator after get() delivers
 the pushed value

---
 include/boost/cobalt/detail/generator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 7f3368e..74398c3 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -222,11 +222,14 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
       self->awaited_from.reset(h.address());
 
+      // an eager generator can also wait for a push here, if the value it yielded was taken by `get`.
+      const bool waits_for_push = self->lazy || self->yield_from != nullptr;
+
       std::coroutine_handle<void> res = std::noop_coroutine();
       if (self->yield_from != nullptr)
         res = self->yield_from.release();
 
-      if ((to_push.index() > 0) && !self->pushed_value && self->lazy)
+      if ((to_push.index() > 0) && !self->pushed_value && waits_for_push)
       {
         if constexpr (std::is_void_v<Push>)
           self->pushed_value = true;
@@ -299,7 +302,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
       }
 
       // now we also want to resume the coroutine, so it starts work
-      if (self->yield_from != nullptr && !self->lazy)
+      if (self->yield_from != nullptr && !self->lazy && self->pushed_value)
       {
         auto exec = self->yield_from->get_executor();
         auto alloc = asio::get_associated_allocator(self->yield_from);
-- 
2.43.0


From b65058f638ee265d165c5fee6a45255644dfdb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:55 +0000
Subject: [PATCH 08/58] fix: generator move-assignment doesn't touch the frame
 of a finished coroutine

---
 include/boost/cobalt/detail/generator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 74398c3..3c0c944 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -129,7 +129,8 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
 
   generator_receiver& operator=(generator_receiver && lhs) noexcept
   {
-    if (reference && *reference == this)
+    // once done the coroutine frame `reference` points into is gone
+    if (!done && reference && *reference == this)
     {
       *reference = nullptr;
     }
-- 
2.43.0


From bb64f23b40c764be993039299d2caceab3f0b38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 09/58] fix: as_result of a variadic join yields the tuple of
 values

---
 include/boost/cobalt/detail/join.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index f412551..8480459 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -262,13 +262,13 @@ struct join_variadic_impl
         return rt(system::in_place_error, error);
 
       if constexpr(!all_void)
-        return mp11::tuple_transform(
+        return rt(system::in_place_value, mp11::tuple_transform(
             []<typename T>(std::optional<T> & var)
-                -> rt
+                -> T
             {
               BOOST_ASSERT(var.has_value());
               return std::move(*var);
-            }, result);
+            }, result));
       else
         return rt{system::in_place_value};
     }
-- 
2.43.0


From 23da8d24efe08b8ad7fc12c5d36ead30226161b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 10/58] fix: as_tuple of a successful variadic join reports no
 exception, even if one is being handled

---
 include/boost/cobalt/detail/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 8480459..6a53d2b 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -241,7 +241,7 @@ struct join_variadic_impl
         if (error)
           return std::make_tuple(error, t{});
         else
-          return std::make_tuple(std::current_exception(),
+          return std::make_tuple(std::exception_ptr(),
                                  mp11::tuple_transform(
               []<typename T>(std::optional<T> & var)
                   -> T
-- 
2.43.0


From 842351d85be9b05dd4625798b7f6c0f7e81a1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:23 +0000
Subject: [PATCH 11/58] fix: ranged join and gather ask an argument only once
 whether it is ready

---
 include/boost/cobalt/detail/gather.hpp | 10 ----------
 include/boost/cobalt/detail/join.hpp   |  9 ---------
 2 files changed, 19 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 92f665f..2b64f1d 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -241,7 +241,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     pmr::vector<result_storage_type> result{cancel.size(), alloc};
 
@@ -250,7 +249,6 @@ struct gather_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
         std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel{std::size(aws), alloc};
     std::vector<result_storage_type> result{cancel.size(), alloc};
 #endif
@@ -260,7 +258,6 @@ struct gather_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs operator co_await */)
       : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
       aws.reserve(std::size(aws_));
@@ -271,18 +268,11 @@ struct gather_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>)) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 6a53d2b..9bae036 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -304,7 +304,6 @@ struct join_ranged_impl
     std::conditional_t<awaitable_type<type>, Range &,
                        pmr::vector<co_awaitable_type<type>>> aws;
 
-    pmr::vector<bool> ready{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     pmr::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -321,7 +320,6 @@ struct join_ranged_impl
     std::allocator<void> alloc;
     std::conditional_t<awaitable_type<type>, Range &,  std::vector<co_awaitable_type<type>>> aws;
 
-    std::vector<bool> ready{std::size(aws), alloc};
     std::vector<asio::cancellation_signal> cancel_{std::size(aws), alloc};
     std::vector<asio::cancellation_signal*> cancel{std::size(aws), alloc};
 
@@ -338,7 +336,6 @@ struct join_ranged_impl
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
       , aws{alloc}
-      , ready{std::size(aws_), alloc}
       , cancel_{std::size(aws_), alloc}
       , cancel{std::size(aws_), alloc}
     {
@@ -350,17 +347,11 @@ struct join_ranged_impl
             std::is_lvalue_reference_v<Range>, a_0 &, a_0 &&>;
         aws.emplace_back(awaitable_type_getter<a_t>(static_cast<a_t>(a)));
       }
-
-      std::transform(std::begin(this->aws),
-                     std::end(this->aws),
-                     std::begin(ready),
-                     [](auto & aw) {return aw.await_ready();});
     }
     awaitable(Range & aws, std::true_type /* needs operator co_await */)
         : fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws))
         , aws(aws)
     {
-      std::transform(std::begin(aws), std::end(aws), std::begin(ready), [](auto & aw) {return aw.await_ready();});
     }
 
     awaitable(Range & aws)
-- 
2.43.0


From 11801084816b27709c6b2af9329838ffda4503de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:33 +0000
Subject: [PATCH 12/58] fix: a fork doesn't use its frame after the state it's
 allocated from, nor destroys it twice

---
 include/boost/cobalt/detail/fork.hpp | 42 ++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 58fef62..bbe218f 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -106,10 +106,25 @@ struct fork
     template<typename State, typename ... Rest>
     void * operator new(const std::size_t size, State & st, Rest &&...)
     {
-      return st.resource.allocate(size);
+      // the frame itself holds the reference to the state it's allocated from, because dropping
+      // the last one may destroy the awaiting coroutine and thus the memory of this frame.
+      void * const raw = st.resource.allocate(state_offset(size) + sizeof(shared_state*));
+      new (static_cast<char*>(raw) + state_offset(size)) shared_state*(
+          intrusive_ptr<shared_state>(&st).detach());
+      return raw;
     }
 
-    void operator delete(void *) noexcept {}
+    void operator delete(void * raw, const std::size_t size) noexcept
+    {
+      // adopts the reference & releases it
+      intrusive_ptr<shared_state>(
+          *reinterpret_cast<shared_state**>(static_cast<char*>(raw) + state_offset(size)), false);
+    }
+
+    static constexpr std::size_t state_offset(std::size_t size)
+    {
+      return (size + alignof(shared_state*) - 1u) & ~(alignof(shared_state*) - 1u);
+    }
 
     template<typename ... Rest>
     promise_type(shared_state & st, Rest & ...)
@@ -117,7 +132,7 @@ struct fork
     {
     }
 
-    intrusive_ptr<shared_state> state;
+    shared_state * state;
     asio::cancellation_slot cancel;
 
     using executor_type = executor;
@@ -146,20 +161,20 @@ struct fork
 
       std::coroutine_handle<void> await_suspend(std::coroutine_handle<promise_type> h) noexcept
       {
-        auto pp = h.promise().state.detach();
+        auto pp = h.promise().state;
+        std::coroutine_handle<void> coro = std::noop_coroutine();
+        if (pp->coro)
+          coro = pp->coro.release();
 
 #if defined(BOOST_COBALT_NO_SELF_DELETE)
         h.promise().~promise_type();
+        pp->use_count--;
 #else
         // mem is in a monotonic_resource, this is fine on msvc- gcc doesn't like it though
         h.destroy();
 #endif
-        pp->use_count--;
         BOOST_ASSERT(pp->use_count == 0u);
-        if (pp->coro)
-          return pp->coro.release();
-        else
-          return std::noop_coroutine();
+        return coro;
       }
 
       constexpr static void await_resume() noexcept {}
@@ -254,13 +269,18 @@ struct fork
     }
   };
 
-  [[nodiscard]] bool done() const
+  [[nodiscard]] bool done()
   {
-    return ! handle_ ||  handle_.done();
+    // a fork that ran to the end has destroyed itself
+    if (handle_ && handle_.done())
+      handle_.release();
+    return !handle_;
   }
 
   auto release() -> std::coroutine_handle<promise_type>
   {
+    if (!handle_)
+      return nullptr;
     return handle_.release();
   }
 
-- 
2.43.0


From 91c44bd195a8c927891bd091737841ac00ff8caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 13/58] fix: as_tuple of a failed race doesn't read the missing
 value

---
 include/boost/cobalt/detail/race.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index ac9a9a1..b3ca450 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -355,7 +355,12 @@ struct race_variadic_impl
       if constexpr (all_void)
         return std::make_tuple(error, index);
       else
-        return std::make_tuple(error, std::move(*result));
+      {
+        using value_type = variant2::variant<void_as_monostate<co_await_result_t<Args>>...>;
+        if (error)
+          return std::make_tuple(error, value_type{});
+        return std::make_tuple(error, value_type(std::move(*result)));
+      }
     }
 
     auto await_resume(const as_result_tag & )
@@ -667,7 +672,11 @@ struct race_ranged_impl
       if constexpr (std::is_void_v<result_type>)
         return std::make_tuple(error, index);
       else
+      {
+        if (error)
+          return std::make_tuple(error, std::make_pair(index, result_type{}));
         return std::make_tuple(error, std::make_pair(index, std::move(*result)));
+      }
     }
 
     auto await_resume(const as_result_tag & )
-- 
2.43.0


From e2a1d4fd68cebb56752499a40a5a7a2e24a338da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 14/58] fix: join of an empty range throws as documented

---
 include/boost/cobalt/join.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/cobalt/join.hpp b/include/boost/cobalt/join.hpp
index 5c917f9..8390e1f 100644
--- a/include/boost/cobalt/join.hpp
+++ b/include/boost/cobalt/join.hpp
@@ -11,6 +11,10 @@
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/detail/join.hpp>
 
+#include <boost/throw_exception.hpp>
+#include <iterator>
+#include <stdexcept>
+
 namespace boost::cobalt
 {
 
@@ -27,6 +31,9 @@ template<typename PromiseRange>
   requires awaitable<std::decay_t<decltype(*std::declval<PromiseRange>().begin())>>
 auto join(PromiseRange && p)
 {
+  if (std::empty(p))
+    throw_exception(std::invalid_argument("empty range joined"));
+
   return detail::join_ranged_impl<PromiseRange>{static_cast<PromiseRange&&>(p)};
 }
 
-- 
2.43.0


From e2f71d62a49d696e2aec580629208ae8e621d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 15/58] fix: race, join and gather let go of running awaitables
 when one can't be started

---
 include/boost/cobalt/detail/gather.hpp | 30 ++++++++++-
 include/boost/cobalt/detail/join.hpp   | 28 ++++++++--
 include/boost/cobalt/detail/race.hpp   | 73 +++++++++++++++++++++-----
 3 files changed, 111 insertions(+), 20 deletions(-)

diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 2b64f1d..e90ae76 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -167,7 +167,21 @@ struct gather_variadic_impl
       this->exec = cobalt::detail::get_executor(h);
       last_forked.release().resume();
       while (last_index < tuple_size)
-        impls[last_index++](*this).release();
+        mp11::mp_with_index<tuple_size>(
+            last_index++,
+            [this](auto idx)
+            {
+              BOOST_TRY
+              {
+                impls[idx](*this).release();
+              }
+              BOOST_CATCH(...)
+              {
+                // couldn't start the awaitable, but those already running refer to this.
+                std::get<idx>(result).template emplace<2u>(std::current_exception());
+              }
+              BOOST_CATCH_END
+            });
 
       if (!this->outstanding_work()) // already done, resume rightaway.
         return false;
@@ -356,7 +370,19 @@ struct gather_ranged_impl
 
       last_forked.release().resume();
       while (last_index < cancel.size())
-        await_impl(*this, last_index++).release();
+      {
+        const auto idx = last_index++;
+        BOOST_TRY
+        {
+          await_impl(*this, idx).release();
+        }
+        BOOST_CATCH(...)
+        {
+          // couldn't start the awaitable, but those already running refer to this.
+          result[idx].template emplace<2u>(std::current_exception());
+        }
+        BOOST_CATCH_END
+      }
 
       if (!this->outstanding_work()) // already done, resume rightaway.
         return false;
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 9bae036..52b9f96 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -195,8 +195,18 @@ struct join_variadic_impl
 #endif
       this->exec = detail::get_executor(h);
       last_forked.release().resume();
-      while (last_index < tuple_size)
-        impls[last_index++](*this).release();
+      BOOST_TRY
+      {
+        while (last_index < tuple_size)
+          impls[last_index++](*this).release();
+      }
+      BOOST_CATCH(...)
+      {
+        // couldn't start an awaitable, but those already running refer to this.
+        if (!error)
+          error = std::current_exception();
+      }
+      BOOST_CATCH_END
 
       if (error)
         cancel_all();
@@ -445,8 +455,18 @@ struct join_ranged_impl
       exec = detail::get_executor(h);
 
       last_forked.release().resume();
-      while (last_index < cancel.size())
-        await_impl(*this, last_index++).release();
+      BOOST_TRY
+      {
+        while (last_index < cancel.size())
+          await_impl(*this, last_index++).release();
+      }
+      BOOST_CATCH(...)
+      {
+        // couldn't start an awaitable, but those already running refer to this.
+        if (!error)
+          error = std::current_exception();
+      }
+      BOOST_CATCH_END
 
       if (error)
         cancel_all();
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index b3ca450..0abb5d4 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -140,6 +140,17 @@ struct race_variadic_impl
           std::exchange(r, nullptr)->emit(Ct);
     }
 
+    void start_failed()
+    {
+      if (!has_result())
+      {
+        // not the index of any awaitable, so none of them assigns its result.
+        index = std::numeric_limits<std::size_t>::max() - 1u;
+        error = std::current_exception();
+      }
+      cancel_all();
+    }
+
     void interrupt_await()
     {
       for (auto i : working)
@@ -281,6 +292,8 @@ struct race_variadic_impl
       if (this_.index == Idx)
         this_.error = std::current_exception();
       this_.working[Idx] = nullptr;
+      this_.cancel[Idx] = nullptr;
+      this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -312,15 +325,24 @@ struct race_variadic_impl
       if (!this->outstanding_work()) // already done, resume rightaway.
         return false;
 
-      for (std::size_t idx = 1u;
-           idx < tuple_size && !this->has_result(); idx++) // we'
+      BOOST_TRY
       {
-        auto l = impls[idx](*this);
-        const auto d = l.done();
-        l.release();
-        if (d)
-          break;
+        for (std::size_t idx = 1u;
+             idx < tuple_size && !this->has_result(); idx++) // we'
+        {
+          auto l = impls[idx](*this);
+          const auto d = l.done();
+          l.release();
+          if (d)
+            break;
+        }
       }
+      BOOST_CATCH(...)
+      {
+        // couldn't start an awaitable, but those already running refer to this.
+        start_failed();
+      }
+      BOOST_CATCH_END
 
       if (!this->outstanding_work()) // already done, resume rightaway.
         return false;
@@ -482,6 +504,18 @@ struct race_ranged_impl
         if (r)
           std::exchange(r, nullptr)->emit(Ct);
     }
+
+    void start_failed()
+    {
+      if (!has_result())
+      {
+        // not the index of any awaitable, so none of them assigns its result.
+        index = std::numeric_limits<std::size_t>::max() - 1u;
+        error = std::current_exception();
+      }
+      cancel_all();
+    }
+
     void interrupt_await()
     {
       if constexpr (traits::interruptible)
@@ -606,6 +640,8 @@ struct race_ranged_impl
         this_.error = std::current_exception();
       if constexpr (traits::interruptible)
         this_.working[idx] = nullptr;
+      this_.cancel[idx] = nullptr;
+      this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -629,15 +665,24 @@ struct race_ranged_impl
       if (!this->outstanding_work()) // already done, resume rightaway.
         return false;
 
-      for (auto itr = std::next(reorder.begin());
-           itr < reorder.end() && !this->has_result(); std::advance(itr, 1)) // we'
+      BOOST_TRY
+      {
+        for (auto itr = std::next(reorder.begin());
+             itr < reorder.end() && !this->has_result(); std::advance(itr, 1)) // we'
+        {
+          auto l = await_impl(*this, *itr);
+          auto d = l.done();
+          l.release();
+          if (d)
+            break;
+        }
+      }
+      BOOST_CATCH(...)
       {
-        auto l = await_impl(*this, *itr);
-        auto d = l.done();
-        l.release();
-        if (d)
-          break;
+        // couldn't start an awaitable, but those already running refer to this.
+        start_failed();
       }
+      BOOST_CATCH_END
 
       if (!this->outstanding_work()) // already done, resume rightaway.
         return false;
-- 
2.43.0


From 50a9e37da2994ad27c1e24da43588e701fff2c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:09 +0000
Subject: [PATCH 16/58] fix: wait_group removes a failed promise after wait_one
 and keeps those pushed during a wait

---
 include/boost/cobalt/detail/wait_group.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/boost/cobalt/detail/wait_group.hpp b/include/boost/cobalt/detail/wait_group.hpp
index 56ca462..7c828cb 100644
--- a/include/boost/cobalt/detail/wait_group.hpp
+++ b/include/boost/cobalt/detail/wait_group.hpp
@@ -32,7 +32,7 @@ struct race_wrapper
 
     bool await_ready()
     {
-      if (waitables_.empty())
+      if (!impl_)
         return true;
       else
         return impl_->await_ready();
@@ -46,11 +46,11 @@ struct race_wrapper
 
     void await_resume()
     {
-      if (waitables_.empty())
+      if (!impl_)
         return;
-      auto idx = impl_->await_resume();
-      if (idx != std::numeric_limits<std::size_t>::max())
-        waitables_.erase(std::next(waitables_.begin(), idx));
+      // remove the one we got the result from, even if that is an exception.
+      waitables_.remove_if([](promise<void> & p) { return !p;});
+      impl_->await_resume();
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
@@ -84,7 +84,7 @@ struct gather_wrapper
   {
     bool await_ready()
     {
-      if (waitables_.empty())
+      if (!impl_)
         return true;
       else
         return impl_->await_ready();
@@ -98,11 +98,11 @@ struct gather_wrapper
 
     void await_resume()
     {
-      if (waitables_.empty())
+      if (!impl_)
         return;
-      BOOST_ASSERT(impl_);
       impl_->await_resume();
-      waitables_.clear();
+      // only remove those awaited, more might have been pushed in the meantime
+      waitables_.remove_if([](promise<void> & p) { return !p;});
     }
 
     awaitable_type(std::list<promise<void>> &waitables) : waitables_(waitables)
-- 
2.43.0


From de0be84dad998fc9c7f72510658c131d5f203111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 17/58] fix: with() destroys its awaiter when abandoned and its
 own frame when never awaited

---
 include/boost/cobalt/detail/with.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/with.hpp b/include/boost/cobalt/detail/with.hpp
index 433f34f..9aca147 100644
--- a/include/boost/cobalt/detail/with.hpp
+++ b/include/boost/cobalt/detail/with.hpp
@@ -7,9 +7,14 @@
 
 #include <boost/cobalt/concepts.hpp>
 #include <boost/cobalt/this_coro.hpp>
+#include <boost/cobalt/unique_handle.hpp>
 
 #include <boost/asio/cancellation_signal.hpp>
 
+#include <coroutine>
+#include <optional>
+#include <utility>
+
 namespace boost::cobalt::detail
 {
 
@@ -25,9 +30,17 @@ struct [[nodiscard]] with_impl
     auto await_suspend(std::coroutine_handle<Promise> h) -> std::coroutine_handle<promise_type>;
     inline T await_resume();
 
+    with_impl(with_impl && lhs) noexcept
+        : promise(lhs.promise), owned(std::exchange(lhs.owned, false))
+    {
+    }
+    inline ~with_impl();
+
   private:
     with_impl(promise_type & promise) : promise(promise) {}
     promise_type & promise;
+    // false once awaited, then the coroutine gets destroyed by await_resume or its awaited operation
+    bool owned{true};
 };
 
 template<typename T>
@@ -93,7 +106,7 @@ struct with_impl<T>::promise_type
     BOOST_COBALT_MSVC_NOINLINE
     auto await_suspend(std::coroutine_handle<promise_type> h) noexcept -> std::coroutine_handle<void>
     {
-      return std::coroutine_handle<void>::from_address(h.promise().awaited_from.address());
+      return h.promise().awaited_from.release();
     }
 
     void await_resume() noexcept
@@ -109,10 +122,17 @@ struct with_impl<T>::promise_type
   cancellation_slot_type get_cancellation_slot() const {return slot_;}
   asio::cancellation_slot slot_;
 
-  std::coroutine_handle<void> awaited_from{nullptr};
+  unique_handle<void> awaited_from{nullptr};
 
 };
 
+template<typename T>
+with_impl<T>::~with_impl()
+{
+    if (owned)
+        std::coroutine_handle<promise_type>::from_promise(promise).destroy();
+}
+
 template<typename T>
 T with_impl<T>::await_resume()
 {
@@ -146,7 +166,8 @@ auto with_impl<T>::await_suspend(std::coroutine_handle<Promise> h) -> std::corou
     if constexpr (requires {h.promise().get_cancellation_slot();})
         promise.slot_ = h.promise().get_cancellation_slot();
 
-    promise.awaited_from = h;
+    promise.awaited_from.reset(h.address());
+    owned = false;
     return std::coroutine_handle<promise_type>::from_promise(promise);
 }
 
-- 
2.43.0


From 4acd9d5837c32a52fb339d1aa39a49387f0e9ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 18/58] fix: with() of a value doesn't read it after the
 teardown reset the exception

---
 include/boost/cobalt/with.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/cobalt/with.hpp b/include/boost/cobalt/with.hpp
index bdfb21f..ad79f35 100644
--- a/include/boost/cobalt/with.hpp
+++ b/include/boost/cobalt/with.hpp
@@ -135,6 +135,7 @@ auto with(Arg arg, Func func, Teardown teardown)
     {
         e = std::current_exception();
     }
+    const std::exception_ptr func_e = e;
 
     try
     {
@@ -147,6 +148,9 @@ auto with(Arg arg, Func func, Teardown teardown)
     }
     if (e)
         std::rethrow_exception(e);
+    // the teardown reset the exception, but there's no value to return.
+    if (!res)
+        std::rethrow_exception(func_e);
 #endif
     co_return std::move(res);
 }
@@ -179,6 +183,7 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
     {
         e = std::current_exception();
     }
+    const std::exception_ptr func_e = e;
 
     try
     {
@@ -191,6 +196,9 @@ auto with(Arg arg, Func func, Teardown teardown) -> detail::with_impl<decltype(s
     }
     if (e)
         std::rethrow_exception(e);
+    // the teardown reset the exception, but there's no value to return.
+    if (!res)
+        std::rethrow_exception(func_e);
 #endif
     co_return std::move(res);
 }
-- 
2.43.0


From a7e95abcea634552435d3d5924c468d016d5ab0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 19/58] fix: sbo_resource honours the alignment of over-aligned
 allocations

---
 include/boost/cobalt/detail/sbo_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/sbo_resource.hpp b/include/boost/cobalt/detail/sbo_resource.hpp
index ae37315..a91a4bf 100644
--- a/include/boost/cobalt/detail/sbo_resource.hpp
+++ b/include/boost/cobalt/detail/sbo_resource.hpp
@@ -90,7 +90,7 @@ struct sbo_resource
 #endif
   {
     const auto sz = align_as_max_(size);
-    if (sz <= buffer_.avail && !buffer_.fragmented) [[likely]]
+    if (align <= alignof(std::max_align_t) && sz <= buffer_.avail && !buffer_.fragmented) [[likely]]
     {
       auto p = static_cast<char*>(buffer_.p) + buffer_.size - buffer_.avail;
       buffer_.avail -= sz;
-- 
2.43.0


From 295fc7a6587236c2578f328c567022917296de2d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:55 +0000
Subject: [PATCH 20/58] fix: a handler dropped by an initiation destroys the
 coroutine after the suspension, also from the immediate executor

---
 include/boost/cobalt/detail/handler.hpp | 21 ++++++++++++++++-----
 include/boost/cobalt/op.hpp             |  5 +++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 8376c6b..5f75044 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -27,7 +27,9 @@ template<typename ... Args>
 struct composition_promise;
 enum class completed_immediately_t
 {
-  no, maybe, yes, initiating
+  no, maybe, yes, initiating,
+  // the handler got destroyed without being invoked
+  dropped
 };
 
 struct completion_handler_noop_executor
@@ -48,7 +50,7 @@ struct completion_handler_noop_executor
       *completed_immediately = completed_immediately_t::maybe;
       fn();
       // yes means completion_handler::operator() was called, so we're good.
-      if (*completed_immediately != completed_immediately_t::yes)
+      if (*completed_immediately == completed_immediately_t::maybe)
         *completed_immediately = completed_immediately_t::initiating;
     }
     else
@@ -270,12 +272,21 @@ struct completion_handler : detail::completion_handler_base
 
     ~completion_handler()
     {
-      if (self && completed_immediately
-        && *completed_immediately == detail::completed_immediately_t::initiating
-        && std::uncaught_exceptions() > 0)
+      // The coroutine is in the middle of suspending, so it can't be destroyed here.
+      if (self && initiating())
+      {
+        *completed_immediately = detail::completed_immediately_t::dropped;
         self.release();
+      }
     }
  private:
+    bool initiating() const
+    {
+      return completed_immediately
+        && (*completed_immediately == detail::completed_immediately_t::initiating
+         || *completed_immediately == detail::completed_immediately_t::maybe);
+    }
+
     unique_handle<void> self;
     std::optional<std::tuple<Args...>> &result;
 #if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
diff --git a/include/boost/cobalt/op.hpp b/include/boost/cobalt/op.hpp
index b59f668..5503234 100644
--- a/include/boost/cobalt/op.hpp
+++ b/include/boost/cobalt/op.hpp
@@ -74,6 +74,11 @@ struct BOOST_SYMBOL_VISIBLE op
 #endif
         if (completed_immediately == detail::completed_immediately_t::initiating)
           completed_immediately = detail::completed_immediately_t::no;
+        else if (completed_immediately == detail::completed_immediately_t::dropped)
+        {
+          h.destroy(); // includes *this
+          return true;
+        }
         return completed_immediately != detail::completed_immediately_t::yes;
       }
       BOOST_CATCH(...)
-- 
2.43.0


From d22e8e8a4b9e3d2839e9dc76b0a4dfeab20a53a0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 21/58] fix: a composition receives the cancellation of its
 caller

---
 include/boost/cobalt/composition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 50dd688..7d2b489 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -130,7 +130,7 @@ struct composition_promise
   template<typename ... Ts>
   composition_promise(Ts && ... args) : handler(std::move(std::get<sizeof... (Ts) - 1>(std::tie(args...))))
   {
-
+    this->reset_cancellation_source(handler.get_cancellation_slot());
   }
 
   void unhandled_exception() { throw ; }
-- 
2.43.0


From a4d54e34421f66d38f7d4edd21b34ae2f4610bf1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 22/58] fix: a composition doesn't use its frame after
 destroying it, nor destroys the caller's buffer it lives in too early

---
 include/boost/cobalt/composition.hpp | 54 ++++++++++++++++------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/include/boost/cobalt/composition.hpp b/include/boost/cobalt/composition.hpp
index 7d2b489..0853c18 100644
--- a/include/boost/cobalt/composition.hpp
+++ b/include/boost/cobalt/composition.hpp
@@ -92,37 +92,43 @@ struct composition_promise
   using executor_type = typename handler_type::executor_type ;
   const executor & get_executor() const {return handler.get_executor();}
 
+  // The memory may be part of the caller's frame, so if we own the caller it must not be destroyed before the
+  // memory has been returned: | frame_header | <padding> | coroutine.
+  struct frame_header
+  {
+    resource_type * resource;
+    std::size_t size;
+    void * caller = nullptr; // to be destroyed together with this frame
+  };
+  constexpr static std::size_t block_size = sizeof(frame_header) / sizeof(std::max_align_t)
+                                         + (sizeof(frame_header) % sizeof(std::max_align_t) ? 1 : 0);
+
   template<typename ... Ts>
   static void * operator new(const std::size_t size, Ts & ... args)
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
-
-
     auto res = std::get<sizeof... (Ts) - 1>(std::tie(args...)).get_allocator().resource();
     const auto p = res->allocate(size + (block_size * sizeof(std::max_align_t)));
-    new (p) tt(res, size);
+    new (p) frame_header{res, size};
     return static_cast<std::max_align_t*>(p) + block_size;
   }
 
   static void operator delete(void * raw) noexcept
   {
-    using tt = std::pair<resource_type *, std::size_t>;
-
-    // | memory_resource | size_t | <padding> | coroutine.
-    constexpr auto block_size =  sizeof(tt) / sizeof(std::max_align_t)
-                                 + (sizeof(tt) % sizeof(std::max_align_t) ? 1 : 0);
-
     const auto p = static_cast<std::max_align_t*>(raw) - block_size;
+    const auto hdr = *reinterpret_cast<frame_header*>(p);
+    hdr.resource->deallocate(p, hdr.size + (block_size * sizeof(std::max_align_t)));
+    if (hdr.caller)
+      std::coroutine_handle<void>::from_address(hdr.caller).destroy();
+  }
 
-    const auto tp = *reinterpret_cast<tt*>(p);
-    const auto res = tp.first;
-    const auto size = tp.second;
-
-    res->deallocate(p, size +  (block_size * sizeof(std::max_align_t)));
+  ~composition_promise()
+  {
+    if (handler.self && !handler.initiating())
+    {
+      auto raw = std::coroutine_handle<composition_promise>::from_promise(*this).address();
+      const auto p = static_cast<std::max_align_t*>(raw) - block_size;
+      reinterpret_cast<frame_header*>(p)->caller = handler.self.release().address();
+    }
   }
 
   completion_handler<Args...> handler;
@@ -152,13 +158,15 @@ struct composition_promise
     {
       auto exec = handler.get_executor();
       auto ho = handler.self.release();
+      // this awaitable is part of the frame
+      const auto completed_immediately = handler.completed_immediately;
+      // also true if we've been started from within the immediate executor
+      const auto initiating = handler.initiating();
       detail::self_destroy(h, exec);
 
-      if (handler.completed_immediately != nullptr
-       && *handler.completed_immediately == completed_immediately_t::initiating)
-        //not maybe here, because we don't go through the immediate executor
+      if (initiating)
       {
-        *handler.completed_immediately = completed_immediately_t::yes;
+        *completed_immediately = completed_immediately_t::yes;
         return std::noop_coroutine();
       }
 
-- 
2.43.0


From 149b39bdf4c8e14a24da89e1441d2922f5943055 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 23/58] fix: a completed operation leaves nothing in the
 cancellation slot of the coroutine that awaited it

---
 include/boost/cobalt/detail/handler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/cobalt/detail/handler.hpp b/include/boost/cobalt/detail/handler.hpp
index 5f75044..9f773b5 100644
--- a/include/boost/cobalt/detail/handler.hpp
+++ b/include/boost/cobalt/detail/handler.hpp
@@ -256,6 +256,8 @@ struct completion_handler : detail::completion_handler_base
 #if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
       BOOST_ASIO_HANDLER_LOCATION((loc_.file_name(), loc_.line(), loc_.function_name()));
 #endif
+        // the operation is done, so a later cancellation must not reach what it left in the slot
+        this->cancellation_slot.clear();
         result.emplace(std::move(args)...);
         BOOST_ASSERT(this->self != nullptr);
         auto p = this->self.release();
-- 
2.43.0


From 8824e7a41962976654efa858b7d41274ba9566ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 24/58] fix: race, join and gather remove their handler from
 the cancellation slot of the awaiting coroutine

---
 include/boost/cobalt/detail/fork.hpp   | 14 ++++++++++++++
 include/boost/cobalt/detail/gather.hpp |  4 ++--
 include/boost/cobalt/detail/join.hpp   |  4 ++--
 include/boost/cobalt/detail/race.hpp   |  4 ++--
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index bbe218f..9a86800 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -67,6 +67,16 @@ struct fork
       return *exec;
     }
 
+    // the slot of the coro awaiting the fork statement, while there's a handler in it.
+    asio::cancellation_slot cancel_slot{};
+    template<typename Promise, typename Handler>
+    void assign_cancellation(std::coroutine_handle<Promise> h, Handler && func)
+    {
+      if constexpr (requires {h.promise().get_cancellation_slot();})
+        if ((cancel_slot = h.promise().get_cancellation_slot()).is_connected())
+          cancel_slot.assign(std::forward<Handler>(func));
+    }
+
 #if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
     boost::source_location loc;
 #endif
@@ -164,7 +174,11 @@ struct fork
         auto pp = h.promise().state;
         std::coroutine_handle<void> coro = std::noop_coroutine();
         if (pp->coro)
+        {
+          // the handler refers to the state, which is gone once coro moves on
+          pp->cancel_slot.clear();
           coro = pp->coro.release();
+        }
 
 #if defined(BOOST_COBALT_NO_SELF_DELETE)
         h.promise().~promise_type();
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index e90ae76..507257d 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -187,7 +187,7 @@ struct gather_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -388,7 +388,7 @@ struct gather_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 52b9f96..55a92a6 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -215,7 +215,7 @@ struct join_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -475,7 +475,7 @@ struct join_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index 0abb5d4..d9e0bb0 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -348,7 +348,7 @@ struct race_variadic_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
@@ -688,7 +688,7 @@ struct race_ranged_impl
         return false;
 
       // arm the cancel
-      assign_cancellation(
+      this->assign_cancellation(
           h,
           [&](asio::cancellation_type ct)
           {
-- 
2.43.0


From c2b78c6948d04c9d9c5e3a117b14a5171b676756 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 25/58] fix: random_access_device.hpp has an include guard of
 its own, so that it can be used together with stream.hpp

---
 include/boost/cobalt/io/random_access_device.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/io/random_access_device.hpp b/include/boost/cobalt/io/random_access_device.hpp
index ec605b5..46fbf62 100644
--- a/include/boost/cobalt/io/random_access_device.hpp
+++ b/include/boost/cobalt/io/random_access_device.hpp
@@ -5,8 +5,8 @@
 // file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 //
 
-#ifndef BOOST_COBALT_IO_STREAM_HPP
-#define BOOST_COBALT_IO_STREAM_HPP
+#ifndef BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
+#define BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
 
 #include <boost/cobalt/io/buffer.hpp>
 #include <boost/cobalt/io/ops.hpp>
@@ -34,4 +34,4 @@ struct random_access_device : random_access_read_device, random_access_write_dev
 
 }
 
-#endif //BOOST_COBALT_IO_STREAM_HPP
+#endif //BOOST_COBALT_IO_RANDOM_ACCESS_DEVICE_HPP
-- 
2.43.0


From a3b3258a65a5e564dc40a32bbf94c09396e97783 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 26/58] fix: write_at accepts devices whose write_some_at
 returns a write_at_op

---
 include/boost/cobalt/io/write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/write.hpp b/include/boost/cobalt/io/write.hpp
index cccd0b6..bfc2543 100644
--- a/include/boost/cobalt/io/write.hpp
+++ b/include/boost/cobalt/io/write.hpp
@@ -48,7 +48,7 @@ struct BOOST_COBALT_IO_DECL write_all_at  final : op<system::error_code, std::si
 template<typename Stream>
 requires requires (Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
 {
-  {str.write_some_at(offset, buffer)} -> std::same_as<write_op>;
+  {str.write_some_at(offset, buffer)} -> std::same_as<write_at_op>;
 }
 [[nodiscard]] BOOST_COBALT_MSVC_NOINLINE
 write_all_at write_at(Stream & str, std::uint64_t offset, const_buffer_sequence buffer)
-- 
2.43.0


From 1b15f9faab627f71884c8b55a9b63830e193e418 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 27/58] fix: random_access_file passes the arguments of lseek
 in the right order

---
 src/io/random_access_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/random_access_file.cpp b/src/io/random_access_file.cpp
index 1f8c132..8959c2e 100644
--- a/src/io/random_access_file.cpp
+++ b/src/io/random_access_file.cpp
@@ -82,7 +82,7 @@ void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descrip
                                         completion_handler<system::error_code, std::size_t> handler)
 {
 
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
@@ -95,7 +95,7 @@ void initiate_async_write_some_at_helper(boost::asio::posix::basic_stream_descri
                                         std::uint64_t offset, const_buffer_sequence seq,
                                         completion_handler<system::error_code, std::size_t> handler)
 {
-  if (lseek(str.native_handle(), SEEK_SET, offset) < 0)
+  if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
     return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
-- 
2.43.0


From a2a83ef79469efb557aec9746b3fecb15fbda42a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 28/58] fix: stream_file::seek returns the new position

---
 src/io/stream_file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/stream_file.cpp b/src/io/stream_file.cpp
index 5fbd111..113cb3a 100644
--- a/src/io/stream_file.cpp
+++ b/src/io/stream_file.cpp
@@ -43,7 +43,7 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
   system::error_code ec;
-  auto n = implementation_.seek(offset, whence);
+  auto n = implementation_.seek(offset, whence, ec);
   return ec ? ec : system::result<std::uint64_t>{n};
 }
 
@@ -104,10 +104,11 @@ stream_file::stream_file(stream_file && sf) noexcept = default;
 
 system::result<std::uint64_t> stream_file::seek(std::int64_t offset, seek_basis whence)
 {
-  if (::lseek(native_handle(), offset, whence) < 0)
+  const auto n = ::lseek(native_handle(), offset, whence);
+  if (n < 0)
     COBALT_RETURN_ERROR();
 
-  return {};
+  return static_cast<std::uint64_t>(n);
 }
 
 void stream_file::initiate_read_some_(void * this_, mutable_buffer_sequence buffer, boost::cobalt::completion_handler<system::error_code, std::size_t> handler)
-- 
2.43.0


From 5300d0e4946c926baf09859a907f6ab396b48bbe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 29/58] fix: file::open doesn't leak the descriptor it cannot
 assign, nor touch the filesystem if the file is already open

---
 src/io/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/file.cpp b/src/io/file.cpp
index 6d7bf11..ba78765 100644
--- a/src/io/file.cpp
+++ b/src/io/file.cpp
@@ -126,11 +126,15 @@ auto file::native_handle() -> native_handle_type {return file_.native_handle();}
 
 result<void> file::open(const char * path, flags open_flags)
 {
+  if (file_.is_open())
+    return error_code(asio::error::already_open);
   int r = ::open(path, static_cast<int>(open_flags), 0777);
   if (r == -1)
     COBALT_RETURN_ERROR();
   boost::system::error_code ec;
   file_.assign(r, ec);
+  if (ec)
+    ::close(r);
   return ec ? ec : result<void>{};
 }
 
-- 
2.43.0


From 2a7dfb7c19f6b60c3ba404188f2d635a60bdd07b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:55:59 +0000
Subject: [PATCH 30/58] fix: io::pipe returns the error instead of throwing it

---
 src/io/pipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/pipe.cpp b/src/io/pipe.cpp
index dbd43f9..f0b43bf 100644
--- a/src/io/pipe.cpp
+++ b/src/io/pipe.cpp
@@ -130,7 +130,7 @@ system::result<std::pair<readable_pipe, writable_pipe>> pipe(const cobalt::execu
   readable_pipe r{executor};
   writable_pipe w{executor};
   system::error_code ec;
-  asio::connect_pipe(r.implementation_, w.implementation_);
+  asio::connect_pipe(r.implementation_, w.implementation_, ec);
   if (ec)
     return ec;
   else
-- 
2.43.0


From 5457056a0a44638a764668d4c862cffa49acf7c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:57:25 +0000
Subject: [PATCH 31/58] fix: random_access_file completes a failed seek through
 the executor instead of resuming the coroutine while it suspends

---
 src/io/random_access_file.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/io/random_access_file.cpp b/src/io/random_access_file.cpp
index 8959c2e..442d0a5 100644
--- a/src/io/random_access_file.cpp
+++ b/src/io/random_access_file.cpp
@@ -9,6 +9,9 @@
 
 #include <boost/cobalt/io/random_access_file.hpp>
 
+#include <boost/asio/append.hpp>
+#include <boost/asio/associated_immediate_executor.hpp>
+#include <boost/asio/dispatch.hpp>
 
 namespace boost::cobalt::io
 {
@@ -85,7 +88,9 @@ void initiate_async_read_some_at_helper(boost::asio::posix::basic_stream_descrip
   if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
-    return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
+    const system::error_code ec{errno, ::boost::system::system_category(), &loc};
+    auto exec = asio::get_associated_immediate_executor(handler, str.get_executor());
+    return asio::dispatch(exec, asio::append(std::move(handler), ec, std::size_t(0u)));
   }
 
   visit(seq, [&](auto buffer) {str.async_read_some(buffer, std::move(handler)); });
@@ -98,7 +103,9 @@ void initiate_async_write_some_at_helper(boost::asio::posix::basic_stream_descri
   if (lseek(str.native_handle(), offset, SEEK_SET) < 0)
   {
     constexpr static boost::source_location loc{BOOST_CURRENT_LOCATION};
-    return handler(system::error_code{errno, ::boost::system::system_category(), &loc}, 0u);
+    const system::error_code ec{errno, ::boost::system::system_category(), &loc};
+    auto exec = asio::get_associated_immediate_executor(handler, str.get_executor());
+    return asio::dispatch(exec, asio::append(std::move(handler), ec, std::size_t(0u)));
   }
 
   visit(seq, [&](auto buffer) {str.async_write_some(buffer, std::move(handler)); });
-- 
2.43.0


From 851356bfa04ca5294d90a3e968a0b1fbc3da9e6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 32/58] fix: the size of a local endpoint covers its whole path

---
 src/io/endpoint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 96c4f11..43e7fa6 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -8,6 +8,8 @@
 #include <boost/cobalt/io/endpoint.hpp>
 #include <boost/asio/ip/address.hpp>
 
+#include <cstddef>
+
 namespace boost::cobalt::detail
 {
 
@@ -41,7 +43,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNIX>,
   if (sv.size() >= sizeof(un->sun_path))
     BOOST_THROW_EXCEPTION(std::length_error("unix path too long"));
   *std::copy(sv.begin(), sv.end(), un->sun_path) = '\0';
-  return sizeof(un->sun_family + sv.size() + 1u);
+  return offsetof(asio::detail::sockaddr_un_type, sun_path) + sv.size() + 1u;
 }
 
 const local_endpoint* tag_invoke(get_endpoint_tag<AF_UNIX>,
-- 
2.43.0


From f09057b1485798c8037a56fdde238cbb06995ba4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 33/58] fix: an ip endpoint made from an IPv6 address has the
 size of an IPv6 address

---
 src/io/endpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/endpoint.cpp b/src/io/endpoint.cpp
index 43e7fa6..1bd6eae 100644
--- a/src/io/endpoint.cpp
+++ b/src/io/endpoint.cpp
@@ -211,7 +211,7 @@ std::size_t tag_invoke(make_endpoint_tag<AF_UNSPEC>,
     };
     auto a = ad.to_v6().to_bytes();
     std::copy(a.begin(), a.end(), in6->sin6_addr.s6_addr);
-    return sizeof(asio::detail::sockaddr_in4_type);
+    return sizeof(asio::detail::sockaddr_in6_type);
   }
 }
 
-- 
2.43.0


From d0767d08c9eb9972265b512790787a6bf435da9e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 34/58] fix: udp_v6 names the UDP protocol

---
 include/boost/cobalt/io/endpoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/endpoint.hpp b/include/boost/cobalt/io/endpoint.hpp
index 1dda880..c8e96de 100644
--- a/include/boost/cobalt/io/endpoint.hpp
+++ b/include/boost/cobalt/io/endpoint.hpp
@@ -115,7 +115,7 @@ constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_S
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_STREAM), BOOST_ASIO_OS_DEF(IPPROTO_TCP)>  tcp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp   {};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET),   BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v4{};
-constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> udp_v6{};
+constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_INET6),  BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_UDP)>  udp_v6{};
 constexpr static_protocol<BOOST_ASIO_OS_DEF(AF_UNSPEC), BOOST_ASIO_OS_DEF(SOCK_DGRAM),  BOOST_ASIO_OS_DEF(IPPROTO_ICMP)> icmp  {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_STREAM)>    local_stream   {};
 constexpr static_protocol<AF_UNIX,                      BOOST_ASIO_OS_DEF(SOCK_DGRAM)>     local_datagram {};
-- 
2.43.0


From 5faa2d2569cf1ee000195403046b37df5006206d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 35/58] fix: seq_packet_socket::receive without out flags
 honours its in flags

---
 include/boost/cobalt/io/seq_packet_socket.hpp | 1 +
 src/io/seq_packet_socket.cpp                  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/io/seq_packet_socket.hpp b/include/boost/cobalt/io/seq_packet_socket.hpp
index 84eb9dd..61f3b78 100644
--- a/include/boost/cobalt/io/seq_packet_socket.hpp
+++ b/include/boost/cobalt/io/seq_packet_socket.hpp
@@ -55,6 +55,7 @@ struct BOOST_SYMBOL_VISIBLE seq_packet_socket final : socket
     ~receive_op() = default;
    private:
     asio::basic_seq_packet_socket<protocol_type, executor> & socket_;
+    message_flags ignored_out_flags_ = 0;
   };
 
   [[nodiscard]] receive_op receive(message_flags in_flags, message_flags& out_flags, mutable_buffer_sequence buffer)
diff --git a/src/io/seq_packet_socket.cpp b/src/io/seq_packet_socket.cpp
index ef89de0..4f4a1d5 100644
--- a/src/io/seq_packet_socket.cpp
+++ b/src/io/seq_packet_socket.cpp
@@ -61,7 +61,7 @@ void seq_packet_socket::receive_op::initiate(boost::cobalt::completion_handler<s
     visit(buffer,
           [&](auto buf)
           {
-            socket_.async_receive(buf, in_flags, std::move(handler));
+            socket_.async_receive(buf, in_flags, ignored_out_flags_, std::move(handler));
           });
 }
 
-- 
2.43.0


From 3514ecf3d4ef55e512c2a75f30fcada0e85423fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 36/58] fix: moving an ssl stream doesn't leave the socket base
 with the moved-from stream

---
 include/boost/cobalt/io/ssl.hpp | 1 +
 src/io/ssl.cpp                  | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index 2ad9506..d78481e 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -49,6 +49,7 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
                                      const cobalt::executor & executor = this_thread::get_executor());
   BOOST_COBALT_SSL_DECL stream(context & ctx, endpoint ep,
                                      const cobalt::executor & executor = this_thread::get_executor());
+  BOOST_COBALT_SSL_DECL stream(stream && lhs);
 
   [[nodiscard]] write_op write_some(const_buffer_sequence buffer) override
   {
diff --git a/src/io/ssl.cpp b/src/io/ssl.cpp
index 6c19e30..9946166 100644
--- a/src/io/ssl.cpp
+++ b/src/io/ssl.cpp
@@ -34,6 +34,13 @@ stream::stream(context & ctx, stream_socket && sock)
       socket(stream_socket_.lowest_layer())
 {}
 
+// the socket base refers to the lowest layer of this very object, so it must not be taken from lhs.
+stream::stream(stream && lhs)
+    : stream_impl{.stream_socket_=std::move(lhs.stream_socket_)},
+      socket(stream_socket_.lowest_layer()),
+      upgraded_(lhs.upgraded_)
+{}
+
 
 void stream::adopt_endpoint_(endpoint & ep)
 {
-- 
2.43.0


From 2be6b70f5df31133031094a4bcf521b8590b424c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 23:47:36 +0000
Subject: [PATCH 37/58] fix: an ssl stream is secure once its handshake
 succeeded

---
 include/boost/cobalt/io/ssl.hpp | 12 ++++++------
 src/io/ssl.cpp                  | 27 +++++++++++++++++++++++++--
 2 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/boost/cobalt/io/ssl.hpp b/include/boost/cobalt/io/ssl.hpp
index d78481e..7a1cb2c 100644
--- a/include/boost/cobalt/io/ssl.hpp
+++ b/include/boost/cobalt/io/ssl.hpp
@@ -84,12 +84,12 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code> h) final;
     void initiate(completion_handler<system::error_code> h) final;
-    handshake_op_(handshake_type type, bool upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
+    handshake_op_(handshake_type type, bool & upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : type_(type), upgraded_(upgraded), stream_socket_(stream_socket) {}
     ~handshake_op_() = default;
    private:
     handshake_type type_;
-    bool upgraded_;
+    bool & upgraded_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
 
@@ -98,13 +98,13 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code, std::size_t> h) final;
     void initiate(completion_handler<system::error_code, std::size_t> h) final;
-    handshake_buffer_op_(handshake_type type, bool upgraded, const_buffer_sequence buffer_,
+    handshake_buffer_op_(handshake_type type, bool & upgraded, const_buffer_sequence buffer_,
                          asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : type_(type), upgraded_(upgraded), buffer_(buffer_), stream_socket_(stream_socket) {}
     ~handshake_buffer_op_() = default;
    private:
     handshake_type type_;
-    bool upgraded_;
+    bool & upgraded_;
     const_buffer_sequence buffer_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
@@ -114,11 +114,11 @@ struct BOOST_SYMBOL_VISIBLE stream final : private detail::stream_impl, socket,
   {
     void ready(handler<system::error_code> h) final;
     void initiate(completion_handler<system::error_code> h) final;
-    shutdown_op_(bool upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
+    shutdown_op_(const bool & upgraded, asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>>  & stream_socket)
         : upgraded_(upgraded), stream_socket_(stream_socket) {}
     ~shutdown_op_() = default;
    private:
-    bool upgraded_;
+    const bool & upgraded_;
     asio::ssl::stream<asio::basic_stream_socket<protocol_type, executor>> &stream_socket_;
   };
  public:
diff --git a/src/io/ssl.cpp b/src/io/ssl.cpp
index 9946166..93caf73 100644
--- a/src/io/ssl.cpp
+++ b/src/io/ssl.cpp
@@ -11,6 +11,29 @@
 namespace boost::cobalt::io::ssl
 {
 
+namespace
+{
+
+// marks the stream as secure once the handshake succeeded
+template<typename ... Args>
+struct upgrade_handler : completion_handler<system::error_code, Args...>
+{
+  upgrade_handler(completion_handler<system::error_code, Args...> && handler, bool & upgraded)
+    : completion_handler<system::error_code, Args...>(std::move(handler)), upgraded_(upgraded) {}
+
+  void operator()(system::error_code ec, Args ... args)
+  {
+    if (!ec)
+      upgraded_ = true;
+    completion_handler<system::error_code, Args...>::operator()(ec, args...);
+  }
+
+ private:
+  bool & upgraded_;
+};
+
+}
+
 stream::stream(context & ctx, const cobalt::executor & exec)
     : stream_impl{.stream_socket_={exec, ctx}}, socket(stream_socket_.lowest_layer())
 {
@@ -96,7 +119,7 @@ void stream::handshake_op_::ready(handler<system::error_code> handler)
 
 void stream::handshake_op_::initiate(completion_handler<system::error_code> handler)
 {
-  stream_socket_.async_handshake(type_, std::move(handler));
+  stream_socket_.async_handshake(type_, upgrade_handler<>(std::move(handler), upgraded_));
 }
 
 void stream::handshake_buffer_op_::ready(handler<system::error_code, std::size_t> handler)
@@ -110,7 +133,7 @@ void stream::handshake_buffer_op_::ready(handler<system::error_code, std::size_t
 
 void stream::handshake_buffer_op_::initiate(completion_handler<system::error_code, std::size_t> handler)
 {
-  stream_socket_.async_handshake(type_, buffer_, std::move(handler));
+  stream_socket_.async_handshake(type_, buffer_, upgrade_handler<std::size_t>(std::move(handler), upgraded_));
 }
 
 void stream::shutdown_op_::ready(handler<system::error_code> handler)
-- 
2.43.0


From 8364614c935630e9005f1d1646bf34b80e6d2c0c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 38/58] fix: a destroyed argument of race, join and gather is
 no longer reachable through its cancellation slot

---
 include/boost/cobalt/detail/fork.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 9a86800..7eba903 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -142,6 +142,13 @@ struct fork
     {
     }
 
+    // whatever a destroyed fork was awaiting is gone, so nothing may be forwarded to it anymore.
+    ~promise_type()
+    {
+      if (cancel.is_connected())
+        cancel.clear();
+    }
+
     shared_state * state;
     asio::cancellation_slot cancel;
 
-- 
2.43.0


From ffb2f1c890b99469577e2901dad8005a28e92154 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:14:29 +0000
Subject: [PATCH 39/58] fix: awaiting a deferred operation honours
 throw_if_cancelled

---
 include/boost/cobalt/op.hpp | 70 ++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/include/boost/cobalt/op.hpp b/include/boost/cobalt/op.hpp
index 5503234..72d264a 100644
--- a/include/boost/cobalt/op.hpp
+++ b/include/boost/cobalt/op.hpp
@@ -199,24 +199,68 @@ struct use_op_t
 
 constexpr use_op_t use_op{};
 
-struct enable_await_deferred
+namespace detail
 {
-  template<typename ... Args, typename Initiation, typename ... InitArgs>
-  auto await_transform(asio::deferred_async_operation<void(Args...), Initiation, InitArgs...> op_)
+
+template<typename Signature, typename Initiation, typename ... InitArgs>
+struct deferred_op;
+
+template<typename ... Args, typename Initiation, typename ... InitArgs>
+struct deferred_op<void(Args...), Initiation, InitArgs...> : op<Args...>
+{
+  asio::deferred_async_operation<void(Args...), Initiation, InitArgs...> op_;
+  deferred_op(asio::deferred_async_operation<void(Args...), Initiation, InitArgs...> op_)
+      : op_(std::move(op_)) {}
+
+  void initiate(cobalt::completion_handler<Args...> complete) override
+  {
+    std::move(op_)(std::move(complete));
+  }
+
+  struct awaitable : op<Args...>::awaitable
   {
-    struct deferred_op : op<Args...>
+    using base_type = typename op<Args...>::awaitable;
+    awaitable(op<Args...> * op_) : base_type(op_) {}
+
+    template<typename Promise>
+    bool await_suspend(std::coroutine_handle<Promise> h
+#if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
+                     , const boost::source_location & loc = BOOST_CURRENT_LOCATION
+#endif
+    )
     {
-      asio::deferred_async_operation<void(Args...), Initiation, InitArgs...> op_;
-      deferred_op(asio::deferred_async_operation<void(Args...), Initiation, InitArgs...> op_)
-          : op_(std::move(op_)) {}
+      // the await_transform below doesn't know the promise, so throw_if_cancelled needs to be applied here.
+      if constexpr (std::derived_from<Promise, promise_throw_if_cancelled_base>)
+        if (!!h.promise().cancelled() && h.promise().throw_if_cancelled())
+        {
+          constexpr boost::source_location here{BOOST_CURRENT_LOCATION};
+          boost::throw_exception(system::system_error(
+              {asio::error::operation_aborted, &here},
+              "throw_if_cancelled"));
+        }
 
-      void initiate(cobalt::completion_handler<Args...> complete) override
-      {
-        std::move(op_)(std::move(complete));
-      }
-    };
+#if defined(BOOST_ASIO_ENABLE_HANDLER_TRACKING)
+      return base_type::await_suspend(h, loc);
+#else
+      return base_type::await_suspend(h);
+#endif
+    }
+  };
 
-    return deferred_op{std::move(op_)};
+  awaitable operator co_await()
+  {
+    return awaitable{this};
+  }
+};
+
+}
+
+struct enable_await_deferred
+{
+  template<typename ... Args, typename Initiation, typename ... InitArgs>
+  auto await_transform(asio::deferred_async_operation<void(Args...), Initiation, InitArgs...> op_)
+  {
+    return detail::deferred_op<void(Args...), Initiation, InitArgs...>{std::move(op_)};
   }
 };
 
-- 
2.43.0


From d1aefc469626e1045cfacc54ae363850b18cf3e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 40/58] fix: a signal that arrives right before main completes
 doesn't use the destroyed promise

---
 include/boost/cobalt/detail/main.hpp |  1 +
 src/main.cpp                         | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/boost/cobalt/detail/main.hpp b/include/boost/cobalt/detail/main.hpp
index b73519e..a50b4d8 100644
--- a/include/boost/cobalt/detail/main.hpp
+++ b/include/boost/cobalt/detail/main.hpp
@@ -146,6 +146,7 @@ struct main_promise : signal_helper,
     std::optional<asio::executor_work_guard<executor_type>> exec;
     std::optional<executor_type> exec_;
     asio::basic_signal_set<executor_type> * signal_set;
+    bool * completed = nullptr;
     ::boost::cobalt::main get_return_object()
     {
         return ::boost::cobalt::main{this};
diff --git a/src/main.cpp b/src/main.cpp
index aaa958f..c524853 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -20,6 +20,8 @@ auto main_promise::final_suspend() noexcept -> std::suspend_never
   system::error_code ec;
   if (signal_set)
     signal_set->cancel(ec);
+  if (completed)
+    *completed = true;
   return std::suspend_never(); // enable_yielding_tasks::final_suspend();
 }
 
@@ -34,23 +36,29 @@ int main_promise::run_main(::boost::cobalt::main mn)
   auto p = std::coroutine_handle<detail::main_promise>::from_promise(*mn.promise);
   asio::basic_signal_set<executor_type> ss{ctx, SIGINT, SIGTERM};
   mn.promise->signal_set = &ss;
+  bool completed = false;
+  mn.promise->completed = &completed;
   struct work
   {
     asio::basic_signal_set<executor_type> & ss;
     asio::cancellation_signal & signal;
+    const bool & completed;
     void operator()(system::error_code ec, int sig) const
     {
       BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
+      // the signal might've been received before the coroutine completed, in which case cancel doesn't affect it
+      if (completed)
+        return;
       if (sig == SIGINT)
         signal.emit(asio::cancellation_type::total);
       if (sig == SIGTERM)
         signal.emit(asio::cancellation_type::terminal);
-      if (!ec)
+      if (!ec && !completed)
         ss.async_wait(*this);
     }
   };
 
-  ss.async_wait(work{ss, mn.promise->signal});
+  ss.async_wait(work{ss, mn.promise->signal, completed});
   asio::post(ctx.get_executor(),
              [p]
              {
-- 
2.43.0


From b1778509e02787eb409f0954554c58c469038af1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 41/58] fix: the mutex of a thread's promise is released before
 the coroutine can be destroyed

---
 src/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 594ecd5..f26301b 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -46,7 +46,11 @@ void run_thread(
         st->ctx.get_executor(),
         [st, h = std::move(h)]() mutable
         {
-          std::lock_guard<std::mutex> lock{h->mtx};
+          {
+            // wait until the coroutine is suspended initially.
+            // unlocked before the resumption, since that might destroy the mutex.
+            std::lock_guard<std::mutex> lock{h->mtx};
+          }
           std::move(h).resume();
         });
 
-- 
2.43.0


From cfbee1d237f8ce6c5941f086b8ce7ca03e25ff33 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 42/58] fix: awaiting a finished thread with as_tuple doesn't
 access the missing result

---
 include/boost/cobalt/detail/thread.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 66e9f36..336bec5 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -196,7 +196,10 @@ struct thread_awaitable
     if (thread_)
       thread_->join();
 
-    return std::get<0>(*res);
+    if (!res) // await_ready
+      return {std::exception_ptr{}};
+
+    return *res;
   }
 
   explicit thread_awaitable(std::shared_ptr<detail::thread_state> state)
-- 
2.43.0


From 353999c98a91e77b0de11900b8e24083d1bf1448 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 43/58] fix: cancelling a finished thread doesn't leak its
 execution context

---
 include/boost/cobalt/detail/thread.hpp | 6 ++++--
 include/boost/cobalt/thread.hpp        | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 336bec5..aec25ee 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -149,11 +149,13 @@ struct thread_awaitable
             [st = state_](asio::cancellation_type type)
             {
               std::lock_guard<std::mutex> lock{st->mtx};
+              // the handler must not own the context it's queued in
               asio::post(st->ctx,
-                         [st, type]
+                         [st = std::weak_ptr<thread_state>(st), type]
                          {
                             BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
-                            st->signal.emit(type);
+                            if (auto s = st.lock())
+                              s->signal.emit(type);
                          });
             });
 
diff --git a/include/boost/cobalt/thread.hpp b/include/boost/cobalt/thread.hpp
index 5145758..f9a4bdd 100644
--- a/include/boost/cobalt/thread.hpp
+++ b/include/boost/cobalt/thread.hpp
@@ -83,11 +83,13 @@ inline
 void thread::cancel(asio::cancellation_type type)
 {
   if (auto st = state_)
-    asio::post(state_->ctx,
-               [s= state_, type]
+    // the handler must not own the context it's queued in
+    asio::post(st->ctx,
+               [st = std::weak_ptr<detail::thread_state>(st), type]
                {
                  BOOST_ASIO_HANDLER_LOCATION((__FILE__, __LINE__, __func__));
-                 s->signal.emit(type);
+                 if (auto s = st.lock())
+                   s->signal.emit(type);
                });
 }
 
-- 
2.43.0


From bc3dc051d3b8ebbe3d9d24175a5d5e03d49bb771 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 44/58] fix: what's still pending on a stopped thread is
 destroyed while its memory resource exists

---
 include/boost/cobalt/detail/thread.hpp | 8 +++++++-
 src/thread.cpp                         | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index aec25ee..739ac24 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -42,9 +42,15 @@ struct signal_helper_2
 };
 
 
+struct thread_context : asio::io_context
+{
+  using asio::io_context::io_context;
+  using asio::io_context::shutdown;
+};
+
 struct thread_state
 {
-  asio::io_context ctx{1u};
+  thread_context ctx{1u};
   asio::cancellation_signal signal;
   std::mutex mtx;
   std::optional<completion_handler<std::exception_ptr>> waitor;
diff --git a/src/thread.cpp b/src/thread.cpp
index f26301b..07326a9 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -66,6 +66,8 @@ void run_thread(
     }
     BOOST_CATCH_END
 
+    // destroy whatever is still pending here, as it may use the memory resource of this thread.
+    st->ctx.shutdown();
     st->done = true;
     st->signal.slot().clear();
     std::lock_guard<std::mutex> lock(st->mtx);
-- 
2.43.0


From 8a7cad1a9d2da4f1a0142728296df8cc458e00da Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 45/58] fix: the completion of a thread doesn't allocate from
 the memory of the awaiting thread

---
 src/thread.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 07326a9..205400f 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -74,7 +74,15 @@ void run_thread(
     if (!st->waitor && ep) // nobodies waiting, so unhandled exception
       std::rethrow_exception(ep);
     else if (st->waitor)
-      asio::post(asio::append(*std::exchange(st->waitor, std::nullopt), ep));
+    {
+      // the memory of the handler's allocator belongs to the other thread
+      auto exec = st->waitor->get_executor();
+      asio::post(exec,
+                 [w = *std::exchange(st->waitor, std::nullopt), ep]() mutable
+                 {
+                   std::move(w)(ep);
+                 });
+    }
   }
 }
 
-- 
2.43.0


From a7de198253ab1477daf85fbc4d7f78fc8454eaaf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 46/58] fix: a thread that cannot be started doesn't destroy
 its coroutine twice

---
 src/thread.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/thread.cpp b/src/thread.cpp
index 205400f..edb52e0 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -91,10 +91,10 @@ boost::cobalt::thread detail::thread_promise::get_return_object()
 {
   auto st = std::make_shared<thread_state>();
   boost::cobalt::thread res{std::thread{
-      [st,
-       h = unique_handle<detail::thread_promise>::from_promise(*this)]() mutable
+      [st, p = this]() mutable
       {
-        run_thread(std::move(st), std::move(h));
+        // take the ownership on the thread, in case it can't get started
+        run_thread(std::move(st), unique_handle<detail::thread_promise>::from_promise(*p));
       }
      }, st
     };
-- 
2.43.0


From 602e476aa3744028e328d6bdff397dc372012329 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:46:25 +0000
Subject: [PATCH 47/58] fix: awaiting a joined thread as an rvalue doesn't join
 it again

---
 include/boost/cobalt/detail/thread.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 739ac24..1cb8f37 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -175,7 +175,7 @@ struct thread_awaitable
   {
     if (cl.is_connected())
       cl.clear();
-    if (thread_)
+    if (thread_ && thread_->joinable())
       thread_->join();
     if (!res) // await_ready
       return;
@@ -187,7 +187,7 @@ struct thread_awaitable
   {
     if (cl.is_connected())
       cl.clear();
-    if (thread_)
+    if (thread_ && thread_->joinable())
       thread_->join();
     if (!res) // await_ready
       return {system::in_place_value};
@@ -201,7 +201,7 @@ struct thread_awaitable
   {
     if (cl.is_connected())
       cl.clear();
-    if (thread_)
+    if (thread_ && thread_->joinable())
       thread_->join();
 
     if (!res) // await_ready
-- 
2.43.0


From acb351767d7bad4139dfd8d332be4dd9b206112f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:16:10 +0000
Subject: [PATCH 48/58] fix: the memory resource of a thread lives as long as
 what is pending on it

instead of shutting the context down on the thread, which isn't ordered with a concurrent cancellation.
---
 include/boost/cobalt/detail/thread.hpp | 12 +++++-------
 src/thread.cpp                         |  7 ++-----
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/boost/cobalt/detail/thread.hpp b/include/boost/cobalt/detail/thread.hpp
index 1cb8f37..a41d6a6 100644
--- a/include/boost/cobalt/detail/thread.hpp
+++ b/include/boost/cobalt/detail/thread.hpp
@@ -42,15 +42,13 @@ struct signal_helper_2
 };
 
 
-struct thread_context : asio::io_context
-{
-  using asio::io_context::io_context;
-  using asio::io_context::shutdown;
-};
-
 struct thread_state
 {
-  thread_context ctx{1u};
+#if !defined(BOOST_COBALT_NO_PMR)
+  // outlives the context, because what's pending there uses it.
+  pmr::unsynchronized_pool_resource resource;
+#endif
+  asio::io_context ctx{1u};
   asio::cancellation_signal signal;
   std::mutex mtx;
   std::optional<completion_handler<std::exception_ptr>> waitor;
diff --git a/src/thread.cpp b/src/thread.cpp
index edb52e0..b302ac1 100644
--- a/src/thread.cpp
+++ b/src/thread.cpp
@@ -31,9 +31,8 @@ void run_thread(
 {
 
 #if !defined(BOOST_COBALT_NO_PMR)
-  pmr::unsynchronized_pool_resource resource;
-  boost::cobalt::this_thread::set_default_resource(&resource);
-  h->resource = &resource;
+  boost::cobalt::this_thread::set_default_resource(&st_->resource);
+  h->resource = &st_->resource;
 #endif
 
   {
@@ -66,8 +65,6 @@ void run_thread(
     }
     BOOST_CATCH_END
 
-    // destroy whatever is still pending here, as it may use the memory resource of this thread.
-    st->ctx.shutdown();
     st->done = true;
     st->signal.slot().clear();
     std::lock_guard<std::mutex> lock(st->mtx);
-- 
2.43.0


From 774243228db69dc96fba2ee745bfe6ceacff14fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:42:17 +0000
Subject: [PATCH 49/58] fix: a context destroys its frame exactly once and
 doesn't touch it once it's gone

The frame lives on the stack of the context. If it ran to the end (final_suspend not suspending) the stack was
released and then written to, while the promise was never destroyed. When destroyed while suspended, the promise
was destroyed before everything on the stack.
---
 include/boost/cobalt/experimental/context.hpp | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 5ae6aa4..9ed9fee 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -13,6 +13,7 @@
 #include <boost/cobalt/experimental/frame.hpp>
 #include <boost/cobalt/config.hpp>
 #include <coroutine>
+#include <memory>
 #include <new>
 
 namespace boost::cobalt::experimental
@@ -42,14 +43,18 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
 
   void resume()
   {
-    callee = std::move(callee).resume();
+    auto c = std::move(callee).resume();
+    // the context ran to its end, so this frame is gone
+    if (!c)
+      return;
+    callee = std::move(c);
     if (auto af = std::exchange(after_resume, nullptr))
       af(this, after_resume_p);
   }
   void destroy()
   {
+    // unwinds the stack, after which the function object (i.e. the invoker) destroys this frame.
     auto c = std::exchange(callee, {});
-    this->~context_frame();
   }
 
   template<typename Awaitable>
@@ -306,14 +311,20 @@ auto make_context(Func && func, std::allocator_arg_t, StackAlloc  && salloc, Arg
         requires (promise_type & pro) {{pro.initial_suspend()} -> std::same_as<std::suspend_always>;}
       && noexcept(f->promise.initial_suspend());
 
+  struct frame_destroyer
+  {
+    void operator()(detail::context_frame<promise_type> * frame) const {frame->~context_frame();}
+  };
+
   struct invoker
   {
-    detail::context_frame<promise_type> * frame;
     mutable Func func;
     mutable std::tuple<Args...> args;
+    // destroyed with the stack, i.e. also if the context doesn't run at all.
+    std::unique_ptr<detail::context_frame<promise_type>, frame_destroyer> frame;
 
     invoker(detail::context_frame<promise_type> * frame, Func && func, Args && ...  args)
-        : frame(frame), func(std::forward<Func>(func)), args(std::forward<Args>(args)...)
+        : func(std::forward<Func>(func)), args(std::forward<Args>(args)...), frame(frame)
     {
     }
 
@@ -342,6 +353,7 @@ auto make_context(Func && func, std::allocator_arg_t, StackAlloc  && salloc, Arg
       catch (...) {promise.unhandled_exception();}
 
       static_assert(noexcept(promise.final_suspend()));
+      frame->resume_ = nullptr; // done
       frame->do_await(promise.final_suspend());
       return std::move(frame->caller);
     }
-- 
2.43.0


From b1179f004dc593c3d01356e2fd5e8923a5596c65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:43:04 +0000
Subject: [PATCH 50/58] fix: an exception leaving unhandled_exception of a
 context is thrown by resume instead of terminating

---
 include/boost/cobalt/experimental/context.hpp | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 9ed9fee..feccfe9 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -13,6 +13,7 @@
 #include <boost/cobalt/experimental/frame.hpp>
 #include <boost/cobalt/config.hpp>
 #include <coroutine>
+#include <exception>
 #include <memory>
 #include <new>
 
@@ -32,6 +33,8 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
 
   void (*after_resume)(context_frame *, void *) = nullptr;
   void * after_resume_p;
+  // where an exception leaving the context goes.
+  std::exception_ptr * unhandled = nullptr;
 
   template<typename ... Args>
     requires std::constructible_from<Promise, Args...>
@@ -43,10 +46,16 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
 
   void resume()
   {
+    std::exception_ptr ep;
+    unhandled = &ep;
     auto c = std::move(callee).resume();
     // the context ran to its end, so this frame is gone
     if (!c)
+    {
+      if (ep)
+        std::rethrow_exception(ep);
       return;
+    }
     callee = std::move(c);
     if (auto af = std::exchange(after_resume, nullptr))
       af(this, after_resume_p);
@@ -350,7 +359,16 @@ auto make_context(Func && func, std::allocator_arg_t, StackAlloc  && salloc, Arg
             std::move(args));
       }
       catch (boost::context::detail::forced_unwind &) { throw; }
-      catch (...) {promise.unhandled_exception();}
+      catch (...)
+      {
+        // unhandled_exception may throw, which must leave through resume like it does with a coroutine.
+        try {promise.unhandled_exception();}
+        catch (...)
+        {
+          *frame->unhandled = std::current_exception();
+          return std::move(frame->caller);
+        }
+      }
 
       static_assert(noexcept(promise.final_suspend()));
       frame->resume_ = nullptr; // done
-- 
2.43.0


From fb1805869747c0b76a48ecd6d63d6c6a8d6a1622 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:44:39 +0000
Subject: [PATCH 51/58] fix: context::yield returns what the promise's
 awaitable returns, e.g. the value pushed to a generator

---
 include/boost/cobalt/experimental/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index feccfe9..719820a 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -281,7 +281,7 @@ struct context
     requires requires (promise_type & pro, Yield && value) {{pro.yield_value(std::forward<Yield>(value))} -> awaitable_type<promise_type>;}
   auto yield(Yield && value)
   {
-    frame_->do_await(frame_->promise.yield_value(std::forward<Yield>(value)));
+    return frame_->do_await(frame_->promise.yield_value(std::forward<Yield>(value)));
   }
 
  private:
-- 
2.43.0


From 98796c52646e53f20987cc0eb7671d088d010ea0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 52/58] fix: a context awaits the awaitable it's given instead
 of a copy

---
 include/boost/cobalt/experimental/context.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 719820a..3728d2e 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -102,12 +102,13 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
 
 
   template<typename Awaitable>
-  auto do_await(Awaitable aw)
+  auto do_await(Awaitable && aw)
   {
     if (!aw.await_ready())
     {
-      after_resume_p = & aw;
-      after_resume = do_resume<Awaitable>(
+      using type = std::remove_reference_t<Awaitable>;
+      after_resume_p = const_cast<std::remove_cv_t<type>*>(std::addressof(aw));
+      after_resume = do_resume<type>(
           static_cast<decltype(aw.await_suspend(std::declval<std::coroutine_handle<Promise>>()))*>(nullptr)
           );
       caller = std::move(caller).resume();
-- 
2.43.0


From 39f50c9c97d613bd2cb318e36ac7bfff852bc841 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 53/58] fix: an exception thrown by await_suspend continues in
 the awaiting context

---
 include/boost/cobalt/experimental/context.hpp | 30 +++++++++++++++++--
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 3728d2e..931aa36 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -35,6 +35,8 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
   void * after_resume_p;
   // where an exception leaving the context goes.
   std::exception_ptr * unhandled = nullptr;
+  // what await_suspend threw
+  std::exception_ptr suspend_error;
 
   template<typename ... Args>
     requires std::constructible_from<Promise, Args...>
@@ -66,6 +68,22 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
     auto c = std::exchange(callee, {});
   }
 
+  // false if it threw, i.e. if the context needs to continue with the exception.
+  template<typename Func>
+  bool try_suspend(Func && func)
+  {
+    try
+    {
+      std::forward<Func>(func)();
+      return true;
+    }
+    catch (...)
+    {
+      suspend_error = std::current_exception();
+      return false;
+    }
+  }
+
   template<typename Awaitable>
   auto do_resume(void * )
   {
@@ -73,7 +91,8 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
     {
       auto aw_ = static_cast<Awaitable*>(p);
       auto h = std::coroutine_handle<Promise>::from_address(this_) ;
-      aw_->await_suspend(h);
+      if (!this_->try_suspend([&]{aw_->await_suspend(h);}))
+        h.resume();
     };
   }
 
@@ -84,7 +103,8 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
     {
       auto aw_ = static_cast<Awaitable*>(p);
       auto h = std::coroutine_handle<Promise>::from_address(this_) ;
-      if (!aw_->await_suspend(h))
+      bool suspended = false;
+      if (!this_->try_suspend([&]{suspended = aw_->await_suspend(h);}) || !suspended)
         h.resume();
     };
   }
@@ -96,7 +116,9 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
     {
       auto aw_ = static_cast<Awaitable*>(p);
       auto h = std::coroutine_handle<Promise>::from_address(this_) ;
-      aw_->await_suspend(h).resume();
+      std::coroutine_handle<void> next = h;
+      this_->try_suspend([&]{next = aw_->await_suspend(h);});
+      next.resume();
     };
   }
 
@@ -112,6 +134,8 @@ struct context_frame : frame<context_frame<Promise>,  Promise>
           static_cast<decltype(aw.await_suspend(std::declval<std::coroutine_handle<Promise>>()))*>(nullptr)
           );
       caller = std::move(caller).resume();
+      if (suspend_error)
+        std::rethrow_exception(std::exchange(suspend_error, nullptr));
     }
     return aw.await_resume();
   }
-- 
2.43.0


From f6d52d5d31ff4dab110f38e14b8c1bfb997436f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 01:52:19 +0000
Subject: [PATCH 54/58] fix: a spawned asio coroutine continues when
 await_suspend doesn't suspend or throws

---
 .../cobalt/experimental/yield_context.hpp     | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/boost/cobalt/experimental/yield_context.hpp b/include/boost/cobalt/experimental/yield_context.hpp
index 800f6a6..2e8b877 100644
--- a/include/boost/cobalt/experimental/yield_context.hpp
+++ b/include/boost/cobalt/experimental/yield_context.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/asio/spawn.hpp>
 #include <coroutine>
+#include <exception>
 
 template<typename Executor>
 struct std::coroutine_handle<boost::asio::basic_yield_context<Executor>>
@@ -24,7 +25,7 @@ struct std::coroutine_handle<boost::asio::basic_yield_context<Executor>>
   constexpr bool done() const noexcept { return false; }
   void operator()() const noexcept {}
 
-  void resume() const noexcept {frame_->promiseresume();}
+  void resume() const {frame_->resume();}
   void destroy() const noexcept {frame_->destroy();}
 
   boost::asio::basic_yield_context<Executor> & promise() const noexcept { return frame_->promise; }
@@ -65,22 +66,34 @@ auto await(Aw && aw, boost::asio::basic_yield_context<Executor> ctx)
     using ch = std::coroutine_handle<boost::asio::basic_yield_context<Executor>>;
     typename ch::yield_context_frame fr{std::move(ctx)};
     ch h{fr};
+    std::exception_ptr error;
     ctx.spawned_thread_->suspend_with(
         [&]
         {
           using rt = decltype(std::forward<Aw>(aw).await_suspend(h));
-          if constexpr (std::is_void_v<rt>)
-            std::forward<Aw>(aw).await_suspend(h);
-          else if constexpr (std::is_same_v<rt, bool>)
+          std::coroutine_handle<void> next = std::noop_coroutine();
+          try
           {
-            if (!std::forward<Aw>(aw).await_suspend(h))
-              ctx.spawned_thread_->resume();
+            if constexpr (std::is_void_v<rt>)
+              std::forward<Aw>(aw).await_suspend(h);
+            else if constexpr (std::is_same_v<rt, bool>)
+            {
+              if (!std::forward<Aw>(aw).await_suspend(h))
+                next = h;
+            }
+            else
+              next = std::forward<Aw>(aw).await_suspend(h);
           }
-          else
-            std::forward<Aw>(aw).await_suspend(h).resume();
+          catch (...)
+          {
+            error = std::current_exception();
+            next = h;
+          }
+          next.resume();
         }
     );
-
+    if (error)
+      std::rethrow_exception(error);
   }
   return std::forward<Aw>(aw).await_resume();
 
-- 
2.43.0


From e5bd635444a292004283011174dcda045760ef90 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 55/58] fix: interrupting an await doesn't resume somebody else
 awaiting the same promise or generator

---
 include/boost/cobalt/detail/generator.hpp | 5 +++++
 include/boost/cobalt/detail/promise.hpp   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/boost/cobalt/detail/generator.hpp b/include/boost/cobalt/detail/generator.hpp
index 3c0c944..66b2a0d 100644
--- a/include/boost/cobalt/detail/generator.hpp
+++ b/include/boost/cobalt/detail/generator.hpp
@@ -182,6 +182,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
     generator_receiver *self;
     std::exception_ptr ex;
     asio::cancellation_slot cl;
+    void * awaited_by = nullptr; // set while this awaitable is what waits for the generator
 
     variant2::variant<variant2::monostate, Push *, const Push *> to_push;
 
@@ -222,6 +223,7 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
           cl.emplace<forward_cancellation>(*self->cancel_signal);
 
       self->awaited_from.reset(h.address());
+      awaited_by = h.address();
 
       // an eager generator can also wait for a push here, if the value it yielded was taken by `get`.
       const bool waits_for_push = self->lazy || self->yield_from != nullptr;
@@ -325,6 +327,9 @@ struct generator_receiver : generator_receiver_base<Yield, Push>
     {
       if (!self)
         return ;
+      // don't interrupt anyone else who awaits the generator
+      if (self->awaited_from && self->awaited_from.get() != awaited_by)
+        return ;
       ex = detached_exception();
 
       if (self->awaited_from)
diff --git a/include/boost/cobalt/detail/promise.hpp b/include/boost/cobalt/detail/promise.hpp
index 2fbe808..f718815 100644
--- a/include/boost/cobalt/detail/promise.hpp
+++ b/include/boost/cobalt/detail/promise.hpp
@@ -173,6 +173,7 @@ struct promise_receiver : promise_value_holder<T>
     promise_receiver * self;
     std::exception_ptr ex;
     asio::cancellation_slot cl;
+    void * awaited_by = nullptr; // set while this awaitable is what waits for the promise
 
     awaitable(promise_receiver * self) : self(self)
     {
@@ -207,6 +208,7 @@ struct promise_receiver : promise_value_holder<T>
           cl.emplace<forward_cancellation>(*self->cancel_signal);
 
       self->awaited_from.reset(h.address());
+      awaited_by = h.address();
       return true;
     }
 
@@ -254,6 +256,9 @@ struct promise_receiver : promise_value_holder<T>
     {
       if (!self)
         return ;
+      // don't interrupt anyone else who awaits the promise
+      if (self->awaited_from && self->awaited_from.get() != awaited_by)
+        return ;
       ex = detached_exception();
       if (self->awaited_from)
         self->awaited_from.release().resume();
-- 
2.43.0


From 96705c8a6d1376345be055ea1af4013f646bc212 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:36:25 +0000
Subject: [PATCH 56/58] fix: join and gather forward interruptions, and survive
 completing while they are interrupted

---
 include/boost/cobalt/detail/fork.hpp   | 17 +++++++++++++++++
 include/boost/cobalt/detail/gather.hpp | 17 ++++++++++++-----
 include/boost/cobalt/detail/join.hpp   | 22 +++++++++++++++++++---
 include/boost/cobalt/detail/race.hpp   |  2 ++
 4 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/include/boost/cobalt/detail/fork.hpp b/include/boost/cobalt/detail/fork.hpp
index 7eba903..fb371c7 100644
--- a/include/boost/cobalt/detail/fork.hpp
+++ b/include/boost/cobalt/detail/fork.hpp
@@ -57,6 +57,23 @@ struct fork
 
     bool outstanding_work() {return use_count != 0u;}
 
+    // keeps the state alive while the forks get interrupted one by one, and resumes coro when none is left.
+    struct interrupt_guard
+    {
+      shared_state & st;
+      interrupt_guard(shared_state & st) : st(st) {st.use_count++;}
+      interrupt_guard(const interrupt_guard &) = delete;
+      ~interrupt_guard()
+      {
+        if (st.use_count-- == 1u && st.coro)
+        {
+          // the handler refers to the state, which is gone once coro moves on
+          st.cancel_slot.clear();
+          st.coro.release().resume();
+        }
+      }
+    };
+
     std::optional<executor> exec{};
     bool wired_up() {return exec.has_value();}
 
diff --git a/include/boost/cobalt/detail/gather.hpp b/include/boost/cobalt/detail/gather.hpp
index 507257d..ed45b7f 100644
--- a/include/boost/cobalt/detail/gather.hpp
+++ b/include/boost/cobalt/detail/gather.hpp
@@ -73,17 +73,19 @@ struct gather_variadic_impl
     template<std::size_t Idx>
     void interrupt_await_step()
     {
-      using type= std::tuple_element_t<Idx, std::tuple<Args...>>;
+      using type = std::tuple_element_t<Idx, tuple_type>;
       using t = std::conditional_t<
-          std::is_reference_v<std::tuple_element_t<Idx, decltype(aws)>>,
-          co_awaitable_type<type> &,
-          co_awaitable_type<type> &&>;
+          std::is_reference_v<std::tuple_element_t<Idx, std::tuple<Args...>>>,
+          type &,
+          type &&>;
 
       if constexpr (interruptible<t>)
+        if (std::get<Idx>(result).index() == 0u)
           static_cast<t>(std::get<Idx>(aws)).interrupt_await();
     }
     void interrupt_await()
     {
+      fork::shared_state::interrupt_guard guard{*this};
       mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
           ([&](auto idx)
            {
@@ -296,13 +298,18 @@ struct gather_ranged_impl
 
     void interrupt_await()
     {
+      fork::shared_state::interrupt_guard guard{*this};
       using t = std::conditional_t<std::is_reference_v<Range>,
                                    co_awaitable_type<type> &,
                                    co_awaitable_type<type> &&>;
 
       if constexpr (interruptible<t>)
+      {
+        std::size_t idx = 0u;
         for (auto & aw : aws)
-          static_cast<t>(aw).interrupt_await();
+          if (result[idx++].index() == 0u)
+            static_cast<t>(aw).interrupt_await();
+      }
     }
 
     static detail::fork await_impl(awaitable & this_, std::size_t idx)
diff --git a/include/boost/cobalt/detail/join.hpp b/include/boost/cobalt/detail/join.hpp
index 55a92a6..cfdf728 100644
--- a/include/boost/cobalt/detail/join.hpp
+++ b/include/boost/cobalt/detail/join.hpp
@@ -72,6 +72,7 @@ struct join_variadic_impl
                        variant2::monostate,
                        std::tuple<result_store_part<Args>...>> result;
     std::exception_ptr error;
+    bool interrupting = false;
 
     template<std::size_t Idx>
     void cancel_step()
@@ -107,11 +108,16 @@ struct join_variadic_impl
 
     void interrupt_await()
     {
+      fork::shared_state::interrupt_guard guard{*this};
+      interrupting = true;
       mp11::mp_for_each<mp11::mp_iota_c<sizeof...(Args)>>
           ([&](auto idx)
            {
              interrupt_await_step<idx>();
            });
+      interrupting = false;
+      if (error)
+        cancel_all();
     }
 
     // GCC doesn't like member funs
@@ -156,7 +162,9 @@ struct join_variadic_impl
     {
       if (!this_.error)
            this_.error = std::current_exception();
-      this_.cancel_all();
+      // what's awaited gets interrupted instead
+      if (!this_.interrupting)
+        this_.cancel_all();
     }
     BOOST_CATCH_END
 
@@ -342,6 +350,7 @@ struct join_ranged_impl
           alloc};
 #endif
     std::exception_ptr error{};
+    bool interrupting = false;
 
     awaitable(Range & aws_, std::false_type /* needs  operator co_await */)
       :  fork::shared_state((512 + sizeof(co_awaitable_type<type>) + result_size) * std::size(aws_))
@@ -380,16 +389,21 @@ struct join_ranged_impl
 
     void interrupt_await()
     {
+      fork::shared_state::interrupt_guard guard{*this};
       using t = std::conditional_t<std::is_reference_v<Range>,
           co_awaitable_type<type> &,
           co_awaitable_type<type> &&>;
 
       if constexpr (interruptible<t>)
       {
+        interrupting = true;
         std::size_t idx = 0u;
         for (auto & aw : aws)
-          if (cancel[idx])
+          if (cancel[idx++])
             static_cast<t>(aw).interrupt_await();
+        interrupting = false;
+        if (error)
+          cancel_all();
       }
     }
 
@@ -421,7 +435,9 @@ struct join_ranged_impl
     {
       if (!this_.error)
         this_.error = std::current_exception();
-      this_.cancel_all();
+      // what's awaited gets interrupted instead
+      if (!this_.interrupting)
+        this_.cancel_all();
     }
     BOOST_CATCH_END
 
diff --git a/include/boost/cobalt/detail/race.hpp b/include/boost/cobalt/detail/race.hpp
index d9e0bb0..bcf5a58 100644
--- a/include/boost/cobalt/detail/race.hpp
+++ b/include/boost/cobalt/detail/race.hpp
@@ -153,6 +153,7 @@ struct race_variadic_impl
 
     void interrupt_await()
     {
+      fork::shared_state::interrupt_guard guard{*this};
       for (auto i : working)
         if (i)
           i->interrupt_await();
@@ -518,6 +519,7 @@ struct race_ranged_impl
 
     void interrupt_await()
     {
+      fork::shared_state::interrupt_guard guard{*this};
       if constexpr (traits::interruptible)
         for (auto aw : working)
           if (aw)
-- 
2.43.0


From bee430b9defd33f045a12f4995b46eaebb6d0ac0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:03:59 +0000
Subject: [PATCH 57/58] fix: a stackful coroutine that cannot be created
 releases its stack

---
 include/boost/cobalt/experimental/context.hpp | 29 +++++++++++++++++--
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/include/boost/cobalt/experimental/context.hpp b/include/boost/cobalt/experimental/context.hpp
index 931aa36..b4620a6 100644
--- a/include/boost/cobalt/experimental/context.hpp
+++ b/include/boost/cobalt/experimental/context.hpp
@@ -337,7 +337,26 @@ auto make_context(Func && func, std::allocator_arg_t, StackAlloc  && salloc, Arg
   }
 
   boost::context::preallocated psc{p, sz, sctx_};
+
+  // releases the stack if the promise can't be created or the function & arguments can't be moved onto it.
+  struct stack_guard
+  {
+    std::remove_reference_t<StackAlloc> & salloc;
+    boost::context::stack_context sctx;
+    detail::context_frame<promise_type> * frame = nullptr;
+    bool armed = true;
+
+    ~stack_guard()
+    {
+      if (frame != nullptr)
+        frame->~context_frame();
+      if (armed)
+        salloc.deallocate(sctx);
+    }
+  } guard{salloc, sctx_};
+
   auto f = new (p) detail::context_frame<promise_type>(args...);
+  guard.frame = f;
 
   auto res = f->promise.get_return_object();
 
@@ -403,9 +422,13 @@ auto make_context(Func && func, std::allocator_arg_t, StackAlloc  && salloc, Arg
 
   };
 
-  f->callee = boost::context::fiber{
-    std::allocator_arg, psc, std::forward<StackAlloc>(salloc),
-    invoker(f, std::forward<Func>(func), std::forward<Args>(args)...)};
+  {
+    invoker inv(f, std::forward<Func>(func), std::forward<Args>(args)...);
+    guard.frame = nullptr; // the invoker owns it
+
+    f->callee = boost::context::fiber{std::allocator_arg, psc, std::forward<StackAlloc>(salloc), std::move(inv)};
+    guard.armed = false;
+  }
 
   if constexpr (is_always_lazy)
     f->promise.initial_suspend();
-- 
2.43.0


From b06c024b9b9533547aa7693fc4de4a8f09f3f2c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:10:13 +0000
Subject: [PATCH 58/58] fix: an operation that fails to start leaves nothing in
 the cancellation slot of its coroutine

---
 include/boost/cobalt/op.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/cobalt/op.hpp b/include/boost/cobalt/op.hpp
index 72d264a..9364146 100644
--- a/include/boost/cobalt/op.hpp
+++ b/include/boost/cobalt/op.hpp
@@ -84,6 +84,8 @@ struct BOOST_SYMBOL_VISIBLE op
       BOOST_CATCH(...)
       {
         init_ep = std::current_exception();
+        // a later cancellation must not reach what the failed initiation left in the slot
+        asio::get_associated_cancellation_slot(h.promise()).clear();
         return false;
       }
       BOOST_CATCH_END
-- 
2.43.0

