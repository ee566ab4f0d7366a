From 9534df1de480cbb1bd150ef7b5e448cb93db06cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:05 +0000
Subject: [PATCH 01/16] fix: do not run pool jobs inline while holding the pool
 lock

Scheduling a job from inside a job runs on a worker thread. The worker
notification used dispatch, which calls the task directly when the target is
the calling thread. The task then locked the pool guard a second time and
deadlocked. Queue the notification instead.
---
 threadpp/thread_pool.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index ad5dc8d..8405b64 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -202,7 +202,9 @@ private:
                 auto& workers = workers_[priority];
                 for(auto& w : workers)
                 {
-                    dispatch(w.get_id(),
+                    // always queue it, a direct call would
+                    // try to lock the guard we are holding
+                    invoke(w.get_id(),
                            [this, priority]()
                            {
                                check_jobs(priority);
-- 
2.43.0


From d555c80abfa8fa3f3673ffb0cdd72cd9cbcd2bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:05 +0000
Subject: [PATCH 02/16] fix: destroy stopped pool jobs outside the lock and
 keep running jobs waitable

Destroying a job breaks its promise, which runs continuations. This happened
under the pool guard, so a continuation that used the pool deadlocked.
stop_all also dropped the entries of running jobs, so wait and wait_all
returned before these jobs were done.
---
 threadpp/thread_pool.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 8405b64..09ed967 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -117,6 +117,9 @@ public:
 
     void clear(job_id id, bool check_callable)
     {
+        // destroying a job may run user code, so it
+        // must happen after the lock is released
+        job_info removed;
         std::lock_guard<std::mutex> lock(guard_);
         auto it = jobs_.find(id);
         if(it != jobs_.end())
@@ -125,11 +128,13 @@ public:
             {
                 if(it->second.callable)
                 {
+                    removed = std::move(it->second);
                     jobs_.erase(id);
                 }
             }
             else
             {
+                removed = std::move(it->second);
                 jobs_.erase(id);
             }
         }
@@ -137,8 +142,23 @@ public:
 
     void clear_all()
     {
+        // destroying a job may run user code, so it
+        // must happen after the lock is released
+        std::vector<job_info> removed;
         std::lock_guard<std::mutex> lock(guard_);
-        jobs_.clear();
+        for(auto it = jobs_.begin(); it != jobs_.end();)
+        {
+            // jobs which are already executing must stay waitable
+            if(it->second.callable)
+            {
+                removed.emplace_back(std::move(it->second));
+                it = jobs_.erase(it);
+            }
+            else
+            {
+                ++it;
+            }
+        }
         job_priority_queues_.clear();
     }
 
-- 
2.43.0


From 747ef93c6d78cd333ca4a1affbdab435df39fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:05 +0000
Subject: [PATCH 03/16] fix: complete when_all/when_any outside of the context
 lock

Storing the combined result runs the continuations attached to it. They ran
with the context mutex held, so a continuation that processed further inputs of
the same when_any deadlocked. Take the result under the lock and publish it
after unlocking.
---
 threadpp/when_all_any.hpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/threadpp/when_all_any.hpp b/threadpp/when_all_any.hpp
index 9812d79..9f14092 100644
--- a/threadpp/when_all_any.hpp
+++ b/threadpp/when_all_any.hpp
@@ -67,7 +67,7 @@ void when_any_inner_helper(Context context)
         .then(id,
               [context](ith_future_type f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   if(!context->ready)
                   {
                       context->ready = true;
@@ -76,8 +76,10 @@ void when_any_inner_helper(Context context)
                       if(context->processed == context->total && !context->result_moved)
                       {
                           context->recover_input_futures();
-                          context->p.set_value(std::move(context->result));
                           context->result_moved = true;
+                          auto result = std::move(context->result);
+                          lock.unlock();
+                          context->p.set_value(std::move(result));
                       }
                   }
               });
@@ -162,12 +164,14 @@ void when_inner_helper(Context context, Future&& f)
         .then(id,
               [context](auto f)
               {
-                  std::lock_guard<std::mutex> lock(context->mutex);
+                  std::unique_lock<std::mutex> lock(context->mutex);
                   ++context->ready_futures;
                   std::get<I>(context->result) = std::move(f);
                   if(context->ready_futures == context->total_futures)
                   {
-                      context->p.set_value(std::move(context->result));
+                      auto result = std::move(context->result);
+                      lock.unlock();
+                      context->p.set_value(std::move(result));
                   }
               });
 }
@@ -242,12 +246,14 @@ auto when_all(InputIt first, InputIt last) -> future<std::vector<typename std::i
         shared_context->result[index].then(id,
                                            [shared_context, index](auto f)
                                            {
-                                               std::lock_guard<std::mutex> lock(shared_context->mutex);
+                                               std::unique_lock<std::mutex> lock(shared_context->mutex);
                                                shared_context->result[index] = std::move(f);
                                                ++shared_context->ready_futures;
                                                if(shared_context->ready_futures == shared_context->total_futures)
                                                {
-                                                   shared_context->p.set_value(std::move(shared_context->result));
+                                                   auto result = std::move(shared_context->result);
+                                                   lock.unlock();
+                                                   shared_context->p.set_value(std::move(result));
                                                }
                                            });
     }
@@ -335,7 +341,7 @@ auto when_any(InputIt first, InputIt last)
             id,
             [shared_context, index](auto f)
             {
-                std::lock_guard<std::mutex> lock(shared_context->mutex);
+                std::unique_lock<std::mutex> lock(shared_context->mutex);
                 if(!shared_context->ready)
                 {
                     shared_context->result.index = index;
@@ -344,8 +350,10 @@ auto when_any(InputIt first, InputIt last)
                     if(shared_context->processed == shared_context->total && !shared_context->promise_set)
                     {
                         shared_context->recover_input_futures();
-                        shared_context->p.set_value(std::move(shared_context->result));
                         shared_context->promise_set = true;
+                        auto result = std::move(shared_context->result);
+                        lock.unlock();
+                        shared_context->p.set_value(std::move(result));
                     }
                 }
             });
@@ -353,12 +361,14 @@ auto when_any(InputIt first, InputIt last)
     }
 
     {
-        std::lock_guard<std::mutex> lock(shared_context->mutex);
+        std::unique_lock<std::mutex> lock(shared_context->mutex);
         if(shared_context->ready && !shared_context->promise_set)
         {
             shared_context->recover_input_futures();
-            shared_context->p.set_value(std::move(shared_context->result));
             shared_context->promise_set = true;
+            auto result = std::move(shared_context->result);
+            lock.unlock();
+            shared_context->p.set_value(std::move(result));
         }
     }
 
@@ -402,12 +412,14 @@ auto when_any(Futures&&... futures) -> future<when_any_result<std::tuple<std::de
     detail::fill_result_helper<0>(shared_context, std::forward<Futures>(futures)...);
     detail::when_any_helper_struct<0, sz_futures>::apply(shared_context, shared_context->result.futures);
     {
-        std::lock_guard<std::mutex> lock(shared_context->mutex);
+        std::unique_lock<std::mutex> lock(shared_context->mutex);
         if(shared_context->ready && !shared_context->result_moved)
         {
             shared_context->recover_input_futures();
-            shared_context->p.set_value(std::move(shared_context->result));
             shared_context->result_moved = true;
+            auto result = std::move(shared_context->result);
+            lock.unlock();
+            shared_context->p.set_value(std::move(result));
         }
     }
     return shared_context->p.get_future();
-- 
2.43.0


From 7d426df8c4ecd90c18546dfd31c8b7e70ea38666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 04/16] fix: never call or replace the configured callbacks
 under the global lock

init and shutdown called the log callbacks with the global mutex held, so a
callback that posted its message to another thread deadlocked. The callbacks
were also read without any synchronisation while shutdown replaced them.
Keep the configuration in an atomically replaced snapshot, and log unlocked.
---
 threadpp/thread.cpp | 57 ++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 96292f3..09960ca 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -35,9 +35,10 @@ struct program_context
     std::mutex mutex;
     std::unordered_map<std::thread::id, thread::id> id_map;
     std::unordered_map<thread::id, std::shared_ptr<thread_context>> contexts;
-    thread::id main_thread_id{invalid_id()};
+    std::atomic<thread::id> main_thread_id{invalid_id()};
     std::atomic<size_t> init_count{0};
-    init_data config;
+    // replaced as a whole, only accessed via get_config/set_config
+    std::shared_ptr<const init_data> config = std::make_shared<init_data>();
 };
 
 #define log_info_func(msg)  log_info("[tpp::" + std::string(__func__) + "] : " + (msg))
@@ -65,44 +66,54 @@ auto get_local_context() -> thread_context&
     return *local_data;
 }
 
+auto get_config() -> std::shared_ptr<const init_data>
+{
+    return std::atomic_load(&get_global_context().config);
+}
+void set_config(const init_data& data)
+{
+    std::atomic_store(&get_global_context().config, std::shared_ptr<const init_data>(std::make_shared<init_data>(data)));
+}
+
 void name_thread(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.set_thread_name && !name.empty())
+    const auto config = get_config();
+    if(config->set_thread_name && !name.empty())
     {
-        global_context.config.set_thread_name(name);
+        config->set_thread_name(name);
     }
 }
 
 void on_thread_start(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.on_thread_start && !name.empty())
+    const auto config = get_config();
+    if(config->on_thread_start && !name.empty())
     {
-        global_context.config.on_thread_start(name);
+        config->on_thread_start(name);
     }
 }
 
 void log_info(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.log_info)
+    const auto config = get_config();
+    if(config->log_info)
     {
-        global_context.config.log_info(name);
+        config->log_info(name);
     }
 }
 
 void log_error(const std::string& name)
 {
-    const auto& global_context = get_global_context();
-    if(global_context.config.log_error)
+    const auto config = get_config();
+    if(config->log_error)
     {
-        global_context.config.log_error(name);
+        config->log_error(name);
     }
 }
 
 auto register_thread_impl(std::thread::id native_thread_id, const std::string& name) -> std::shared_ptr<thread_context>
 {
+    const auto config = get_config();
     auto& global_context = get_global_context();
     std::unique_lock<std::mutex> lock(global_context.mutex);
     auto id = [&]()
@@ -127,10 +138,10 @@ auto register_thread_impl(std::thread::id native_thread_id, const std::string& n
     }
 
     auto local_context = std::make_shared<thread_context>();
-    local_context->tasks.reserve(global_context.config.tasks_capacity.default_reserved_tasks);
+    local_context->tasks.reserve(config->tasks_capacity.default_reserved_tasks);
     local_context->native_thread_id = native_thread_id;
     local_context->id = id;
-    local_context->capacity_shrink_threashold = global_context.config.tasks_capacity.capacity_shrink_threashold;
+    local_context->capacity_shrink_threashold = config->tasks_capacity.capacity_shrink_threashold;
 
     local_context->name = name;
     global_context.id_map[native_thread_id] = id;
@@ -178,9 +189,8 @@ void init(const init_data& data)
     }
 
     this_thread::register_this_thread("Main Thread");
-    std::unique_lock<std::mutex> lock(global_context.mutex);
     global_context.main_thread_id = this_thread::get_id();
-    global_context.config = data;
+    set_config(data);
     log_info_func("Successful.");
 }
 
@@ -215,17 +225,22 @@ auto shutdown(const std::chrono::seconds& timeout) -> int
 
     auto result = global_context.cleanup_event.wait_for(lock, timeout, predicate);
 
+    const auto remaining = global_context.contexts.size();
+
+    // the callbacks must not be called while holding the lock
+    lock.unlock();
+
     if(result)
     {
         log_info_func("Successful.");
-        global_context.config = {};
+        set_config({});
         return 0;
     }
     else
     {
         log_info_func("Timed out. Not all registered threads exited.");
-        global_context.config = {};
-        return static_cast<int>(global_context.contexts.size());
+        set_config({});
+        return static_cast<int>(remaining);
     }
 }
 
-- 
2.43.0


From 07a340f5f490e8010190cff317b5531fd3475b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 05/16] fix: unlink the thread context before it is destroyed

unregister_this_thread destroyed the context, and with it the tasks left in its
queue, while the thread still pointed to it. Destructors that used the
this_thread functions accessed the context being destroyed.
---
 threadpp/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 09960ca..a6e08b8 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -605,8 +605,11 @@ void register_this_thread(const std::string& name)
 
 void unregister_this_thread()
 {
-    unregister_thread_impl(get_id());
+    const auto id = get_id();
+    // unlink it first, the destructors of the tasks left
+    // in the queue must not find the context being destroyed
     set_local_context(nullptr);
+    unregister_thread_impl(id);
 }
 
 auto notified_for_exit() -> bool
-- 
2.43.0


From 84950e63d2c7c73e20b94105c7d5598e49145e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 06/16] fix: keep the processing depth balanced when a task
 throws

---
 threadpp/thread.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index a6e08b8..8c01198 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -433,7 +433,15 @@ auto process_one(std::unique_lock<std::mutex>& lock) -> bool
 
         if(task)
         {
-            task();
+            try
+            {
+                task();
+            }
+            catch(...)
+            {
+                local_context.processing_stack_depth--;
+                throw;
+            }
 
             // invoke the tasks's destructor to allow
             // invoking from it on an unlocked mutex
-- 
2.43.0


From 6c6adde179a5d2ffdb5bca886b5f9ca126a0234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 07/16] fix: drop the registration of a joined thread

A thread function is not required to unregister itself. Its registration then
stayed behind after join, so shutdown timed out, and a later thread that got the
same native id inherited the old id together with its exit request.
---
 threadpp/thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/threadpp/thread.cpp b/threadpp/thread.cpp
index 8c01198..40bcacb 100644
--- a/threadpp/thread.cpp
+++ b/threadpp/thread.cpp
@@ -714,6 +714,9 @@ void thread::join()
 {
     notify_for_exit(get_id());
     std::thread::join();
+    // the thread function is not required to unregister,
+    // but its native id can be reused from now on
+    unregister_thread_impl(get_id());
 }
 
 void thread::register_this(const std::string& name)
-- 
2.43.0


From 0ef8eea834a5f71439816e65770056c8d0450e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 08/16] fix: report an error when getting a future<void> that
 is not ready

The wait inside get returns early when the thread is asked to exit. get then
returned as if the work was done, while future<T> throws broken_promise.
The exception was also read without the lock that guards it.
---
 threadpp/detail/future_state.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 7332f04..3280938 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -187,7 +187,14 @@ struct future_state<void> : public basic_state<void>
 
     void get_value_assuming_ready()
     {
+        std::unique_lock<std::mutex> lock(guard);
+
         rethrow_any_exception();
+
+        if(!ready())
+        {
+            throw std::future_error(std::future_errc::broken_promise);
+        }
     }
 };
 template<typename T>
-- 
2.43.0


From ec20b7004a882f3e84c85adbaa65824e20ac606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 09/16] fix: report a result that became available while the
 wait timed out

---
 threadpp/detail/future_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/threadpp/detail/future_state.hpp b/threadpp/detail/future_state.hpp
index 3280938..ee2e1d1 100644
--- a/threadpp/detail/future_state.hpp
+++ b/threadpp/detail/future_state.hpp
@@ -115,7 +115,7 @@ struct basic_state
 
             if(cv.wait_for(lock, timeout_duration) == std::cv_status::timeout)
             {
-                return std::future_status::timeout;
+                return ready() ? std::future_status::ready : std::future_status::timeout;
             }
         }
 
-- 
2.43.0


From 09e89852a88644455e0fccdbcba3a28927374a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:01:40 +0000
Subject: [PATCH 10/16] fix: abandon the overwritten state when assigning to a
 promise

Assigning to an unsatisfied promise dropped its shared state silently, so its
future never became ready.
---
 threadpp/future.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 15581a3..478b556 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -182,7 +182,13 @@ class basic_promise
 public:
     basic_promise() = default;
     basic_promise(basic_promise&& rhs) noexcept = default;
-    auto operator=(basic_promise&& rhs) noexcept -> basic_promise& = default;
+    auto operator=(basic_promise&& rhs) noexcept -> basic_promise&
+    {
+        // the replaced state is abandoned by the destructor
+        basic_promise replaced(std::move(rhs));
+        std::swap(state_, replaced.state_);
+        return *this;
+    }
 
     basic_promise(const basic_promise&) = delete;
     auto operator=(const basic_promise&) -> basic_promise& = delete;
-- 
2.43.0


From bbc7936b59cc30736acd5c47adf00e6c9dfd03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:25 +0000
Subject: [PATCH 11/16] fix: leave no trace of a condition variable wait that
 is interrupted by a task

A task processed during the wait may throw. The exception then left the waiter
registered and the lock of the caller unlocked. A task may also wait on the same
object. When this nested wait timed out it removed the entry of the outer wait,
which then could not be notified anymore.
---
 threadpp/detail/semaphore.cpp | 53 ++++++++++++++++++++++++++++-------
 threadpp/detail/semaphore.h   | 13 ++++++++-
 2 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/threadpp/detail/semaphore.cpp b/threadpp/detail/semaphore.cpp
index 53a1259..5d4c8ac 100644
--- a/threadpp/detail/semaphore.cpp
+++ b/threadpp/detail/semaphore.cpp
@@ -77,7 +77,9 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
+    waiter_remover remover{*this, id, added};
 
     while(!token.is_interrupted())
     {
@@ -91,15 +93,25 @@ void semaphore::wait(const callback& before_wait, const callback& after_wait) co
             before_wait();
         }
 
-        this_thread::wait();
+        try
+        {
+            this_thread::wait();
+        }
+        catch(...)
+        {
+            // thrown by a task processed meanwhile
+            if(after_wait)
+            {
+                after_wait();
+            }
+            throw;
+        }
 
         if(after_wait)
         {
             after_wait();
         }
     }
-
-    remove_waiter(id);
 }
 
 auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
@@ -116,7 +128,10 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
     /// note: we may be the last reference to the
     /// flag as the notify_functions will set it
     /// and erase it from the container
-    auto token = add_waiter(id);
+    bool added = false;
+    auto token = add_waiter(id, added);
+    // remove waiter in case of timeout
+    waiter_remover remover{*this, id, added};
 
     while(!token.is_interrupted())
     {
@@ -137,7 +152,19 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
             before_wait();
         }
 
-        status = this_thread::wait_for(time_left);
+        try
+        {
+            status = this_thread::wait_for(time_left);
+        }
+        catch(...)
+        {
+            // thrown by a task processed meanwhile
+            if(after_wait)
+            {
+                after_wait();
+            }
+            throw;
+        }
 
         if(after_wait)
         {
@@ -147,13 +174,18 @@ auto semaphore::wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
         now = clock::now();
     }
 
-    // remove waiter in case of timeout
-    remove_waiter(id);
-
     return status;
 }
 
-auto semaphore::add_waiter(thread::id id) const -> interrupt_token
+semaphore::waiter_remover::~waiter_remover()
+{
+    if(added)
+    {
+        owner.remove_waiter(id);
+    }
+}
+
+auto semaphore::add_waiter(thread::id id, bool& added) const -> interrupt_token
 {
     std::unique_lock<std::mutex> waiting_lock(mutex_);
 
@@ -172,6 +204,7 @@ auto semaphore::add_waiter(thread::id id) const -> interrupt_token
     info.id = id;
     info.token = interrupt_token{false};
     waiters_.emplace_back(std::move(info));
+    added = true;
     return waiters_.back().token;
 }
 
diff --git a/threadpp/detail/semaphore.h b/threadpp/detail/semaphore.h
index c5e2bac..8ebd040 100644
--- a/threadpp/detail/semaphore.h
+++ b/threadpp/detail/semaphore.h
@@ -94,11 +94,22 @@ protected:
         thread::id id;
     };
 
+    struct waiter_remover
+    {
+        const semaphore& owner;
+        thread::id id;
+        bool added;
+
+        ~waiter_remover();
+    };
+
     auto wait_for_impl(const std::chrono::nanoseconds& timeout_duration,
                        const callback& before_wait,
                        const callback& after_wait) const -> std::cv_status;
 
-    auto add_waiter(thread::id id) const -> interrupt_token;
+    // a nested wait of the same thread shares the entry
+    // of the outer one, which is the one to remove it
+    auto add_waiter(thread::id id, bool& added) const -> interrupt_token;
 
     void remove_waiter(thread::id id) const;
 
-- 
2.43.0


From 2df240d9a23851f2c303585ad71e959cc5d24691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:25 +0000
Subject: [PATCH 12/16] fix: make mutex.hpp self-contained

---
 threadpp/mutex.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/threadpp/mutex.hpp b/threadpp/mutex.hpp
index d796b7a..d48e11c 100644
--- a/threadpp/mutex.hpp
+++ b/threadpp/mutex.hpp
@@ -1,5 +1,7 @@
 #pragma once
-#include "detail/semaphore.h"
+#include "condition_variable.hpp"
+#include <mutex>
+#include <system_error>
 
 namespace tpp
 {
-- 
2.43.0


From f4cc2ea177399eafba719155065f25fa4c16de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:25 +0000
Subject: [PATCH 13/16] fix: do not lose the wake-up of a thread about to block
 in mutex::lock

The mutex could be released between the failed attempt to take it and the
registration as a waiter. Nobody was notified then, and the thread waited for
an unlock that had already happened.
---
 threadpp/mutex.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/threadpp/mutex.hpp b/threadpp/mutex.hpp
index d48e11c..344c086 100644
--- a/threadpp/mutex.hpp
+++ b/threadpp/mutex.hpp
@@ -26,6 +26,9 @@ public:
     void lock()
     {
         auto id = this_thread::get_id();
+        // an unlock must not slip in between the failed
+        // attempt and our registration as a waiter
+        std::unique_lock<std::mutex> guard(guard_);
         while(flag_.test_and_set())
         {
             // are we already owning it?
@@ -33,7 +36,7 @@ public:
             {
                 throw std::system_error(std::make_error_code(std::errc::resource_deadlock_would_occur));
             }
-            sync_.wait();
+            sync_.wait(guard);
         }
 
         owner_ = id;
@@ -69,14 +72,18 @@ public:
             throw std::system_error(std::make_error_code(std::errc::no_lock_available));
         }
 
-        owner_ = invalid_id();
-        flag_.clear();
+        {
+            std::lock_guard<std::mutex> guard(guard_);
+            owner_ = invalid_id();
+            flag_.clear();
+        }
         sync_.notify_all();
     }
 
 private:
     /// Underlying semaphore that handles notifying.
-    detail::semaphore sync_;
+    std::mutex guard_;
+    condition_variable sync_;
 
     std::atomic<thread::id> owner_{invalid_id()};
     std::atomic_flag flag_ = ATOMIC_FLAG_INIT;
-- 
2.43.0


From edff3ff0a2e39dc3214567d1afed773f8e37960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:02:25 +0000
Subject: [PATCH 14/16] fix: let job handles follow their pool when it is moved

A handle kept the address of the pool that scheduled the job. After the pool was
moved, stop and change_priority used the moved-from object. After it was
assigned to, they could act on an unrelated job of the new pool.
---
 threadpp/thread_pool.cpp | 38 ++++++++++++++++++++++++++++----------
 threadpp/thread_pool.h   | 13 ++++++-------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index 09ed967..b5e2d68 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -318,6 +318,28 @@ thread_pool::thread_pool(const std::map<priority::category, size_t>& workers_per
     impl_ = std::make_unique<impl>(workers_per_priority_level, config);
 }
 
+thread_pool::thread_pool(thread_pool&& rhs) noexcept
+    : impl_(std::move(rhs.impl_))
+    , sentinel_(std::move(rhs.sentinel_))
+{
+    if(sentinel_)
+    {
+        *sentinel_ = this;
+    }
+}
+
+auto thread_pool::operator=(thread_pool&& rhs) noexcept -> thread_pool&
+{
+    // expire the handles of the replaced jobs first
+    sentinel_ = std::move(rhs.sentinel_);
+    if(sentinel_)
+    {
+        *sentinel_ = this;
+    }
+    impl_ = std::move(rhs.impl_);
+    return *this;
+}
+
 thread_pool::~thread_pool() = default;
 
 job_id thread_pool::add_job(task& job, priority::group group)
@@ -357,28 +379,24 @@ size_t thread_pool::get_jobs_count() const
 
 void job_future_storage::change_priority(priority::group group)
 {
-    if(sentinel_.expired())
+    auto owner = owner_.lock();
+    if(!owner)
     {
         return;
     }
 
-    if(owner_)
-    {
-        owner_->change_priority(id, group);
-    }
+    (*owner)->change_priority(id, group);
 }
 
 void job_future_storage::stop()
 {
-    if(sentinel_.expired())
+    auto owner = owner_.lock();
+    if(!owner)
     {
         return;
     }
 
-    if(owner_)
-    {
-        owner_->stop(id);
-    }
+    (*owner)->stop(id);
 }
 
 } // namespace tpp
diff --git a/threadpp/thread_pool.h b/threadpp/thread_pool.h
index 7e55f0a..df06651 100644
--- a/threadpp/thread_pool.h
+++ b/threadpp/thread_pool.h
@@ -69,8 +69,8 @@ struct job_future_storage
     void stop();
 
 private:
-    std::weak_ptr<int> sentinel_{};
-    thread_pool* owner_{};
+    // expires with the pool and follows it when moved
+    std::weak_ptr<thread_pool*> owner_{};
 };
 
 template<typename T>
@@ -145,8 +145,8 @@ public:
     thread_pool(const std::map<priority::category, size_t>& workers_per_priority_level,
                 tasks_capacity_config config = {});
     thread_pool();
-    thread_pool(thread_pool&&) = default;
-    auto operator=(thread_pool&&) -> thread_pool& = default;
+    thread_pool(thread_pool&& rhs) noexcept;
+    auto operator=(thread_pool&& rhs) noexcept -> thread_pool&;
     ~thread_pool();
 
     thread_pool(const thread_pool&) = delete;
@@ -209,7 +209,7 @@ private:
     /// pimpl idiom
     std::unique_ptr<impl> impl_;
 
-    std::shared_ptr<int> sentinel_ = std::make_shared<int>();
+    std::shared_ptr<thread_pool*> sentinel_ = std::make_shared<thread_pool*>(this);
 };
 
 template<typename F, typename... Args>
@@ -218,8 +218,7 @@ auto thread_pool::schedule(priority::group group, F&& f, Args&&... args) -> job_
     auto packaged_task = detail::package_future_task(std::forward<F>(f), std::forward<Args>(args)...);
     job_future<async_ret_type<F, Args...>> fut(std::move(packaged_task.callable_future));
     fut.id = add_job(packaged_task.callable, group);
-    fut.sentinel_ = sentinel_;
-    fut.owner_ = this;
+    fut.owner_ = sentinel_;
     return fut;
 }
 
-- 
2.43.0


From c258af4d5fe0c92bbdb364f247f104753ce568eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:26 +0000
Subject: [PATCH 15/16] fix: let continuations of future<void> return a value

The result of the continuation was dropped inside then, so chaining a
continuation with a result onto a future<void> did not compile.
---
 threadpp/future.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/threadpp/future.hpp b/threadpp/future.hpp
index 478b556..9a2f742 100644
--- a/threadpp/future.hpp
+++ b/threadpp/future.hpp
@@ -853,7 +853,7 @@ auto future<void>::then(thread::id id, std::launch policy, F&& f) -> future<then
         [f = std::forward<F>(f), state]() mutable
         {
             future<void> self(state);
-            utility::invoke(f, std::move(self));
+            return utility::invoke(f, std::move(self));
         });
     auto& future = package.callable_future;
     auto& task = package.callable;
@@ -908,7 +908,7 @@ auto shared_future<void>::then(thread::id id, std::launch policy, F&& f) const
         [f = std::forward<F>(f), state]() mutable
         {
             shared_future<void> self(state);
-            utility::invoke(f, std::move(self));
+            return utility::invoke(f, std::move(self));
         });
     auto& future = package.callable_future;
     auto& task = package.callable;
-- 
2.43.0


From 838542421a48b5cdcd2f7c2b901eaea0a9d8727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:58 +0000
Subject: [PATCH 16/16] fix: post to the workers of a pool without holding the
 pool's lock

Posting a job to a worker may drop the last reference to the context of a
worker which has just unregistered, and with it the tasks left in its queue.
Their destructors must not run under the lock of the pool.
---
 threadpp/thread_pool.cpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/threadpp/thread_pool.cpp b/threadpp/thread_pool.cpp
index b5e2d68..ddf703a 100644
--- a/threadpp/thread_pool.cpp
+++ b/threadpp/thread_pool.cpp
@@ -81,7 +81,7 @@ public:
     auto add_job(task& user_job, priority::group group) -> job_id
     {
         auto packaged_task = detail::package_future_task(std::move(user_job));
-        std::lock_guard<std::mutex> lock(guard_);
+        std::unique_lock<std::mutex> lock(guard_);
         auto id = free_id_++;
         auto& job = jobs_[id];
         job.handle.id = id;
@@ -89,13 +89,13 @@ public:
         job.callable = std::move(packaged_task.callable);
         job.callable_future = packaged_task.callable_future.share();
 
-        add_job_handle(job.handle);
+        add_job_handle(lock, job.handle);
         return id;
     }
 
     void change_priority(job_id id, priority::group group)
     {
-        std::lock_guard<std::mutex> lock(guard_);
+        std::unique_lock<std::mutex> lock(guard_);
 
         auto it = jobs_.find(id);
         if(it == jobs_.end())
@@ -112,7 +112,7 @@ public:
 
         job.handle.group = group;
 
-        add_job_handle(job.handle);
+        add_job_handle(lock, job.handle);
     }
 
     void clear(job_id id, bool check_callable)
@@ -205,14 +205,15 @@ public:
     }
 
 private:
-    void add_job_handle(job_handle handle)
+    void add_job_handle(std::unique_lock<std::mutex>& lock, job_handle handle)
     {
         job_priority_queues_[handle.group.level].emplace(handle);
-        notify_workers(handle.group.level);
+        notify_workers(lock, handle.group.level);
     }
 
-    void notify_workers(priority::category max_priority)
+    void notify_workers(std::unique_lock<std::mutex>& lock, priority::category max_priority)
     {
+        std::vector<std::pair<thread::id, priority::category>> notified;
         for(const auto& kvp : workers_)
         {
             auto priority = kvp.first;
@@ -222,16 +223,23 @@ private:
                 auto& workers = workers_[priority];
                 for(auto& w : workers)
                 {
-                    // always queue it, a direct call would
-                    // try to lock the guard we are holding
-                    invoke(w.get_id(),
-                           [this, priority]()
-                           {
-                               check_jobs(priority);
-                           });
+                    notified.emplace_back(w.get_id(), priority);
                 }
             }
         }
+        // posting may release a thread context and the
+        // tasks left in it, so do it without the guard
+        lock.unlock();
+
+        for(const auto& kvp : notified)
+        {
+            auto priority = kvp.second;
+            invoke(kvp.first,
+                   [this, priority]()
+                   {
+                       check_jobs(priority);
+                   });
+        }
     }
 
     auto get_highest_priority_queue_above(priority::category level) -> jobs_queue&
-- 
2.43.0

