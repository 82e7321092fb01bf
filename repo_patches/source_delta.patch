From 418b3e44bb60f74def0686f4be64a4a84360c861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 01/22] fix: thread_pool::threads_count() read the thread
 container unsynchronised with start/stop

---
 sdk/include/teiacare/sdk/thread_pool.hpp | 1 +
 sdk/src/thread_pool.cpp                  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/thread_pool.hpp b/sdk/include/teiacare/sdk/thread_pool.hpp
index dda217e..0805e63 100644
--- a/sdk/include/teiacare/sdk/thread_pool.hpp
+++ b/sdk/include/teiacare/sdk/thread_pool.hpp
@@ -117,6 +117,7 @@ private:
     std::atomic_bool _is_running;
     std::mutex _is_running_mutex;
     std::vector<std::thread> _threads;
+    std::atomic_size_t _threads_count{0};
     std::queue<tc::sdk::task> _task_queue;
     std::condition_variable _task_cv;
     std::mutex _task_mutex;
diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index 75eb3bd..be0b322 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -44,6 +44,7 @@ bool thread_pool::start(const unsigned int num_threads)
     {
         _threads.emplace_back([this] { worker(); });
     }
+    _threads_count = _threads.size();
 
     is_ready->arrive_and_wait();
     return true;
@@ -71,13 +72,14 @@ bool thread_pool::stop()
     }
 
     _threads.clear();
+    _threads_count = 0;
 
     return true;
 }
 
 size_t thread_pool::threads_count() const
 {
-    return _threads.size();
+    return _threads_count;
 }
 
 bool thread_pool::is_running() const
-- 
2.43.0


From 5ad4c6f98c8f7a916b9d33ee8f646e6d9822c42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 02/22] fix: thread_pool::start() called std::clamp with an
 empty range when hardware_concurrency() is 0

---
 sdk/src/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/thread_pool.cpp b/sdk/src/thread_pool.cpp
index be0b322..ffb9c4a 100644
--- a/sdk/src/thread_pool.cpp
+++ b/sdk/src/thread_pool.cpp
@@ -36,7 +36,7 @@ bool thread_pool::start(const unsigned int num_threads)
 
     _is_running = true;
 
-    const auto thread_count = std::clamp(num_threads, 1u, std::thread::hardware_concurrency());
+    const auto thread_count = std::clamp(num_threads, 1u, std::max(1u, std::thread::hardware_concurrency()));
     _threads.reserve(thread_count);
     is_ready = std::make_shared<std::latch>(thread_count + 1);
 
-- 
2.43.0


From a8cd717277ed4303e120f5e1a242fd2d7d26f194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 03/22] fix: blocking_queue::try_pop() lost the removed item
 when copying it into the result threw

---
 sdk/include/teiacare/sdk/blocking_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/blocking_queue.hpp b/sdk/include/teiacare/sdk/blocking_queue.hpp
index 02f5a89..a6288b6 100644
--- a/sdk/include/teiacare/sdk/blocking_queue.hpp
+++ b/sdk/include/teiacare/sdk/blocking_queue.hpp
@@ -166,7 +166,7 @@ public:
         _queue.pop();
         pop_impl(std::move(lock));
 
-        return std::move(std::optional(item));
+        return std::optional<T>(std::move(item));
     }
 
     /*!
-- 
2.43.0


From 80acd7461ccab7a6b0d55cdaac901607c5a2b02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 04/22] fix: concurrent task_scheduler::start() and stop()
 raced on the scheduler thread

---
 sdk/include/teiacare/sdk/task_scheduler.hpp | 1 +
 sdk/src/task_scheduler.cpp                  | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index f067f12..96b8c30 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -425,6 +425,7 @@ public:
 
 private:
     tc::sdk::thread_pool _tp;
+    std::mutex _lifecycle_mtx;
     std::thread _scheduler_thread;
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 1331465..ce7953e 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -29,6 +29,7 @@ task_scheduler::~task_scheduler()
 
 bool task_scheduler::start(const unsigned int num_threads)
 {
+    std::scoped_lock lifecycle_lock(_lifecycle_mtx);
     if (!_tp.start(num_threads))
         return false;
 
@@ -71,6 +72,7 @@ bool task_scheduler::start(const unsigned int num_threads)
 
 bool task_scheduler::stop()
 {
+    std::scoped_lock lifecycle_lock(_lifecycle_mtx);
     if (!_tp.stop())
         return false;
 
-- 
2.43.0


From 6f476cb49ae18ab1f80401b18e97fcf64d12c6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 05/22] fix: task_scheduler::stop() could miss its wake-up and
 let tasks be accepted or dispatched after it

---
 sdk/include/teiacare/sdk/task_scheduler.hpp |  1 +
 sdk/src/task_scheduler.cpp                  | 32 ++++++++++++---------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/sdk/include/teiacare/sdk/task_scheduler.hpp b/sdk/include/teiacare/sdk/task_scheduler.hpp
index 96b8c30..659d4b0 100644
--- a/sdk/include/teiacare/sdk/task_scheduler.hpp
+++ b/sdk/include/teiacare/sdk/task_scheduler.hpp
@@ -426,6 +426,7 @@ public:
 private:
     tc::sdk::thread_pool _tp;
     std::mutex _lifecycle_mtx;
+    bool _is_running{false};
     std::thread _scheduler_thread;
     std::multimap<tc::sdk::clock::time_point, schedulable_task> _tasks;
     std::condition_variable _update_tasks_cv;
diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index ce7953e..6a1c98b 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -33,19 +33,23 @@ bool task_scheduler::start(const unsigned int num_threads)
     if (!_tp.start(num_threads))
         return false;
 
+    {
+        std::scoped_lock lock(_update_tasks_mtx);
+        _is_running = true;
+    }
+
     std::promise<void> thread_started_notifier;
     std::future<void> thread_started_watcher = thread_started_notifier.get_future();
 
     _scheduler_thread = std::thread([this, &thread_started_notifier] {
         thread_started_notifier.set_value();
 
-        while (_tp.is_running())
+        std::unique_lock lock(_update_tasks_mtx);
+        while (_is_running)
         {
-            std::unique_lock lock(_update_tasks_mtx);
-
             if (_tasks.empty())
             {
-                _update_tasks_cv.wait(lock, [this] { return !_tp.is_running() || !_tasks.empty(); });
+                _update_tasks_cv.wait(lock, [this] { return !_is_running || !_tasks.empty(); });
             }
             else
             {
@@ -58,7 +62,7 @@ bool task_scheduler::start(const unsigned int num_threads)
                     continue;
             }
 
-            if (!_tp.is_running())
+            if (!_is_running)
                 return;
 
             update_tasks();
@@ -73,19 +77,21 @@ bool task_scheduler::start(const unsigned int num_threads)
 bool task_scheduler::stop()
 {
     std::scoped_lock lifecycle_lock(_lifecycle_mtx);
-    if (!_tp.stop())
-        return false;
-
-    _update_tasks_cv.notify_all();
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
+        if (!_is_running)
+            return false;
+
+        _is_running = false;
         _tasks.clear();
     }
 
+    _update_tasks_cv.notify_all();
+
     if (_scheduler_thread.joinable())
         _scheduler_thread.join();
 
+    _tp.stop();
     return true;
 }
 
@@ -171,12 +177,12 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
-    if (!_tp.is_running())
-        return false;
-
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
+        if (!_is_running)
+            return false;
+
         if (already_exists(st.hash()))
             return false;
 
-- 
2.43.0


From 1c8ed46886e9651f39183a6a75e1b03658c705ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 06/22] fix: a recurring task with a non-positive interval hung
 the scheduler in an endless loop

---
 sdk/src/task_scheduler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sdk/src/task_scheduler.cpp b/sdk/src/task_scheduler.cpp
index 6a1c98b..fa75a36 100644
--- a/sdk/src/task_scheduler.cpp
+++ b/sdk/src/task_scheduler.cpp
@@ -153,6 +153,10 @@ std::optional<sdk::clock::duration> task_scheduler::get_interval(const std::stri
 
 bool task_scheduler::update_interval(const std::string& task_id, interval_t interval)
 {
+    // A recurring task cannot advance with a non-positive interval.
+    if (interval <= interval_t::zero())
+        return false;
+
     std::unique_lock lock(_update_tasks_mtx);
     if (auto task_iterator = get_task_iterator(task_id); task_iterator != _tasks.end() && task_iterator->second.interval().has_value())
     {
@@ -177,6 +181,10 @@ bool task_scheduler::update_interval(const std::string& task_id, interval_t inte
 
 bool task_scheduler::add_task(tc::sdk::clock::time_point&& timepoint, schedulable_task&& st)
 {
+    // A recurring task cannot advance with a non-positive interval.
+    if (st.interval().has_value() && st.interval().value() <= interval_t::zero())
+        return false;
+
     {
         std::scoped_lock lock(_update_tasks_mtx);
 
-- 
2.43.0


From d039f8da7ecf49f7dedb79e92bc51995ef462a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:44 +0000
Subject: [PATCH 07/22] fix: event_dispatcher handler ids were shared by all
 dispatchers without synchronisation and reset by any destructor

---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 6 +++---
 sdk/src/event_dispatcher.cpp                  | 3 ---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 808be76..690f999 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -113,8 +113,8 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++handler_id, std::move(event_handler)));
-        return handler_id;
+        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++_handler_id, std::move(event_handler)));
+        return _handler_id;
     }
 
     /*!
@@ -180,7 +180,7 @@ private:
     std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
-    static unsigned long handler_id;
+    unsigned long _handler_id{0};
 
     template <typename... Args>
     constexpr auto get_event_handler_id(std::string&& event_name) const
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index d66f54d..9b9fc28 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -16,8 +16,6 @@
 
 namespace tc::sdk
 {
-unsigned long event_dispatcher::handler_id = 0;
-
 event_dispatcher::event_dispatcher() noexcept
 {
 }
@@ -25,7 +23,6 @@ event_dispatcher::event_dispatcher() noexcept
 event_dispatcher::~event_dispatcher() noexcept
 {
     stop();
-    handler_id = 0;
 }
 
 auto event_dispatcher::remove_handler(unsigned long remove_handler_id) -> bool
-- 
2.43.0


From a723c33417364000a9e0e5312c4d0aa77f09a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 08/22] fix: event_dispatcher confused events whose names or
 argument types merely look alike

---
 sdk/include/teiacare/sdk/event_dispatcher.hpp | 28 +++++++++----------
 sdk/src/event_dispatcher.cpp                  |  2 +-
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/sdk/include/teiacare/sdk/event_dispatcher.hpp b/sdk/include/teiacare/sdk/event_dispatcher.hpp
index 690f999..f7b45dc 100644
--- a/sdk/include/teiacare/sdk/event_dispatcher.hpp
+++ b/sdk/include/teiacare/sdk/event_dispatcher.hpp
@@ -20,10 +20,13 @@
 #include <teiacare/sdk/thread_pool.hpp>
 
 #include <functional>
+#include <map>
 #include <memory>
 #include <mutex>
 #include <string>
-#include <unordered_map>
+#include <tuple>
+#include <typeindex>
+#include <utility>
 #include <vector>
 
 namespace tc::sdk
@@ -113,7 +116,9 @@ public:
         const auto event_handler_id = get_event_handler_id<Args...>(std::move(event_name));
 
         std::unique_lock handlers_lock(_handlers_mutex);
-        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<Args...>>(++_handler_id, std::move(event_handler)));
+        _handlers[event_handler_id].emplace_back(std::make_unique<handler_t<std::decay_t<Args>...>>(
+            ++_handler_id,
+            [h = std::move(event_handler)](std::decay_t<Args>... args) mutable { h(static_cast<Args&&>(args)...); }));
         return _handler_id;
     }
 
@@ -139,8 +144,8 @@ public:
 
         for (auto&& h : event_handlers)
         {
-            const std::function<void()> event = [e = std::static_pointer_cast<handler_t<Args...>>(h), args...] {
-                return std::invoke(&handler_t<Args...>::call, e.get(), args...);
+            const std::function<void()> event = [e = std::static_pointer_cast<handler_t<std::decay_t<Args>...>>(h), args...] {
+                return std::invoke(&handler_t<std::decay_t<Args>...>::call, e.get(), args...);
             };
 
             _tp.run(std::move(event));
@@ -177,23 +182,16 @@ public:
     auto stop() -> bool;
 
 private:
-    std::unordered_map<std::string, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
+    using event_id_t = std::pair<std::string, std::type_index>; // event name and arguments types
+    std::map<event_id_t, std::vector<std::shared_ptr<base_handler_t>>> _handlers;
     std::mutex _handlers_mutex;
     tc::sdk::thread_pool _tp;
     unsigned long _handler_id{0};
 
     template <typename... Args>
-    constexpr auto get_event_handler_id(std::string&& event_name) const
+    auto get_event_handler_id(std::string&& event_name) const -> event_id_t
     {
-        if constexpr (sizeof...(Args) == 0)
-        {
-            return std::move(event_name);
-        }
-        else
-        {
-            auto args_hash = std::to_string((typeid(std::decay_t<Args>).hash_code() + ...));
-            return std::move(event_name + args_hash);
-        }
+        return event_id_t{std::move(event_name), typeid(std::tuple<std::decay_t<Args>...>)};
     }
 };
 
diff --git a/sdk/src/event_dispatcher.cpp b/sdk/src/event_dispatcher.cpp
index 9b9fc28..2092717 100644
--- a/sdk/src/event_dispatcher.cpp
+++ b/sdk/src/event_dispatcher.cpp
@@ -47,7 +47,7 @@ auto event_dispatcher::remove_event(std::string event_name) -> bool
 {
     std::unique_lock handlers_lock(_handlers_mutex);
 
-    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.starts_with(event_name); }))
+    if (std::erase_if(_handlers, [event_name](auto&& handler_iterator) { return handler_iterator.first.first == event_name; }))
         return true;
 
     return false;
-- 
2.43.0


From 9b9f9e7ab55c29906756e7fb9f12837af4da633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 09/22] fix: high_precision_timer::set_callback() replaced the
 callback while the worker could be using it

---
 sdk/include/teiacare/sdk/high_precision_timer.hpp | 5 ++++-
 sdk/src/high_precision_timer.cpp                  | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/high_precision_timer.hpp b/sdk/include/teiacare/sdk/high_precision_timer.hpp
index e7c5fb4..43e3e9f 100644
--- a/sdk/include/teiacare/sdk/high_precision_timer.hpp
+++ b/sdk/include/teiacare/sdk/high_precision_timer.hpp
@@ -84,7 +84,10 @@ public:
             return std::apply(t, params);
         };
 
-        _task = std::make_unique<tc::sdk::task>(std::move(task_func));
+        auto task = std::make_unique<tc::sdk::task>(std::move(task_func));
+
+        std::scoped_lock lock(_worker_mutex);
+        _task = std::move(task);
     }
 
     /*!
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 0a5e517..9838900 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -32,8 +32,11 @@ high_precision_timer::~high_precision_timer()
 
 bool high_precision_timer::start(clock::duration&& interval)
 {
-    if (!_task)
-        return false;
+    {
+        std::scoped_lock lock(_worker_mutex);
+        if (!_task)
+            return false;
+    }
 
     stop();
 
-- 
2.43.0


From 409ab317e605e53c0c1fc9aba166475741ad2df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 10/22] fix: high_precision_timer missed callbacks counter
 wrapped around when a callback ended exactly on its deadline

---
 sdk/src/high_precision_timer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 9838900..347f118 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -103,13 +103,15 @@ void high_precision_timer::update_next_start_time()
 {
     auto task_next_start_time = _next_task_timepoint;
     const auto now = clock::now();
+    // The first step accounts for the last execution, the others are missed callbacks.
+    task_next_start_time += _interval;
+    uint64_t missed_callbacks = 0;
     while (now > task_next_start_time)
     {
         task_next_start_time += _interval;
-        ++_missed_callback_count;
+        ++missed_callbacks;
     }
-    // Adjust _missed_callback_count removing the last execution from the counter.
-    --_missed_callback_count;
+    _missed_callback_count += missed_callbacks;
     _next_task_timepoint = task_next_start_time;
 }
 
-- 
2.43.0


From 100a8a805ac53d167fcee597e7a172e6f0793f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 11/22] fix: high_precision_timer::start() with a non-positive
 interval hung the worker and every later stop()

---
 sdk/src/high_precision_timer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 347f118..5489cbc 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -32,6 +32,10 @@ high_precision_timer::~high_precision_timer()
 
 bool high_precision_timer::start(clock::duration&& interval)
 {
+    // The deadline cannot advance with a non-positive interval.
+    if (interval <= clock::duration::zero())
+        return false;
+
     {
         std::scoped_lock lock(_worker_mutex);
         if (!_task)
-- 
2.43.0


From e3ae8b83097eb32530034ebe7fe12d667c7310c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 12/22] fix: service_locator returned an invalid pointer for a
 service whose interface is not its first base class

---
 sdk/include/teiacare/sdk/service_locator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index e0ea68a..d9da4bd 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -62,7 +62,7 @@ public:
         static_assert(std::is_base_of_v<ServiceInterfaceT, ServiceT>,
                       "\nServiceT must inherit from ServiceInterfaceT");
 
-        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::make_shared<ServiceT>(std::forward<Args>(args)...));
+        auto [_, is_inserted] = _services.emplace(get_id<ServiceInterfaceT>(), std::shared_ptr<ServiceInterfaceT>(std::make_shared<ServiceT>(std::forward<Args>(args)...)));
         return is_inserted;
     }
 
-- 
2.43.0


From c417d632915513bcde219f7c2c527c5eef2ece81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:55 +0000
Subject: [PATCH 13/22] fix: service_locator identified services by a hash of
 their type, which is not unique

---
 sdk/include/teiacare/sdk/service_locator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/service_locator.hpp b/sdk/include/teiacare/sdk/service_locator.hpp
index d9da4bd..6dfc123 100644
--- a/sdk/include/teiacare/sdk/service_locator.hpp
+++ b/sdk/include/teiacare/sdk/service_locator.hpp
@@ -19,6 +19,7 @@
 
 #include <memory>
 #include <type_traits>
+#include <typeindex>
 #include <typeinfo>
 #include <unordered_map>
 
@@ -125,12 +126,12 @@ private:
     explicit service_locator() = default;
 
     template <typename T>
-    size_t get_id() const noexcept
+    std::type_index get_id() const noexcept
     {
-        return std::move(typeid(T).hash_code());
+        return typeid(T);
     }
 
-    std::unordered_map<size_t, std::shared_ptr<void>> _services;
+    std::unordered_map<std::type_index, std::shared_ptr<void>> _services;
 };
 
 }
-- 
2.43.0


From e2b2729894f998e246e19811c079aa5dacd6d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:03 +0000
Subject: [PATCH 14/22] fix: high_precision_timer ran the callback with its
 lock held, so a callback could not replace itself

---
 sdk/include/teiacare/sdk/high_precision_timer.hpp | 6 +++---
 sdk/src/high_precision_timer.cpp                  | 7 ++++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/sdk/include/teiacare/sdk/high_precision_timer.hpp b/sdk/include/teiacare/sdk/high_precision_timer.hpp
index 43e3e9f..06f7f39 100644
--- a/sdk/include/teiacare/sdk/high_precision_timer.hpp
+++ b/sdk/include/teiacare/sdk/high_precision_timer.hpp
@@ -84,10 +84,10 @@ public:
             return std::apply(t, params);
         };
 
-        auto task = std::make_unique<tc::sdk::task>(std::move(task_func));
+        auto task = std::make_shared<tc::sdk::task>(std::move(task_func));
 
         std::scoped_lock lock(_worker_mutex);
-        _task = std::move(task);
+        _task.swap(task);
     }
 
     /*!
@@ -113,7 +113,7 @@ protected:
 private:
     bool _is_running;
     clock::duration _interval;
-    std::unique_ptr<tc::sdk::task> _task;
+    std::shared_ptr<tc::sdk::task> _task;
     clock::time_point _next_task_timepoint;
     std::thread _worker_thread;
     std::condition_variable _worker_cv;
diff --git a/sdk/src/high_precision_timer.cpp b/sdk/src/high_precision_timer.cpp
index 5489cbc..b4f5bd8 100644
--- a/sdk/src/high_precision_timer.cpp
+++ b/sdk/src/high_precision_timer.cpp
@@ -97,7 +97,12 @@ void high_precision_timer::worker()
         if (_worker_cv.wait_until(lock, _next_task_timepoint, [this] { return !_is_running; }))
             break;
 
-        _task->invoke();
+        // The callback may replace itself or take its time: it owns its task and does not hold the lock.
+        const auto task = _task;
+        lock.unlock();
+        task->invoke();
+        lock.lock();
+
         ++_invoked_callback_count;
         update_next_start_time();
     }
-- 
2.43.0


From 03e524d863944e9d4513f781dbc9be0c851124d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:09 +0000
Subject: [PATCH 15/22] fix: rectangle::translated() did not compile: it moved
 a const point

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 8ae8696..2a7b3c0 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -352,7 +352,7 @@ public:
      */
     tc::sdk::rectangle<T> translated(T delta_x, T delta_y) const noexcept
     {
-        const auto translated_position = tc::sdk::point<T>(_position);
+        auto translated_position = tc::sdk::point<T>(_position);
         translated_position.add_delta(delta_x, delta_y);
         return tc::sdk::rectangle<T>(translated_position, _width, _height);
     }
-- 
2.43.0


From a971b7ae972fadaa7ffaa7b3e8e0123b97f7d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:52 +0000
Subject: [PATCH 16/22] fix: rectangle::contains(rectangle) accepted rectangles
 touching the right or bottom side, but is documented as strict

---
 sdk/include/teiacare/sdk/geometry/rectangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/include/teiacare/sdk/geometry/rectangle.hpp b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
index 2a7b3c0..5886111 100644
--- a/sdk/include/teiacare/sdk/geometry/rectangle.hpp
+++ b/sdk/include/teiacare/sdk/geometry/rectangle.hpp
@@ -254,8 +254,8 @@ public:
     {
         return _position.x() < other._position.x() &&
                _position.y() < other._position.y() &&
-               _position.x() + _width >= other._position.x() + other._width &&
-               _position.y() + _height >= other._position.y() + other._height;
+               _position.x() + _width > other._position.x() + other._width &&
+               _position.y() + _height > other._position.y() + other._height;
     }
 
     /*!
-- 
2.43.0


From 22a90165925c225288a6d3260aa44f49de718493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:45 +0000
Subject: [PATCH 17/22] fix: timedelta::operator/ by zero was undefined
 behaviour instead of the documented std::domain_error

---
 sdk/include/teiacare/sdk/datetime/timedelta.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/include/teiacare/sdk/datetime/timedelta.hpp b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
index 85a6446..7668184 100644
--- a/sdk/include/teiacare/sdk/datetime/timedelta.hpp
+++ b/sdk/include/teiacare/sdk/datetime/timedelta.hpp
@@ -16,6 +16,7 @@
 
 #include <chrono>
 #include <ostream>
+#include <stdexcept>
 
 namespace tc::sdk
 {
@@ -289,6 +290,9 @@ public:
      */
     constexpr inline tc::sdk::timedelta operator/(int64_t divider) const noexcept(false)
     {
+        if (divider == 0)
+            throw std::domain_error("timedelta division by zero");
+
         return tc::sdk::timedelta{_duration / divider};
     }
 
-- 
2.43.0


From aa3f57f0445ce45c3dbf56b91c2a0c56122275b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:16 +0000
Subject: [PATCH 18/22] fix: quit() called twice before wait_for_quit()
 released a binary semaphore beyond its maximum (undefined)

---
 sdk/src/signal_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/src/signal_handler.cpp b/sdk/src/signal_handler.cpp
index a43e896..408fe6f 100644
--- a/sdk/src/signal_handler.cpp
+++ b/sdk/src/signal_handler.cpp
@@ -20,7 +20,7 @@
 namespace tc::sdk
 {
 static std::function<void(const char*, int)> signal_callback;
-static std::binary_semaphore sync(0);
+static std::counting_semaphore<> sync(0);
 
 void quit(const char* message, int signal)
 {
-- 
2.43.0


From 9c02dba99c0b015642e8a2b8d1e091cac8982e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:16 +0000
Subject: [PATCH 19/22] fix: argparse/{flag,optional,positional}_argument.hpp
 had no include guard: including one twice did not compile

---
 sdk/include/teiacare/sdk/argparse/flag_argument.hpp       | 4 +++-
 sdk/include/teiacare/sdk/argparse/optional_argument.hpp   | 4 +++-
 sdk/include/teiacare/sdk/argparse/positional_argument.hpp | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/include/teiacare/sdk/argparse/flag_argument.hpp b/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
index c8eb3ab..3d267b0 100644
--- a/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
+++ b/sdk/include/teiacare/sdk/argparse/flag_argument.hpp
@@ -10,7 +10,9 @@
 // distributed under the License is distributed on an "AS IS" BASIS,
 // WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 // See the License for the specific language governing permissions and
-// limitations under the License.#pragma once
+// limitations under the License.
+
+#pragma once
 
 #include <teiacare/sdk/argparse/argument_base.hpp>
 
diff --git a/sdk/include/teiacare/sdk/argparse/optional_argument.hpp b/sdk/include/teiacare/sdk/argparse/optional_argument.hpp
index e0cd5d3..e1c46d6 100644
--- a/sdk/include/teiacare/sdk/argparse/optional_argument.hpp
+++ b/sdk/include/teiacare/sdk/argparse/optional_argument.hpp
@@ -10,7 +10,9 @@
 // distributed under the License is distributed on an "AS IS" BASIS,
 // WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 // See the License for the specific language governing permissions and
-// limitations under the License.#pragma once
+// limitations under the License.
+
+#pragma once
 
 #include <teiacare/sdk/argparse/argument_base.hpp>
 
diff --git a/sdk/include/teiacare/sdk/argparse/positional_argument.hpp b/sdk/include/teiacare/sdk/argparse/positional_argument.hpp
index c96c014..eacdeac 100644
--- a/sdk/include/teiacare/sdk/argparse/positional_argument.hpp
+++ b/sdk/include/teiacare/sdk/argparse/positional_argument.hpp
@@ -10,7 +10,9 @@
 // distributed under the License is distributed on an "AS IS" BASIS,
 // WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 // See the License for the specific language governing permissions and
-// limitations under the License.#pragma once
+// limitations under the License.
+
+#pragma once
 
 #include <teiacare/sdk/argparse/argument_base.hpp>
 
-- 
2.43.0


From 41ab802632ad75ef7feba88fa33a9fdcff641c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 20/22] fix: report invalid environment values instead of
 terminating

argument_base::parse_from_env() was noexcept although parse() throws on text
that does not convert or is rejected by the validator: such a value in the
environment ended the program instead of making parse() return
parse_result::error.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index 75b0c8d..c597469 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -84,7 +84,7 @@ public:
      * This function checks if the specified environment variable exists and,
      * if so, parses its value using the parse method.
      */
-    void parse_from_env() noexcept
+    void parse_from_env()
     {
         if (_env.empty())
             return;
-- 
2.43.0


From e1223d124ee908ce973230d94c86f29d8ef7211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 21/22] fix: an empty argument name matches no argument

find_argument() compared the name with the short name of each argument, which
is empty if there is none: tokens without a name ("-", "--", "---x", "-=5",
"--=5") silently set the first option or flag without short name.
---
 sdk/src/argparse/argument_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/src/argparse/argument_parser.cpp b/sdk/src/argparse/argument_parser.cpp
index 1217e3b..5fbc500 100644
--- a/sdk/src/argparse/argument_parser.cpp
+++ b/sdk/src/argparse/argument_parser.cpp
@@ -244,6 +244,10 @@ void argument_parser::print_arguments() const
 
 tc::sdk::argument_base* argument_parser::find_argument(std::string_view name, const std::vector<std::unique_ptr<tc::sdk::argument_base>>& args) const
 {
+    // An empty name would match every argument without a short name
+    if (name.empty())
+        return nullptr;
+
     auto it = std::find_if(args.begin(), args.end(), [&](const std::unique_ptr<tc::sdk::argument_base>& arg) {
         return name == arg->get_name_short() || name == arg->get_name_long();
     });
-- 
2.43.0


From 0a58a0a2f0a6f2467f4b90931d16e1b7cb12ea5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:47 +0000
Subject: [PATCH 22/22] fix: keep the text a parsed const char* points to

convert<const char*>() returned a pointer into the token being parsed, which
does not exist any more when parse() returns. Keep the texts in the argument.
---
 sdk/include/teiacare/sdk/argparse/argument_base.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/include/teiacare/sdk/argparse/argument_base.hpp b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
index c597469..886c20f 100644
--- a/sdk/include/teiacare/sdk/argparse/argument_base.hpp
+++ b/sdk/include/teiacare/sdk/argparse/argument_base.hpp
@@ -14,6 +14,7 @@
 
 #pragma once
 
+#include <forward_list>
 #include <sstream>
 #include <stdexcept>
 #include <string>
@@ -172,7 +173,8 @@ protected:
     typename std::enable_if_t<std::is_same_v<T, const char*>, T>
     convert(const std::string& str) const
     {
-        return str.c_str();
+        // The pointer must outlive the token it was parsed from
+        return _texts.emplace_front(str).c_str();
     }
 
     // Specialization for int
@@ -283,6 +285,7 @@ private:
     const std::string _name_short;
     const std::string _description;
     const std::string _env;
+    mutable std::forward_list<std::string> _texts;
 };
 
 }
-- 
2.43.0

