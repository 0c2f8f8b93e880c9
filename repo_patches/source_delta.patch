From d09e075c313344f3752effcf6a66d0aabeab3de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 01/58] fix: a job ended by a thread interruption is recorded
 and no longer shown as running

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp   | 7 +++++++
 boost/asynchronous/scheduler/multiple_thread_scheduler.hpp | 4 ++++
 .../scheduler/multiqueue_threadpool_scheduler.hpp          | 7 +++++++
 boost/asynchronous/scheduler/single_thread_scheduler.hpp   | 7 +++++++
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp | 7 +++++++
 .../scheduler/stealing_threadpool_scheduler.hpp            | 7 +++++++
 boost/asynchronous/scheduler/threadpool_scheduler.hpp      | 7 +++++++
 7 files changed, 46 insertions(+)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index ac814ea..da5bdb4 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -394,6 +394,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index 7fe0273..d3c0873 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -411,6 +411,10 @@ public:
             if (popped)
             {
                 (*queues)[taken_index].m_taken = false;
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
             }
         }
         catch(std::exception&)
diff --git a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
index 272bae5..6afd5fa 100755
--- a/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp
@@ -282,6 +282,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/single_thread_scheduler.hpp b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
index 1d4d88c..450b3ef 100644
--- a/boost/asynchronous/scheduler/single_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/single_thread_scheduler.hpp
@@ -228,6 +228,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(0,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 96077c8..8ef0568 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -301,6 +301,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
index 8499c1c..456d7d6 100644
--- a/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp
@@ -278,6 +278,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
diff --git a/boost/asynchronous/scheduler/threadpool_scheduler.hpp b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
index fc713e8..4757a2a 100644
--- a/boost/asynchronous/scheduler/threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/threadpool_scheduler.hpp
@@ -254,6 +254,13 @@ public:
         catch(boost::thread_interrupted&)
         {
             // task interrupted, no problem, just continue
+            if (popped)
+            {
+                boost::asynchronous::job_traits<typename Q::job_type>::set_interrupted(job,true);
+                boost::asynchronous::job_traits<typename Q::job_type>::set_finished_time(job);
+                boost::asynchronous::job_traits<typename Q::job_type>::add_diagnostic(job,diagnostics.get());
+                boost::asynchronous::job_traits<typename Q::job_type>::reset_current_diagnostic(index,diagnostics.get());
+            }
         }
         catch(std::exception&)
         {
-- 
2.43.0


From 5d8ac9df2065d3313daa38d97cc4f5e54b957e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 02/58] fix: stealing_multiqueue_threadpool_scheduler reports
 that it executed a job

The inner variable hid the one which is returned, so that the drain at shutdown
stopped after one job and a throwing job was never recorded as failed.
---
 .../scheduler/stealing_multiqueue_threadpool_scheduler.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
index 8ef0568..f5c67db 100644
--- a/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp
@@ -233,7 +233,7 @@ public:
         try
         {
 
-            bool popped = queues[index]->try_pop(job);
+            popped = queues[index]->try_pop(job);
             if (!popped)
             {
                 // ok we have nothing to do, maybe we can steal some work?
-- 
2.43.0


From 5831ce8fd9308511ee9d6de13fbbef8b9ccd2ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 03/58] fix: temporary io_threadpool workers no longer call an
 empty task after each job

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index da5bdb4..a9988b1 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -433,10 +433,9 @@ public:
                 }
                 // check for shutdown
                 boost::asynchronous::any_callable djob;
-                if (!!private_queue)
-                    executed_job = private_queue->try_pop(djob);
-                if (executed_job)
+                if (!!private_queue && private_queue->try_pop(djob))
                 {
+                    executed_job = true;
                     djob();
                 }
             } // job destroyed (for destruction useful)
-- 
2.43.0


From de555fce4738eea083f07d6a78d999e14f05da2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 04/58] fix: a throwing execute_in_all_threads task no longer
 ends the process when a temporary io_threadpool worker starts

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index a9988b1..7ebb952 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -514,7 +514,14 @@ public:
         // execute tasks which were given to us and have to be executed in all threads
         for (auto& c : execute_in_all_threads_tasks)
         {
-            c();
+            try
+            {
+                c();
+            }
+            catch(...)
+            {
+                // nobody waits for the result of this thread
+            }
         }
         // we run once then end
         do
-- 
2.43.0


From 9ceee3d12fdc29de866e8ff2a74d750134298af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 05/58] fix: io_threadpool_scheduler gives names, bindings and
 tasks for all threads only to the workers which read them

The number of registered threads is 0 in the constructor (the name was lost) and includes
temporary workers later (which never read a private queue, so that the returned future never got ready).
---
 .../scheduler/io_threadpool_scheduler.hpp          | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 7ebb952..264504f 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -285,7 +285,8 @@ public:
     void set_name(std::string const& name)
     {
         boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-        for (size_t i = 0; i< m_data->m_thread_ids.size();++i)
+        // basic (always present) threads. Other threads are given our name when they start
+        for (size_t i = 0; i< m_data->m_min_number_of_workers;++i)
         {
             boost::asynchronous::detail::set_name_task<typename Q::diagnostic_type> ntask(name);
 #ifndef BOOST_NO_RVALUE_REFERENCES
@@ -302,11 +303,8 @@ public:
     }
     void processor_bind(std::vector<std::tuple<unsigned int/*first core*/,unsigned int/*number of threads*/>> p)
     {
-        std::size_t idsize=0;
-        {
-            boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-            idsize = m_data->m_thread_ids.size();
-        }
+        // only basic (always present) threads read their private queue
+        std::size_t idsize=m_data->m_min_number_of_workers;
         // our thread (queue) index. 0 means "don't care" and is therefore not desirable)
         size_t t = 0;
         for(auto const& v : p)
@@ -322,10 +320,10 @@ public:
     BOOST_ATTRIBUTE_NODISCARD std::vector<std::future<void>> execute_in_all_threads(boost::asynchronous::any_callable c)
     {
         std::vector<std::future<void>> res;
-        std::size_t idsize=0;
+        // only basic (always present) threads read their private queue
+        std::size_t idsize=m_data->m_min_number_of_workers;
         {
             boost::mutex::scoped_lock lock(m_data->m_current_number_of_workers_mutex);
-            idsize = m_data->m_thread_ids.size();
             // remember waiting callable for newly created threads
             m_data->m_execute_in_all_threads.push_back(c);
         }
-- 
2.43.0


From db632e073d0a788be5c47d8138c2e5e6c2bbe469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 06/58] fix: multiple_thread_scheduler posts interruptible jobs
 to the servant the priority names

---
 .../scheduler/multiple_thread_scheduler.hpp            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
index d3c0873..fb93e37 100644
--- a/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
+++ b/boost/asynchronous/scheduler/multiple_thread_scheduler.hpp
@@ -296,12 +296,13 @@ public:
         boost::asynchronous::job_traits<typename queue_type::job_type>::set_posted_time(job);
         boost::asynchronous::interruptible_job<typename queue_type::job_type,this_type>
                 ijob(std::move(job),wpromise,state);
-        if (prio >= m_queues->size())
+        std::size_t servant_index = (prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[prio].m_queues->push(std::move(ijob),prio);
+        (*m_queues)[servant_index].m_queues->push(std::move(ijob),prio % 100000);
 
         std::future<boost::thread*> fu = wpromise->get_future();
         boost::asynchronous::interrupt_helper interruptible(std::move(fu),state);
@@ -327,12 +328,13 @@ public:
     }
     void enable_queue(std::size_t queue_prio, bool enable) override
     {
-        if (queue_prio >= m_queues->size())
+        std::size_t servant_index = (queue_prio / 100000);
+        if (servant_index >= m_queues->size())
         {
             // this queue is not existing
             assert(false);
         }
-        (*m_queues)[queue_prio].m_queues->enable_queue(queue_prio,enable);
+        (*m_queues)[servant_index].m_queues->enable_queue(queue_prio % 100000,enable);
     }
 
     // try to execute a job, return true
-- 
2.43.0


From 492efe7d6960a6ceb1662a2303319d287b0c081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 07/58] fix: composite_threadpool_scheduler keeps the priority
 of interruptible jobs and of jobs posted through its weak scheduler

---
 .../scheduler/composite_threadpool_scheduler.hpp            | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 048fe33..fceb678 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -127,7 +127,7 @@ public:
     {
         if (m_subpools.empty())
             return boost::asynchronous::any_interruptible();
-        return (m_subpools[this->find_position(priority,m_subpools.size())]).interruptible_post(std::move(job));
+        return (m_subpools[this->find_position(priority,m_subpools.size())]).interruptible_post(std::move(job),priority);
     }
 #else
 //TODO
@@ -343,7 +343,7 @@ private:
         void post(job_type job,std::size_t priority)
         {
             if (!m_schedulers.empty())
-                ((m_schedulers[this->find_position(priority,m_schedulers.size())])).post(std::forward<job_type>(job));
+                ((m_schedulers[this->find_position(priority,m_schedulers.size())])).post(std::forward<job_type>(job),priority);
         }
         void post(boost::asynchronous::any_callable job,const std::string& name)
         {
@@ -365,7 +365,7 @@ private:
         {
             if (m_schedulers.empty())
                 return boost::asynchronous::any_interruptible();
-            return (m_schedulers[this->find_position(priority,m_schedulers.size())]).interruptible_post(std::move(job));
+            return (m_schedulers[this->find_position(priority,m_schedulers.size())]).interruptible_post(std::move(job),priority);
         }
         boost::asynchronous::any_interruptible interruptible_post(boost::asynchronous::any_callable job,const std::string& name)
         {
-- 
2.43.0


From ed4fbf747a875cfe5c96d410906d595f46bf3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 08/58] fix: composite_threadpool_scheduler reports the
 diagnostics of all subpools when job names repeat

---
 .../scheduler/composite_threadpool_scheduler.hpp    | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index fceb678..37dca93 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -172,19 +172,12 @@ public:
     {
         if (pos==0)
         {
-            std::map<std::string,
-                     std::list<typename boost::asynchronous::job_traits<job_type>::diagnostic_item_type > > res;
-
-            std::vector<std::pair<std::string,typename boost::asynchronous::job_traits<Job>::diagnostic_item_type>> res2;
+            boost::asynchronous::scheduler_diagnostics res;
             for (typename std::vector<subpool_type>::const_iterator it = m_subpools.begin(); it != m_subpools.end();++it)
             {
-                auto one_diag = (*it).get_diagnostics().totals();
-                res.insert(one_diag.begin(),one_diag.end());
-
-                auto one_diag2 = (*it).get_diagnostics().current();
-                res2.insert(res2.end(),one_diag2.begin(),one_diag2.end());
+                res.merge((*it).get_diagnostics());
             }
-            return boost::asynchronous::scheduler_diagnostics(res,res2);
+            return res;
         }
         else
         {
-- 
2.43.0


From b10dc5146f9eec87149912965b840de72416a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 09/58] fix: composite_threadpool_scheduler gives each subpool
 the queues of all others also with mixed job types

---
 .../asynchronous/scheduler/composite_threadpool_scheduler.hpp  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 37dca93..310d4b9 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -272,7 +272,8 @@ private:
     add_queue_helper(T& t,S& s)
     {
         std::vector<boost::asynchronous::any_queue_ptr<job_type> > q = (*(s).get_internal_scheduler_aspect()).get_queues();
-        t.push_back(q);
+        // queues of our subpools come first, at the index of their subpool (just added), converted queues of other job types behind
+        t.insert(t.begin() + (m_subpools.size() - 1),q);
     }
     template <class T,class S>
     typename std::enable_if< !std::is_same<job_type, typename S::job_type>::value,void >::type
-- 
2.43.0


From c059d5193950f81a5448448e2610b4fd5fd90ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 10/58] fix: asio_scheduler::processor_bind also binds the last
 worker

---
 boost/asynchronous/extensions/asio/asio_scheduler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index f005741..e59e34a 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -165,7 +165,7 @@ public:
         size_t t = 1;
         for(auto const& v : p)
         {
-            for (unsigned int i = 0; i< std::get<1>(v) && (t < m_ioservices.size()) ;++i)
+            for (unsigned int i = 0; i< std::get<1>(v) && (t <= m_ioservices.size()) ;++i)
             {
                 boost::asynchronous::detail::processor_bind_task task(std::get<0>(v)+i);
                 job_type job(std::move(task));
-- 
2.43.0


From a9be95a3252d4e11f2ae3ae7ed58159bd2ac1f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:42 +0000
Subject: [PATCH 11/58] fix: asio_scheduler gives its workers the name it was
 constructed with

---
 boost/asynchronous/extensions/asio/asio_scheduler.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index e59e34a..65ec5d4 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -67,7 +67,6 @@ public:
         , m_immediate(immediate)
         , m_name(name)
     {
-        set_name(name);
     }
     std::vector<std::size_t> get_queue_size() const override
     {
@@ -116,6 +115,11 @@ public:
         }
         // wait for all threads to be started
         boost::wait_for_all(all_threads_started.begin(),all_threads_started.end());
+        if (!m_name.empty())
+        {
+            // only now there are workers to be named
+            set_name(m_name);
+        }
     }
     void constructor_done(std::weak_ptr<this_type> weak_self)
     {
-- 
2.43.0


From 1ac195e1d3bed75b8c924d7a8d4c43abb2c16691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 12/58] fix: execute_in_all_threads delivers the exception of
 the callable instead of a broken promise

---
 .../scheduler/detail/execute_in_all_threads.hpp        | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
index 083a7ca..81fe077 100644
--- a/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
+++ b/boost/asynchronous/scheduler/detail/execute_in_all_threads.hpp
@@ -25,7 +25,15 @@ struct execute_in_all_threads_task
     {}
     void operator()()
     {
-        to_call_();
+        try
+        {
+            to_call_();
+        }
+        catch(...)
+        {
+            done_promise_->set_exception(std::current_exception());
+            return;
+        }
         done_promise_->set_value();
     }
     boost::asynchronous::any_callable to_call_;
-- 
2.43.0


From 428187e13d26521ca0a788f6ad753c81114c34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 13/58] fix: io_threadpool_scheduler has a private queue for
 each worker when minimum and maximum are given in reverse order

---
 boost/asynchronous/scheduler/io_threadpool_scheduler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
index 264504f..b27f9dc 100644
--- a/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/io_threadpool_scheduler.hpp
@@ -60,8 +60,8 @@ public:
         : boost::asynchronous::detail::single_queue_scheduler_policy<Q>(std::make_shared<queue_type>(std::move(args)...))
         , m_data (std::make_shared<internal_data>(min_number_of_workers,max_number_of_workers, this->m_queue))
     {
-        m_private_queues.reserve(max_number_of_workers);
-        for (size_t i = 0; i< max_number_of_workers;++i)
+        m_private_queues.reserve(m_data->m_max_number_of_workers);
+        for (size_t i = 0; i< m_data->m_max_number_of_workers;++i)
         {
             m_private_queues.push_back(
                         std::make_shared<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >());
@@ -73,8 +73,8 @@ public:
         , m_data (std::make_shared<internal_data>(min_number_of_workers,max_number_of_workers, this->m_queue))
         , m_name(name)
     {
-        m_private_queues.reserve(max_number_of_workers);
-        for (size_t i = 0; i< max_number_of_workers;++i)
+        m_private_queues.reserve(m_data->m_max_number_of_workers);
+        for (size_t i = 0; i< m_data->m_max_number_of_workers;++i)
         {
             m_private_queues.push_back(
                         std::make_shared<boost::asynchronous::lockfree_queue<boost::asynchronous::any_callable> >());
-- 
2.43.0


From d1f08cc4325ad9a7df9e7d1fcb6487035eac9bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 14/58] fix: post_future of a void continuation delivers the
 exception of the continuation instead of success

---
 boost/asynchronous/post.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 806c6bf..6d8ab12 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -410,6 +410,8 @@ namespace detail
                 {
                     try
                     {
+                        // check for exception
+                        std::get<0>(continuation_res).get();
                         m_promise.set_value();
                     }
                     catch(...)
-- 
2.43.0


From 66d547c1f5b4c6bf2fe5646060ddb87117f1d1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 15/58] fix: post_future of a serializable continuation
 delivers its exception instead of task_aborted_exception

---
 boost/asynchronous/post.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 6d8ab12..8730b00 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -490,7 +490,7 @@ namespace detail
             template <class Res>
             void operator()(std::tuple<Res>&& continuation_res)
             {
-                if(!std::get<0>(continuation_res).has_value())
+                if(!boost::asynchronous::is_ready(std::get<0>(continuation_res)))
                 {
                     boost::asynchronous::task_aborted_exception ta;
                     m_promise.set_exception(std::make_exception_ptr(ta));
-- 
2.43.0


From 5b36ed210c381f095b99bea0dee20d7739b4e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 16/58] fix: a job which throws is marked failed in its
 diagnostics record

---
 boost/asynchronous/job_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/job_traits.hpp b/boost/asynchronous/job_traits.hpp
index 9da066f..18a6798 100644
--- a/boost/asynchronous/job_traits.hpp
+++ b/boost/asynchronous/job_traits.hpp
@@ -141,7 +141,7 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            bool failed = m_callable.get_failed();
+            bool failed = Base::get_failed() || m_callable.get_failed();
             return failed;
         }
         Fct m_callable;
@@ -224,7 +224,7 @@ namespace detail
         }
         virtual bool get_failed()const
         {
-            return m_callable.get_failed();
+            return Base::get_failed() || m_callable.get_failed();
         }
         template <class Archive>
         void save(Archive & ar, const unsigned int version)const
-- 
2.43.0


From 825dbe0f7253754bbc9068716e6dd28a54003a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 17/58] fix: queue_converter reports the size of its queue
 instead of the maximum size

---
 boost/asynchronous/queue/queue_converter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/queue/queue_converter.hpp b/boost/asynchronous/queue/queue_converter.hpp
index 42cd9bc..6147929 100644
--- a/boost/asynchronous/queue/queue_converter.hpp
+++ b/boost/asynchronous/queue/queue_converter.hpp
@@ -63,7 +63,7 @@ public:
     }
     virtual std::vector<std::size_t> get_queue_size()const
     {
-        return m_from_queue->get_max_queue_size();
+        return m_from_queue->get_queue_size();
     }
     virtual std::vector<std::size_t> get_max_queue_size()const
     {
-- 
2.43.0


From 9570ddd0a987a8cf879455c68e7bb50a8f97809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 18/58] fix: circular_queue reads its size under its lock

---
 boost/asynchronous/queue/circular_queue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/queue/circular_queue.hpp b/boost/asynchronous/queue/circular_queue.hpp
index 676868e..441438f 100644
--- a/boost/asynchronous/queue/circular_queue.hpp
+++ b/boost/asynchronous/queue/circular_queue.hpp
@@ -44,6 +44,7 @@ public:
     circular_queue& operator=(const circular_queue&) = delete;
     std::vector<std::size_t> get_queue_size() const
     {
+        lock_type lock(m_mutex);
         std::vector<std::size_t> res;
         res.push_back(m_size);
         return res;
@@ -151,7 +152,7 @@ private:
     std::size_t m_size;
     boost::circular_buffer<JOB> m_jobs;
     boost::condition m_not_empty;
-    mutex_type m_mutex;
+    mutable mutex_type m_mutex;
 };
 
 }} // boost::async::queue
-- 
2.43.0


From 6518e1c1c03d9e0a5e73f4f1a740afbf51c374bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:21 +0000
Subject: [PATCH 19/58] fix: threadsafe_list does not lose the wakeup of a
 consumer about to wait

---
 boost/asynchronous/queue/threadsafe_list.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/boost/asynchronous/queue/threadsafe_list.hpp b/boost/asynchronous/queue/threadsafe_list.hpp
index 5442592..bc55228 100644
--- a/boost/asynchronous/queue/threadsafe_list.hpp
+++ b/boost/asynchronous/queue/threadsafe_list.hpp
@@ -79,6 +79,10 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
+        {
+            // a consumer which found the list empty before our change has to be waiting before we notify
+            boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        }
         m_data_cond.notify_one();
     }
     void push(JOB && j)
@@ -91,6 +95,10 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
+        {
+            // a consumer which found the list empty before our change has to be waiting before we notify
+            boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        }
         m_data_cond.notify_one();
     }
     // todo remove when type_erasure supports rvalue ref
@@ -104,6 +112,10 @@ public:
             m_tail->next = std::move(p);
             m_tail = new_tail;
         }
+        {
+            // a consumer which found the list empty before our change has to be waiting before we notify
+            boost::lock_guard<boost::mutex> head_lock(m_head_mutex);
+        }
         m_data_cond.notify_one();
     }
 
-- 
2.43.0


From bd8c130f6b40d3b72bd3985c0b313b977014d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 20/58] fix: copying an outcome which holds an exception
 dereferenced a null value

---
 boost/asynchronous/expected.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/expected.hpp b/boost/asynchronous/expected.hpp
index 1838834..df3bcde 100644
--- a/boost/asynchronous/expected.hpp
+++ b/boost/asynchronous/expected.hpp
@@ -64,7 +64,7 @@ public:
      * \brief copy constructor noexcept
      */
     expected(expected const& rhs) noexcept
-        : m_value(std::make_shared<value_type>(*rhs.m_value))
+        : m_value(rhs.m_value ? std::make_shared<value_type>(*rhs.m_value) : std::shared_ptr<value_type>())
         , m_exception(rhs.m_exception)
     {
     }
@@ -84,7 +84,9 @@ public:
      */
     expected& operator=(expected const& rhs) noexcept
     {
-        if(!!m_value)
+        if(!rhs.m_value)
+            m_value.reset();
+        else if(!!m_value)
             *m_value=*rhs.m_value;
         else
             m_value = std::make_shared<value_type>(*rhs.m_value);
-- 
2.43.0


From 9b5c4b0d4974556008cd364a535aa9d651d93b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 21/58] fix: move assignments without a return value

---
 boost/asynchronous/post.hpp          | 1 +
 boost/asynchronous/servant_proxy.hpp | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/post.hpp b/boost/asynchronous/post.hpp
index 8730b00..967a17e 100644
--- a/boost/asynchronous/post.hpp
+++ b/boost/asynchronous/post.hpp
@@ -82,6 +82,7 @@ struct move_task_helper
     {
         std::swap(m_callback,r.m_callback);
         std::swap(m_task,r.m_task);
+        return *this;
     }
     void operator()(boost::asynchronous::expected<R> result_func)
     {
diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index 939eae8..c1da6fe 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -740,7 +740,7 @@ private:
           :boost::asynchronous::job_traits<callable_type>::diagnostic_type(),m_promise(rhs.m_promise){}
 #ifndef BOOST_NO_RVALUE_REFERENCES
         init_helper(init_helper&& rhs) noexcept :m_promise(std::move(rhs.m_promise)){}
-        init_helper& operator= (init_helper const&& rhs)noexcept {m_promise = std::move(rhs.m_promise);}
+        init_helper& operator= (init_helper const&& rhs)noexcept {m_promise = std::move(rhs.m_promise);return *this;}
 #endif
         template <typename... Args>
         void operator()(weak_scheduler_proxy_type proxy,Args... as)const
-- 
2.43.0


From a2cfff46088e1e4d2da2130419c9a97342ea69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 22/58] fix: moving a vector clean-up task detached it from its
 result

---
 boost/asynchronous/container/vector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index 52f6a87..d88ea6f 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -37,18 +37,21 @@ struct move_only :  public boost::asynchronous::continuation_task<void>
         : boost::asynchronous::continuation_task<void>("vector_move_only")
         , m_data(std::forward<T>(data)){}
     move_only(move_only&& rhs)noexcept
-        : boost::asynchronous::continuation_task<void>("vector_move_only")
+        : boost::asynchronous::continuation_task<void>(std::move(rhs))
         , m_data(std::move(rhs.m_data)){}
 
     move_only& operator= (move_only&& rhs) noexcept
     {
+        boost::asynchronous::continuation_task<void>::operator=(std::move(rhs));
         std::swap(m_data,rhs.m_data);
         return *this;
     }
     move_only(move_only const& rhs)noexcept
-        : m_data(std::move(const_cast<move_only&>(rhs).m_data)){}
+        : boost::asynchronous::continuation_task<void>(rhs)
+        , m_data(std::move(const_cast<move_only&>(rhs).m_data)){}
     move_only& operator= (move_only const& rhs) noexcept
     {
+        boost::asynchronous::continuation_task<void>::operator=(rhs);
         std::swap(m_data,const_cast<move_only&>(rhs).m_data);
         return *this;
     }
-- 
2.43.0


From aea6560a3a7b01fb700bf13f740ad495bb50a940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 23/58] fix: assigning jobs lost their name, times and state

---
 boost/asynchronous/diagnostics/default_loggable_job.hpp | 4 ++++
 boost/asynchronous/job_traits.hpp                       | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/boost/asynchronous/diagnostics/default_loggable_job.hpp b/boost/asynchronous/diagnostics/default_loggable_job.hpp
index f5f05b9..4470b0e 100644
--- a/boost/asynchronous/diagnostics/default_loggable_job.hpp
+++ b/boost/asynchronous/diagnostics/default_loggable_job.hpp
@@ -25,6 +25,8 @@ public:
 
     default_loggable_job(default_loggable_job const&)=default;
     default_loggable_job(default_loggable_job&&)=default;
+    default_loggable_job& operator=(default_loggable_job const&)=default;
+    default_loggable_job& operator=(default_loggable_job&&)=default;
     // our diagnostic item
     typedef boost::asynchronous::diagnostic_item diagnostic_item_type;
     default_loggable_job(std::string const& name="")
@@ -101,6 +103,8 @@ public:
 
     default_loggable_job_extended(default_loggable_job_extended const&)=default;
     default_loggable_job_extended(default_loggable_job_extended&&)=default;
+    default_loggable_job_extended& operator=(default_loggable_job_extended const&)=default;
+    default_loggable_job_extended& operator=(default_loggable_job_extended&&)=default;
     // our diagnostic item
     typedef boost::asynchronous::diagnostic_item diagnostic_item_type;
     default_loggable_job_extended(std::string const& name="")
diff --git a/boost/asynchronous/job_traits.hpp b/boost/asynchronous/job_traits.hpp
index 18a6798..af4b492 100644
--- a/boost/asynchronous/job_traits.hpp
+++ b/boost/asynchronous/job_traits.hpp
@@ -73,6 +73,7 @@ namespace detail
             : Base(std::forward<base_job>(rhs)), m_callable(std::move(rhs.m_callable)){}
         base_job& operator= (base_job&& rhs)noexcept
         {
+            Base::operator=(std::move(rhs));
             std::swap(m_callable,rhs.m_callable);
             return *this;
         }
@@ -82,6 +83,7 @@ namespace detail
         {}
         base_job& operator= (base_job const& rhs)noexcept
         {
+            Base::operator=(rhs);
             m_callable= std::move(rhs.m_callable);
             return *this;
         }
@@ -124,6 +126,7 @@ namespace detail
             : Base(std::forward<base_job>(rhs)),m_callable(std::move(rhs.m_callable)){}
         base_job& operator= (base_job&& rhs)noexcept
         {
+            Base::operator=(std::move(rhs));
             std::swap(m_callable,rhs.m_callable);
             return *this;
         }
@@ -132,6 +135,7 @@ namespace detail
         {}
         base_job& operator= (base_job const& rhs)noexcept
         {
+            Base::operator=(rhs);
             m_callable= std::move(rhs.m_callable);
             return *this;
         }
@@ -153,6 +157,7 @@ namespace detail
             : Base(std::forward<serializable_base_job>(rhs)),m_callable(std::move(rhs.m_callable)){}
         serializable_base_job& operator= (serializable_base_job&& rhs)noexcept
         {
+            Base::operator=(std::move(rhs));
             std::swap(m_callable,rhs.m_callable);
             return *this;
         }
@@ -161,6 +166,7 @@ namespace detail
         {}
         serializable_base_job& operator= (serializable_base_job const& rhs)noexcept
         {
+            Base::operator=(rhs);
             m_callable= std::move(rhs.m_callable);
             return *this;
         }
@@ -200,6 +206,7 @@ namespace detail
             : Base(std::forward<serializable_base_job>(rhs)),m_callable(std::move(rhs.m_callable)){}
         serializable_base_job& operator= (serializable_base_job&& rhs)noexcept
         {
+            Base::operator=(std::move(rhs));
             std::swap(m_callable,rhs.m_callable);
             return *this;
         }
@@ -208,6 +215,7 @@ namespace detail
         {}
         serializable_base_job& operator= (serializable_base_job const& rhs)noexcept
         {
+            Base::operator=(rhs);
             m_callable= std::move(rhs.m_callable);
             return *this;
         }
-- 
2.43.0


From 262b4317c220f0bc3019c9219bc965ad92bca2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 24/58] fix: all_of delivered several exceptions, or nothing
 for an empty vector

---
 boost/asynchronous/algorithm/all_of.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/algorithm/all_of.hpp b/boost/asynchronous/algorithm/all_of.hpp
index a495427..0e69e23 100644
--- a/boost/asynchronous/algorithm/all_of.hpp
+++ b/boost/asynchronous/algorithm/all_of.hpp
@@ -40,6 +40,8 @@ struct all_of_task_counter
 
     ResultTuple         values;
     std::atomic<size_t> task_count;
+    // set by the first failing continuation, which delivers its exception
+    std::atomic_flag    failed = ATOMIC_FLAG_INIT;
 };
 
 template <typename ResultVector>
@@ -52,6 +54,8 @@ struct all_of_vector_task_counter
 
     ResultVector        values;
     std::atomic<size_t> task_count;
+    // set by the first failing continuation, which delivers its exception
+    std::atomic_flag    failed = ATOMIC_FLAG_INIT;
 };
 
 template <typename... Continuations>
@@ -120,7 +124,8 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    if (!task_counter->failed.test_and_set())
+                        task_res.set_exception(std::current_exception());
                 }
             }
         );
@@ -148,7 +153,8 @@ struct all_of_helper : public boost::asynchronous::continuation_task<typename bo
                 }
                 catch (...)
                 {
-                    task_res.set_exception(std::current_exception());
+                    if (!task_counter->failed.test_and_set())
+                        task_res.set_exception(std::current_exception());
                 }
             }
         );
@@ -200,7 +206,8 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        if (!task_counter->failed.test_and_set())
+                            task_res.set_exception(std::current_exception());
                     }
                 }
             );
@@ -228,7 +235,8 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
                     }
                     catch (...)
                     {
-                        task_res.set_exception(std::current_exception());
+                        if (!task_counter->failed.test_and_set())
+                            task_res.set_exception(std::current_exception());
                     }
                 }
             );
@@ -239,6 +247,12 @@ struct all_of_vector_helper : public boost::asynchronous::continuation_task<type
     void operator()()
     {
         boost::asynchronous::continuation_result<return_type> task_res = this->this_task_result();
+        if (continuations_.empty())
+        {
+            // nothing to wait for
+            task_res.set_value(return_type());
+            return;
+        }
         auto task_counter = std::make_shared<task_counter_type>(continuations_.size());
 
         dispatch_all<>(task_counter, task_res);
-- 
2.43.0


From e863150c0e91f77fc29b6edfd6ad21c8cddc0086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 25/58] fix: resize within the capacity of a container never
 completed

---
 boost/asynchronous/container/algorithms.hpp | 37 ++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/container/algorithms.hpp b/boost/asynchronous/container/algorithms.hpp
index 4e3f5bb..844a042 100644
--- a/boost/asynchronous/container/algorithms.hpp
+++ b/boost/asynchronous/container/algorithms.hpp
@@ -194,6 +194,34 @@ struct resize_task: public boost::asynchronous::continuation_task<Container>
                         }
                     });
                 }
+                else
+                {
+                    // enough memory, construct the new elements in place
+                    auto v = m_value;
+                    auto data = c->get_internal_data();
+                    auto cont = boost::asynchronous::parallel_placement<value_type,Job>
+                            (c->size(),v,(char*)c->begin(),value_type(),c->get_cutoff(),c->get_name()+"_vector_resize_placement",c->get_prio());
+                    cont.on_done([task_res,c,data,v]
+                                   (std::tuple<boost::asynchronous::expected<boost::asynchronous::detail::parallel_placement_helper_result> >&& res)mutable
+                    {
+                        try
+                        {
+                            auto placement_result = std::get<0>(res).get();
+                            if (placement_result.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
+                            {
+                                task_res.set_exception(placement_result.second);
+                                return;
+                            }
+                            data->size_ = v;
+                            c->set_internal_data(data,c->capacity());
+                            task_res.set_value(std::move(*c));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
+                    });
+                }
             }
             else
             {
@@ -603,7 +631,14 @@ struct make_standard_range_task: public boost::asynchronous::continuation_task<R
     void operator()()
     {
         boost::asynchronous::continuation_result<Range> task_res = this->this_task_result();
-        task_res.set_value(Range(m_size));
+        try
+        {
+            task_res.set_value(Range(m_size));
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
+        }
     }
 
     std::size_t m_size;
-- 
2.43.0


From 0a933e2af05811ee2d1585b6a73dc81646415b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 26/58] fix: a failing construction was reported after
 construction went on

---
 .../algorithm/parallel_placement.hpp          | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_placement.hpp b/boost/asynchronous/algorithm/parallel_placement.hpp
index 00bd484..7f95819 100644
--- a/boost/asynchronous/algorithm/parallel_placement.hpp
+++ b/boost/asynchronous/algorithm/parallel_placement.hpp
@@ -131,6 +131,7 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
                             ((T*)(data_.get())+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -157,13 +158,13 @@ struct parallel_placement_helper: public boost::asynchronous::continuation_task<
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
                                     // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
@@ -255,6 +256,7 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                             ((T*)(data_)+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -281,13 +283,13 @@ struct parallel_placement_helper_raw: public boost::asynchronous::continuation_t
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
                                     // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
@@ -381,6 +383,7 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                             ((T*)(data_.get())+(j+beg_))->~T();
                         }
                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled,std::current_exception()));
+                        return;
                     }
                 }
                 task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
@@ -409,13 +412,13 @@ struct parallel_placement_iterators_helper: public boost::asynchronous::continua
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::success,std::exception_ptr()));
                                     }
                                     // if both have an error and error not handled (i.e propagated), keep any exception and proceed
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled &&
-                                             res2.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success &&
+                                             res2.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         task_res.set_value(std::make_pair(boost::asynchronous::detail::parallel_placement_helper_enum::error_handled,res1.second));
                                     }
                                     // if first part has an error and second no, call destructor on second
-                                    else if (res1.first == boost::asynchronous::detail::parallel_placement_helper_enum::error_not_handled)
+                                    else if (res1.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                                     {
                                         for (std::size_t j = 0; j < (end-it); ++j)
                                         {
-- 
2.43.0


From 967d985263c03adcecc11003095384bbb4961cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 27/58] fix: non-std exceptions in algorithm callbacks were
 lost

---
 .../algorithm/parallel_adjacent_find.hpp       |  2 +-
 boost/asynchronous/algorithm/parallel_copy.hpp | 11 +++++++++--
 .../algorithm/parallel_inner_product.hpp       |  4 ++--
 boost/asynchronous/algorithm/parallel_iota.hpp | 18 ++++++++++++++++--
 boost/asynchronous/algorithm/parallel_move.hpp | 11 +++++++++--
 .../algorithm/parallel_transform.hpp           | 10 +++++-----
 6 files changed, 42 insertions(+), 14 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
index 87c1f9d..42b150e 100644
--- a/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
+++ b/boost/asynchronous/algorithm/parallel_adjacent_find.hpp
@@ -88,7 +88,7 @@ struct parallel_adjacent_find_helper : public boost::asynchronous::continuation_
                                 task_res.set_value(std::get<1>(res).get());
                             }
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index 5a268fa..de963ab 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -83,7 +83,7 @@ struct parallel_copy_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -244,7 +244,14 @@ struct parallel_copy_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_inner_product.hpp b/boost/asynchronous/algorithm/parallel_inner_product.hpp
index 8d2cbb6..76da740 100644
--- a/boost/asynchronous/algorithm/parallel_inner_product.hpp
+++ b/boost/asynchronous/algorithm/parallel_inner_product.hpp
@@ -590,7 +590,7 @@ struct parallel_inner_product_continuation_helper: public boost::asynchronous::c
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
@@ -664,7 +664,7 @@ struct parallel_inner_product_continuation_helper<Continuation1, Continuation2,
                                 {
                                     task_res.set_value(std::move(std::get<0>(res).get()));
                                 }
-                                catch (std::exception& e)
+                                catch (...)
                                 {
                                     task_res.set_exception(std::current_exception());
                                 }
diff --git a/boost/asynchronous/algorithm/parallel_iota.hpp b/boost/asynchronous/algorithm/parallel_iota.hpp
index 766486a..734fe72 100644
--- a/boost/asynchronous/algorithm/parallel_iota.hpp
+++ b/boost/asynchronous/algorithm/parallel_iota.hpp
@@ -42,6 +42,8 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
     {
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
         
+        try
+        {
         // Advance iterator up to the cutoff
         Iterator it = boost::asynchronous::detail::find_cutoff(beg_, cutoff_, end_);
         // If the end is reached, use this thread to execute the subtask, otherwise recurse
@@ -65,7 +67,7 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
                                 std::get<1>(res).get();
                                 task_res.set_value();
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
@@ -75,6 +77,11 @@ struct parallel_iota_inplace_helper : public boost::asynchronous::continuation_t
                         parallel_iota_inplace_helper<Iterator, Job>(it, end_, start_ + distance, cutoff_, this->get_name(), prio_)
                );
         }
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
+        }
     }
 
     Iterator beg_;
@@ -116,6 +123,8 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
         std::shared_ptr<Range> range = std::move(range_);
         boost::asynchronous::continuation_result<Range> task_res = this->this_task_result();
         
+        try
+        {
         // Get iterators
         auto beg = boost::begin(*range);
         auto end = boost::end(*range);
@@ -143,7 +152,7 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
                                 std::get<1>(res).get();
                                 task_res.set_value(std::move(*range));
                             }
-                            catch (std::exception& e)
+                            catch (...)
                             {
                                 task_res.set_exception(std::current_exception());
                             }
@@ -153,6 +162,11 @@ struct parallel_iota_generate_helper : public boost::asynchronous::continuation_
                         parallel_iota_inplace_helper<decltype(it), Job>(it, end, start_ + distance, cutoff_, this->get_name(), prio_)
                );
         }
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
+        }
     }
 
     std::shared_ptr<Range> range_;
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index 9d05d4e..eebbd7b 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -82,7 +82,7 @@ struct parallel_move_helper : public boost::asynchronous::continuation_task<void
 
                             task_res.set_value();
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -243,7 +243,14 @@ struct parallel_move_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index 5e31a41..f86cf1d 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -142,7 +142,7 @@ struct parallel_transform_helper : public boost::asynchronous::continuation_task
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -236,7 +236,7 @@ struct parallel_transform2_helper : public boost::asynchronous::continuation_tas
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -320,7 +320,7 @@ struct parallel_transform_range_helper : public boost::asynchronous::continuatio
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -411,7 +411,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
@@ -510,7 +510,7 @@ struct parallel_transform_any_iterators_helper : public boost::asynchronous::con
                             std::get<0>(res).get();
                             task_res.set_value(std::get<1>(res).get());
                         }
-                        catch (std::exception const & e)
+                        catch (...)
                         {
                             task_res.set_exception(std::current_exception());
                         }
-- 
2.43.0


From 02a9b9e29ee3601d1604f709a9ca6ee0a695ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 28/58] fix: exceptions thrown by algorithm tasks were lost

---
 .../detail/parallel_all_of_helper.hpp         |  7 ++++
 .../asynchronous/algorithm/parallel_sort.hpp  | 40 ++++++++++++++++---
 .../algorithm/parallel_unique.hpp             |  7 ++++
 3 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
index 770763b..352fabe 100644
--- a/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
+++ b/boost/asynchronous/algorithm/detail/parallel_all_of_helper.hpp
@@ -46,6 +46,8 @@ struct parallel_all_of_helper: public boost::asynchronous::continuation_task<boo
     void operator()()const
     {
         boost::asynchronous::continuation_result<bool> task_res = this->this_task_result();
+        try
+        {
         // advance up to cutoff
         Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
         // if not at end, recurse, otherwise execute here
@@ -98,6 +100,11 @@ struct parallel_all_of_helper: public boost::asynchronous::continuation_task<boo
                 );
             }
         }
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
+        }
     }
     Iterator beg_;
     Iterator end_;
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 268a2f8..29b2fcf 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -550,10 +550,10 @@ struct parallel_sort_range_move_helper_serializable
                        Func func,long cutoff,const std::string& task_name, std::size_t prio,
                        boost::asynchronous::continuation_result<Range> task_res)
     {
-        // advance up to cutoff
-        auto it = boost::asynchronous::detail::find_cutoff(beg,cutoff,end);
         try
         {
+            // advance up to cutoff
+            auto it = boost::asynchronous::detail::find_cutoff(beg,cutoff,end);
             // if not at end, recurse, otherwise execute here
             if (it == end)
             {
@@ -1026,7 +1026,14 @@ struct parallel_sort_continuation_range_helper: public boost::asynchronous::cont
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1122,7 +1129,14 @@ struct parallel_stable_sort_continuation_range_helper: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1359,7 +1373,14 @@ struct parallel_sort_continuation_range_helper2: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1455,7 +1476,14 @@ struct parallel_stable_sort_continuation_range_helper2: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_unique.hpp b/boost/asynchronous/algorithm/parallel_unique.hpp
index d97cd0f..db56ebd 100644
--- a/boost/asynchronous/algorithm/parallel_unique.hpp
+++ b/boost/asynchronous/algorithm/parallel_unique.hpp
@@ -51,6 +51,8 @@ struct parallel_unique_helper: public boost::asynchronous::continuation_task<Ite
     void operator()()
     {
         boost::asynchronous::continuation_result<Iterator> task_res = this->this_task_result();
+        try
+        {
         // advance up to cutoff
         Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
         // if not at end, recurse, otherwise execute here
@@ -108,6 +110,11 @@ struct parallel_unique_helper: public boost::asynchronous::continuation_task<Ite
                         parallel_unique_helper<Iterator,Func,Job>(it,end_,func_,cutoff_,this->get_name(),prio_)
             );
         }
+        }
+        catch(...)
+        {
+            task_res.set_exception(std::current_exception());
+        }
     }
     Iterator beg_;
     Iterator end_;
-- 
2.43.0


From 56ee15c4ad539c3732207fa16567d4525fd776ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 29/58] fix: exceptions reaching a nested continuation were
 lost

---
 boost/asynchronous/algorithm/if_else.hpp      | 27 ++++++++++++++++---
 boost/asynchronous/algorithm/if_then_else.hpp | 18 +++++++++++--
 .../algorithm/parallel_all_of.hpp             |  9 ++++++-
 .../algorithm/parallel_any_of.hpp             |  9 ++++++-
 .../asynchronous/algorithm/parallel_count.hpp |  9 ++++++-
 .../algorithm/parallel_find_all.hpp           |  9 ++++++-
 .../algorithm/parallel_find_end.hpp           |  9 ++++++-
 .../algorithm/parallel_find_first_of.hpp      |  9 ++++++-
 boost/asynchronous/algorithm/parallel_for.hpp |  9 ++++++-
 .../algorithm/parallel_none_of.hpp            |  9 ++++++-
 .../algorithm/parallel_partition.hpp          | 18 +++++++++++--
 .../algorithm/parallel_quicksort.hpp          |  7 +++++
 .../algorithm/parallel_reduce.hpp             |  9 ++++++-
 .../algorithm/parallel_replace_copy.hpp       | 18 +++++++++++--
 .../algorithm/parallel_reverse.hpp            |  9 ++++++-
 .../algorithm/parallel_search.hpp             |  9 ++++++-
 .../algorithm/parallel_sort_inplace.hpp       | 18 +++++++++++--
 .../algorithm/parallel_stable_partition.hpp   |  9 ++++++-
 boost/asynchronous/container/vector.hpp       |  7 +++++
 19 files changed, 198 insertions(+), 23 deletions(-)

diff --git a/boost/asynchronous/algorithm/if_else.hpp b/boost/asynchronous/algorithm/if_else.hpp
index 5f8c3ae..8655b3d 100644
--- a/boost/asynchronous/algorithm/if_else.hpp
+++ b/boost/asynchronous/algorithm/if_else.hpp
@@ -50,7 +50,14 @@ struct if_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -113,7 +120,14 @@ struct else_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                                 typename std::tuple_element<1,typename Continuation::return_type>::type> >&& prev_res)
                             {
-                                task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(prev_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -173,7 +187,14 @@ struct else_if_continuation_helper :
                             [task_res](std::tuple<boost::asynchronous::expected<
                                             typename std::tuple_element<1,typename Continuation::return_type>::type> >&& then_res)
                             {
-                                task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                try
+                                {
+                                    task_res.set_value(std::make_tuple(true,std::move(std::get<0>(then_res).get())));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/if_then_else.hpp b/boost/asynchronous/algorithm/if_then_else.hpp
index 4ffdf7c..b19c902 100644
--- a/boost/asynchronous/algorithm/if_then_else.hpp
+++ b/boost/asynchronous/algorithm/if_then_else.hpp
@@ -53,7 +53,14 @@ struct if_then_else_continuation_helper :
                         then_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
@@ -63,7 +70,14 @@ struct if_then_else_continuation_helper :
                         else_cont.on_done(
                             [task_res](std::tuple<boost::asynchronous::expected<Return> >&& then_res)mutable
                             {
-                                task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                try
+                                {
+                                    task_res.set_value(std::move(std::get<0>(then_res).get()));
+                                }
+                                catch(...)
+                                {
+                                    task_res.set_exception(std::current_exception());
+                                }
                             }
                         );
                     }
diff --git a/boost/asynchronous/algorithm/parallel_all_of.hpp b/boost/asynchronous/algorithm/parallel_all_of.hpp
index 2ea9cd1..027c9fb 100644
--- a/boost/asynchronous/algorithm/parallel_all_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_all_of.hpp
@@ -103,7 +103,14 @@ struct parallel_all_of_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_any_of.hpp b/boost/asynchronous/algorithm/parallel_any_of.hpp
index b35c3d3..edb6eb6 100644
--- a/boost/asynchronous/algorithm/parallel_any_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_any_of.hpp
@@ -103,7 +103,14 @@ struct parallel_any_of_continuation_range_helper: public boost::asynchronous::co
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_count.hpp b/boost/asynchronous/algorithm/parallel_count.hpp
index c062bfc..d2c8b9d 100644
--- a/boost/asynchronous/algorithm/parallel_count.hpp
+++ b/boost/asynchronous/algorithm/parallel_count.hpp
@@ -434,7 +434,14 @@ struct parallel_count_continuation_range_helper: public boost::asynchronous::con
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<std::future<long> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_all.hpp b/boost/asynchronous/algorithm/parallel_find_all.hpp
index 7e22533..e68c1fd 100644
--- a/boost/asynchronous/algorithm/parallel_find_all.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_all.hpp
@@ -418,7 +418,14 @@ struct parallel_find_all_continuation_range_helper: public boost::asynchronous::
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 76c577f..eb4e8f2 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -203,7 +203,14 @@ struct parallel_find_end_range_helper: public boost::asynchronous::continuation_
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_first_of.hpp b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
index cf09e34..5c15549 100644
--- a/boost/asynchronous/algorithm/parallel_find_first_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_first_of.hpp
@@ -172,7 +172,14 @@ struct parallel_find_first_of_range_helper: public boost::asynchronous::continua
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_for.hpp b/boost/asynchronous/algorithm/parallel_for.hpp
index a82ecc4..6a7b984 100644
--- a/boost/asynchronous/algorithm/parallel_for.hpp
+++ b/boost/asynchronous/algorithm/parallel_for.hpp
@@ -434,7 +434,14 @@ struct parallel_for_continuation_range_helper: public boost::asynchronous::conti
                     auto new_continuation = boost::asynchronous::parallel_for<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_none_of.hpp b/boost/asynchronous/algorithm/parallel_none_of.hpp
index 3b675ec..656e736 100644
--- a/boost/asynchronous/algorithm/parallel_none_of.hpp
+++ b/boost/asynchronous/algorithm/parallel_none_of.hpp
@@ -103,7 +103,14 @@ struct parallel_none_of_continuation_range_helper: public boost::asynchronous::c
                                 (boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<bool> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_partition.hpp b/boost/asynchronous/algorithm/parallel_partition.hpp
index aae94b8..d4364f1 100644
--- a/boost/asynchronous/algorithm/parallel_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_partition.hpp
@@ -160,7 +160,7 @@ struct partition_worker : public boost::asynchronous::continuation_task<std::pai
                         task_res.set_value(std::make_pair(std::move(l_rest), std::move(r_rest)));
                         return;
                     }
-                    catch (std::exception& )
+                    catch (...)
                     {
                         task_res.set_exception(std::current_exception());
                         return;
@@ -311,6 +311,8 @@ struct parallel_partition_helper : public boost::asynchronous::continuation_task
                (std::tuple<boost::asynchronous::expected<std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>>> > res)
                 mutable
             {
+                try
+                {
 
                 std::pair<std::list<std::pair<Iterator, Iterator>>, std::list<std::pair<Iterator, Iterator>>> R = std::move(std::get<0>(res).get());
                 std::list<std::pair<Iterator, Iterator>> l_rest = std::move(R.first);
@@ -367,6 +369,11 @@ struct parallel_partition_helper : public boost::asynchronous::continuation_task
 
                 task_res.set_value(it_left_plus_rtrue);
                 return;
+                }
+                catch(...)
+                {
+                    task_res.set_exception(std::current_exception());
+                }
             });
         }
         catch(...)
@@ -515,7 +522,14 @@ struct parallel_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_quicksort.hpp b/boost/asynchronous/algorithm/parallel_quicksort.hpp
index 01860a7..c744db3 100644
--- a/boost/asynchronous/algorithm/parallel_quicksort.hpp
+++ b/boost/asynchronous/algorithm/parallel_quicksort.hpp
@@ -122,6 +122,8 @@ struct parallel_quicksort_helper: public boost::asynchronous::continuation_task<
                             task_res.set_exception(std::current_exception());
                             return;
                         }
+                       try
+                       {
                        //check if reverse sorted
                         auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<Iterator,Func,Job>
                             (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
@@ -206,6 +208,11 @@ struct parallel_quicksort_helper: public boost::asynchronous::continuation_task<
                                 task_res.set_exception(std::current_exception());
                             }
                         });
+                       }
+                       catch(...)
+                       {
+                           task_res.set_exception(std::current_exception());
+                       }
                 });
             }
         }
diff --git a/boost/asynchronous/algorithm/parallel_reduce.hpp b/boost/asynchronous/algorithm/parallel_reduce.hpp
index 6e9e808..adcfe78 100644
--- a/boost/asynchronous/algorithm/parallel_reduce.hpp
+++ b/boost/asynchronous/algorithm/parallel_reduce.hpp
@@ -487,7 +487,14 @@ struct parallel_reduce_continuation_range_helper: public boost::asynchronous::co
                     new_continuation.on_done([task_res]
                                              (std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_replace_copy.hpp b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
index 1773981..bbdaad3 100644
--- a/boost/asynchronous/algorithm/parallel_replace_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_replace_copy.hpp
@@ -76,7 +76,14 @@ struct parallel_replace_copy_if_continuation_helper: public boost::asynchronous:
                                 (boost::begin(*res),boost::end(*res),res_it,func,new_value,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -173,7 +180,14 @@ struct parallel_replace_copy_continuation_helper: public boost::asynchronous::co
                     new_continuation.on_done([res,task_res]
                                              (std::tuple<boost::asynchronous::expected<Iterator2> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reverse.hpp b/boost/asynchronous/algorithm/parallel_reverse.hpp
index c51eb51..d51355b 100644
--- a/boost/asynchronous/algorithm/parallel_reverse.hpp
+++ b/boost/asynchronous/algorithm/parallel_reverse.hpp
@@ -157,7 +157,14 @@ struct parallel_reverse_continuation_range_helper: public boost::asynchronous::c
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 5c5cc9f..6d9d8b1 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -202,7 +202,14 @@ struct parallel_search_range_helper: public boost::asynchronous::continuation_ta
                                 (beg1,end1,boost::begin(*res),boost::end(*res),func,cutoff,task_name,prio);
                     new_continuation.on_done([res,task_res](std::tuple<boost::asynchronous::expected<Iterator1> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
index 98634b9..898a04b 100644
--- a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
@@ -266,7 +266,14 @@ struct parallel_sort_continuation_range_inplace_helper: public boost::asynchrono
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -363,7 +370,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper: public boost::asy
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_stable_partition.hpp b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
index 3068a05..cfcce55 100644
--- a/boost/asynchronous/algorithm/parallel_stable_partition.hpp
+++ b/boost/asynchronous/algorithm/parallel_stable_partition.hpp
@@ -508,7 +508,14 @@ struct parallel_stable_partition_continuation_helper:
                     [task_res]
                     (std::tuple<boost::asynchronous::expected<return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/container/vector.hpp b/boost/asynchronous/container/vector.hpp
index d88ea6f..94c0fbe 100644
--- a/boost/asynchronous/container/vector.hpp
+++ b/boost/asynchronous/container/vector.hpp
@@ -2038,6 +2038,8 @@ private:
                 cont_p.on_done([task_res,old_data,raw,beg,end,size,cutoff,task_name,prio]
                                (std::tuple<boost::asynchronous::expected<boost::asynchronous::detail::parallel_placement_helper_result> >&& cres)mutable
                 {
+                    try
+                    {
                     auto res =std::get<0>(cres).get();
                     if (res.first != boost::asynchronous::detail::parallel_placement_helper_enum::success)
                     {
@@ -2092,6 +2094,11 @@ private:
                         }
 
                     });
+                    }
+                    catch(...)
+                    {
+                        task_res.set_exception(std::current_exception());
+                    }
                 });
 
             }
-- 
2.43.0


From cd53047fa8f42b8d15f7710202d319a3434805a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:48 +0000
Subject: [PATCH 30/58] fix: exceptions of range continuations were lost in
 nested callbacks

---
 .../asynchronous/algorithm/parallel_copy.hpp  |  9 ++-
 .../asynchronous/algorithm/parallel_count.hpp |  9 ++-
 .../algorithm/parallel_find_all.hpp           |  9 ++-
 .../asynchronous/algorithm/parallel_move.hpp  |  9 ++-
 .../algorithm/parallel_reduce.hpp             |  9 ++-
 .../algorithm/parallel_reverse.hpp            |  9 ++-
 .../asynchronous/algorithm/parallel_sort.hpp  | 72 ++++++++++++++++---
 .../algorithm/parallel_sort_inplace.hpp       | 36 ++++++++--
 8 files changed, 144 insertions(+), 18 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_copy.hpp b/boost/asynchronous/algorithm/parallel_copy.hpp
index de963ab..dd33714 100644
--- a/boost/asynchronous/algorithm/parallel_copy.hpp
+++ b/boost/asynchronous/algorithm/parallel_copy.hpp
@@ -301,7 +301,14 @@ struct parallel_copy_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_copy<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_count.hpp b/boost/asynchronous/algorithm/parallel_count.hpp
index d2c8b9d..2e23e49 100644
--- a/boost/asynchronous/algorithm/parallel_count.hpp
+++ b/boost/asynchronous/algorithm/parallel_count.hpp
@@ -490,7 +490,14 @@ struct parallel_count_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_count_if<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<long> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_find_all.hpp b/boost/asynchronous/algorithm/parallel_find_all.hpp
index e68c1fd..adc9076 100644
--- a/boost/asynchronous/algorithm/parallel_find_all.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_all.hpp
@@ -475,7 +475,14 @@ struct parallel_find_all_continuation_range_helper<Continuation,Func,ReturnRange
                     auto new_continuation = boost::asynchronous::parallel_find_all<typename Continuation::return_type, Func, ReturnRange, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnRange> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_move.hpp b/boost/asynchronous/algorithm/parallel_move.hpp
index eebbd7b..5e99982 100644
--- a/boost/asynchronous/algorithm/parallel_move.hpp
+++ b/boost/asynchronous/algorithm/parallel_move.hpp
@@ -300,7 +300,14 @@ struct parallel_move_continuation_range_helper<Continuation, ResultIterator, Job
                     auto new_continuation = boost::asynchronous::parallel_move<typename Continuation::return_type, ResultIterator, Job>(std::move(std::get<0>(continuation_res).get()),out,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reduce.hpp b/boost/asynchronous/algorithm/parallel_reduce.hpp
index adcfe78..2a3c321 100644
--- a/boost/asynchronous/algorithm/parallel_reduce.hpp
+++ b/boost/asynchronous/algorithm/parallel_reduce.hpp
@@ -547,7 +547,14 @@ struct parallel_reduce_continuation_range_helper<Continuation,Func,Func2,ReturnT
                           (std::move(std::get<0>(continuation_res).get()),func,func2,cutoff,task_name,prio);
                   new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<ReturnType> >&& new_continuation_res)
                   {
-                      task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      try
+                      {
+                          task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                      }
+                      catch(...)
+                      {
+                          task_res.set_exception(std::current_exception());
+                      }
                   });
               }
               catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_reverse.hpp b/boost/asynchronous/algorithm/parallel_reverse.hpp
index d51355b..69d9264 100644
--- a/boost/asynchronous/algorithm/parallel_reverse.hpp
+++ b/boost/asynchronous/algorithm/parallel_reverse.hpp
@@ -213,7 +213,14 @@ struct parallel_reverse_continuation_range_helper<Continuation,Job,
                        boost::asynchronous::parallel_reverse<typename Continuation::return_type, Job>(std::move(std::get<0>(continuation_res).get()),cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res)
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index 29b2fcf..ff7d91a 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -1082,7 +1082,14 @@ struct parallel_sort_continuation_range_helper<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1186,7 +1193,14 @@ struct parallel_stable_sort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1233,7 +1247,14 @@ struct parallel_spreadsort_continuation_range_helper: public boost::asynchronous
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1283,7 +1304,14 @@ struct parallel_spreadsort_continuation_range_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1429,7 +1457,14 @@ struct parallel_sort_continuation_range_helper2<Continuation,Func,Job,
                     auto new_continuation = boost::asynchronous::parallel_sort2<typename Continuation::return_type, Func, Job>(std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1533,7 +1568,14 @@ struct parallel_stable_sort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1580,7 +1622,14 @@ struct parallel_spreadsort_continuation_range_helper2: public boost::asynchronou
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -1630,7 +1679,14 @@ struct parallel_spreadsort_continuation_range_helper2<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
diff --git a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
index 898a04b..4294062 100644
--- a/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort_inplace.hpp
@@ -323,7 +323,14 @@ struct parallel_sort_continuation_range_inplace_helper<Continuation,Func,Job,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -427,7 +434,14 @@ struct parallel_stable_sort_continuation_range_inplace_helper<Continuation,Func,
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -474,7 +488,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper: public boost::asyn
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
@@ -524,7 +545,14 @@ struct parallel_spreadsort_continuation_range_inplace_helper<Continuation,Func,J
                             (std::move(std::get<0>(continuation_res).get()),func,cutoff,task_name,prio);
                     new_continuation.on_done([task_res](std::tuple<boost::asynchronous::expected<typename Continuation::return_type> >&& new_continuation_res) mutable
                     {
-                        task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        try
+                        {
+                            task_res.set_value(std::move(std::get<0>(new_continuation_res).get()));
+                        }
+                        catch(...)
+                        {
+                            task_res.set_exception(std::current_exception());
+                        }
                     });
                 }
                 catch(...)
-- 
2.43.0


From 56327734e1ab1f3dc76b2843d7e459cb3b5efa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 31/58] fix: parallel_transform of two ranges read both inputs
 of the right half from the first range

---
 boost/asynchronous/algorithm/parallel_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_transform.hpp b/boost/asynchronous/algorithm/parallel_transform.hpp
index f86cf1d..6c9179f 100644
--- a/boost/asynchronous/algorithm/parallel_transform.hpp
+++ b/boost/asynchronous/algorithm/parallel_transform.hpp
@@ -392,7 +392,7 @@ struct parallel_transform2_range_helper : public boost::asynchronous::continuati
             std::size_t dist = std::distance(boost::begin(range1_), it1);
 
             // advance seconf up to first cutoff
-            auto it2 = boost::begin(range1_) + dist;
+            auto it2 = boost::begin(range2_) + dist;
 
             // if not at end, recurse, otherwise execute here
             if (it1 == boost::end(range1_))
-- 
2.43.0


From 56d155c16be750d3356a0c5cbb733cf20c7ae836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 32/58] fix: parallel_lexicographical_compare cut its ranges at
 different places and ignored which part decides

---
 .../parallel_lexicographical_compare.hpp      | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
index 9d187db..0d522f6 100644
--- a/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
+++ b/boost/asynchronous/algorithm/parallel_lexicographical_compare.hpp
@@ -49,7 +49,9 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
         {
             // advance up to cutoff
             Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
+            // the second range has to be cut at the same distance
+            Iterator2 it2 = beg2_;
+            boost::asynchronous::detail::safe_advance(it2,std::distance(beg1_,it1),end2_);
             // if not at end, recurse, otherwise execute here
             if ((it1 == end1_) || (it2 == end2_))
             {
@@ -57,9 +59,12 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
             }
             else
             {
+                auto beg1 = beg1_;
+                auto beg2 = beg2_;
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+                            [task_res,beg1,it1,beg2,it2,func](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
                             {
                                 try
                                 {
@@ -67,8 +72,9 @@ struct parallel_lexicographical_compare_helper: public boost::asynchronous::cont
                                     bool r2 = std::get<1>(res).get();
                                     if (r1)
                                         task_res.set_value(true);
+                                    // the second part only counts if the first parts are equal
                                     else
-                                        task_res.set_value(r2);
+                                        task_res.set_value(r2 && !std::lexicographical_compare(beg2,it2,beg1,it1,func));
                                 }
                                 catch(...)
                                 {
@@ -112,7 +118,9 @@ struct parallel_lexicographical_compare_helper2: public boost::asynchronous::con
         {
             // advance up to cutoff
             Iterator1 it1 = boost::asynchronous::detail::find_cutoff(beg1_,cutoff_,end1_);
-            Iterator2 it2 = boost::asynchronous::detail::find_cutoff(beg2_,cutoff_,end2_);
+            // the second range has to be cut at the same distance
+            Iterator2 it2 = beg2_;
+            boost::asynchronous::detail::safe_advance(it2,std::distance(beg1_,it1),end2_);
             // if not at end, recurse, otherwise execute here
             if ((it1 == end1_) || (it2 == end2_))
             {
@@ -120,9 +128,11 @@ struct parallel_lexicographical_compare_helper2: public boost::asynchronous::con
             }
             else
             {
+                auto beg1 = beg1_;
+                auto beg2 = beg2_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
-                            [task_res](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
+                            [task_res,beg1,it1,beg2,it2](std::tuple<boost::asynchronous::expected<bool>,boost::asynchronous::expected<bool>> res) mutable
                             {
                                 try
                                 {
@@ -130,8 +140,9 @@ struct parallel_lexicographical_compare_helper2: public boost::asynchronous::con
                                     bool r2 = std::get<1>(res).get();
                                     if (r1)
                                         task_res.set_value(true);
+                                    // the second part only counts if the first parts are equal
                                     else
-                                        task_res.set_value(r2);
+                                        task_res.set_value(r2 && !std::lexicographical_compare(beg2,it2,beg1,it1));
                                 }
                                 catch(...)
                                 {
-- 
2.43.0


From 80287b1e05bc7ffe942f8f501b08f2fe7e47f5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 33/58] fix: parallel_search, find_end and search_n missed
 matches across a cut or searched outside their range

---
 boost/asynchronous/algorithm/parallel_find_end.hpp | 8 +++++---
 boost/asynchronous/algorithm/parallel_search.hpp   | 8 +++++---
 boost/asynchronous/algorithm/parallel_search_n.hpp | 6 ++++--
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index eb4e8f2..1ef034b 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -60,7 +60,7 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
                 auto func = std::move(func_);
                 boost::asynchronous::create_callback_continuation_job<Job>(
@@ -84,8 +84,10 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
                                         auto itend = it;
                                         auto dist2 = std::distance(beg2,end2);
 
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > dist2)
+                                            std::advance(itbeg, dist1 - dist2);
+                                        boost::asynchronous::detail::safe_advance(itend, dist2, end1);
                                         auto itoverlap = std::find_end(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 6d9d8b1..5b2754f 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -60,7 +60,7 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
             {
                 auto beg1 = beg1_;
                 auto end1 = end1_;
-                auto beg2 = end2_;
+                auto beg2 = beg2_;
                 auto end2 = end2_;
                 auto func = std::move(func_);
                 boost::asynchronous::create_callback_continuation_job<Job>(
@@ -83,8 +83,10 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
                                         auto itbeg = beg1;
                                         auto itend = it;
                                         auto dist2 = std::distance(beg2,end2);
-                                        std::advance(itbeg, std::distance(beg1,it) - dist2);
-                                        std::advance(itend, dist2);
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > dist2)
+                                            std::advance(itbeg, dist1 - dist2);
+                                        boost::asynchronous::detail::safe_advance(itend, dist2, end1);
                                         auto itoverlap = std::search(itbeg,itend,beg2,end2,func);
                                         if(itoverlap != itend)
                                         {
diff --git a/boost/asynchronous/algorithm/parallel_search_n.hpp b/boost/asynchronous/algorithm/parallel_search_n.hpp
index 78f3f9b..f0fede3 100644
--- a/boost/asynchronous/algorithm/parallel_search_n.hpp
+++ b/boost/asynchronous/algorithm/parallel_search_n.hpp
@@ -77,8 +77,10 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                                         // check in overlap region
                                         auto itbeg = beg1;
                                         auto itend = it;
-                                        std::advance(itbeg, std::distance(beg1,it) - count);
-                                        std::advance(itend, count);
+                                        auto dist1 = std::distance(beg1,it);
+                                        if (dist1 > count)
+                                            std::advance(itbeg, dist1 - count);
+                                        boost::asynchronous::detail::safe_advance(itend, count, end1);
                                         auto itoverlap = std::search_n(itbeg,itend,count,value,func);
                                         if(itoverlap != itend)
                                         {
-- 
2.43.0


From b56400e9481242a78c3a52446c67799a4467ced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:06 +0000
Subject: [PATCH 34/58] fix: parallel_search, find_end and search_n passed a
 moved-from function to their sub-tasks

---
 boost/asynchronous/algorithm/parallel_find_end.hpp | 2 +-
 boost/asynchronous/algorithm/parallel_search.hpp   | 2 +-
 boost/asynchronous/algorithm/parallel_search_n.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_find_end.hpp b/boost/asynchronous/algorithm/parallel_find_end.hpp
index 1ef034b..64ab98b 100644
--- a/boost/asynchronous/algorithm/parallel_find_end.hpp
+++ b/boost/asynchronous/algorithm/parallel_find_end.hpp
@@ -62,7 +62,7 @@ struct parallel_find_end_helper: public boost::asynchronous::continuation_task<I
                 auto end1 = end1_;
                 auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
diff --git a/boost/asynchronous/algorithm/parallel_search.hpp b/boost/asynchronous/algorithm/parallel_search.hpp
index 5b2754f..8c137ea 100644
--- a/boost/asynchronous/algorithm/parallel_search.hpp
+++ b/boost/asynchronous/algorithm/parallel_search.hpp
@@ -62,7 +62,7 @@ struct parallel_search_helper: public boost::asynchronous::continuation_task<Ite
                 auto end1 = end1_;
                 auto beg2 = beg2_;
                 auto end2 = end2_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,beg2,end2,func]
diff --git a/boost/asynchronous/algorithm/parallel_search_n.hpp b/boost/asynchronous/algorithm/parallel_search_n.hpp
index f0fede3..c27fac4 100644
--- a/boost/asynchronous/algorithm/parallel_search_n.hpp
+++ b/boost/asynchronous/algorithm/parallel_search_n.hpp
@@ -57,7 +57,7 @@ struct parallel_search_n_helper: public boost::asynchronous::continuation_task<I
                 auto end1 = end1_;
                 auto count = count_;
                 auto value = value_;
-                auto func = std::move(func_);
+                auto func = func_;
                 boost::asynchronous::create_callback_continuation_job<Job>(
                             // called when subtasks are done, set our result
                             [task_res,it,beg1,end1,count,value,func]
-- 
2.43.0


From 1dc9b3a4f4293a2abfcbba5660277bda2e8ae32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:22 +0000
Subject: [PATCH 35/58] fix: parallel_merge put equal elements of the second
 range before those of the first

---
 .../asynchronous/algorithm/parallel_merge.hpp | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_merge.hpp b/boost/asynchronous/algorithm/parallel_merge.hpp
index 083ea32..ba672ef 100644
--- a/boost/asynchronous/algorithm/parallel_merge.hpp
+++ b/boost/asynchronous/algorithm/parallel_merge.hpp
@@ -54,7 +54,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg1_,end1_,beg2_,end2_,out_,std::move(task_res));
+                    auto it1 = (beg1_+ (end1_ - beg1_)/2);
+                    auto it2 = std::lower_bound(beg2_,end2_, *it1,func_);
+                    helper(it1,it1+1,it2,it2,*it1,std::move(task_res));
                 }
                 else
                 {
@@ -63,7 +65,10 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                         task_res.set_value();
                         return;
                     }
-                    helper(beg2_,end2_,beg1_,end1_,out_,std::move(task_res));
+                    // equal elements of the first range stay in front
+                    auto it2 = (beg2_+ (end2_ - beg2_)/2);
+                    auto it1 = std::upper_bound(beg1_,end1_, *it2,func_);
+                    helper(it1,it1,it2,it2+1,*it2,std::move(task_res));
                 }
             }
         }
@@ -72,14 +77,12 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
             task_res.set_exception(std::current_exception());
         }
     }
-    template <class It1, class It2, class OutIt>
-    void helper(It1 beg1, It1 end1, It2 beg2, It2 end2, OutIt out,boost::asynchronous::continuation_result<void> task_res)const
+    template <class T>
+    void helper(Iterator1 it1, Iterator1 next1, Iterator2 it2, Iterator2 next2, T const& mid,boost::asynchronous::continuation_result<void> task_res)const
     {
-        auto it1 = (beg1+ (end1 - beg1)/2);
-        auto it2 = std::lower_bound(beg2,end2, *it1,func_);
-        auto it3 = out + ((it1 - beg1) + (it2 - beg2));
+        auto it3 = out_ + ((it1 - beg1_) + (it2 - beg2_));
         // TODO move?
-        *it3 = *it1;
+        *it3 = mid;
         boost::asynchronous::create_callback_continuation_job<Job>(
                     // called when subtasks are done, set our result
                     [task_res](std::tuple<boost::asynchronous::expected<void>,boost::asynchronous::expected<void> > res) mutable
@@ -98,9 +101,9 @@ struct parallel_merge_helper: public boost::asynchronous::continuation_task<void
                     },
                     // recursive tasks
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (beg1,it1,beg2,it2,out,func_,cutoff_,this->get_name(),prio_),
+                        (beg1_,it1,beg2_,it2,out_,func_,cutoff_,this->get_name(),prio_),
                     parallel_merge_helper<Iterator1,Iterator2,OutIterator,Func,Job>
-                        (it1+1,end1,it2,end2,it3+1,func_,cutoff_,this->get_name(),prio_)
+                        (next1,end1_,next2,end2_,it3+1,func_,cutoff_,this->get_name(),prio_)
         );
     }
 
-- 
2.43.0


From 835c5ba8f50fdd16d3e6fb8e955329727111388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:11 +0000
Subject: [PATCH 36/58] fix: stable sorts reversed equal elements of a range
 sorted in reverse

---
 .../algorithm/parallel_is_sorted.hpp             | 12 ++++++++++++
 boost/asynchronous/algorithm/parallel_sort.hpp   | 16 ++++++++--------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/algorithm/parallel_is_sorted.hpp b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
index 92cb107..bb8ace3 100644
--- a/boost/asynchronous/algorithm/parallel_is_sorted.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_sorted.hpp
@@ -117,6 +117,18 @@ namespace detail
         }
         Func func_;
     };
+    // true for std::is_sorted only if no two neighbours are equal (reversing would change the order of equal elements)
+    template <class Func>
+    struct strictly_reverse_sorted
+    {
+        strictly_reverse_sorted(Func f):func_(std::move(f)){}
+        template <class T>
+        bool operator ()(T const& lhs, T const& rhs)const
+        {
+            return !func_(lhs,rhs);
+        }
+        Func func_;
+    };
 }
 
 template <class Iterator, class Func, class Job=BOOST_ASYNCHRONOUS_DEFAULT_JOB>
diff --git a/boost/asynchronous/algorithm/parallel_sort.hpp b/boost/asynchronous/algorithm/parallel_sort.hpp
index ff7d91a..92244da 100644
--- a/boost/asynchronous/algorithm/parallel_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_sort.hpp
@@ -71,7 +71,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((it == end)&&(depth %2 == 0))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -189,7 +189,7 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
             if ((depth_ == 0) && (end_ == it))
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg_,it,boost::asynchronous::detail::reverse_sorted<Func>(func_)))
+                if (std::is_sorted(beg_,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func_)))
                 {
                     std::reverse(beg_,end_);
                 }
@@ -229,8 +229,8 @@ struct parallel_sort_fast_helper: public boost::asynchronous::continuation_task<
                             task_res.set_value();
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<Iterator,Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<Iterator,boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
@@ -558,7 +558,7 @@ struct parallel_sort_range_move_helper_serializable
             if (it == end)
             {
                 // if already reverse sorted, only reverse
-                if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+                if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
                 {
                     std::reverse(beg,end);
                 }
@@ -761,7 +761,7 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
         if (it == end)
         {
             // if already reverse sorted, only reverse
-            if (std::is_sorted(beg,it,boost::asynchronous::detail::reverse_sorted<Func>(func)))
+            if (std::is_sorted(beg,it,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func)))
             {
                 std::reverse(beg,end);
             }
@@ -879,8 +879,8 @@ struct parallel_sort_range_move_helper2 : public boost::asynchronous::continuati
                             task_res.set_value(std::move(*range));
                             return;
                         }
-                        auto cont2 = boost::asynchronous::parallel_is_reverse_sorted<decltype(boost::begin(*range_)),Func,Job>
-                                (beg,end,func,cutoff,task_name+"_is_reverse_sorted",prio);
+                        auto cont2 = boost::asynchronous::parallel_is_sorted<decltype(boost::begin(*range_)),boost::asynchronous::detail::strictly_reverse_sorted<Func>,Job>
+                                (beg,end,boost::asynchronous::detail::strictly_reverse_sorted<Func>(func),cutoff,task_name+"_is_reverse_sorted",prio);
 #if BOOST_GCC_VERSION < 40800
                         cont2.on_done([this,range,beg,end,depth,func,cutoff,task_name,prio,task_res]
 #else
-- 
2.43.0


From 99e055c5e144fecc66bf6504473c20bc779f0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 37/58] fix: parallel_nth_element went on in the wrong part if
 the pivot ended up on the nth position

---
 boost/asynchronous/algorithm/parallel_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_nth_element.hpp b/boost/asynchronous/algorithm/parallel_nth_element.hpp
index 4b4a1cc..fbff88f 100644
--- a/boost/asynchronous/algorithm/parallel_nth_element.hpp
+++ b/boost/asynchronous/algorithm/parallel_nth_element.hpp
@@ -106,7 +106,7 @@ struct parallel_nth_element_helper: public boost::asynchronous::continuation_tas
                             //std::cout << "done parallel_partition: " << res-beg << " , " << nth-beg << " , " << size_all_partitions << std::endl;
 
                             auto dist_beg_res = std::distance(beg,res);
-                            if (dist_beg_res >= std::distance(beg,nth))
+                            if (dist_beg_res > std::distance(beg,nth))
                             {
                                 // re-iterate on first part
                                 //std::cout << "1st part: " << res-beg << std::endl;
-- 
2.43.0


From a86ecfead3dce6a28a53542f6096c9d1eacb5c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 38/58] fix: parallel_partial_sort of an empty part never ended

---
 boost/asynchronous/algorithm/parallel_partial_sort.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/boost/asynchronous/algorithm/parallel_partial_sort.hpp b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
index 4649ac0..d25c884 100644
--- a/boost/asynchronous/algorithm/parallel_partial_sort.hpp
+++ b/boost/asynchronous/algorithm/parallel_partial_sort.hpp
@@ -42,6 +42,12 @@ struct parallel_partial_sort_helper: public boost::asynchronous::continuation_ta
         boost::asynchronous::continuation_result<void> task_res = this_task_result();
         try
         {
+            // nothing to sort
+            if (middle_ == beg_)
+            {
+                task_res.set_value();
+                return;
+            }
             // if close enough, start sorting
             auto func(std::move(func_));
             auto cutoff = cutoff_;
-- 
2.43.0


From 1f1f4e7a34c853c5c7cdb81dfa5b3792019f49d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 39/58] fix: parallel_is_partitioned dereferenced the end of an
 empty range

---
 boost/asynchronous/algorithm/parallel_is_partitioned.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
index 2747feb..ed6223b 100644
--- a/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
+++ b/boost/asynchronous/algorithm/parallel_is_partitioned.hpp
@@ -48,7 +48,7 @@ struct parallel_is_partitioned_helper2:
             Iterator it = boost::asynchronous::detail::find_cutoff(beg_,cutoff_,end_);
             if (it == end_)
             {
-                bool at_begin = func_(*beg_);
+                bool at_begin = (beg_ == end_) || func_(*beg_);
                 bool current = at_begin;
                 for (auto it2 = beg_ ; it2 != end_ ; ++it2)
                 {
-- 
2.43.0


From 5ddccc8db1d1dec43be7b58357bc306c8aef9150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:53 +0000
Subject: [PATCH 40/58] fix: BOOST_ASYNC_POST_MEMBER added the slot of the
 servant twice

servant_proxy::post adds 100000 * m_offset_id itself: adding it in the macros too
sent the call to another servant's slot or past the last one.
---
 boost/asynchronous/servant_proxy.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index c1da6fe..a012549 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -63,7 +63,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = 100000 * this->m_offset_id;                                                                             \
+        std::size_t p = 0;                                                                                                      \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
@@ -74,7 +74,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                            \
     {                                                                                                                           \
         auto servant = this->m_servant;                                                                                         \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                      \
+        std::size_t p = prio;                                                                                                   \
         this->post(typename boost::asynchronous::job_traits<callable_type>::wrapper_type(boost::asynchronous::any_callable      \
         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...))),p);   \
     }
@@ -88,7 +88,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t prio = 100000 * this->m_offset_id;                                                                                      \
+        std::size_t prio = 0;                                                                                                               \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
@@ -101,7 +101,7 @@ BOOST_MPL_HAS_XXX_TRAIT_DEF(servant_type)
     void funcname(Args... args)const                                                                                                        \
     {                                                                                                                                       \
         auto servant = this->m_servant;                                                                                                     \
-        std::size_t p = prio + 100000 * this->m_offset_id;                                                                                  \
+        std::size_t p = prio;                                                                                                               \
         typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(boost::asynchronous::any_callable                          \
                         (boost::asynchronous::move_bind([servant](Args... as){servant->funcname(std::move(as)...);},std::move(args)...)));  \
         a.set_name(taskname);                                                                                                               \
-- 
2.43.0


From 3b2eeee446e823836189e95fd96931d2660e0fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:53 +0000
Subject: [PATCH 41/58] fix: servant_proxy destroyed its servant in the wrong
 slot

The destruction of a servant living in slot k of a multiple_thread_scheduler was
posted to slot 0.
---
 boost/asynchronous/servant_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index a012549..e18fe0c 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -609,7 +609,7 @@ public:
             servant_deleter n(std::move(m_servant));
             typename boost::asynchronous::job_traits<callable_type>::wrapper_type  a(std::move(n));
             a.set_name(ServantProxy::get_dtor_name());
-            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio());
+            m_proxy.post(std::move(a),ServantProxy::get_dtor_prio() + 100000 * m_offset_id);
             m_servant.reset();
         }
         m_proxy.reset();
-- 
2.43.0


From 6368f5e18ef5154abbb769873a081cc409818561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:53 +0000
Subject: [PATCH 42/58] fix: dynamic_servant_proxy_cast forgot the slot of the
 servant

---
 boost/asynchronous/servant_proxy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index e18fe0c..f4bfb14 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -482,7 +482,7 @@ protected:
     servant_proxy(AnotherProxy p, typename std::enable_if<boost::asynchronous::has_servant_type<AnotherProxy>::value>::type* = 0)BOOST_NOEXCEPT
         : m_proxy(p.m_proxy)
         , m_servant(std::dynamic_pointer_cast<typename AnotherProxy::servant_type>(p.m_servant))
-        , m_offset_id(0)
+        , m_offset_id(p.m_offset_id)
     {
     }
 public:
-- 
2.43.0


From f17e202162edd5169bc6fbf6e11e5f2432de23ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:53 +0000
Subject: [PATCH 43/58] fix: assigning to a servant_proxy destroyed its servant
 in the calling thread

The defaulted assignment operators dropped the last reference to the servant in
the caller instead of posting its destruction like the destructor does.
---
 boost/asynchronous/servant_proxy.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/servant_proxy.hpp b/boost/asynchronous/servant_proxy.hpp
index f4bfb14..570b820 100644
--- a/boost/asynchronous/servant_proxy.hpp
+++ b/boost/asynchronous/servant_proxy.hpp
@@ -623,7 +623,13 @@ public:
     /*!
      * \brief Move assignment.
      */
-    servant_proxy& operator=(servant_proxy&&)     =default;
+    servant_proxy& operator=(servant_proxy&& rhs) noexcept
+    {
+        // our servant, if we are the last to hold it, has to be destroyed in its scheduler => leave it to a destructor
+        servant_proxy tmp(std::move(rhs));
+        swap(tmp);
+        return *this;
+    }
 
     /*!
      * \brief Copy constructor.
@@ -633,7 +639,12 @@ public:
     /*!
      * \brief Copy assignment.
      */
-    servant_proxy& operator=(servant_proxy const&)=default;
+    servant_proxy& operator=(servant_proxy const& rhs)
+    {
+        servant_proxy tmp(rhs);
+        swap(tmp);
+        return *this;
+    }
 
 #ifdef BOOST_ASYNCHRONOUS_REQUIRE_ALL_ARGUMENTS
     void post(callable_type job, std::size_t prio) const
@@ -689,6 +700,12 @@ public:
     std::size_t m_offset_id;
 
 private:
+    void swap(servant_proxy& rhs) noexcept
+    {
+        std::swap(m_proxy,rhs.m_proxy);
+        std::swap(m_servant,rhs.m_servant);
+        std::swap(m_offset_id,rhs.m_offset_id);
+    }
     // safe creation of servant in our thread ctor is trivial or told us so
     template <typename S,typename... Args>
     typename std::enable_if<
-- 
2.43.0


From a50c87f0962eca860665ee33ca630eaff9a7dbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 44/58] fix: a scheduler subscribing again was removed by its
 earlier unsubscription

---
 boost/asynchronous/notification/local_subscription.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 7c628d6..10b8464 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -72,6 +72,8 @@ struct local_subscription
     template <class Sub>
     void subscribe_scheduler(Sub&& sub, boost::uuids::uuid scheduler_id, Topic const& topic)
     {
+        // removals requested before this subscription must not remove it later
+        cleanup_deleted_schedulers();
         // do not register double entries
         auto it = std::find_if(m_scheduler_subscribers.begin(), m_scheduler_subscribers.end(),
             [&](const auto& s)
-- 
2.43.0


From d1a3142b3ceaa0fccc9782bf16bc312b1537deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 45/58] fix: an event subscriber which throws left the delivery
 marked as going on

---
 .../notification/local_subscription.hpp       | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/boost/asynchronous/notification/local_subscription.hpp b/boost/asynchronous/notification/local_subscription.hpp
index 10b8464..cbbae8b 100644
--- a/boost/asynchronous/notification/local_subscription.hpp
+++ b/boost/asynchronous/notification/local_subscription.hpp
@@ -180,7 +180,22 @@ struct local_subscription
     template <class Ev>
     bool publish_internal(Ev&& e, Topic const& other_topic)
     {
+        // also if a subscriber throws, delivery is over at the end
+        struct publish_guard
+        {
+            local_subscription& m_subs;
+            ~publish_guard()
+            {
+                --m_subs.m_publish_counter;
+                if(m_subs.m_publish_counter == 0)
+                {
+                    // now we can safely cleanup
+                    m_subs.cleanup_subscriber();
+                }
+            }
+        };
         ++m_publish_counter;
+        publish_guard guard{*this};
         bool someone_handled = false;
         for (auto it = m_internal_subscribers.begin(); it != m_internal_subscribers.end();++it)
         {
@@ -205,14 +220,6 @@ struct local_subscription
                 }
             }
         }
-        --m_publish_counter;
-        if(m_publish_counter == 0)
-        {
-            // now we can safely cleanup
-            cleanup_subscriber();
-        }
-
-
         return someone_handled;
     }
 
-- 
2.43.0


From 4aa2e97fc554525abcb2973650b642939d5e7342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 46/58] fix: events of other schedulers stopped with the
 servant which had subscribed last

---
 boost/asynchronous/trackable_servant.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/trackable_servant.hpp b/boost/asynchronous/trackable_servant.hpp
index 60f80a5..c8d05ca 100644
--- a/boost/asynchronous/trackable_servant.hpp
+++ b/boost/asynchronous/trackable_servant.hpp
@@ -602,7 +602,7 @@ public:
 
             // publishing to other schedulers will mean calling this function, 
             // which will post_future to our scheduler
-            auto wrapped = [tracking, uid, weak, task_name, prio]
+            auto wrapped = [uid, weak, task_name, prio]
             (Event const& ev, Topic const& published_topic)
                 {
                     auto sched = weak.lock();
@@ -610,14 +610,15 @@ public:
                     {
                         // not in our thread, post
                         boost::asynchronous::post_future(sched,
-                            boost::asynchronous::move_bind(boost::asynchronous::check_alive([weak](Event const& ev, Topic const& published_topic)
+                            // other servants of this scheduler might be subscribed, each one checks for itself if it is alive
+                            boost::asynchronous::move_bind([weak](Event const& ev, Topic const& published_topic)
                                 {
                                     auto sched = weak.lock();
                                     if (sched.is_valid())
                                     {
                                         sched.publish_internal(ev, published_topic);
                                     }
-                                }, tracking), ev, published_topic),
+                                }, ev, published_topic),
                             task_name, prio);
                     }
                     else
-- 
2.43.0


From 2c145fb3418c3ddbd11ae787e11a619c6458f2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 47/58] fix: registering a dead scheduler for notifications
 dereferenced it

---
 boost/asynchronous/notification/notification_proxy.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/notification/notification_proxy.hpp b/boost/asynchronous/notification/notification_proxy.hpp
index bf55d78..5a771e4 100644
--- a/boost/asynchronous/notification/notification_proxy.hpp
+++ b/boost/asynchronous/notification/notification_proxy.hpp
@@ -148,7 +148,15 @@ namespace boost { namespace asynchronous { namespace subscription
                     boost::wait_for_all(fus.begin(), fus.end());
                 }
             };
-        return notification_ptr->add_scheduler(wsched.lock().thread_ids(), f, notify_me_for_new_schedulers);
+        auto sched = wsched.lock();
+        if (!sched.is_valid())
+        {
+            // nothing to register any more
+            std::promise<void> gone;
+            gone.set_exception(std::make_exception_ptr(boost::asynchronous::task_aborted_exception()));
+            return gone.get_future();
+        }
+        return notification_ptr->add_scheduler(sched.thread_ids(), f, notify_me_for_new_schedulers);
     }
 
 }}}
-- 
2.43.0


From 03e09981d9511eef70896e122389bd9350609a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:21 +0000
Subject: [PATCH 48/58] fix: a weak composite scheduler was valid after all its
 pools were gone

---
 .../scheduler/composite_threadpool_scheduler.hpp             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 310d4b9..2a0fd43 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -535,6 +535,11 @@ private:
                     locked_schedulers.emplace_back(std::move(s));
                 }
             }
+            if (locked_schedulers.empty())
+            {
+                // all pools are gone
+                return any_shared_scheduler<job_type>();
+            }
             std::shared_ptr<lockable_shared_scheduler> s = std::make_shared<lockable_shared_scheduler>(std::move(locked_schedulers));
             any_shared_scheduler_ptr<job_type> pscheduler(std::move(s));
             return any_shared_scheduler<job_type>(std::move(pscheduler));
-- 
2.43.0


From 5cc22241e553a74ee30fdbc2ae01c712004197a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:11 +0000
Subject: [PATCH 49/58] fix: posting an interruptible task to an asio scheduler
 changed the interruption state of the calling thread

---
 boost/asynchronous/extensions/asio/asio_scheduler.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/boost/asynchronous/extensions/asio/asio_scheduler.hpp b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
index 65ec5d4..26c8408 100644
--- a/boost/asynchronous/extensions/asio/asio_scheduler.hpp
+++ b/boost/asynchronous/extensions/asio/asio_scheduler.hpp
@@ -259,9 +259,6 @@ public:
     {
         std::shared_ptr<boost::asynchronous::detail::interrupt_state>
                 state = std::make_shared<boost::asynchronous::detail::interrupt_state>();
-        // write to tss in case the task requires it
-        boost::asynchronous::get_interrupt_state<>(state,true);
-
         std::shared_ptr<std::promise<boost::thread*> > wpromise = std::make_shared<std::promise<boost::thread*> >();
         boost::asynchronous::job_traits<job_type>::set_posted_time(job);
         boost::asynchronous::interruptible_job<job_type,this_type>
-- 
2.43.0


From ba66a20d0016a0c85330636ee042002d50728519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:11 +0000
Subject: [PATCH 50/58] fix: an interrupted task left its interruption state to
 the next task of its thread

---
 boost/asynchronous/scheduler/detail/interruptible_job.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index febb5e0..458e1a0 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -103,6 +103,8 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         }
         catch(boost::thread_interrupted&)
         {
+            // remove state from tss
+            boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             throw;
         }
         // other exceptions
-- 
2.43.0


From 0d28cad0c70f5fcca31a936d045738d76735d0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:11 +0000
Subject: [PATCH 51/58] fix: an interruptible task stolen by another kind of
 scheduler crashed looking for its thread

---
 .../scheduler/detail/interruptible_job.hpp             | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index 458e1a0..f9e2e89 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -27,7 +27,13 @@ namespace boost { namespace asynchronous
 
 struct thread_ptr_wrapper
 {
-    thread_ptr_wrapper(boost::thread* t):m_thread(t){}
+    thread_ptr_wrapper(boost::thread* t):m_thread(t){current()=t;}
+    // the worker thread executing the caller, whichever scheduler it belongs to (jobs can be stolen by other schedulers)
+    static boost::thread*& current()
+    {
+        static thread_local boost::thread* s_current = nullptr;
+        return s_current;
+    }
     boost::thread* m_thread;
 };
 
@@ -88,7 +94,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             return;
         }
-        m_worker->set_value(Scheduler::m_self_thread.get()->m_thread);
+        m_worker->set_value(boost::asynchronous::thread_ptr_wrapper::current());
         m_state->run();
         // if interrupted in this very short time, we don't need to start
         if (m_state->is_interrupted())
-- 
2.43.0


From b6f30f88059bf6a0114d992388f3c8bf946a37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:11 +0000
Subject: [PATCH 52/58] fix: an interruption a task did not notice could reach
 the next task of its thread

---
 .../scheduler/detail/interruptible_job.hpp        | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/boost/asynchronous/scheduler/detail/interruptible_job.hpp b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
index f9e2e89..3076d7f 100644
--- a/boost/asynchronous/scheduler/detail/interruptible_job.hpp
+++ b/boost/asynchronous/scheduler/detail/interruptible_job.hpp
@@ -99,6 +99,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         // if interrupted in this very short time, we don't need to start
         if (m_state->is_interrupted())
         {
+            clear_interruption();
             // remove state from tss
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             return;
@@ -119,6 +120,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
             // exception but not interrupted
             this->set_interrupted(false);
             m_state->complete();
+            clear_interruption();
             // remove state from tss
             boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
             throw;
@@ -126,6 +128,7 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         // ok we were not interrupted
         this->set_interrupted(false);
         m_state->complete();
+        clear_interruption();
         // remove state from tss
         boost::asynchronous::get_interrupt_state<>(std::shared_ptr<boost::asynchronous::detail::interrupt_state>(),true);
     }
@@ -137,6 +140,18 @@ struct interruptible_job : public boost::asynchronous::job_traits<Job>::diagnost
         return "";
     }
 
+    // an interruption which the job did not notice must not reach the next job of this thread
+    void clear_interruption()
+    {
+        try
+        {
+            boost::this_thread::interruption_point();
+        }
+        catch(boost::thread_interrupted&)
+        {
+        }
+    }
+
     std::shared_ptr<std::promise<boost::thread*> >                    m_worker;
     std::shared_ptr<boost::asynchronous::detail::interrupt_state>     m_state;
     Job                                                               m_job;
-- 
2.43.0


From 9abc3df22aec3accd272723fd8058ebcdf6e1952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:00 +0000
Subject: [PATCH 53/58] fix: diagnostics of one queue of an empty composite
 scheduler crashed

---
 boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
index 2a0fd43..ef0d86f 100644
--- a/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
+++ b/boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp
@@ -170,6 +170,8 @@ public:
     boost::asynchronous::scheduler_diagnostics
     get_diagnostics(std::size_t pos=0)const override
     {
+        if (m_subpools.empty())
+            return boost::asynchronous::scheduler_diagnostics();
         if (pos==0)
         {
             boost::asynchronous::scheduler_diagnostics res;
-- 
2.43.0


From b096340239067ddf8814d3c0a0b7ceb0e8a2da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:16 +0000
Subject: [PATCH 54/58] fix: server_connection reports a header failure and
 stops there

---
 boost/asynchronous/scheduler/tcp/detail/server_connection.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/boost/asynchronous/scheduler/tcp/detail/server_connection.hpp b/boost/asynchronous/scheduler/tcp/detail/server_connection.hpp
index 68d31f9..5eb3d4e 100644
--- a/boost/asynchronous/scheduler/tcp/detail/server_connection.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/server_connection.hpp
@@ -55,6 +55,7 @@ public:
                         // Header doesn't seem to be valid. Close connection.
                         // wrong header
                         callback(boost::asynchronous::tcp::client_request(BOOST_ASYNCHRONOUS_TCP_CLIENT_COM_ERROR));
+                        return;
                     }
                     // read message
                     std::shared_ptr<std::vector<char> > inbound_buffer = std::make_shared<std::vector<char> >();
@@ -114,6 +115,7 @@ public:
         {
             // Something went wrong
             cb_if_failed(reply);
+            return;
         }
         std::shared_ptr<std::string> outbound_header = std::make_shared<std::string>(header_stream.str());
         // Write the serialized data to the socket. We use "gather-write" to send
-- 
2.43.0


From 62249e25f7e4f8a0f468517befb4ba78e8a4791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:16 +0000
Subject: [PATCH 55/58] fix: job_server handles a failed sending in its own
 thread

---
 boost/asynchronous/scheduler/tcp/detail/job_server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
index 5405394..c3ac21c 100644
--- a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
@@ -135,7 +135,8 @@ private:
 
         // set started time to when job gets stolen
         boost::asynchronous::job_traits<SerializableType>::set_started_time(m_unprocessed_jobs.front().m_job);
-        connection->send(m_unprocessed_jobs.front().m_serialized,cb);
+        // called by the connection's thread, so back to ours
+        connection->send(m_unprocessed_jobs.front().m_serialized,this->make_safe_callback(cb,"",0));
         m_waiting_jobs.insert(m_unprocessed_jobs.front());
         m_unprocessed_jobs.pop_front();
     }
-- 
2.43.0


From 428883dd866e23b27c2e1a4adfecd1bacdccca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:16 +0000
Subject: [PATCH 56/58] fix: job_server ends the registration of a job when its
 result arrives

---
 boost/asynchronous/scheduler/tcp/detail/job_server.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
index c3ac21c..4b975e3 100644
--- a/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
+++ b/boost/asynchronous/scheduler/tcp/detail/job_server.hpp
@@ -184,11 +184,14 @@ private:
 
                 std::istringstream archive_stream(msg_load);
                 typename SerializableType::iarchive archive(archive_stream);
+                // the job is done, no further answer or error may reach it
+                waiting_job done_job(*it);
+                m_waiting_jobs.erase(it);
                 // set finish time to when result is sent, close diagnostics
-                boost::asynchronous::job_traits<SerializableType>::set_finished_time(const_cast<SerializableType&>((*it).m_job));
-                boost::asynchronous::job_traits<SerializableType>::add_diagnostic(const_cast<SerializableType&>((*it).m_job),(*it).m_diag.get());
+                boost::asynchronous::job_traits<SerializableType>::set_finished_time(done_job.m_job);
+                boost::asynchronous::job_traits<SerializableType>::add_diagnostic(done_job.m_job,done_job.m_diag.get());
 
-                const_cast<SerializableType&>((*it).m_job).serialize(archive,0);
+                done_job.m_job.serialize(archive,0);
             }
             // else ignore TODO log?
         }
-- 
2.43.0


From 6fb084e3d8c5fa929e0ef1cde6bfa375d4a14166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:16 +0000
Subject: [PATCH 57/58] fix: simple_tcp_client stops after a failed request
 header and sends the answers which waited for a request

---
 boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index d00c5e2..61f1c23 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -359,8 +359,10 @@ private:
         if (!header_stream || header_stream.str().size() != m_header_length)
         {
           // Something went wrong
+          m_is_writing = false;
           stop();
           cb(std::make_shared<std::vector<char> >());
+          return;
         }
         std::shared_ptr<std::string> outbound_header = std::make_shared<std::string>(header_stream.str());
         // Write the serialized data to the socket. We use "gather-write" to send
@@ -371,7 +373,12 @@ private:
         boost::asio::async_write(*m_socket, buffers,
                                  this->make_safe_callback(std::function<void(const boost::system::error_code&,std::size_t)>(
                                                         [this,cb,outbound_buffer,outbound_header](const boost::system::error_code& err,std::size_t)mutable
-                                                        {this->m_is_writing = false;this->handle_write_request(err,cb);}),"",0));
+                                                        {
+                                                            this->m_is_writing = false;
+                                                            this->handle_write_request(err,cb);
+                                                            // results which had to wait for us
+                                                            if (!err) this->try_send_one_waiting_request();
+                                                        }),"",0));
     }
     void handle_write_request(const boost::system::error_code& err,std::function<void(std::shared_ptr<std::vector<char> >)> callback)
     {
-- 
2.43.0


From e9baf0a2ae9c983d71269cfe7be1411b8400f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:16 +0000
Subject: [PATCH 58/58] fix: simple_tcp_client answers continuation tasks which
 throw before their continuation exists

---
 .../scheduler/tcp/simple_tcp_client.hpp       | 288 ++++++++++--------
 1 file changed, 168 insertions(+), 120 deletions(-)

diff --git a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
index 61f1c23..6427ddf 100644
--- a/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
+++ b/boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp
@@ -561,6 +561,26 @@ void deserialize_and_call_task(Task& t,boost::asynchronous::tcp::server_reponse
     when_done(request);
 }
                                                                   \
+// answers with the exception being handled
+inline void report_task_failure(boost::asynchronous::tcp::client_request request,
+                                std::function<void(boost::asynchronous::tcp::client_request const&)>const& when_done)
+{
+    request.m_load.m_has_exception=true;
+    try
+    {
+        throw;
+    }
+    catch (std::exception& e)
+    {
+        request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
+    }
+    catch(...)
+    {
+        request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
+    }
+    when_done(request);
+}
+
 // register a top-level continuation task for deserialization
 template <class Task, class SerializableType = boost::asynchronous::any_serializable>
 void deserialize_and_call_top_level_continuation_task(
@@ -572,35 +592,42 @@ void deserialize_and_call_top_level_continuation_task(
     typename SerializableType::iarchive task_archive(task_stream);
     boost::asynchronous::tcp::client_request request (BOOST_ASYNCHRONOUS_TCP_CLIENT_JOB_RESULT);
     request.m_task_id = resp.m_task_id;
-    task_archive >> t;
-    // call task
-    auto cont = t();
-    cont.on_done([request,when_done](std::tuple<std::future<typename decltype(t())::return_type> >&& continuation_res)mutable
-        {
-            std::ostringstream res_archive_stream;
-            typename SerializableType::oarchive res_archive(res_archive_stream);
-            try
-            {
-                // serialize result
-                auto res = (std::get<0>(continuation_res)).get();
-                res_archive << res;
-                request.m_load.m_data = res_archive_stream.str();
-            }
-            catch (std::exception& e)
-            {
-                request.m_load.m_has_exception=true;
-                request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
-            }
-            catch(...)
+    try
+    {
+        task_archive >> t;
+        // call task
+        auto cont = t();
+        cont.on_done([request,when_done](std::tuple<std::future<typename decltype(t())::return_type> >&& continuation_res)mutable
             {
-                request.m_load.m_has_exception=true;
-                request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
+                std::ostringstream res_archive_stream;
+                typename SerializableType::oarchive res_archive(res_archive_stream);
+                try
+                {
+                    // serialize result
+                    auto res = (std::get<0>(continuation_res)).get();
+                    res_archive << res;
+                    request.m_load.m_data = res_archive_stream.str();
+                }
+                catch (std::exception& e)
+                {
+                    request.m_load.m_has_exception=true;
+                    request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
+                }
+                catch(...)
+                {
+                    request.m_load.m_has_exception=true;
+                    request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
+                }
+                when_done(request);
             }
-            when_done(request);
-        }
-    );
-    boost::asynchronous::any_continuation ac(cont);
-    boost::asynchronous::get_continuations().push_front(ac);
+        );
+        boost::asynchronous::any_continuation ac(cont);
+        boost::asynchronous::get_continuations().push_front(ac);
+    }
+    catch(...)
+    {
+        report_task_failure(request,when_done);
+    }
 }
 // register a continuation task for deserialization
 template <class Task, class SerializableType = boost::asynchronous::any_serializable>
@@ -613,36 +640,43 @@ void deserialize_and_call_continuation_task(
     typename SerializableType::iarchive task_archive(task_stream);
     boost::asynchronous::tcp::client_request request (BOOST_ASYNCHRONOUS_TCP_CLIENT_JOB_RESULT);
     request.m_task_id = resp.m_task_id;
-    task_archive >> t;
-    // call task
-    t();
-    // create continuation waiting for task completion
-    boost::asynchronous::create_continuation
-        ([request,when_done](std::tuple<std::future<typename Task::return_type> > continuation_res)mutable
-         {
-            std::ostringstream res_archive_stream;
-            typename SerializableType::oarchive res_archive(res_archive_stream);
-            try
-            {
-                // serialize result
-                auto res = (std::get<0>(continuation_res)).get();
-                res_archive << res;
-                request.m_load.m_data = res_archive_stream.str();
-            }
-            catch (std::exception& e)
-            {
-                request.m_load.m_has_exception=true;
-                request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
-            }
-            catch(...)
-            {
-                request.m_load.m_has_exception=true;
-                request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
-            }
-            when_done(request);
-         }
-    , t.get_future()
-    );
+    try
+    {
+        task_archive >> t;
+        // call task
+        t();
+        // create continuation waiting for task completion
+        boost::asynchronous::create_continuation
+            ([request,when_done](std::tuple<std::future<typename Task::return_type> > continuation_res)mutable
+             {
+                std::ostringstream res_archive_stream;
+                typename SerializableType::oarchive res_archive(res_archive_stream);
+                try
+                {
+                    // serialize result
+                    auto res = (std::get<0>(continuation_res)).get();
+                    res_archive << res;
+                    request.m_load.m_data = res_archive_stream.str();
+                }
+                catch (std::exception& e)
+                {
+                    request.m_load.m_has_exception=true;
+                    request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
+                }
+                catch(...)
+                {
+                    request.m_load.m_has_exception=true;
+                    request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
+                }
+                when_done(request);
+             }
+        , t.get_future()
+        );
+    }
+    catch(...)
+    {
+        report_task_failure(request,when_done);
+    }
 }
 
 // register callback continuations
@@ -656,34 +690,41 @@ void deserialize_and_call_callback_continuation_task(
     typename SerializableType::iarchive task_archive(task_stream);
     boost::asynchronous::tcp::client_request request (BOOST_ASYNCHRONOUS_TCP_CLIENT_JOB_RESULT);
     request.m_task_id = resp.m_task_id;
-    task_archive >> t;
-    // create continuation waiting for task completion
-    boost::asynchronous::create_callback_continuation_job<Job>
-        ([request,when_done](std::tuple<boost::asynchronous::expected<typename Task::return_type> > continuation_res)mutable
-         {
-            std::ostringstream res_archive_stream;
-            typename SerializableType::oarchive res_archive(res_archive_stream);
-            try
-            {
-                // serialize result
-                auto res = (std::get<0>(continuation_res)).get();
-                res_archive << res;
-                request.m_load.m_data = res_archive_stream.str();
-            }
-            catch (std::exception& e)
-            {
-                request.m_load.m_has_exception=true;
-                request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
-            }
-            catch(...)
-            {
-                request.m_load.m_has_exception=true;
-                request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
-            }
-            when_done(request);
-         }
-         , std::move(t)
-    );
+    try
+    {
+        task_archive >> t;
+        // create continuation waiting for task completion
+        boost::asynchronous::create_callback_continuation_job<Job>
+            ([request,when_done](std::tuple<boost::asynchronous::expected<typename Task::return_type> > continuation_res)mutable
+             {
+                std::ostringstream res_archive_stream;
+                typename SerializableType::oarchive res_archive(res_archive_stream);
+                try
+                {
+                    // serialize result
+                    auto res = (std::get<0>(continuation_res)).get();
+                    res_archive << res;
+                    request.m_load.m_data = res_archive_stream.str();
+                }
+                catch (std::exception& e)
+                {
+                    request.m_load.m_has_exception=true;
+                    request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
+                }
+                catch(...)
+                {
+                    request.m_load.m_has_exception=true;
+                    request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
+                }
+                when_done(request);
+             }
+             , std::move(t)
+        );
+    }
+    catch(...)
+    {
+        report_task_failure(request,when_done);
+    }
 }
 //register top-level callback continuations
 template <class Task, class SerializableType = boost::asynchronous::any_serializable>
@@ -697,45 +738,52 @@ void deserialize_and_call_top_level_callback_continuation_task(
     typename SerializableType::iarchive task_archive(task_stream);
     boost::asynchronous::tcp::client_request request (BOOST_ASYNCHRONOUS_TCP_CLIENT_JOB_RESULT);
     request.m_task_id = resp.m_task_id;
-    task_archive >> t;
-    auto tmsg = (std::chrono::nanoseconds(std::chrono::high_resolution_clock::now() - start).count() / 1000000);
-    if (tmsg > 10)
+    try
     {
-        std::cout << "task deserialize took in ms: "<< tmsg << std::endl;
-    }
-    // call task
-    auto start_op = std::chrono::high_resolution_clock::now();
-    auto cont = t();
-    cont.on_done([request,when_done,start_op](std::tuple<boost::asynchronous::expected<typename decltype(t())::return_type> >&& continuation_res)mutable
+        task_archive >> t;
+        auto tmsg = (std::chrono::nanoseconds(std::chrono::high_resolution_clock::now() - start).count() / 1000000);
+        if (tmsg > 10)
         {
-            auto top = (std::chrono::nanoseconds(std::chrono::high_resolution_clock::now() - start_op).count() / 1000000);
-            std::cout << "task op() took in ms: "<< top << std::endl;
-
-            std::ostringstream res_archive_stream;
-            typename SerializableType::oarchive res_archive(res_archive_stream);
-            try
-            {
-                // serialize result
-                auto start = std::chrono::high_resolution_clock::now();
-                auto&& res = std::get<0>(continuation_res).get();
-                res_archive << res;
-                request.m_load.m_data = res_archive_stream.str();
-                auto tres = (std::chrono::nanoseconds(std::chrono::high_resolution_clock::now() - start).count() / 1000000);
-                std::cout << "serialize result took in ms: "<< tres << std::endl;
-            }
-            catch (std::exception& e)
-            {
-                request.m_load.m_has_exception=true;
-                request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
-            }
-            catch(...)
+            std::cout << "task deserialize took in ms: "<< tmsg << std::endl;
+        }
+        // call task
+        auto start_op = std::chrono::high_resolution_clock::now();
+        auto cont = t();
+        cont.on_done([request,when_done,start_op](std::tuple<boost::asynchronous::expected<typename decltype(t())::return_type> >&& continuation_res)mutable
             {
-                request.m_load.m_has_exception=true;
-                request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
+                auto top = (std::chrono::nanoseconds(std::chrono::high_resolution_clock::now() - start_op).count() / 1000000);
+                std::cout << "task op() took in ms: "<< top << std::endl;
+
+                std::ostringstream res_archive_stream;
+                typename SerializableType::oarchive res_archive(res_archive_stream);
+                try
+                {
+                    // serialize result
+                    auto start = std::chrono::high_resolution_clock::now();
+                    auto&& res = std::get<0>(continuation_res).get();
+                    res_archive << res;
+                    request.m_load.m_data = res_archive_stream.str();
+                    auto tres = (std::chrono::nanoseconds(std::chrono::high_resolution_clock::now() - start).count() / 1000000);
+                    std::cout << "serialize result took in ms: "<< tres << std::endl;
+                }
+                catch (std::exception& e)
+                {
+                    request.m_load.m_has_exception=true;
+                    request.m_load.m_exception=boost::asynchronous::tcp::transport_exception(e.what());
+                }
+                catch(...)
+                {
+                    request.m_load.m_has_exception=true;
+                    request.m_load.m_exception=boost::asynchronous::tcp::transport_exception("...");
+                }
+                when_done(request);
             }
-            when_done(request);
-        }
-    );
+        );
+    }
+    catch(...)
+    {
+        report_task_failure(request,when_done);
+    }
 }
 }}}
 #endif // BOOST_ASYNCHRONOUS_SCHEDULER_TCP_SIMPLE_TCP_CLIENT_HPP
-- 
2.43.0

