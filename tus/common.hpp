// Shared by the analysed translation units: nothing here is ever executed.
#pragma once
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <boost/asynchronous/callable_any.hpp>
#include <boost/asynchronous/scheduler/single_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/threadpool_scheduler.hpp>
#include <boost/asynchronous/queue/lockfree_queue.hpp>
#include <boost/asynchronous/scheduler_shared_proxy.hpp>
#include <boost/asynchronous/diagnostics/any_loggable.hpp>
namespace ba = boost::asynchronous;
typedef ba::any_loggable log_job;
typedef ba::any_callable plain_job;
