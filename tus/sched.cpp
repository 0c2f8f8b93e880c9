// Schedulers over all queue kinds and job types.
#include "common.hpp"
#include <boost/asynchronous/scheduler/multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/stealing_multiqueue_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/scheduler/io_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/composite_threadpool_scheduler.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/scheduler/cpu_load_policies.hpp>
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/queue/queue_converter.hpp>

template <class J, template<class...> class S, class Q, class... A>
void use(A... a)
{
    auto p = ba::make_shared_scheduler_proxy<S<Q>>(a...);
    (void)p;
}
template <class J>
void all_schedulers()
{
    using ba::make_shared_scheduler_proxy;
    auto s1 = make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_queue<J>>>();
    auto s1b = make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::guarded_deque<J>>>(std::string("n"), 10u);
    auto s2 = make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<J>>>(2u);
    auto s3 = make_shared_scheduler_proxy<ba::multiqueue_threadpool_scheduler<ba::lockfree_queue<J>>>(2u);
    auto s4 = make_shared_scheduler_proxy<ba::stealing_threadpool_scheduler<ba::lockfree_queue<J>, ba::no_cpu_load_saving>>(2u);
    auto s5 = make_shared_scheduler_proxy<ba::stealing_multiqueue_threadpool_scheduler<ba::threadsafe_list<J>>>(2u);
    auto s6 = make_shared_scheduler_proxy<ba::multiple_thread_scheduler<ba::lockfree_queue<J>>>(2u, 5u);
    auto s7 = make_shared_scheduler_proxy<ba::io_threadpool_scheduler<ba::lockfree_queue<J, ba::lockfree_size>>>(2u, 4u);
    auto s8 = make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<J>>(s2, s5);
    auto s9 = make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::any_queue_container<J>>>(
        ba::any_queue_container_config<ba::lockfree_queue<J>>(1),
        ba::any_queue_container_config<ba::threadsafe_list<J>>(3));
    auto s10 = make_shared_scheduler_proxy<ba::single_thread_scheduler<ba::lockfree_spsc_queue<J>>>(10u);
    auto s11 = make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_stack<J>>>(2u);
    auto s12 = make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::circular_queue<J>>>(2u, 10u);
}
template void all_schedulers<plain_job>();
template void all_schedulers<log_job>();
void mixed_composites()
{
    auto p1 = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<plain_job>>>(2u);
    auto p2 = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<plain_job>>>(2u);
    auto p3 = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<plain_job>>>(2u);
    auto l1 = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<log_job>>>(2u);
    auto c1 = ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<plain_job>>(l1, p1, p2);
    auto c2 = ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<plain_job>>(p1, l1, p2, l1);
    auto c3 = ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<plain_job>>(p1, p2, p3);
}
void asio_sched()
{
    auto a1 = ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>(1u);
    auto a2 = ba::make_shared_scheduler_proxy<ba::asio_scheduler<ba::default_find_position<ba::sequential_push_policy>, ba::no_cpu_load_saving>>(3u);
    auto tp = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<>>>(2u);
    auto c = ba::make_shared_scheduler_proxy<ba::composite_threadpool_scheduler<>>(tp, a1);
    ba::any_shared_scheduler_proxy<> any(tp);
    ba::any_weak_scheduler<> w = tp.get_weak_scheduler();
    auto l = w.lock();
}
