// Queues: every member of every queue class.
#include "common.hpp"
#include <boost/asynchronous/queue/lockfree_stack.hpp>
#include <boost/asynchronous/queue/lockfree_spsc_queue.hpp>
#include <boost/asynchronous/queue/guarded_deque.hpp>
#include <boost/asynchronous/queue/circular_queue.hpp>
#include <boost/asynchronous/queue/threadsafe_list.hpp>
#include <boost/asynchronous/queue/any_queue_container.hpp>
#include <boost/asynchronous/queue/queue_converter.hpp>
#include <boost/asynchronous/queue/find_queue_position.hpp>
#include <boost/asynchronous/diagnostics/diagnostics_table.hpp>
#include <boost/asynchronous/diagnostics/diagnostic_item.hpp>
#include <boost/asynchronous/scheduler/detail/interrupt_state.hpp>
template class ba::guarded_deque<plain_job>;
template class ba::circular_queue<plain_job>;
template class ba::threadsafe_list<plain_job>;
template class ba::lockfree_queue<plain_job, ba::lockfree_size_max_size>;
template class ba::lockfree_stack<plain_job, ba::lockfree_size>;
template class ba::lockfree_spsc_queue<plain_job, ba::lockfree_size>;
template class ba::queue_converter<plain_job, log_job>;
template class ba::diagnostics_table<std::string, ba::diagnostic_item>;
void use()
{
    typedef ba::any_queue_container_config<ba::lockfree_queue<plain_job>> lf;
    typedef ba::any_queue_container_config<ba::guarded_deque<plain_job>> gd;
    ba::any_queue_container<plain_job> c(gd(1), lf(3, 100));
    ba::any_queue_container<plain_job, ba::default_find_position<ba::sequential_push_policy>> c2(gd(1), lf(3, 100));
    plain_job j; c.push(std::move(j), 1); c.push(std::move(j)); c.pop(); c.try_pop(j); c.try_steal(j);
}
