// Remote job server, client and protocol.
#define BOOST_ASYNCHRONOUS_USE_DEFAULT_ARCHIVE 1
#include "common.hpp"
#include <boost/asynchronous/scheduler/stealing_threadpool_scheduler.hpp>
#include <boost/asynchronous/scheduler/tcp/tcp_server_scheduler.hpp>
#include <boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp>
#include <boost/asynchronous/extensions/asio/asio_scheduler.hpp>
#include <boost/asynchronous/any_serializable.hpp>
#include <boost/asynchronous/scheduler/serializable_task.hpp>
#include <boost/asynchronous/diagnostics/any_loggable_serializable.hpp>
typedef ba::any_serializable sj;
typedef ba::any_loggable_serializable lsj;
void tcp_use()
{
    auto workers = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<>>>(3u);
    auto pool = ba::make_shared_scheduler_proxy<ba::tcp_server_scheduler<ba::lockfree_queue<sj>>>(workers, std::string("localhost"), 12345u);
    auto lw = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<log_job>>>(1u);
    ba::any_shared_scheduler_proxy<lsj> tp = ba::make_shared_scheduler_proxy<ba::tcp_server_scheduler<ba::lockfree_queue<lsj>, log_job, true>>(lw, std::string("localhost"), 12345u);
}
struct tcp_task : public ba::serializable_task
{
    tcp_task() : ba::serializable_task("tcp_task"), m(0) {}
    template <class A> void serialize(A& ar, const unsigned int) { ar & m; }
    int operator()() const { return m; }
    int m;
};
void tcp_exec(ba::tcp::server_reponse resp, std::function<void(ba::tcp::client_request const&)> done)
{
    tcp_task t;
    ba::tcp::deserialize_and_call_task(t, resp, done);
}
struct tcp_cont_task : public ba::serializable_task
{
    tcp_cont_task() : ba::serializable_task("tcp_cont_task") {}
    template <class A> void serialize(A&, const unsigned int) {}
    ba::detail::callback_continuation<int, ba::any_serializable> operator()();
};
void tcp_exec_cont(ba::tcp::server_reponse resp, std::function<void(ba::tcp::client_request const&)> done)
{
    tcp_cont_task t;
    ba::tcp::deserialize_and_call_top_level_callback_continuation_task(t, resp, done);
}
struct tcp_policy
{
    tcp_policy(ba::any_weak_scheduler<>, ba::any_shared_scheduler_proxy<ba::any_callable>) {}
    template <class T, class WS> void prepare_check_for_work(T cb, WS) { cb(); }
};
void tcp_client_use()
{
    auto s = ba::make_shared_scheduler_proxy<ba::asio_scheduler<>>();
    auto pool = ba::make_shared_scheduler_proxy<ba::threadpool_scheduler<ba::lockfree_queue<>>>(1u);
    ba::tcp::simple_tcp_client_proxy_ext<tcp_policy> p(s, pool, "localhost", "12345",
        [](std::string const&, ba::tcp::server_reponse r, std::function<void(ba::tcp::client_request const&)> d) { tcp_exec(r, d); });
    p.run();
}
