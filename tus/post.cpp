// Posting functions in all their forms.
#define BOOST_ASYNCHRONOUS_USE_DEFAULT_ARCHIVE 1
#include "common.hpp"
#include <boost/asynchronous/any_serializable.hpp>
#include <boost/asynchronous/diagnostics/any_loggable_serializable.hpp>
#include <boost/asynchronous/scheduler/serializable_task.hpp>
#include <boost/asynchronous/scheduler/tcp/simple_tcp_client.hpp>
#include <boost/asynchronous/post.hpp>
#include <boost/asynchronous/continuation_task.hpp>
struct ival : ba::continuation_task<int> { void operator()() const { this_task_result().set_value(1); } };
struct vval : ba::continuation_task<void> { void operator()() const { this_task_result().set_value(); } };
struct itask { int operator()() const { return m; } int m = 0; };
struct vtask { void operator()() const {} int m = 0; };
struct ictask { auto operator()() const { return ba::top_level_callback_continuation<int>(ival()); } };
struct vctask { auto operator()() const { return ba::top_level_callback_continuation<void>(vval()); } };
struct sitask : ba::serializable_task { sitask() : ba::serializable_task("s") {} template <class A> void serialize(A& ar, const unsigned int) { ar & m; } int operator()() const { return m; } int m = 0; };
struct svtask : ba::serializable_task { svtask() : ba::serializable_task("s") {} template <class A> void serialize(A& ar, const unsigned int) { ar & m; } template <class A, class B> void as_result(B& ar, const unsigned int) {} void operator()() const {} int m = 0; };
struct sictask : ba::serializable_task { sictask() : ba::serializable_task("s") {} template <class A> void serialize(A& ar, const unsigned int) { ar & m; } auto operator()() const { return ba::top_level_callback_continuation<int>(ival()); } int m = 0; };
struct icb { void operator()(ba::expected<int>) const {} };
struct vcb { void operator()(ba::expected<void>) const {} };
template <class J> void futures(ba::any_shared_scheduler_proxy<J> s)
{
    auto f1 = ba::post_future(s, itask(), "n", 1);
    auto f2 = ba::post_future(s, vtask(), "n", 1);
    auto f3 = ba::post_future(s, ictask(), "n", 1);
    auto f4 = ba::post_future(s, vctask(), "n", 1);
    auto g1 = ba::interruptible_post_future(s, itask(), "n", 1);
    auto g2 = ba::interruptible_post_future(s, vtask(), "n", 1);
    auto g3 = ba::interruptible_post_future(s, ictask(), "n", 1);
    auto g4 = ba::interruptible_post_future(s, vctask(), "n", 1);
}
template <class J, class K> void callbacks(ba::any_shared_scheduler_proxy<J> s, ba::any_weak_scheduler<K> w)
{
    ba::post_callback(s, itask(), w, icb(), "n", 1, 2);
    ba::post_callback(s, vtask(), w, vcb(), "n", 1, 2);
    ba::post_callback(s, ictask(), w, icb(), "n", 1, 2);
    ba::post_callback(s, vctask(), w, vcb(), "n", 1, 2);
    auto g1 = ba::interruptible_post_callback(s, itask(), w, icb(), "n", 1, 2);
    auto g2 = ba::interruptible_post_callback(s, vtask(), w, vcb(), "n", 1, 2);
    auto g3 = ba::interruptible_post_callback(s, ictask(), w, icb(), "n", 1, 2);
    auto g4 = ba::interruptible_post_callback(s, vctask(), w, vcb(), "n", 1, 2);
}
template <class J> void serialized(ba::any_shared_scheduler_proxy<J> s, ba::any_weak_scheduler<log_job> w)
{
    auto f1 = ba::post_future(s, sitask(), "n", 1);
    auto f2 = ba::post_future(s, svtask(), "n", 1);
    auto f3 = ba::post_future(s, sictask(), "n", 1);
    ba::post_callback(s, sitask(), w, icb(), "n", 1, 2);
    ba::post_callback(s, sictask(), w, icb(), "n", 1, 2);
}
void post_use(ba::any_shared_scheduler_proxy<plain_job> p, ba::any_shared_scheduler_proxy<log_job> l, ba::any_shared_scheduler_proxy<ba::any_serializable> s, ba::any_weak_scheduler<log_job> w, ba::any_weak_scheduler<plain_job> wp)
{
    futures(p); futures(l); callbacks(p, w); callbacks(l, wp); serialized(s, w);
}
