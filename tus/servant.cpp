// Servants, their proxies and the postings they offer.
#include "common.hpp"
#include <boost/asynchronous/scheduler/multiple_thread_scheduler.hpp>
#include <boost/asynchronous/servant_proxy.hpp>
#include <boost/asynchronous/trackable_servant.hpp>
#include <boost/asynchronous/continuation_task.hpp>
struct ival : ba::continuation_task<int> { void operator()() const { this_task_result().set_value(1); } };
struct itask { int operator()() const { return m; } int m = 0; };
struct vtask { void operator()() const {} int m = 0; };
struct ctask { auto operator()() const { return ba::top_level_callback_continuation<int>(ival()); } };
struct icb { void operator()(ba::expected<int>) const {} };
struct vcb { void operator()(ba::expected<void>) const {} };
struct event { int m = 0; };
typedef ba::subscription::exact_topic<std::string> topic_t;
struct timer { template <class F> void async_wait(F) {} template <class D, class F> void reset(D, F) {} };
struct signal { struct slot_type { template <class F> slot_type(F) {} }; void connect(slot_type const&) {} };
template <class J> struct servant : ba::trackable_servant<J, J>
{
    typedef ba::trackable_servant<J, J> base;
    servant(ba::any_weak_scheduler<J> s, ba::any_shared_scheduler_proxy<J> w) : base(s, w) {}
    servant(servant const&) = default;
    servant(servant&&) = default;
    servant& operator=(servant const&) = default;
    servant& operator=(servant&&) = default;
    void use(ba::any_shared_scheduler_proxy<J> other, servant& rhs)
    {
        auto c0 = this->make_safe_callback([]() {}, "n", 1);
        auto c1 = this->make_safe_callback([](int, std::string) {}, "n", 1);
        auto c2 = this->make_safe_post_callback([](int) {}, "n", 1);
        auto al = this->make_check_alive_functor();
        this->post_callback(itask(), icb(), "n", 1, 2);
        this->post_callback(vtask(), vcb(), "n", 1, 2);
        this->post_callback(ctask(), icb(), "n", 1, 2);
        auto i0 = this->interruptible_post_callback(itask(), icb(), "n", 1, 2);
        this->post_callback(other, itask(), icb(), "n", 1, 2);
        auto i1 = this->interruptible_post_callback(other, vtask(), vcb(), "n", 1, 2);
        auto f0 = this->post_self(itask(), "n", 1);
        auto f1 = this->interruptible_post_self(itask(), "n", 1);
        auto f2 = this->post_future(itask(), "n", 1);
        auto f3 = this->interruptible_post_future(vtask(), "n", 1);
        auto f4 = this->post_future(other, itask(), "n", 1);
        auto f5 = this->interruptible_post_future(other, itask(), "n", 1);
        auto f6 = this->post_future(ctask(), "n", 1);
        this->call_callback(other, itask(), icb(), "n", 1, 2);
        auto i2 = this->interruptible_call_callback(other, itask(), icb(), "n", 1, 2);
        timer t; signal g;
        this->async_wait(t, [](const ::boost::system::error_code&) {}, "n", 1);
        this->async_wait_duration(t, 1, [](const ::boost::system::error_code&) {}, "n", 1);
        this->safe_slot(g, std::function<void(int)>([](int) {}), "n", 1);
        auto t0 = this->subscribe([](event const&) {}, "n", 1);
        auto t1 = this->subscribe([](event const&) { return true; }, "n", 1);
        auto t2 = this->subscribe([](event const&, topic_t const&) {}, topic_t("t"), "n", 1);
        auto t3 = this->subscribe([](event const&, topic_t const&) { return true; }, topic_t("t"), "n", 1);
        auto t4 = this->template subscribe<event>([](event const&) {}, "n", 1);
        auto t5 = this->template subscribe<event>([](event const&, auto const&...) {}, topic_t("t"), "n", 1);
        this->template unsubscribe<event>(t0); this->template unsubscribe<event>(t2, topic_t("t"));
        this->publish(event()); this->publish(event(), topic_t("t"));
        *this = rhs;
        *this = std::move(rhs);
    }
    int get(int, std::string) { return 1; }
    void put(int) {}
};
template <class J> struct proxy : ba::servant_proxy<proxy<J>, servant<J>, J>
{
    typedef ba::servant_proxy<proxy<J>, servant<J>, J> base;
    using typename base::servant_type; using typename base::callable_type; using base::m_proxy; using base::m_servant;
    template <class S> proxy(S s, ba::any_shared_scheduler_proxy<J> w) : base(s, w) {}
    template <class S> proxy(S s, std::size_t i, ba::any_shared_scheduler_proxy<J> w) : base(std::make_tuple(s, i), w) {}
    BOOST_ASYNC_SERVANT_POST_CTOR_LOG("c", 3)
    BOOST_ASYNC_SERVANT_POST_DTOR_LOG("d", 4)
};
#define USER(NAME, ...) template <class J> struct NAME : proxy<J> { using proxy<J>::proxy; using typename proxy<J>::servant_type; using typename proxy<J>::callable_type; using proxy<J>::m_proxy; using proxy<J>::m_servant; __VA_ARGS__ };
USER(p_post1, BOOST_ASYNC_POST_MEMBER(get) BOOST_ASYNC_POST_MEMBER(put))
USER(p_post2, BOOST_ASYNC_POST_MEMBER(get, 5) BOOST_ASYNC_POST_MEMBER(put, 5))
USER(p_future1, BOOST_ASYNC_FUTURE_MEMBER(get) BOOST_ASYNC_FUTURE_MEMBER(put))
USER(p_future2, BOOST_ASYNC_FUTURE_MEMBER(get, 5) BOOST_ASYNC_FUTURE_MEMBER(put, 5))
USER(p_postlog2, BOOST_ASYNC_POST_MEMBER_LOG(get, "t") BOOST_ASYNC_POST_MEMBER_LOG(put, "t"))
USER(p_postlog3, BOOST_ASYNC_POST_MEMBER_LOG(get, "t", 5) BOOST_ASYNC_POST_MEMBER_LOG(put, "t", 5))
USER(p_futurelog2, BOOST_ASYNC_FUTURE_MEMBER_LOG(get, "t") BOOST_ASYNC_FUTURE_MEMBER_LOG(put, "t"))
USER(p_futurelog3, BOOST_ASYNC_FUTURE_MEMBER_LOG(get, "t", 5) BOOST_ASYNC_FUTURE_MEMBER_LOG(put, "t", 5))
USER(p_unsafecb1, BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(get) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(put))
USER(p_unsafecb2, BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(get, 5) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK(put, 5))
USER(p_unsafecblog2, BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(get, "t") BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(put, "t"))
USER(p_unsafecblog3, BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(get, "t", 5) BOOST_ASYNC_MEMBER_UNSAFE_CALLBACK_LOG(put, "t", 5))
template <class J> struct p_postcb1 : proxy<J>
{
    using proxy<J>::proxy; using typename proxy<J>::servant_type; using typename proxy<J>::callable_type; using proxy<J>::m_proxy; using proxy<J>::m_servant;
    BOOST_ASYNC_POST_CALLBACK_MEMBER_1(get)
    BOOST_ASYNC_POST_CALLBACK_MEMBER_1(put)
};
template <class J> struct p_postcb2 : proxy<J>
{
    using proxy<J>::proxy; using typename proxy<J>::servant_type; using typename proxy<J>::callable_type; using proxy<J>::m_proxy; using proxy<J>::m_servant;
    BOOST_ASYNC_POST_CALLBACK_MEMBER_2(get, 5)
    BOOST_ASYNC_POST_CALLBACK_MEMBER_2(put, 5)
};
USER(p_unsafe, BOOST_ASYNC_UNSAFE_MEMBER(get) BOOST_ASYNC_UNSAFE_MEMBER(put))
template <class P> void calls(P const& p) { p.get(1, std::string()); p.put(2); }
template <class P, class C> void cbcalls(P const& p, C const& ci, C const& cv) { p.get([](ba::expected<int>) {}, 1, std::string()); p.put([](ba::expected<void>) {}, 2); }
template <class P, class W> void scalls(P const& p, W const& w) { p.get(icb(), w, 7, 1, std::string()); p.put(vcb(), w, 7, 2); }
template <class J> void proxies(ba::any_shared_scheduler_proxy<J> s, ba::any_shared_scheduler_proxy<J> w)
{
    calls(p_post1<J>(s, w)); calls(p_post2<J>(s, w)); calls(p_future1<J>(s, w)); calls(p_future2<J>(s, w));
    calls(p_postlog2<J>(s, w)); calls(p_postlog3<J>(s, w)); calls(p_futurelog2<J>(s, w)); calls(p_futurelog3<J>(s, w)); calls(p_unsafe<J>(s, w));
    cbcalls(p_unsafecb1<J>(s, w), 0, 0); cbcalls(p_unsafecb2<J>(s, w), 0, 0); cbcalls(p_unsafecblog2<J>(s, w), 0, 0); cbcalls(p_unsafecblog3<J>(s, w), 0, 0);
    scalls(p_postcb1<J>(s, w), s.get_weak_scheduler()); scalls(p_postcb2<J>(s, w), s.get_weak_scheduler());
    p_post1<J> a(s, 2, w), b(s, w); a = b; a = std::move(b);
}
template struct servant<plain_job>;
template struct servant<log_job>;
void servant_use(ba::any_shared_scheduler_proxy<plain_job> p, ba::any_shared_scheduler_proxy<log_job> l) { proxies(p, p); proxies(l, l); }
