// Analysis driver. It is compiled to IR and analysed, never linked or run.
// It instantiates the public API of the library with opaque user types: every
// member of a type in namespace user is declared here and defined nowhere, so
// that a use of it shows up as a call to an unknown function that may do
// anything user code may do.
#include <threadpp/condition_variable.hpp>
#include <threadpp/future.hpp>
#include <threadpp/mutex.hpp>
#include <threadpp/thread.h>
#include <threadpp/thread_pool.h>
#include <threadpp/when_all_any.hpp>

namespace user
{
// a value (argument, result)
struct val
{
    val();
    val(const val&);
    val(val&&) noexcept;
    val& operator=(const val&);
    val& operator=(val&&) noexcept;
    ~val() noexcept;
    int data;
};
// callables of various shapes
struct fn_void
{
    fn_void(const fn_void&);
    fn_void(fn_void&&) noexcept;
    ~fn_void() noexcept;
    void operator()();
    int data;
};
struct fn_arg
{
    fn_arg(const fn_arg&);
    fn_arg(fn_arg&&) noexcept;
    ~fn_arg() noexcept;
    void operator()(const val&);
    int data;
};
struct fn_val
{
    fn_val(const fn_val&);
    fn_val(fn_val&&) noexcept;
    ~fn_val() noexcept;
    val operator()();
    int data;
};
struct fn_val_arg
{
    fn_val_arg(const fn_val_arg&);
    fn_val_arg(fn_val_arg&&) noexcept;
    ~fn_val_arg() noexcept;
    val operator()(const val&);
    int data;
};
// continuations, by kind of future and result
template<typename Future, typename Ret>
struct cont
{
    cont(const cont&);
    cont(cont&&) noexcept;
    ~cont() noexcept;
    Ret operator()(Future);
    int data;
};
} // namespace user

using tpp::future;
using tpp::promise;
using tpp::shared_future;
using tpp::thread;
using user::val;
using std::chrono::milliseconds;

#define ENTRY extern "C" __attribute__((noinline, used))

// ---------------------------------------------------------------- threads
ENTRY void e_init(const tpp::init_data& d) { tpp::init(d); }
ENTRY int e_shutdown(const std::chrono::seconds& s) { return tpp::shutdown(s); }
ENTRY bool e_invoke(thread::id id, user::fn_void& f) { return tpp::invoke(id, f); }
ENTRY bool e_invoke_move(thread::id id, user::fn_void& f) { return tpp::invoke(id, std::move(f)); }
ENTRY bool e_invoke_arg(thread::id id, user::fn_arg& f, val& a) { return tpp::invoke(id, f, a); }
ENTRY bool e_invoke_arg_move(thread::id id, user::fn_arg& f, val& a) { return tpp::invoke(id, std::move(f), std::move(a)); }
ENTRY bool e_invoke_task(thread::id id, tpp::task& f) { return tpp::detail::invoke_packaged_task(id, f); }
ENTRY bool e_dispatch(thread::id id, user::fn_void& f) { return tpp::dispatch(id, f); }
ENTRY bool e_dispatch_arg(thread::id id, user::fn_arg& f, val& a) { return tpp::dispatch(id, f, a); }
ENTRY bool e_dispatch_arg_move(thread::id id, user::fn_arg& f, val& a) { return tpp::dispatch(id, std::move(f), std::move(a)); }
ENTRY void e_notify(thread::id id) { tpp::notify(id); }
ENTRY void e_notify_for_exit(thread::id id) { tpp::notify_for_exit(id); }
ENTRY thread::id e_register_thread(std::thread::id id, const std::string& n) { return tpp::register_thread(id, n); }
ENTRY void e_make_thread(const std::string& n) { auto t = tpp::make_thread(n); }
ENTRY void e_make_shared_thread(const std::string& n) { auto t = tpp::make_shared_thread(n); }
ENTRY void e_get_all(std::vector<thread::id>& out) { out = tpp::get_all_registered_threads(); }
ENTRY std::size_t e_pending(thread::id id) { return tpp::get_pending_task_count(id); }
ENTRY thread::id e_main_id() { return tpp::main_thread::get_id(); }
ENTRY void e_register_this() { tpp::this_thread::register_this_thread(); }
ENTRY void e_register_this_name(const std::string& n) { tpp::this_thread::register_this_thread(n); }
ENTRY void e_unregister_this() { tpp::this_thread::unregister_this_thread(); }
ENTRY bool e_notified_for_exit() { return tpp::this_thread::notified_for_exit(); }
ENTRY thread::id e_get_id() { return tpp::this_thread::get_id(); }
ENTRY void e_process() { tpp::this_thread::process(); }
ENTRY void e_process_for(const milliseconds& d) { tpp::this_thread::process_for(d); }
ENTRY void e_wait() { tpp::this_thread::wait(); }
ENTRY std::cv_status e_wait_for(const milliseconds& d) { return tpp::this_thread::wait_for(d); }
ENTRY std::cv_status e_wait_until(const tpp::clock::time_point& t) { return tpp::this_thread::wait_until(t); }
ENTRY void e_sleep_for(const milliseconds& d) { tpp::this_thread::sleep_for(d); }
ENTRY void e_sleep_until(const tpp::clock::time_point& t) { tpp::this_thread::sleep_until(t); }
ENTRY std::uint32_t e_get_depth() { return tpp::this_thread::get_depth(); }
ENTRY bool e_is_registered() { return tpp::this_thread::is_registered(); }
ENTRY bool e_set_thread_config(thread::id id, tpp::tasks_capacity_config c) { return tpp::set_thread_config(id, c); }
ENTRY void e_thread_ctor(user::fn_void& f) { thread t(f); t.detach(); }
ENTRY void e_thread_ctor_name(const std::string& n, user::fn_void& f) { thread t(n, f); t.detach(); }
ENTRY void e_thread_move(thread& t) { thread u(std::move(t)); u.detach(); }
ENTRY void e_thread_assign(thread& a, thread& b) { a = std::move(b); }
ENTRY void e_thread_swap(thread& a, thread& b) { a.swap(b); }
ENTRY void e_thread_join(thread& a) { a.join(); }
ENTRY void e_thread_dtor(thread& a) { a.~thread(); }

// ---------------------------------------------------------------- condition variable, mutex
// callers hold the lock they wait with
#define LOCKED(l) do { if(!(l).owns_lock() || !(l).mutex()) __builtin_unreachable(); } while(false)
ENTRY void e_cv_notify_one(tpp::condition_variable& c) { c.notify_one(); }
ENTRY void e_cv_notify_all(tpp::condition_variable& c) { c.notify_all(); }
ENTRY void e_cv_wait(tpp::condition_variable& c, std::unique_lock<std::mutex>& l) { LOCKED(l); c.wait(l); }
ENTRY std::cv_status e_cv_wait_for(tpp::condition_variable& c, std::unique_lock<std::mutex>& l, const milliseconds& d) { LOCKED(l); return c.wait_for(l, d); }
ENTRY std::cv_status e_cv_wait_until(tpp::condition_variable& c, std::unique_lock<std::mutex>& l, const tpp::clock::time_point& t) { LOCKED(l); return c.wait_until(l, t); }
ENTRY void e_sem_wait(tpp::detail::semaphore& s) { s.wait(); }
ENTRY std::cv_status e_sem_wait_for(tpp::detail::semaphore& s, const milliseconds& d) { return s.wait_for(d); }
ENTRY void e_mutex_lock(tpp::mutex& m) { m.lock(); }
ENTRY bool e_mutex_try_lock(tpp::mutex& m) { return m.try_lock(); }
ENTRY void e_mutex_unlock(tpp::mutex& m) { m.unlock(); }

// ---------------------------------------------------------------- promises and futures
// callers pass something: a null exception pointer is outside the contract
#define GIVEN(e) do { if(!(e)) __builtin_unreachable(); } while(false)
#define FUTURE_ENTRIES(S, T)                                                                                           \
    ENTRY void e_promise_ctor_##S() { promise<T> p; }                                                                  \
    ENTRY void e_promise_dtor_##S(promise<T>& p) { p.~promise<T>(); }                                                  \
    ENTRY void e_promise_assign_##S(promise<T>& p, promise<T>& q) { p = std::move(q); }                                \
    ENTRY void e_promise_move_##S(promise<T>& q) { promise<T> p(std::move(q)); }                                       \
    ENTRY void e_promise_set_exception_##S(promise<T>& p, const std::exception_ptr& e) { GIVEN(e); p.set_exception(e); } \
    ENTRY void e_promise_get_future_##S(promise<T>& p) { auto f = p.get_future(); }                                    \
    ENTRY bool e_future_is_ready_##S(future<T>& f) { return f.is_ready(); }                                            \
    ENTRY bool e_future_has_error_##S(future<T>& f) { return f.has_error(); }                                          \
    ENTRY bool e_future_valid_##S(future<T>& f) { return f.valid(); }                                                  \
    ENTRY void e_future_wait_##S(future<T>& f) { f.wait(); }                                                           \
    ENTRY std::future_status e_future_wait_for_##S(future<T>& f, const milliseconds& d) { return f.wait_for(d); }      \
    ENTRY std::future_status e_future_wait_until_##S(future<T>& f, const tpp::clock::time_point& t) { return f.wait_until(t); } \
    ENTRY void e_future_get_##S(future<T>& f) { f.get(); }                                                             \
    ENTRY void e_future_share_##S(future<T>& f) { auto s = f.share(); }                                                \
    ENTRY bool e_sfuture_is_ready_##S(shared_future<T>& f) { return f.is_ready(); }                                    \
    ENTRY void e_sfuture_wait_##S(shared_future<T>& f) { f.wait(); }                                                   \
    ENTRY std::future_status e_sfuture_wait_for_##S(shared_future<T>& f, const milliseconds& d) { return f.wait_for(d); } \
    ENTRY void e_sfuture_get_##S(shared_future<T>& f) { f.get(); }                                                     \
    ENTRY void e_future_then_##S(future<T>& f, thread::id id, std::launch p, user::cont<future<T>, val>& c) { auto r = f.then(id, p, c); } \
    ENTRY void e_future_then_void_##S(future<T>& f, thread::id id, std::launch p, user::cont<future<T>, void>& c) { auto r = f.then(id, p, c); } \
    ENTRY void e_future_then_id_##S(future<T>& f, thread::id id, user::cont<future<T>, void>& c) { auto r = f.then(id, c); } \
    ENTRY void e_future_then_policy_##S(future<T>& f, std::launch p, user::cont<future<T>, void>& c) { auto r = f.then(p, c); } \
    ENTRY void e_future_then_only_##S(future<T>& f, user::cont<future<T>, void>& c) { auto r = f.then(c); }            \
    ENTRY void e_sfuture_then_##S(shared_future<T>& f, thread::id id, std::launch p, user::cont<shared_future<T>, val>& c) { auto r = f.then(id, p, c); } \
    ENTRY void e_sfuture_then_void_##S(shared_future<T>& f, thread::id id, std::launch p, user::cont<shared_future<T>, void>& c) { auto r = f.then(id, p, c); } \
    ENTRY void e_sfuture_then_policy_##S(shared_future<T>& f, std::launch p, user::cont<shared_future<T>, void>& c) { auto r = f.then(p, c); } \
    ENTRY void e_future_dtor_##S(future<T>& f) { f.~future<T>(); }                                                     \
    ENTRY void e_make_exceptional_##S(const std::exception_ptr& e) { GIVEN(e); auto f = tpp::make_exceptional_future<T>(e); }

FUTURE_ENTRIES(val, val)
FUTURE_ENTRIES(void, void)
ENTRY void e_promise_set_value_val(promise<val>& p, val& v) { p.set_value(v); }
ENTRY void e_promise_set_value_move_val(promise<val>& p, val& v) { p.set_value(std::move(v)); }
ENTRY void e_promise_set_value_void(promise<void>& p) { p.set_value(); }
ENTRY void e_make_ready_void() { auto f = tpp::make_ready_future(); }
ENTRY void e_make_ready_val(val& v) { auto f = tpp::make_ready_future(std::move(v)); }

ENTRY void e_async_void(thread::id id, std::launch p, user::fn_void& f) { auto r = tpp::async(id, p, f); }
ENTRY void e_async_val(thread::id id, std::launch p, user::fn_val& f) { auto r = tpp::async(id, p, f); }
ENTRY void e_async_val_arg(thread::id id, std::launch p, user::fn_val_arg& f, val& a) { auto r = tpp::async(id, p, f, a); }
ENTRY void e_async_val_arg_move(thread::id id, std::launch p, user::fn_val_arg& f, val& a) { auto r = tpp::async(id, p, std::move(f), std::move(a)); }
ENTRY void e_async_id(thread::id id, user::fn_void& f) { auto r = tpp::async(id, f); }
ENTRY void e_async_policy(std::launch p, user::fn_void& f) { auto r = tpp::async(p, f); }
ENTRY void e_async_only(user::fn_void& f) { auto r = tpp::async(f); }

// ---------------------------------------------------------------- combinators
using fv = future<val>;
using fw = future<void>;
using sv = shared_future<val>;
ENTRY void e_when_all_2(fv& a, fw& b) { auto r = tpp::when_all(std::move(a), std::move(b)); }
ENTRY void e_when_all_s2(sv& a, fw& b) { auto r = tpp::when_all(a, std::move(b)); }
ENTRY void e_when_all_0() { auto r = tpp::when_all(); }
ENTRY void e_when_all_it(std::vector<fv>::iterator b, std::vector<fv>::iterator e) { auto r = tpp::when_all(b, e); }
ENTRY void e_when_any_2(fv& a, fw& b) { auto r = tpp::when_any(std::move(a), std::move(b)); }
ENTRY void e_when_any_s2(sv& a, fw& b) { auto r = tpp::when_any(a, std::move(b)); }
ENTRY void e_when_any_0() { auto r = tpp::when_any(); }
ENTRY void e_when_any_it(std::vector<fv>::iterator b, std::vector<fv>::iterator e) { auto r = tpp::when_any(b, e); }

// ---------------------------------------------------------------- pool
using tpp::thread_pool;
namespace pr = tpp::priority;
ENTRY void e_pool_ctor(const std::map<pr::category, size_t>& m, tpp::tasks_capacity_config c) { auto p = new thread_pool(m, c); (void)p; }
ENTRY void e_pool_ctor_default() { auto p = new thread_pool(); (void)p; }
ENTRY void e_pool_dtor(thread_pool& p) { p.~thread_pool(); }
ENTRY void e_pool_move(thread_pool& p) { auto q = new thread_pool(std::move(p)); (void)q; }
ENTRY void e_pool_assign(thread_pool& p, thread_pool& q) { p = std::move(q); }
ENTRY void e_pool_schedule_void(thread_pool& p, pr::group g, user::fn_void& f) { auto r = p.schedule(g, f); }
ENTRY void e_pool_schedule_val(thread_pool& p, pr::group g, user::fn_val_arg& f, val& a) { auto r = p.schedule(g, f, a); }
ENTRY void e_pool_schedule_default(thread_pool& p, user::fn_void& f) { auto r = new tpp::job_future<void>(p.schedule(f)); (void)r; }
ENTRY void e_pool_change_priority(thread_pool& p, tpp::job_id id, pr::group g) { p.change_priority(id, g); }
ENTRY void e_pool_stop(thread_pool& p, tpp::job_id id) { p.stop(id); }
ENTRY void e_pool_stop_all(thread_pool& p) { p.stop_all(); }
ENTRY void e_pool_wait(thread_pool& p, tpp::job_id id) { p.wait(id); }
ENTRY void e_pool_wait_all(thread_pool& p) { p.wait_all(); }
ENTRY size_t e_pool_count(thread_pool& p) { return p.get_jobs_count(); }
ENTRY void e_job_stop(tpp::job_future<void>& j) { j.stop(); }
ENTRY void e_job_change_priority(tpp::job_future<void>& j, pr::group g) { j.change_priority(g); }
ENTRY void e_job_share(tpp::job_future<val>& j) { auto s = j.share(); }
