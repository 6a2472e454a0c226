// Failures of system calls and allocations (C17): every kind of operation x every failing call x position x error code.
#include "harness.hpp"
#include <atomic>
#include <chrono>
#include <new>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/locks/lock_options.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>
#include <boost/sync/exceptions/overflow_error.hpp>
#include <boost/sync/support/std_chrono.hpp>

#ifdef VCFG_WIN
namespace boost { namespace sync { namespace detail { namespace windows {
void tss_cleanup_implemented() {}
void on_thread_exit();
} } } }
#endif

using namespace boost::sync;
using std::string;

#ifdef VCFG_NO_SEM
static const bool emu = true;           // everything is emulated on mutexes and condition variables
#else
static const bool emu = false;
#endif
#ifdef VCFG_DISPATCH
static const bool emu_sem = false;      // but semaphores
#else
static const bool emu_sem = emu;
#endif
#ifdef BOOST_SYNC_USE_PTHREAD
static const bool no_futex = true;
#else
static const bool no_futex = false;
#endif

enum Out { OK, NO, LOCK_E, WAIT_E, RES_E, OVER_E, RUN_E, BADALLOC, OTHER, ABSORBED };
static const char* const out_names[] = { "success", "false/timeout", "lock_error", "wait_error", "resource_error", "overflow_error", "runtime_exception", "bad_alloc", "another exception", "absorbed" };
struct Fault { const char* fn; int nth, err; Out want; };
struct Result { Out out; int code; bool fired; };

// The same failing call, made again and again, must not leave more and more behind. (Tables that grow once aren't leaks; and that the
// library's own mutexes can't be locked is only required to be reported.)
static void leak_check(Fault const& f, size_t const* b)
{
    if (!strcmp(f.fn, "pthread_mutex_lock")) return;
    if (b[1] > b[0] && b[2] > b[1] && b[3] > b[2]) vrt::fail("side-effect", "%d heap blocks are leaked by the failing call", (int)(b[3] - b[2]));
}

static int in_a_row = 1; // interruptions
static Result attempt(Fault const& f, std::function< bool() > const& op)
{
    Result r = { OTHER, 0, false };
    for (int i = 0; i < (f.want == ABSORBED ? in_a_row : 1); ++i) vrt::inject(f.fn, f.nth, f.err);
    bool sys = true;
    try { r.out = op() ? OK : NO; }
    catch (lock_error& e) { vrt::clear_injections(); r.out = LOCK_E; r.code = e.native_error(); sys = e.code() == boost::sync::detail::system_ns::error_code(e.native_error(), boost::sync::detail::system_ns::system_category()); }
    catch (wait_error& e) { vrt::clear_injections(); r.out = WAIT_E; r.code = e.native_error(); sys = e.code() == boost::sync::detail::system_ns::error_code(e.native_error(), boost::sync::detail::system_ns::system_category()); }
    catch (resource_error& e) { vrt::clear_injections(); r.out = RES_E; r.code = e.native_error(); sys = e.code() == boost::sync::detail::system_ns::error_code(e.native_error(), boost::sync::detail::system_ns::system_category()); }
    catch (overflow_error& e) { vrt::clear_injections(); r.out = OVER_E; r.code = e.native_error(); sys = e.code() == boost::sync::detail::system_ns::error_code(e.native_error(), boost::sync::detail::system_ns::system_category()); }
    catch (runtime_exception& e) { vrt::clear_injections(); r.out = RUN_E; r.code = e.native_error(); sys = e.code() == boost::sync::detail::system_ns::error_code(e.native_error(), boost::sync::detail::system_ns::system_category()); }
    catch (std::bad_alloc&) { vrt::clear_injections(); r.out = BADALLOC; }
    catch (...) { vrt::clear_injections(); }
    r.fired = vrt::injection_fired();
    vrt::clear_injections();
    if (!sys) vrt::fail("wrong-error", "the error code of the exception isn't a system error code");
    return r;
}
// Compares with the expectation. Returns whether the operation failed because of the fault.
static bool judge(Result const& r, Fault const& f, Out normal, Out normal2 = OTHER)
{
    vrt::Quiet q;
    if (r.fired) { hx::nontrivial(); hx::count("faults_fired"); hx::count(f.fn); }
    bool fails = r.fired && f.want != ABSORBED;
    if (!fails)
    {
        if (r.out != normal && (normal2 == OTHER || r.out != normal2))
            vrt::fail(r.fired ? "not-absorbed" : "wrong-error", "result is %s (%d) instead of %s%s", out_names[r.out], r.code, out_names[normal], r.fired ? " after an interruption" : "");
        if (r.fired) hx::count("absorbed");
        return false;
    }
    if (r.out == OK || r.out == NO) vrt::fail("swallowed", "%s failed with error %d, but the operation reported %s", f.fn, f.err, out_names[r.out]);
    if (r.out != f.want) vrt::fail("wrong-error", "%s failed with error %d, but the operation reported %s instead of %s", f.fn, f.err, out_names[r.out], out_names[f.want]);
    if (f.want != BADALLOC && r.code != f.err) vrt::fail("wrong-error", "%s failed with error %d, but %s carries error %d", f.fn, f.err, out_names[r.out], r.code);
    hx::count("failures_reported");
    return true;
}
static void state(bool ok, const char* what) { if (!ok) vrt::fail("side-effect", "after the failure: %s", what); }
// In another thread
static bool other(std::function< bool() > f)
{
    bool r = false; int id = vrt::spawn([&] { r = f(); }); vrt::join(id);
    return r;
}
// The thread's function object isn't on the watched heap
template< typename F > int go(F& f) { return vrt::spawn([&f] { f(); }); }
template< typename M > bool free_for_others(M& m) { return other([&] { if (!m.try_lock()) return false; m.unlock(); return true; }); }

struct Scn { string name; std::vector< Fault > faults; std::function< void(Fault const&, hx::Rng&) > run; bool forked = false; };
static std::vector< Scn > scns;
struct Pt { int scn, fault; };
static std::vector< Pt > points;

enum { ANY_ERR = -1 }; // some code which has no meaning of its own for any of the functions
static int any_err(hx::Rng& r)
{
    for (;;)
    {
        int e = (int)r.in(1, 133);
        if (e != EINTR && e != ETIMEDOUT && e != EBUSY && e != EOWNERDEAD && e != EDEADLK && e != EAGAIN && e != 41 && e != 58) return e;
    }
}
static void fl(std::vector< Fault >& v, const char* fn, std::initializer_list< int > errs, Out want, int depth = 3)
{
    if (want != ABSORBED && want != OVER_E && want != BADALLOC) for (int n = 1; n <= depth; ++n) v.push_back(Fault{ fn, n, ANY_ERR, want });
    for (int n = 1; n <= depth; ++n) for (int e : errs) v.push_back(Fault{ fn, n, e, want });
}
#ifdef BOOST_SYNC_HAS_PTHREAD_EINTR_BUG
#define PEINTR(v, fn) fl(v, fn, { EINTR }, ABSORBED)
#else
#define PEINTR(v, fn) (void)0
#endif
static std::vector< Fault > operator+(std::vector< Fault > a, std::vector< Fault > const& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
#ifdef VCFG_WIN
static std::vector< Fault > one(const char* fn, Out out, int depth = 1) { std::vector< Fault > v; fl(v, fn, { 6 /* ERROR_INVALID_HANDLE */, 8 /* ERROR_NOT_ENOUGH_MEMORY */, 1450 /* ERROR_NO_SYSTEM_RESOURCES */, 1460 /* ERROR_TIMEOUT */, 258 /* WAIT_TIMEOUT */ }, out, depth); return v; }
// the timer of the thread and what it takes to make one
static std::vector< Fault > timer_faults(Out out)
{
    return one("CreateNamedSemaphore", ABSORBED) + one("OpenSemaphore", ABSORBED) + one("TlsAlloc", RES_E) + one("DuplicateHandle", RES_E) + one("RegisterWaitForSingleObject", RES_E) + one("CreateTimer", RES_E) + one("TlsSetValue", RES_E)
        + one("SetWaitableTimer", out, 2) + one("WaitForMultipleObjects", out, 2);
}
static std::vector< Fault > lock_faults(Out out = LOCK_E) { return one("CreateEvent", RES_E) + one("WaitForSingleObject", out, 2); }
static std::vector< Fault > trylock_faults() { return std::vector< Fault >(1, Fault{ "none", 1, 0, ABSORBED }); }
static std::vector< Fault > timedlock_faults() { return lock_faults() + timer_faults(LOCK_E); }
static std::vector< Fault > cv_faults() { std::vector< Fault > v; fl(v, "new", { ENOMEM }, BADALLOC, 2); return v + one("CreateEvent", RES_E) + one("CreateSemaphore", RES_E) + one("WaitForSingleObject", WAIT_E, 2); }
static std::vector< Fault > wait_faults() { return cv_faults(); }
static std::vector< Fault > timedwait_faults(Out = WAIT_E) { return cv_faults() + timer_faults(WAIT_E); }
#else
static std::vector< Fault > lock_faults(Out out = LOCK_E)
{
    std::vector< Fault > v; fl(v, "pthread_mutex_lock", { EINVAL, EAGAIN, EDEADLK, ENOMEM }, out); PEINTR(v, "pthread_mutex_lock");
    return v;
}
static std::vector< Fault > trylock_faults() { std::vector< Fault > v; fl(v, "pthread_mutex_trylock", { EINVAL, EAGAIN, EDEADLK, ENOMEM }, LOCK_E); PEINTR(v, "pthread_mutex_trylock"); return v; }
static std::vector< Fault > timedlock_faults() { std::vector< Fault > v; fl(v, "pthread_mutex_timedlock", { EINVAL, EAGAIN, EDEADLK, ENOMEM }, LOCK_E); PEINTR(v, "pthread_mutex_timedlock"); return v; }
static std::vector< Fault > wait_faults() { std::vector< Fault > v; fl(v, "pthread_cond_wait", { EINVAL, EPERM, ENOMEM, EBUSY }, WAIT_E); PEINTR(v, "pthread_cond_wait"); return v; }
static std::vector< Fault > timedwait_faults(Out out = WAIT_E) { std::vector< Fault > v; fl(v, "pthread_cond_timedwait", { EINVAL, EPERM, ENOMEM, EBUSY, EAGAIN }, out); PEINTR(v, "pthread_cond_timedwait"); return v; }
#endif
static Fault no_fault() { return Fault{ "none", 1, 0, ABSORBED }; }

// ---------------------------------------------------------------- times
struct MyClock // a clock of its own
{
    typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point< MyClock > time_point;
    static const bool is_steady = true;
    static time_point now() { return time_point(duration((int64_t)vrt::mono_ns())); }
};
enum { T_FOR, T_UNTIL, T_STEADY, T_TIMED, T_TIMED_ABS, T_FORMS };
static const char* const t_names[] = { "for", "until(system)", "until(steady)", "timed(duration)", "timed(timespec)" };
static const std::chrono::milliseconds SOON(50);
#ifdef VCFG_WIN
static std::chrono::system_clock::time_point abs_ts(std::chrono::nanoseconds d) { return std::chrono::system_clock::now() + std::chrono::duration_cast< std::chrono::system_clock::duration >(d); }
#else
static timespec abs_ts(std::chrono::nanoseconds d) { __int128 t = vrt::real_ns() + d.count(); timespec ts; ts.tv_sec = (time_t)(t / 1000000000); ts.tv_nsec = (long)(t % 1000000000); return ts; }
#endif
template< typename M > bool timed_lock_form(M& m, int form, std::chrono::nanoseconds d)
{
    switch (form)
    {
    case T_FOR: return m.try_lock_for(d);
    case T_UNTIL: return m.try_lock_until(std::chrono::system_clock::now() + d);
    case T_STEADY: return m.try_lock_until(std::chrono::steady_clock::now() + d);
    case T_TIMED: return m.timed_lock(d);
    default: return m.timed_lock(abs_ts(d));
    }
}
template< typename E > bool timed_wait_form(E& e, int form, std::chrono::nanoseconds d)
{
    switch (form)
    {
    case T_FOR: return e.wait_for(d);
    case T_UNTIL: return e.wait_until(std::chrono::system_clock::now() + d);
    case T_STEADY: return e.wait_until(std::chrono::steady_clock::now() + d);
    case T_TIMED: return e.timed_wait(d);
    default: return e.timed_wait(abs_ts(d));
    }
}

// ---------------------------------------------------------------- mutexes
enum { HELD_NO, HELD_RELEASED, HELD_ON };
static const char* const held_names[] = { "free", "held, then released", "held" };
template< typename M > void with_holder(int held, std::function< void(M&) > f, std::function< void(M&) > after)
{
    M m; std::atomic< int > stage{ 0 };
    int h = -1;
    if (held != HELD_NO)
    {
        h = vrt::spawn([&]
        {
            m.lock(); stage = 1;
            if (held == HELD_RELEASED) vrt::idle(true); else vrt::gate([&] { return stage.load(std::memory_order_relaxed) == 2; });
            m.unlock(); stage = 3;
        });
        vrt::gate([&] { return stage.load(std::memory_order_relaxed) >= 1; });
    }
    f(m);
    if (held == HELD_ON) { state(!free_for_others(m), "the mutex of another owner is free"); stage = 2; }
    if (h >= 0) vrt::join(h);
    state(free_for_others(m), "the mutex isn't free");
    after(m);
    m.lock(); state(!free_for_others(m), "the mutex doesn't lock"); m.unlock();
}
template< typename M > void mutex_scenarios(const char* name, bool timed)
{
    bool em = timed && emu; // the emulated timed_mutex treats failures of its internal mutex as fatal
    for (int held = HELD_NO; held <= HELD_RELEASED; ++held) for (int form = 0; form < 4; ++form)
    {
        if (em) break;
        static const char* const fn[] = { "lock()", "lock_guard", "unique_lock(m)", "unique_lock::lock()" };
        Scn s; s.name = hx::fmt("%s %s, %s", name, fn[form], held_names[held]); s.faults = lock_faults();
        s.run = [=](Fault const& f, hx::Rng&)
        {
            with_holder< M >(held, [&](M& m)
            {
                unique_lock< M > outer(m, defer_lock);
                Result r = attempt(f, [&]
                {
                    if (form == 0) { m.lock(); vrt::clear_injections(); m.unlock(); }
                    else if (form == 1) { lock_guard< M > g(m); vrt::clear_injections(); }
                    else if (form == 2) { unique_lock< M > g(m); vrt::clear_injections(); if (!g.owns_lock()) vrt::fail("side-effect", "unique_lock doesn't own"); }
                    else { outer.lock(); }
                    return true;
                });
                bool failed = judge(r, f, OK);
                if (form == 3)
                {
                    if (outer.owns_lock() == failed) vrt::fail("side-effect", "unique_lock::owns_lock() is %d %s", outer.owns_lock(), failed ? "after a failure" : "after success");
                    if (!failed) outer.unlock();
                }
            }, [](M&) {});
        };
        scns.push_back(s);
    }
    for (int held : { HELD_NO, HELD_ON }) for (int form = 0; form < 3; ++form)
    {
        if (em) break;
        static const char* const fn[] = { "try_lock()", "unique_lock(m, try_to_lock)", "unique_lock::try_lock()" };
        Scn s; s.name = hx::fmt("%s %s, %s", name, fn[form], held_names[held]); s.faults = trylock_faults();
        s.run = [=](Fault const& f, hx::Rng&)
        {
            with_holder< M >(held, [&](M& m)
            {
                unique_lock< M > outer(m, defer_lock);
                Result r = attempt(f, [&]
                {
                    bool ok;
                    if (form == 0) { ok = m.try_lock(); vrt::clear_injections(); if (ok) m.unlock(); }
                    else if (form == 1) { unique_lock< M > g(m, try_to_lock); vrt::clear_injections(); ok = g.owns_lock(); }
                    else ok = outer.try_lock();
                    return ok;
                });
                judge(r, f, held == HELD_NO ? OK : NO);
                if (form == 2 && outer.owns_lock() != (r.out == OK)) vrt::fail("side-effect", "unique_lock::owns_lock() is %d after %s", outer.owns_lock(), out_names[r.out]);
            }, [](M&) {});
        };
        scns.push_back(s);
    }
}
static void timed_mutex_scenarios()
{
    typedef timed_mutex M;
    for (int held = HELD_NO; held <= HELD_ON; ++held) for (int form = 0; form < T_FORMS; ++form) for (int ul = 0; ul < 2; ++ul)
    {
        if (emu && held == HELD_NO) continue;
        Scn s; s.name = hx::fmt("timed_mutex %s%s, %s", ul ? "unique_lock " : "", t_names[form], held_names[held]);
        s.faults = emu ? timedwait_faults(LOCK_E) : form == T_STEADY ? timedlock_faults() + trylock_faults() : timedlock_faults();
        s.run = [=](Fault const& f, hx::Rng& r0)
        {
            bool expired = r0.p(0.15);
            with_holder< M >(held, [&](M& m)
            {
                std::chrono::nanoseconds d = expired ? std::chrono::nanoseconds(0) : std::chrono::nanoseconds(held == HELD_RELEASED ? std::chrono::hours(1) : SOON);
                unique_lock< M > outer(m, defer_lock);
                Result r = attempt(f, [&]
                {
                    bool ok = ul ? timed_lock_form(outer, form, d) : timed_lock_form(m, form, d);
                    return ok;
                });
#ifdef VCFG_WIN
                const Out normal2 = expired && held == HELD_RELEASED ? OK : OTHER; // the clock is coarse
#else
                const Out normal2 = OTHER;
#endif
                bool failed = judge(r, f, held == HELD_ON ? NO : expired && held != HELD_NO ? NO : OK, normal2);
                if (ul && outer.owns_lock() != (r.out == OK)) vrt::fail("side-effect", "unique_lock::owns_lock() is %d after %s", outer.owns_lock(), out_names[r.out]);
                if (!ul && r.out == OK) m.unlock();
                (void)failed;
            }, [](M&) {});
        };
        scns.push_back(s);
    }
}
// ---------------------------------------------------------------- constructors
template< typename T > void ctor_scenario(const char* name, std::vector< Fault > const& faults, std::function< void(T&) > use)
{
    Scn s; s.name = hx::fmt("%s constructor", name); s.faults = faults;
    s.run = [=](Fault const& f, hx::Rng&)
    {
        static const char* const res[][2] = { { "pthread_mutex_init", "pthread_mutex_destroy" }, { "pthread_cond_init", "pthread_cond_destroy" } };
        uint64_t before[2], blocks = vrt::live_blocks();
        for (int k = 0; k < 2; ++k) before[k] = vrt::call_count(res[k][0]) - vrt::call_count(res[k][1]);
        Result r = attempt(f, [&] { T x; vrt::clear_injections(); use(x); return true; });
        bool failed = judge(r, f, OK);
#ifdef VCFG_NO_STATIC_INIT
        for (int k = 0; k < 2; ++k)
        {
            uint64_t now = vrt::call_count(res[k][0]) - vrt::call_count(res[k][1]);
            if (failed && !strcmp(res[k][0], f.fn)) --now; // the failed call didn't make one
            if (now != before[k]) vrt::fail("side-effect", "%d objects initialized with %s have not been destroyed", (int)(now - before[k]), res[k][0]);
        }
#else
        (void)before; (void)failed;
#endif
        if (vrt::live_blocks() != blocks) vrt::fail("side-effect", "memory is leaked");
        T y; use(y);
    };
    scns.push_back(s);
}
// ---------------------------------------------------------------- condition variables
enum { W_PLAIN, W_PRED, W_FORMS };
template< typename CV, typename L > bool cv_timed(CV& cv, L& l, int form, std::chrono::nanoseconds d, bool pred, bool& flag)
{
    auto p = [&] { return flag; };
    switch (form)
    {
    case T_FOR: return pred ? cv.wait_for(l, d, p) : cv.wait_for(l, d) == cv_status::no_timeout;
    case T_UNTIL: return pred ? cv.wait_until(l, std::chrono::system_clock::now() + d, p) : cv.wait_until(l, std::chrono::system_clock::now() + d) == cv_status::no_timeout;
    case T_STEADY: return pred ? cv.wait_until(l, std::chrono::steady_clock::now() + d, p) : cv.wait_until(l, std::chrono::steady_clock::now() + d) == cv_status::no_timeout;
    case T_TIMED: return pred ? cv.timed_wait(l, d, p) : cv.timed_wait(l, d);
    default: { auto ts = abs_ts(d); return pred ? cv.timed_wait(l, ts, p) : cv.timed_wait(l, ts); }
    }
}
template< typename CV, typename L > void cv_works(CV& cv, L& l, bool& flag) // a plain hand-shake; l is held
{
    flag = false;
    int n = vrt::spawn([&] { typename L::mutex_type& m = *l.mutex(); vrt::idle(true); m.lock(); flag = true; m.unlock(); cv.notify_all(); });
    while (!flag) cv.wait(l);
    vrt::join(n);
}
template< typename CV, typename M > void cv_scenarios(const char* name, bool any)
{
    typedef unique_lock< M > L;
    for (int form = -1; form < T_FORMS; ++form) for (int pred = 0; pred < 2; ++pred) for (int notified = 0; notified < 2; ++notified)
    {
        if (form < 0 && !notified) continue;
        Scn s; s.name = hx::fmt("%s %s%s, %s", name, form < 0 ? "wait" : t_names[form], pred ? " with predicate" : "", notified ? "notified" : "not notified");
        s.faults = form < 0 ? wait_faults() : timedwait_faults();
#ifndef VCFG_WIN
        if (any) s.faults = s.faults + lock_faults();
#endif
        s.run = [=](Fault const& f, hx::Rng&)
        {
            M m; CV cv; bool flag = false; std::atomic< bool > over{ false };
            L l(m);
            int n = -1;
            if (notified) n = vrt::spawn([&] { while (!over) { vrt::idle(true); if (over) break; m.lock(); flag = true; m.unlock(); cv.notify_all(); } });
            Result r = attempt(f, [&]() -> bool
            {
                if (form >= 0) return cv_timed(cv, l, form, notified ? std::chrono::nanoseconds(std::chrono::hours(1)) : std::chrono::nanoseconds(SOON), pred != 0, flag);
                if (pred) cv.wait(l, [&] { return flag; }); else cv.wait(l);
                return true;
            });
#ifdef VCFG_WIN
            // The failing call may have been that of a mutex: the internal one, or the caller's one, which then can't be locked again
            if (r.fired && r.out == LOCK_E && !strcmp(f.fn, "WaitForSingleObject"))
            {
                if (r.code != f.err) vrt::fail("wrong-error", "lock_error carries error %d instead of %d", r.code, f.err);
                if (!l.owns_lock()) l.lock();
                if (notified) { over = true; l.unlock(); vrt::join(n); l.lock(); }
                cv_works(cv, l, flag);
                return;
            }
#endif
            if (!l.owns_lock()) vrt::fail("side-effect", "the lock isn't owned after %s", out_names[r.out]);
            state(!free_for_others(m), "the lock isn't held");
            judge(r, f, notified ? OK : NO, form < 0 || pred ? OTHER : OK);
            if (notified) { over = true; l.unlock(); vrt::join(n); l.lock(); }
            cv_works(cv, l, flag);
        };
        scns.push_back(s);
    }
#ifdef VCFG_WIN
    any = false; // a notification can't fail
#endif
    if (any) for (int all = 0; all < 2; ++all)
    {
        Scn s; s.name = hx::fmt("%s notify_%s", name, all ? "all" : "one"); s.faults = lock_faults();
        s.run = [=](Fault const& f, hx::Rng& r0)
        {
            M m; CV cv; bool flag = false; bool waiting = r0.p(0.6);
            int w = -1;
            if (waiting) { w = vrt::spawn([&] { L l(m); while (!flag) cv.wait(l); }); if (r0.p(0.7)) vrt::idle(true); }
            m.lock(); flag = true; m.unlock();
            Result r = attempt(f, [&] { if (all) cv.notify_all(); else cv.notify_one(); return true; });
            if (judge(r, f, OK)) { if (all) cv.notify_all(); else cv.notify_one(); }
            if (w >= 0) vrt::join(w);
            L l(m); cv_works(cv, l, flag);
        };
        scns.push_back(s);
    }
}
// ---------------------------------------------------------------- semaphore, events
static std::vector< Fault > blocking_faults(bool emulated, bool timed, bool fut)
{
    std::vector< Fault > v;
#ifdef VCFG_WIN
    v = one("WaitForSingleObject", WAIT_E, 2); if (timed) v = v + timer_faults(WAIT_E); return v;
#endif
    if (emulated) return lock_faults() + (timed ? timedwait_faults() : wait_faults());
    if (fut) { fl(v, "futex_wait", { EINTR, EWOULDBLOCK }, ABSORBED, 4); return v; }
    fl(v, timed ? "sem_timedwait" : "sem_wait", { EINTR }, ABSORBED, 4);
    return v;
}
// An event-like object: signals a post leaves behind are counted with count()
template< typename E > struct Traits;
template<> struct Traits< semaphore >
{
    static bool emulated() { return emu_sem; }
    static bool fut() { return false; }
    static void post(semaphore& e) { e.post(); }
    static unsigned left(semaphore& e) { unsigned n = 0; while (e.try_wait()) ++n; for (unsigned i = 0; i < n; ++i) e.post(); return n; }
    static unsigned after(unsigned old) { return old + 1; }
    static unsigned taken(unsigned old) { return old - 1; }
};
template<> struct Traits< auto_reset_event >
{
    static bool emulated() { return emu_sem; }
    static bool fut() { return !no_futex; }
    static void post(auto_reset_event& e) { e.post(); }
    static unsigned left(auto_reset_event& e) { unsigned n = 0; while (e.try_wait()) ++n; for (unsigned i = 0; i < n; ++i) e.post(); return n; }
    static unsigned after(unsigned) { return 1; }
    static unsigned taken(unsigned old) { return old - 1; }
};
template<> struct Traits< manual_reset_event >
{
    static bool emulated() { return no_futex; }
    static bool fut() { return !no_futex; }
    static void post(manual_reset_event& e) { e.set(); }
    static unsigned left(manual_reset_event& e) { return e.try_wait() ? 1 : 0; }
    static unsigned after(unsigned) { return 1; }
    static unsigned taken(unsigned old) { return old; }
};
template< typename E > void event_scenarios(const char* name)
{
    typedef Traits< E > T;
    // signalled: 0 never, 1 before the call, 2 while waiting
    for (int form = -1; form < T_FORMS; ++form) for (int sig = 0; sig < 3; ++sig)
    {
        if (form < 0 && sig == 0) continue;
        static const char* const sn[] = { "not signalled", "signalled", "signalled while waiting" };
        Scn s; s.name = hx::fmt("%s %s, %s", name, form < 0 ? "wait" : t_names[form], sn[sig]);
        s.faults = blocking_faults(T::emulated(), form >= 0, T::fut());
        s.run = [=](Fault const& f, hx::Rng& r0)
        {
            E e; bool companion = r0.p(0.4);
            if (sig == 1) T::post(e);
            // another waiter, which has to get its own signal whatever happens to this one
            int comp = -1;
            if (companion && sig != 1) { comp = vrt::spawn([&] { e.wait(); }); if (r0.p(0.5)) vrt::idle(true); }
            std::atomic< bool > over{ false };
            int n = -1;
            if (sig == 2) n = vrt::spawn([&] { vrt::idle(true); if (!over || comp >= 0) T::post(e); });
            Result r = attempt(f, [&]() -> bool
            {
                if (form < 0) { e.wait(); return true; }
                return timed_wait_form(e, form, sig == 2 ? std::chrono::nanoseconds(std::chrono::hours(1)) : std::chrono::nanoseconds(SOON));
            });
            over = true;
            (void)n;
            if (comp >= 0)
            {
                // the signal may go to either; a second one serves whoever is left
                if (sig == 2 && form < 0) {}
                bool failed = judge(r, f, sig == 0 ? NO : OK, NO);
                (void)failed;
                if (n >= 0) vrt::join(n);
                vrt::idle(true);
                if (!vrt::finished(comp)) { T::post(e); }
                vrt::join(comp);
                unsigned l = T::left(e);
                unsigned max = (sig == 2 ? 1u : 0u);
                if (T::taken(1) == 1) max = 1;
                state(l <= max, "more signals are left than were sent");
            }
            else
            {
                bool failed = judge(r, f, sig == 0 ? NO : OK);
                if (n >= 0) vrt::join(n);
                unsigned want = sig == 0 ? 0 : sig == 1 ? (failed ? 1 : T::taken(1)) : 0;
                unsigned l = T::left(e);
                if (sig == 2) { if (!failed) state(l == T::taken(1), "wrong number of signals left"); else state(l <= 1, "too many signals left"); }
                else state(l == want, "wrong number of signals left");
            }
            // and it still works
            while (T::left(e) && T::taken(1) == 0) e.wait();
            E e2; (void)e2;
            int p = vrt::spawn([&] { vrt::idle(true); T::post(e); });
            e.wait(); vrt::join(p);
        };
        // a waiting companion and a blocking form without a second signal would wait forever: the poster signals again (see below)
        if (form < 0 && sig == 2)
        {
            auto run0 = s.run; (void)run0;
            s.run = [=](Fault const& f, hx::Rng&)
            {
                E e; std::atomic< bool > over{ false };
                int n = vrt::spawn([&] { vrt::idle(true); if (!over) T::post(e); });
                Result r = attempt(f, [&] { e.wait(); return true; });
                over = true;
                bool failed = judge(r, f, OK);
                vrt::join(n);
                unsigned l = T::left(e);
                if (!failed) state(l == T::taken(1), "wrong number of signals left"); else state(l <= 1, "too many signals left");
                while (T::left(e) && T::taken(1) == 0) e.wait();
                int p = vrt::spawn([&] { vrt::idle(true); T::post(e); });
                e.wait(); vrt::join(p);
            };
        }
        scns.push_back(s);
    }
#ifdef VCFG_WIN
    const bool op_fails = true;
#else
    const bool op_fails = T::emulated();
#endif
    if (op_fails) for (int op = 0; op < 2; ++op) for (int sig = 0; sig < 2; ++sig)
    {
        Scn s; s.name = hx::fmt("%s %s, %s", name, op ? "try_wait" : "post/set", sig ? "signalled" : "not signalled"); s.faults = lock_faults();
#ifdef VCFG_WIN
        s.faults = op ? one("WaitForSingleObject", WAIT_E) : std::is_same< E, semaphore >::value ? one("ReleaseSemaphore", OVER_E) : one("SetEvent", RUN_E);
#endif
        s.run = [=](Fault const& f, hx::Rng&)
        {
            E e; if (sig) T::post(e);
            Result r = attempt(f, [&]() -> bool { if (op) return e.try_wait(); T::post(e); return true; });
            bool failed = judge(r, f, op ? (sig ? OK : NO) : OK);
            unsigned l = T::left(e), want = failed ? sig : op ? (sig ? T::taken(1) : 0) : T::after(sig);
            state(l == want, "wrong number of signals left");
        };
        scns.push_back(s);
    }
}
#ifdef VCFG_WIN
enum { LIMIT_CTOR_ERR = 87 /* ERROR_INVALID_PARAMETER */, LIMIT_POST_ERR = 298 /* ERROR_TOO_MANY_POSTS */ };
#else
enum { LIMIT_CTOR_ERR = EINVAL, LIMIT_POST_ERR = EOVERFLOW };
#endif
static void semaphore_limits()
{
#ifdef VCFG_DISPATCH
    {
        Scn s; s.name = "semaphore constructor"; s.faults.push_back(Fault{ "sem_init", 1, ENOMEM, RES_E });
        s.run = [](Fault const& f, hx::Rng&) { Result r = attempt(f, [&] { semaphore x(2); return true; }); judge(r, f, OK); };
        scns.push_back(s);
        s.name = "auto_reset_event constructor";
        s.run = [](Fault const& f, hx::Rng&) { Result r = attempt(f, [&] { auto_reset_event x; return true; }); judge(r, f, OK); };
        scns.push_back(s);
    }
    return;
#endif
    if (!emu)
    {
        Scn s; s.name = "semaphore constructor"; fl(s.faults, "sem_init", { EINVAL, ENOSYS, ENOSPC, EPERM }, RES_E, 1);
#ifdef VCFG_WIN
        s.faults = one("CreateSemaphore", RES_E);
#endif
        s.run = [](Fault const& f, hx::Rng& r0)
        {
            unsigned v = (unsigned)r0.n(4);
            Result r = attempt(f, [&] { semaphore x(v); if (Traits< semaphore >::left(x) != v) vrt::fail("side-effect", "wrong initial count"); return true; });
            judge(r, f, OK);
        };
        scns.push_back(s);
        s.name = "semaphore constructor beyond the limit"; s.faults.clear(); s.faults.push_back(no_fault());
        s.run = [](Fault const& f, hx::Rng& r0)
        {
            unsigned v = r0.p(0.5) ? (unsigned)SEM_VALUE_MAX + 1u : r0.p(0.5) ? UINT_MAX : (unsigned)SEM_VALUE_MAX + 1u + (unsigned)r0.n(SEM_VALUE_MAX);
            Result r = attempt(f, [&] { semaphore x(v); return true; });
            if (r.out != RES_E || r.code != LIMIT_CTOR_ERR) vrt::fail("swallowed", "semaphore(%u) reported %s (%d) instead of resource_error (EINVAL)", v, out_names[r.out], r.code);
            hx::nontrivial(); hx::count("limits_reported");
        };
        scns.push_back(s);
        s.name = "semaphore post"; s.faults.clear(); fl(s.faults, "sem_post", { EOVERFLOW }, OVER_E, 1);
#ifdef VCFG_WIN
        s.faults = one("ReleaseSemaphore", OVER_E);
#endif
        s.run = [](Fault const& f, hx::Rng& r0)
        {
            unsigned v = (unsigned)r0.n(4); semaphore x(v);
            Result r = attempt(f, [&] { x.post(); return true; });
            bool failed = judge(r, f, OK);
            state(Traits< semaphore >::left(x) == v + (failed ? 0 : 1), "wrong count");
        };
        scns.push_back(s);
#ifdef VCFG_WIN
        s.faults = one("CreateEvent", RES_E);
        s.name = "auto_reset_event constructor";
        s.run = [](Fault const& f, hx::Rng&) { Result r = attempt(f, [&] { auto_reset_event x; vrt::clear_injections(); if (x.try_wait()) vrt::fail("side-effect", "initially signalled"); x.post(); x.wait(); return true; }); judge(r, f, OK); };
        scns.push_back(s);
        s.name = "manual_reset_event constructor";
        s.run = [](Fault const& f, hx::Rng& r0) { bool v = r0.p(0.5); Result r = attempt(f, [&] { manual_reset_event x; if (v) x.set(); vrt::clear_injections(); if (x.try_wait() != v) vrt::fail("side-effect", "wrong initial state"); x.set(); x.wait(); return true; }); judge(r, f, OK); };
        scns.push_back(s);
        s.faults = one("ResetEvent", RUN_E);
        s.name = "manual_reset_event reset";
        s.run = [](Fault const& f, hx::Rng& r0)
        {
            bool v = r0.p(0.5); manual_reset_event x; if (v) x.set();
            Result r = attempt(f, [&] { x.reset(); return true; });
            bool failed = judge(r, f, OK);
            state(x.try_wait() == (failed && v), "wrong state");
        };
        scns.push_back(s);
        // unlock, notify_one and notify_all don't throw: nothing that can fail is left to do in them
        s.faults = one("CreateEvent", ABSORBED) + one("CreateSemaphore", ABSORBED);
        s.name = "unlock and notify with waiters";
        s.run = [](Fault const& f, hx::Rng& r0)
        {
            mutex m; condition_variable cv; int stage = 0; int n = (int)r0.in(1, 3); std::vector< int > ids; bool idle = r0.p(0.3);
            m.lock();
            for (int i = 0; i < n; ++i) ids.push_back(vrt::spawn([&] { unique_lock< mutex > l(m); ++stage; while (stage < 100) cv.wait(l); m.unlock(); m.lock(); }));
            if (idle) vrt::idle(true);
            Result r = attempt(f, [&] { for (int i = 0; i < 8; ++i) { m.unlock(); if (i & 1) cv.notify_one(); else cv.notify_all(); vrt::clear_injections(); m.lock(); vrt::inject(f.fn, 1, f.err); } vrt::clear_injections(); stage = 100; m.unlock(); return true; });
            (void)r;
            cv.notify_all();
            for (int t : ids) vrt::join(t);
            hx::nontrivial();
        };
        scns.push_back(s);
#endif
        if (no_futex)
        {
            s.name = "auto_reset_event constructor"; s.faults.clear(); fl(s.faults, "sem_init", { EINVAL, ENOSYS, ENOSPC, EPERM }, RES_E, 1);
            s.run = [](Fault const& f, hx::Rng&) { Result r = attempt(f, [&] { auto_reset_event x; return true; }); judge(r, f, OK); };
            scns.push_back(s);
        }
    }
    Scn s; s.name = "semaphore post at the limit"; s.faults.push_back(no_fault());
    s.run = [](Fault const& f, hx::Rng& r0)
    {
        unsigned max = emu ? UINT_MAX : (unsigned)SEM_VALUE_MAX, below = (unsigned)r0.n(3);
        semaphore x(max - below);
        for (unsigned i = 0; i < below; ++i) { Result r = attempt(f, [&] { x.post(); return true; }); if (r.out != OK) vrt::fail("wrong-error", "post below the limit reported %s", out_names[r.out]); }
        for (int i = 0; i < 2; ++i)
        {
            Result r = attempt(f, [&] { x.post(); return true; });
            if (r.out != OVER_E || r.code != LIMIT_POST_ERR) vrt::fail("swallowed", "post at the limit reported %s (%d) instead of overflow_error (EOVERFLOW)", out_names[r.out], r.code);
        }
        state(x.try_wait(), "the count is gone");
        Result r = attempt(f, [&] { x.post(); return true; });
        if (r.out != OK) vrt::fail("side-effect", "post below the limit reported %s: the count was changed by a failed post", out_names[r.out]);
        r = attempt(f, [&] { x.post(); return true; });
        if (r.out != OVER_E) vrt::fail("side-effect", "post at the limit reported %s: the count was changed by a failed post", out_names[r.out]);
        hx::nontrivial(); hx::count("limits_reported");
    };
    scns.push_back(s);
}
// ---------------------------------------------------------------- thread-specific storage
struct V { int x; };
static int cleaned[8]; static V vals[8];
static void clean(V* v) { ++cleaned[v - vals]; }
static int fn_live, fn_ran[8];
struct Fn { int id; explicit Fn(int i) : id(i) { ++fn_live; } Fn(Fn const& o) : id(o.id) { ++fn_live; } ~Fn() { --fn_live; } void operator()() const { ++fn_ran[id]; } };
static std::vector< Fault > tss_faults(bool first, bool lock)
{
    std::vector< Fault > v; fl(v, "new", { ENOMEM }, BADALLOC, 4);
#ifdef VCFG_WIN
    (void)lock; if (first) v = v + one("TlsSetValue", RES_E); return v;
#endif
    if (lock) v = v + lock_faults();
    if (first) { fl(v, "pthread_setspecific", { ENOMEM, EINVAL, EAGAIN }, RES_E, 1); }
    return v;
}
static void tss_scenarios()
{
    {
        Scn s; s.name = "thread_specific_ptr constructor"; s.forked = true; s.faults = tss_faults(false, true);
        s.run = [](Fault const& f, hx::Rng& r0)
        {
            thread_specific_ptr< V > first(&clean); // the first use of the library's storage isn't subject to failures
            first.reset(&vals[0]);
            std::vector< thread_specific_ptr< V >* > more; int n = (int)r0.n(5);
            for (int i = 0; i < n; ++i) more.push_back(new thread_specific_ptr< V >(&clean));
            if (n && r0.p(0.5)) { delete more.back(); more.pop_back(); }
            for (int k = 0; k < 5; ++k)
            {
                thread_specific_ptr< V >* p = nullptr;
                alignas(thread_specific_ptr< V >) static char buf[5][sizeof(thread_specific_ptr< V >)];
                Result r = attempt(k == (int)(f.nth % 5) ? f : no_fault(), [&] { p = new (buf[k]) thread_specific_ptr< V >(&clean); return true; });
                judge(r, f, OK);
                if (!p) p = new (buf[k]) thread_specific_ptr< V >(&clean);
                state(p->get() == nullptr, "a new thread_specific_ptr isn't empty");
                p->reset(&vals[1 + k]);
                state(p->get() == &vals[1 + k] && first.get() == &vals[0], "values are mixed up");
                more.push_back(p);
            }
            state(first.get() == &vals[0], "a value is lost");
            first.release();
            for (size_t i = 0; i < more.size(); ++i) { if (more.size() - i <= 5) more[i]->~thread_specific_ptr< V >(); else delete more[i]; }
            for (int k = 1; k <= 5; ++k) state(cleaned[k] == 1, "a value hasn't been cleaned up once");
            state(cleaned[0] == 0, "a released value has been cleaned up");
        };
        scns.push_back(s);
    }
    for (int first = 0; first < 2; ++first) for (int kind = 0; kind < 4; ++kind)
    {
        static const char* const kn[] = { "reset from empty", "reset of a value", "reset of a high key", "reset to null" };
        if (first && (kind == 1 || kind == 3)) continue;
        Scn s; s.name = hx::fmt("thread_specific_ptr %s%s", kn[kind], first ? " in a new thread" : ""); s.forked = true; s.faults = tss_faults(first != 0, first != 0); // reset() reads the value, which may lock but not throw
        s.run = [=](Fault const& f, hx::Rng& r0)
        {
            std::vector< thread_specific_ptr< V >* > ps; int n = kind == 2 ? (int)r0.in(2, 40) : 1;
            for (int i = 0; i < n; ++i) ps.push_back(new thread_specific_ptr< V >(&clean));
            thread_specific_ptr< V >& p = *ps.back();
            size_t blocks[4];
            for (int round = 0; round < 4; ++round)
            {
                memset(cleaned, 0, sizeof(cleaned));
                auto body = [&]
                {
                    if (!first) ps[0]->reset(&vals[5]);
                    bool same = ps[0] == &p;
                    V* old = same && !first ? &vals[5] : nullptr;
                    if (kind == 1 || kind == 3) { p.reset(&vals[1]); old = &vals[1]; }
                    int before5 = cleaned[5];
                    V* nv = kind == 3 ? nullptr : &vals[2];
                    Result r = attempt(f, [&] { p.reset(nv); return true; });
                    bool failed = judge(r, f, OK);
                    if (failed)
                    {
                        state(p.get() == old, "the stored value has changed");
                        state(cleaned[2] == 0, "a value that could not be stored has been cleaned up");
                        state(cleaned[1] == 0 && cleaned[5] == before5, "the old value has been cleaned up");
                        p.reset(nv); // works now
                    }
                    state(p.get() == nv, "the new value isn't stored");
                    if (old) state(cleaned[old - vals] == 1, "the old value hasn't been cleaned up");
                };
                int t = go(body);
                vrt::join(t);
                state(cleaned[2] == (kind == 3 ? 0 : 1), "the new value hasn't been cleaned up once");
                state(cleaned[1] == (kind == 1 || kind == 3 ? 1 : 0), "the old value hasn't been cleaned up once");
                state(cleaned[5] == (first ? 0 : 1), "another value hasn't been cleaned up once");
                blocks[round] = vrt::live_blocks();
            }
            leak_check(f, blocks);
            for (auto* q : ps) delete q;
        };
        scns.push_back(s);
    }
    for (int first = 0; first < 2; ++first)
    {
        Scn s; s.name = hx::fmt("at_thread_exit%s", first ? " in a new thread" : ""); s.forked = true; s.faults = tss_faults(first != 0, first != 0);
        s.run = [=](Fault const& f, hx::Rng& r0)
        {
            thread_specific_ptr< V > init(&clean);
            int prev = (int)r0.n(5); size_t blocks[4];
            for (int round = 0; round < 4; ++round)
            {
                memset(fn_ran, 0, sizeof(fn_ran));
                bool failed = false;
                auto body = [&]
                {
                    if (!first) for (int i = 0; i < prev; ++i) at_thread_exit(Fn(1));
                    Fn fn(0);
                    int live = fn_live;
                    Result r = attempt(f, [&] { at_thread_exit(fn); return true; });
                    failed = judge(r, f, OK);
                    if (failed) state(fn_live == live, "a copy of a function that isn't registered is left");
                    else state(fn_live == live + 1, "the function hasn't been copied once");
                    state(fn_ran[0] == 0, "a function ran before the end of the thread");
                    at_thread_exit(Fn(2));
                };
                int t = go(body);
                vrt::join(t);
                state(fn_ran[0] == (failed ? 0 : 1), "the function ran the wrong number of times");
                state(fn_ran[1] == (first ? 0 : prev) && fn_ran[2] == 1, "other functions didn't run once");
                state(fn_live == 0, "copies of functions are left");
                blocks[round] = vrt::live_blocks();
            }
            leak_check(f, blocks);
        };
        scns.push_back(s);
    }
    for (int first = 0; first < 2; ++first)
    {
        Scn s; s.name = hx::fmt("notify_all_at_thread_exit%s", first ? " in a new thread" : ""); s.forked = true; s.faults = tss_faults(first != 0, first != 0);
        s.run = [=](Fault const& f, hx::Rng& r0)
        {
            thread_specific_ptr< V > init(&clean);
            int prev = (int)r0.n(4); size_t blocks[4];
            mutex m; condition_variable cv; mutex pm[4]; condition_variable pc;
            for (int round = 0; round < 4; ++round)
            {
                bool done = false, failed = false;
                auto body = [&]
                {
                    if (!first) for (int i = 0; i < prev; ++i) notify_all_at_thread_exit(pc, unique_lock< mutex >(pm[i]));
                    unique_lock< mutex > l(m);
                    done = true;
                    Result r = attempt(f, [&] { notify_all_at_thread_exit(cv, boost::move(l)); return true; });
                    failed = judge(r, f, OK);
                    if (l.owns_lock()) vrt::fail("side-effect", "the lock is still owned by the caller's object");
                    if (failed) { other([&] { m.lock(); m.unlock(); return true; }); m.lock(); cv.notify_all(); m.unlock(); }
                    else if (free_for_others(m)) vrt::fail("side-effect", "the lock was released before the end of the thread");
                };
                int t = go(body);
                { unique_lock< mutex > l(m); while (!done) cv.wait(l); }
                vrt::join(t);
                m.lock(); m.unlock();
                for (int i = 0; i < 4; ++i) { pm[i].lock(); pm[i].unlock(); }
                blocks[round] = vrt::live_blocks();
            }
            leak_check(f, blocks);
        };
        scns.push_back(s);
    }
}
static void build()
{
    mutex_scenarios< mutex >("mutex", false);
    mutex_scenarios< timed_mutex >("timed_mutex", true);
    timed_mutex_scenarios();
    cv_scenarios< condition_variable, mutex >("condition_variable", false);
    cv_scenarios< condition_variable_any, shared_spin_mutex >("condition_variable_any", true);
    event_scenarios< semaphore >("semaphore");
    event_scenarios< auto_reset_event >("auto_reset_event");
    event_scenarios< manual_reset_event >("manual_reset_event");
    semaphore_limits();
    tss_scenarios();
#ifdef VCFG_NO_STATIC_INIT
    std::vector< Fault > mi, ci; fl(mi, "pthread_mutex_init", { EAGAIN, ENOMEM, EPERM, EINVAL }, RES_E, 2); fl(ci, "pthread_cond_init", { EAGAIN, ENOMEM, EINVAL }, RES_E, 2);
    ctor_scenario< mutex >("mutex", mi, [](mutex& m) { m.lock(); m.unlock(); });
    ctor_scenario< timed_mutex >("timed_mutex", emu ? mi + ci : mi, [](timed_mutex& m) { m.lock(); m.unlock(); });
    ctor_scenario< condition_variable >("condition_variable", ci, [](condition_variable& c) { c.notify_all(); });
    ctor_scenario< condition_variable_any >("condition_variable_any", mi + ci, [](condition_variable_any& c) { c.notify_all(); });
    if (emu_sem) ctor_scenario< semaphore >("semaphore", mi + ci, [](semaphore& c) { c.post(); c.wait(); });
    if (emu_sem) ctor_scenario< auto_reset_event >("auto_reset_event", mi + ci, [](auto_reset_event& c) { c.post(); c.wait(); });
    if (emu) ctor_scenario< manual_reset_event >("manual_reset_event", mi + ci, [](manual_reset_event& c) { c.set(); c.wait(); });
#endif
    for (size_t i = 0; i < scns.size(); ++i) for (size_t k = 0; k < scns[i].faults.size(); ++k) points.push_back(Pt{ (int)i, (int)k });
}
void one_case(hx::Rng& r, std::string const&, uint64_t index)
{
    if (points.empty()) build();
    vrt::Options o = hx::options(r);
    o.p_jump = 0; o.p_spurious = 0; o.p_eintr = 0; o.spin_time = false; o.races = r.p(0.3);
    o.p_eintr_pthread = 0; o.storm_spurious = o.storm_eintr = o.storm_eintr_pthread = 0;
    o.switch_on_plain = r.p(0.2);
    o.max_steps = 2000000;
    Pt p = points[index % points.size()];
    Scn const& s = scns[p.scn];
    Fault f = s.faults[p.fault];
    if (f.err == ANY_ERR) f.err = any_err(r);
    in_a_row = f.want == ABSORBED && r.p(0.3) ? (int)r.pick({ 2, 5, 20, 70, 300 }) : 1;
    string what = hx::fmt("%s; call %d of %s fails with %d%s", s.name.c_str(), f.nth, f.fn, f.err, in_a_row > 1 ? hx::fmt(" %d times", in_a_row).c_str() : "");
    hx::Rng inner(r.u());
    vrt::deadlock_kind = nullptr;
    auto body = [&] { s.run(f, inner); };
    if (index < points.size()) { /* the first pass enumerates all of them */ hx::count("fault_points"); }
#ifdef VCFG_WIN
    vrt::w32_thread_exit = s.forked ? &boost::sync::detail::windows::on_thread_exit : nullptr; // as DllMain does
#endif
    if (s.forked) hx::execute_forked(o, what, body); else hx::execute(o, what, body);
}
