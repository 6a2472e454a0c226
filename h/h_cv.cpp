// Condition variables: no lost notification (C09); truthful results with the lock held again (C10).
#include "harness.hpp"
#include <chrono>
#include <type_traits>
#include <errno.h>
#include <pthread.h>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/support/std_chrono.hpp>

using namespace boost::sync;
typedef std::chrono::nanoseconds N;
typedef __int128 i128;

// ---------------------------------------------------------------- lock types
struct LockFail { int what; };
// A user-defined lock over a mutex of its own, which can be told to fail
struct UserLock
{
    mutex& m; bool owns = true; int fail_unlock = 0, fail_relock = 0;
    explicit UserLock(mutex& x) : m(x) { m.lock(); }
    ~UserLock() { if (owns) m.unlock(); }
    void lock() { if (fail_relock > 0 && --fail_relock == 0) throw LockFail{ 2 }; m.lock(); owns = true; }
    void unlock() { if (fail_unlock > 0 && --fail_unlock == 0) throw LockFail{ 1 }; owns = false; m.unlock(); }
    bool owns_lock() const { return owns; }
};
template< typename M > struct Raw
{
    M& m; bool owns = true;
    explicit Raw(M& x) : m(x) { m.lock(); }
    ~Raw() { if (owns) m.unlock(); }
};
template< typename M > struct T_unique { typedef M mtx; typedef unique_lock< M > holder; static holder& get(holder& h) { return h; } static bool owns(holder& h) { return h.owns_lock() && h.mutex() != nullptr; } enum { shared = 0, user = 0 }; };
struct T_shared { typedef shared_spin_mutex mtx; typedef shared_lock< shared_spin_mutex > holder; static holder& get(holder& h) { return h; } static bool owns(holder& h) { return h.owns_lock(); } enum { shared = 1, user = 0 }; };
template< typename M > struct T_raw { typedef M mtx; typedef Raw< M > holder; static M& get(holder& h) { return h.m; } static bool owns(holder&) { return true; } enum { shared = 0, user = 0 }; };
struct T_user { typedef mutex mtx; typedef UserLock holder; static holder& get(holder& h) { return h; } static bool owns(holder& h) { return h.owns; } enum { shared = 0, user = 1 }; };

// ---------------------------------------------------------------- who is inside
struct Monitor
{
    int writer = -1, readers = 0; uint64_t sections = 0;
    void enter(bool shared)
    {
        vrt::Quiet q;
        if (writer >= 0 || (!shared && readers)) vrt::soft("exclusion", "T%d came back from a wait (or entered) without having the lock to itself: T%d is inside", vrt::self(), writer);
        if (shared) ++readers; else writer = vrt::self();
        ++sections;
    }
    void leave(bool shared) { vrt::Quiet q; if (shared) --readers; else writer = -1; }
};
// A notification through the native handle, which represents the primitive that implements the condition variable, if there is one
template< typename CV > void notify(CV& cv, bool all, bool native)
{
    (void)native;
#ifdef BOOST_SYNC_DEFINES_CONDITION_VARIABLE_NATIVE_HANDLE
    if constexpr (std::is_same< CV, condition_variable >::value)
        if (native) { int (*f)(pthread_cond_t*) = all ? pthread_cond_broadcast : pthread_cond_signal; while (f(cv.native_handle()) == EINTR); return; }
#endif
    if (all) cv.notify_all(); else cv.notify_one();
}
template< typename CV, typename T > struct World
{
    typename T::mtx m; CV cv;
    Monitor mon;
    int tokens = 0, phase = 0, waiting = 0, returned = 0; // protected by m
    // checks that the calling thread really holds the lock
    void held(const char* where)
    {
        bool got;
        { got = m.try_lock(); }
        if (got) vrt::fail("lock-not-held", "%s, but the caller's lock isn't held", where);
    }
};

// Runs at half the speed of the others: waiting for the same time on the system clock isn't enough
struct slow_clock
{
    typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period;
    typedef std::chrono::time_point< slow_clock, duration > time_point;
    static const bool is_steady = true;
    static time_point now() noexcept { return time_point(duration(std::chrono::steady_clock::now().time_since_epoch().count() / 2 + 12345)); }
};
enum Form { WAIT, WAIT_P, TIMED, TIMED_P_DUR, TIMED_P_TP, FOR, FOR_P, UNTIL, UNTIL_P, NFORMS };
static const char* const form_names[] = { "wait", "wait(pred)", "timed_wait", "timed_wait(dur,pred)", "timed_wait(point,pred)", "wait_for", "wait_for(pred)", "wait_until", "wait_until(pred)" };
struct Outcome { bool timeout = false; };

// One call of a wait form. pred is used by the predicate forms. Returns true unless a timeout is reported.
template< typename CV, typename L, typename P > bool call(CV& cv, L& l, int form, int clk, int64_t ns, P pred)
{
    auto sys = std::chrono::system_clock::now() + N(ns); auto st = std::chrono::steady_clock::now() + N(ns); auto sl = slow_clock::now() + N(ns);
    switch (form)
    {
    case WAIT: cv.wait(l); return true;
    case WAIT_P: cv.wait(l, pred); return true;
    case TIMED: return clk == 0 ? cv.timed_wait(l, sys) : clk == 1 ? cv.timed_wait(l, st) : clk == 3 ? cv.timed_wait(l, sl) : cv.timed_wait(l, N(ns));
    case TIMED_P_DUR: return cv.timed_wait(l, N(ns), pred);
    case TIMED_P_TP: return clk == 0 ? cv.timed_wait(l, sys, pred) : clk == 3 ? cv.timed_wait(l, sl, pred) : cv.timed_wait(l, st, pred);
    case FOR: return cv.wait_for(l, N(ns)) == cv_status::no_timeout;
    case FOR_P: return cv.wait_for(l, N(ns), pred);
    case UNTIL: return (clk == 0 ? cv.wait_until(l, sys) : clk == 3 ? cv.wait_until(l, sl) : cv.wait_until(l, st)) == cv_status::no_timeout;
    default: return clk == 0 ? cv.wait_until(l, sys, pred) : clk == 3 ? cv.wait_until(l, sl, pred) : cv.wait_until(l, st, pred);
    }
}
static bool has_pred(int f) { return f == WAIT_P || f == TIMED_P_DUR || f == TIMED_P_TP || f == FOR_P || f == UNTIL_P; }
static bool is_point(int f) { return f == TIMED || f == TIMED_P_TP || f == UNTIL || f == UNTIL_P; }
static bool is_timed(int f) { return f >= TIMED; }
static const int64_t FOREVER = 1000000000000000ll;

static vrt::Options cv_options(hx::Rng& r, bool c09)
{
    vrt::Options o = hx::options(r);
    if (c09) { o.p_jump = 0; o.spin_time = false; o.p_spurious = r.p(0.15) ? 0.02 : 0; if (r.p(0.7)) o.storm_spurious = 0; }
    o.races = r.p(0.3);
    return o;
}

// ---------------------------------------------------------------- C09: tokens handed out one by one
template< typename CV, typename T > void token_case(hx::Rng& r, const char* name)
{
    vrt::Options o = cv_options(r, true);
    int nw = (int)r.in(1, 5), np = (int)r.in(1, 3);
    if (r.p(0.02)) { nw = (int)r.in(6, 40); o.races = false; o.p_spurious = 0; o.storm_spurious = 0; o.stack_size = 64 * 1024; o.max_steps = 5000000; }
    std::vector< int > forms, clks, posts;
    std::string what = hx::fmt("%s: %d consumers (", name, nw);
    for (int i = 0; i < nw; ++i) { forms.push_back((int)r.n(NFORMS)); clks.push_back((int)r.n(3)); what += hx::fmt("%s%s", i ? "," : "", form_names[forms.back()]); }
    int left = nw;
    for (int i = 0; i < np; ++i) { int k = i == np - 1 ? left : (int)r.n(left + 1); posts.push_back(k); left -= k; }
    bool all = r.p(0.2), inside = r.p(0.4), plus = r.p(0.3);
    what += hx::fmt("), %d producers, notify_%s %s the lock%s", np, all ? "all" : "one", inside ? "under" : "without", plus ? ", in bulk" : "");
    vrt::deadlock_kind = nullptr;
    hx::execute(o, what, [&]
    {
        World< CV, T >* w = new World< CV, T >;
        std::vector< int > ids;
        for (int i = 0; i < nw; ++i)
            ids.push_back(vrt::spawn([w, i, &forms, &clks]
            {
                typename T::holder h(w->m);
                w->mon.enter(T::shared);
                int f = forms[i];
                auto pred = [w] { return w->tokens > 0; };
                while (!has_pred(f) ? w->tokens == 0 : true)
                {
                    w->mon.leave(T::shared);
                    bool ok = call(w->cv, T::get(h), f, clks[i], FOREVER, pred);
                    w->mon.enter(T::shared);
                    hx::count("waits_returned");
                    if (!ok) vrt::fail("lost", "T%d timed out in %s when nothing else could run: it missed the notification (tokens %d)", vrt::self(), form_names[f], w->tokens);
                    if (has_pred(f)) break;
                }
                --w->tokens;
                w->mon.leave(T::shared);
            }));
        for (int p = 0; p < np; ++p)
            ids.push_back(vrt::spawn([w, p, &posts, all, inside, plus]
            {
                for (int k = 0; k < posts[p];)
                {
                    int n = plus ? posts[p] - k : 1;
                    w->m.lock();
                    w->mon.enter(false);
                    w->tokens += n;
                    w->mon.leave(false);
                    if (!inside) w->m.unlock();
                    for (int j = 0; j < (all ? 1 : n); ++j) { notify(w->cv, all, (k + j + p) % 7 == 6); hx::count("notifications"); }
                    if (inside) w->m.unlock();
                    k += n;
                }
            }));
        for (int t : ids) vrt::join(t);
        if (w->tokens != 0) vrt::fail("lost", "%d tokens left", w->tokens);
        hx::nontrivial();
        delete w;
    });
}
// A shared owner may not modify the tokens, so readers only wait for a phase. C09: everybody waiting is released by notify_all, somebody by notify_one
template< typename CV, typename T > void census_case(hx::Rng& r, const char* name)
{
    vrt::Options o = cv_options(r, true);
    o.p_spurious = 0; o.p_eintr_pthread = 0; o.storm_spurious = o.storm_eintr_pthread = 0;
    int nw = (int)r.in(1, 5), rounds = (int)r.in(1, 4);
    if (r.p(0.02)) { nw = (int)r.in(6, 40); o.races = false; o.stack_size = 64 * 1024; o.max_steps = 5000000; }
    std::vector< int > forms, clks;
    std::string what = hx::fmt("%s: %d plain waiters (", name, nw);
    static const int plain[] = { WAIT, TIMED, FOR, UNTIL };
    for (int i = 0; i < nw; ++i) { forms.push_back(plain[r.n(4)]); clks.push_back((int)r.n(3)); what += hx::fmt("%s%s", i ? "," : "", form_names[forms.back()]); }
    std::vector< int > kind; what += "), notify";
    for (int i = 0; i < rounds; ++i) { kind.push_back((int)r.n(4)); what += kind.back() & 1 ? " all" : " one"; if (kind.back() & 2) what += "(locked)"; }
    vrt::deadlock_kind = nullptr;
    hx::execute(o, what, [&]
    {
        World< CV, T >* w = new World< CV, T >;
        std::vector< int > ids;
        std::vector< char > wt(nw, 0); // the waiter has announced its wait (under the lock) and hasn't returned
        std::vector< char > stop(1, 0);
        for (int i = 0; i < nw; ++i)
            ids.push_back(vrt::spawn([w, i, &forms, &clks, &wt, &stop]
            {
                for (;;)
                {
                    typename T::holder h(w->m);
                    { vrt::Quiet q; if (stop[0]) return; wt[i] = 1; }
                    bool ok = call(w->cv, T::get(h), forms[i], clks[i], FOREVER, [] { return true; });
                    { vrt::Quiet q; wt[i] = 0; if (!ok) vrt::fail("lost", "T%d timed out in %s when nothing else could run", vrt::self(), form_names[forms[i]]); }
                    hx::count("waits_returned");
                    // one round each, so that the census below stays meaningful
                    { vrt::Quiet q; wt[i] = 2; }
                    break;
                }
            }));
        for (int k = 0; k < rounds; ++k)
        {
            w->m.lock();
            std::vector< int > before; { vrt::Quiet q; for (int i = 0; i < nw; ++i) if (wt[i] == 1) before.push_back(i); }
            if (!(kind[k] & 2)) w->m.unlock();
            if (kind[k] & 1) w->cv.notify_all(); else w->cv.notify_one();
            if (kind[k] & 2) w->m.unlock();
            hx::count("notifications");
            vrt::idle(true);
            vrt::Quiet q;
            int rel = 0; for (int i : before) rel += wt[i] == 2;
            hx::count("waiters_at_notification", before.size());
            if ((kind[k] & 1) && rel != (int)before.size()) vrt::fail("lost", "notify_all released %d of the %d threads that were waiting", rel, (int)before.size());
            if (!(kind[k] & 1) && !before.empty() && rel == 0)
            {
                // the notification may have gone to a thread that began to wait in between
                int other = 0; for (int i = 0; i < nw; ++i) { bool b = false; for (int j : before) b |= j == i; other += !b && wt[i] == 2; }
                if (!other) vrt::fail("lost", "notify_one released none of the %d threads that were waiting", (int)before.size());
            }
        }
        { vrt::Quiet q; stop[0] = 1; }
        for (int g = 0; g < 2 * nw + 4; ++g) { vrt::idle(true); w->cv.notify_all(); }
        for (int t : ids) vrt::join(t);
        hx::nontrivial();
        delete w;
    });
}

// ---------------------------------------------------------------- C10
#ifdef VCFG_WIN
// Windows back ends: durations are in milliseconds, the system clock ticks every 100 ns, and the lock of the user must not fail to unlock
const bool WIN = true; const int SCALE = 1000; const int64_t TOL = 100;
#else
const bool WIN = false; const int SCALE = 1; const int64_t TOL = 0;
#endif
struct PredFail {};
template< typename CV, typename T > void truth_case(hx::Rng& r, const char* name)
{
    vrt::Options o = cv_options(r, false);
    int nw = (int)r.in(1, 4);
    struct Plan { int form, clk; int64_t ns; int pred_throws; int fail_unlock, fail_relock; int goal; };
    std::vector< Plan > plan;
    std::string what = hx::fmt("%s:", name);
    for (int i = 0; i < nw; ++i)
    {
        Plan p; p.form = (int)r.n(NFORMS); p.clk = (int)r.n(4); p.ns = r.pick< int64_t >({ -50, 0, 10, 100, 500, 2000, 5000, 100000 }) * SCALE;
        p.pred_throws = has_pred(p.form) && r.p(0.2) ? (int)r.in(1, 3) : 0;
        p.fail_unlock = T::user && !WIN && r.p(0.15); p.fail_relock = T::user && !p.fail_unlock && r.p(0.15); p.goal = (int)r.in(1, 3);
        plan.push_back(p);
        what += hx::fmt(" T%d %s %lldns goal %d%s%s%s", i + 1, form_names[p.form], (long long)p.ns, p.goal, p.pred_throws ? " pred throws" : "", p.fail_unlock ? " unlock throws" : "", p.fail_relock ? " relock throws" : "");
    }
    int incs = (int)r.in(0, 4); std::vector< int > gaps; for (int i = 0; i < incs; ++i) gaps.push_back((int)r.pick({ 0, 5, 100, 1500, 50 }) * SCALE);
    bool inside = r.p(0.5);
    vrt::deadlock_kind = nullptr;
    hx::execute(o, what, [&]
    {
        World< CV, T >* w = new World< CV, T >;
        std::vector< int > ids;
        int left = nw;
        for (int i = 0; i < nw; ++i)
            ids.push_back(vrt::spawn([w, i, &plan, &left]
            {
                Plan const& p = plan[i];
                {
                    typename T::holder h(w->m);
                    if constexpr (T::user != 0) { h.fail_unlock = p.fail_unlock; h.fail_relock = p.fail_relock; }
                    int evals = 0;
                    auto pred = [w, &p, &evals]() -> bool
                    {
                        w->mon.enter(T::shared);
                        w->held("the predicate is evaluated");
                        ++evals; hx::count("predicate_evaluations");
                        bool b = w->phase >= p.goal;
                        w->mon.leave(T::shared);
                        if (p.pred_throws && evals == p.pred_throws) { hx::count("predicate_throws"); throw PredFail(); }
                        return b;
                    };
                    i128 m0 = vrt::mono_ns();
                    bool ok = false, relock_lost = false; int thrown = 0;
                    try { ok = call(w->cv, T::get(h), p.form, p.clk, p.ns, pred); }
                    catch (PredFail&) { thrown = 1; }
                    catch (LockFail& f) { thrown = 2; relock_lost = f.what == 2; }
                    catch (std::exception& e) { vrt::fail("wrong-error", "%s thrown by %s", e.what(), form_names[p.form]); }
                    if (relock_lost) hx::count("relock_failures");
                    else
                    {
                        w->mon.enter(T::shared);
                        if (!T::owns(h)) vrt::fail("lock-not-held", "the lock object doesn't own the lock after %s (%s)", form_names[p.form], thrown ? "exception" : "return");
                        w->held("a wait has returned");
                        i128 el = vrt::mono_ns() - m0;
                        if (!thrown)
                        {
                            hx::count(ok ? "returned_true" : "returned_timeout");
                            if (has_pred(p.form))
                            {
                                bool now = w->phase >= p.goal;
                                if (ok != now) vrt::fail("untruth", "%s returned %s, but the predicate is %s", form_names[p.form], ok ? "true" : "false", now ? "true" : "false");
                                if (!evals) vrt::fail("untruth", "%s returned without evaluating the predicate", form_names[p.form]);
                                if (p.pred_throws && evals >= p.pred_throws) vrt::fail("untruth", "the exception of the predicate was swallowed");
                            }
                            // the deadline of point forms is computed just before the call
                            i128 want = p.clk == 3 && is_point(p.form) && p.ns > 0 ? (i128)p.ns * 2 - 2 : (i128)p.ns - 1;
                            if (!ok && el < want - TOL) vrt::fail("untruth", "%s reported a timeout %lld ns before the deadline", form_names[p.form], (long long)(want - el));
                        }
                        else hx::count("exceptions_observed");
                        w->mon.leave(T::shared);
                    }
                }
                vrt::Quiet q; --left;
            }));
        ids.push_back(vrt::spawn([w, incs, &gaps, inside, &left]
        {
            for (int k = 0; k < incs; ++k)
            {
                if (gaps[k]) vrt::sleep_ns(gaps[k]);
                w->m.lock(); w->mon.enter(false); ++w->phase; w->mon.leave(false);
                if (!inside) w->m.unlock();
                if (k & 1) w->cv.notify_one(); else w->cv.notify_all();
                if (inside) w->m.unlock();
            }
            // let everybody go
            for (bool first = true;; first = false)
            {
                { vrt::Quiet q; if (left == 0) break; }
                vrt::idle(true);
                w->m.lock(); if (!first) { w->mon.enter(false); w->phase = 100; w->mon.leave(false); } w->m.unlock();
                w->cv.notify_all();
                if (first) vrt::sleep_ns(3000);
            }
        }));
        for (int t : ids) vrt::join(t);
        hx::nontrivial();
        { vrt::Quiet q; hx::count("sections", w->mon.sections); }
        delete w;
    });
}

// A failing OS call inside a wait: reported as the right exception, with the lock of the caller held
template< typename CV, typename T > void fault_case(hx::Rng& r, const char* name)
{
    vrt::Options o = cv_options(r, false);
    o.p_spurious = 0; o.p_eintr_pthread = 0; o.storm_spurious = o.storm_eintr_pthread = 0;
    int form = (int)r.n(NFORMS), clk = (int)r.n(3); int64_t ns = r.pick< int64_t >({ 10, 500, 5000 });
    bool any = std::is_same< CV, condition_variable_any >::value;
    if (std::is_same< typename T::mtx, mutex >::value || std::is_same< typename T::mtx, timed_mutex >::value) any = false; // the lock of the caller may be what can't be locked then
    if (WIN) { any = false; if (ns < 10000) ns *= SCALE; }
    const char* fn = WIN ? (is_point(form) || (is_timed(form) && has_pred(form)) ? (clk != 1 || !is_point(form) ? (r.p(0.5) ? "WaitForMultipleObjects" : "SetWaitableTimer") : "WaitForSingleObject") : "WaitForSingleObject") : any && r.p(0.4) ? "pthread_mutex_lock" : is_timed(form) ? "pthread_cond_timedwait" : "pthread_cond_wait";
    bool lockf = !strcmp(fn, "pthread_mutex_lock");
    int err = r.pick({ EINVAL, EPERM, ENOMEM, EAGAIN });
    hx::execute(o, hx::fmt("%s: %s, first %s fails with %d", name, form_names[form], fn, err), [&]
    {
        World< CV, T >* w = new World< CV, T >;
        int left = 1; bool go = false;
        int t = vrt::spawn([&, w]
        {
            typename T::holder h(w->m);
            vrt::inject(fn, 1, err);
            int thrown = 0;
            bool ok = false;
            try { ok = call(w->cv, T::get(h), form, clk, ns, [&] { return go; }); }
            catch (wait_error& e) { thrown = 1; if (lockf || e.code().value() != err) vrt::fail("wrong-error", "wait_error(%d) thrown by %s when %s failed with %d", e.code().value(), form_names[form], fn, err); }
            catch (lock_error& e) { thrown = 2; if (!lockf || e.code().value() != err) vrt::fail("wrong-error", "lock_error(%d) thrown by %s when %s failed with %d", e.code().value(), form_names[form], fn, err); }
            bool fired = vrt::injection_fired();
            vrt::clear_injections();
            if (fired && !thrown) vrt::fail("wrong-error", "%s returned %d though %s failed with %d", form_names[form], (int)ok, fn, err);
            if (fired) { hx::count("faults_reported"); hx::nontrivial(); }
            if (!T::owns(h)) vrt::fail("lock-not-held", "the lock object doesn't own the lock after an error in %s", form_names[form]);
            w->held("a wait has failed");
            vrt::Quiet q; left = 0;
        });
        // the wait isn't bound to make the call (a mutex may be locked by trying first): let it go then
        int t2 = vrt::spawn([&, w]
        {
            for (;;)
            {
                vrt::idle(true);
                { vrt::Quiet q; if (left == 0) break; }
                w->m.lock(); go = true; w->m.unlock();
                w->cv.notify_all();
            }
        });
        vrt::join(t);
        vrt::join(t2);
        // still usable
        { w->m.lock(); w->cv.notify_all(); w->m.unlock(); }
        delete w;
    });
}

template< typename CV, typename T > void kind(hx::Rng& r, std::string const& mode, const char* name)
{
    if (mode == "C09")
    {
        if constexpr (T::shared == 0) { if (r.p(0.6)) { token_case< CV, T >(r, name); return; } }
        census_case< CV, T >(r, name);
    }
    else if (r.p(0.15)) fault_case< CV, T >(r, name);
    else truth_case< CV, T >(r, name);
}
void one_case(hx::Rng& r, std::string const& mode, uint64_t index)
{
    switch (index % 10)
    {
    case 0: case 1: kind< condition_variable, T_unique< mutex > >(r, mode, "condition_variable/mutex"); break;
    case 2:
#if defined(BOOST_SYNC_DEFINES_TIMED_MUTEX_NATIVE_HANDLE) || defined(VCFG_WIN)
        kind< condition_variable, T_unique< timed_mutex > >(r, mode, "condition_variable/timed_mutex"); break;
#endif
    case 3: kind< condition_variable_any, T_unique< mutex > >(r, mode, "condition_variable_any/unique_lock<mutex>"); break;
    case 4: kind< condition_variable_any, T_unique< timed_mutex > >(r, mode, "condition_variable_any/unique_lock<timed_mutex>"); break;
    case 5: kind< condition_variable_any, T_unique< spin_mutex > >(r, mode, "condition_variable_any/unique_lock<spin_mutex>"); break;
    case 6: kind< condition_variable_any, T_shared >(r, mode, "condition_variable_any/shared_lock<shared_spin_mutex>"); break;
    case 7: kind< condition_variable_any, T_raw< mutex > >(r, mode, "condition_variable_any/mutex"); break;
    case 8: kind< condition_variable_any, T_unique< shared_spin_mutex > >(r, mode, "condition_variable_any/unique_lock<shared_spin_mutex>"); break;
    default: kind< condition_variable_any, T_user >(r, mode, "condition_variable_any/user lock"); break;
    }
}
