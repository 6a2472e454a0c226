// Mutexes: exclusion (C01) and availability (C02).
#include "harness.hpp"
#include <errno.h>
#include <pthread.h>
#include <chrono>
#include <memory>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/support/std_chrono.hpp>

using namespace boost::sync;
typedef std::chrono::nanoseconds N;

struct Caps { bool timed, shared; const char* name; };
template< typename M > struct caps;
template<> struct caps< mutex > { static constexpr bool timed = false, shared = false; static const char* name() { return "mutex"; } };
template<> struct caps< timed_mutex > { static constexpr bool timed = true, shared = false; static const char* name() { return "timed_mutex"; } };
template<> struct caps< spin_mutex > { static constexpr bool timed = false, shared = false; static const char* name() { return "spin_mutex"; } };
template<> struct caps< shared_spin_mutex > { static constexpr bool timed = false, shared = true; static const char* name() { return "shared_spin_mutex"; } };

// Ownership as seen by the clients
struct Monitor
{
    int writer = -1;
    std::vector< int > readers;
    uint64_t acquisitions = 0, failures = 0, contended = 0;
    int waiting = 0;
};
static Monitor* mon; // of the current run
static const char* classify()
{
    if (mon && mon->writer < 0 && mon->readers.empty()) return mon->failures ? "leaked-failure" : "stuck-free";
    return "deadlock";
}
static void enter(Monitor& m, bool ex, const char* how)
{
    vrt::Quiet q;
    int me = vrt::self();
    if (m.writer >= 0) vrt::soft("exclusion", "T%d acquired the mutex %s by %s while T%d holds it exclusively", me, ex ? "exclusively" : "shared", how, m.writer);
    if (ex && !m.readers.empty()) vrt::soft("exclusion", "T%d acquired the mutex exclusively by %s while %zu threads hold it shared", me, how, m.readers.size());
    if (ex) m.writer = me; else m.readers.push_back(me);
    ++m.acquisitions;
    if (m.waiting > 0) { ++m.contended; hx::nontrivial(); }
    vrt::log("%s enter %s", how, ex ? "exclusive" : "shared");
}
static void leave(Monitor& m, bool ex)
{
    vrt::Quiet q;
    int me = vrt::self();
    if (ex) m.writer = -1;
    else for (size_t i = 0; i < m.readers.size(); ++i) if (m.readers[i] == me) { m.readers.erase(m.readers.begin() + i); break; }
    vrt::log("leave %s", ex ? "exclusive" : "shared");
}
struct Waiting { Monitor& m; explicit Waiting(Monitor& x) : m(x) { vrt::Quiet q; ++m.waiting; } ~Waiting() { vrt::Quiet q; --m.waiting; } };

enum Form { FM_LOCK, FM_TRY, FM_TIMED_REL, FM_TIMED_ABS, FM_FOR, FM_UNTIL, FM_UNTIL_STEADY, FM_GUARD, FM_UNIQUE, FM_UNIQUE_TRY, FM_UNIQUE_TIMED, FM_UNLOCK_GUARD, FM_ADOPT, FM_NATIVE, FM_NATIVE_TRY,
    FM_SHARED, FM_TRY_SHARED, FM_SHARED_GUARD, FM_SHARED_LOCK, FM_SHARED_LOCK_TRY, FM_COUNT };
static const char* const form_names[] = { "lock", "try_lock", "timed_lock(rel)", "timed_lock(abs)", "try_lock_for", "try_lock_until", "try_lock_until(steady)", "lock_guard", "unique_lock", "unique_lock(try)", "unique_lock(timed)", "unlock_guard", "adopt_lock", "lock(native handle)", "try_lock(native handle)",
    "lock_shared", "try_lock_shared", "shared_lock_guard", "shared_lock", "shared_lock(try)" };
struct Step { int form; int64_t ns; int hold, pause; int64_t sleep; };

static void critical(Step const& s)
{
    for (int i = 0; i < s.hold; ++i) vrt::yield();
    if (s.sleep) vrt::sleep_ns(s.sleep);
}

// The native handle is documented to represent the primitive that implements the mutex
#ifdef BOOST_SYNC_DEFINES_MUTEX_NATIVE_HANDLE
static pthread_mutex_t* native(mutex& m) { return m.native_handle(); }
#endif
#ifdef BOOST_SYNC_DEFINES_TIMED_MUTEX_NATIVE_HANDLE
static pthread_mutex_t* native(timed_mutex& m) { return m.native_handle(); }
#endif
template< typename M > pthread_mutex_t* native(M&) { return nullptr; }
template< typename M > constexpr bool has_native = false;
#ifdef BOOST_SYNC_DEFINES_MUTEX_NATIVE_HANDLE
template<> constexpr bool has_native< mutex > = true;
#endif
#ifdef BOOST_SYNC_DEFINES_TIMED_MUTEX_NATIVE_HANDLE
template<> constexpr bool has_native< timed_mutex > = true;
#endif
static int native_op(int (*f)(pthread_mutex_t*), pthread_mutex_t* m) { int e; do e = f(m); while (e == EINTR); return e; }

// A raw acquisition; returns success
template< typename M > bool acquire(M& m, int form, int64_t ns)
{
    if constexpr (caps< M >::timed)
    {
        switch (form)
        {
        case FM_TIMED_REL: return m.timed_lock(N(ns));
        case FM_TIMED_ABS: return m.timed_lock(std::chrono::system_clock::now() + N(ns));
        case FM_FOR: return m.try_lock_for(N(ns));
        case FM_UNTIL: return m.try_lock_until(std::chrono::system_clock::now() + N(ns));
        case FM_UNTIL_STEADY: return m.try_lock_until(std::chrono::steady_clock::now() + N(ns));
        }
    }
    if constexpr (caps< M >::shared)
    {
        switch (form)
        {
        case FM_SHARED: m.lock_shared(); return true;
        case FM_TRY_SHARED: return m.try_lock_shared();
        }
    }
    if (form == FM_NATIVE || form == FM_NATIVE_TRY)
    {
        int e = native_op(form == FM_NATIVE ? pthread_mutex_lock : pthread_mutex_trylock, native(m));
        if (e && e != EBUSY) vrt::fail("misuse", "pthread_mutex_%slock on the native handle failed with %d", form == FM_NATIVE ? "" : "try", e);
        return e == 0;
    }
    if (form == FM_TRY) return m.try_lock();
    m.lock();
    return true;
}
template< typename M > void release(M& m, bool ex)
{
    if constexpr (caps< M >::shared) { if (!ex) { m.unlock_shared(); return; } }
    m.unlock();
}
static bool exclusive(int form) { return form < FM_SHARED; }

template< typename M > void perform(M& m, Monitor& mn, Step const& s)
{
    for (int i = 0; i < s.pause; ++i) vrt::yield();
    const char* how = form_names[s.form];
    bool ex = exclusive(s.form);
    switch (s.form)
    {
    case FM_GUARD:
        {
            std::unique_ptr< Waiting > w; { vrt::Quiet q; w.reset(new Waiting(mn)); }
            lock_guard< M > g(m);
            { vrt::Quiet q; w.reset(); }
            enter(mn, true, how); critical(s); leave(mn, true);
            return;
        }
    case FM_UNIQUE: case FM_UNIQUE_TRY: case FM_UNIQUE_TIMED:
        {
            unique_lock< M > g(m, defer_lock);
            {
                Waiting w(mn);
                if (s.form == FM_UNIQUE) g.lock();
                else if (s.form == FM_UNIQUE_TRY) g.try_lock();
                else if constexpr (caps< M >::timed) g.timed_lock(N(s.ns));
                else g.try_lock();
            }
            if (g.owns_lock()) { enter(mn, true, how); critical(s); leave(mn, true); if (s.hold & 1) g.unlock(); }
            else { vrt::Quiet q; ++mn.failures; hx::count("failed_attempts"); }
            return;
        }
    case FM_UNLOCK_GUARD:
        {
            unique_lock< M > g(m);
            enter(mn, true, how); critical(s); leave(mn, true);
            { unlock_guard< unique_lock< M > > u(g); critical(s); }
            enter(mn, true, how); critical(s); leave(mn, true);
            return;
        }
    case FM_ADOPT:
        {
            m.lock();
            unique_lock< M > g(m, adopt_lock);
            enter(mn, true, how); critical(s); leave(mn, true);
            return;
        }
    }
    if constexpr (caps< M >::shared)
    {
        if (s.form == FM_SHARED_GUARD)
        {
            shared_lock_guard< M > g(m);
            enter(mn, false, how); critical(s); leave(mn, false);
            return;
        }
        if (s.form == FM_SHARED_LOCK || s.form == FM_SHARED_LOCK_TRY)
        {
            shared_lock< M > g(m, defer_lock);
            if (s.form == FM_SHARED_LOCK) g.lock(); else g.try_lock();
            if (g.owns_lock()) { enter(mn, false, how); critical(s); leave(mn, false); }
            return;
        }
    }
    bool ok;
    { Waiting w(mn); ok = acquire(m, s.form, s.ns); }
    if (!ok) { vrt::Quiet q; ++mn.failures; hx::count("failed_attempts"); return; }
    enter(mn, ex, how);
    critical(s);
    leave(mn, ex);
    if ((s.form == FM_NATIVE || s.form == FM_NATIVE_TRY) && (s.hold & 1)) native_op(pthread_mutex_unlock, native(m)); // or through the object
    else release(m, ex);
}

template< typename M > int rand_form(hx::Rng& r)
{
    for (;;)
    {
        int f = (int)r.n(FM_COUNT);
        if (!caps< M >::timed && ((f >= FM_TIMED_REL && f <= FM_UNTIL_STEADY) || f == FM_UNIQUE_TIMED)) continue;
        if (!caps< M >::shared && f >= FM_SHARED) continue;
        if (!has_native< M > && (f == FM_NATIVE || f == FM_NATIVE_TRY)) continue;
        if (caps< M >::shared && f >= FM_GUARD && f <= FM_NATIVE_TRY && r.p(0.6)) continue;
        return f;
    }
}
static Step rand_step(hx::Rng& r, int form)
{
    Step s; s.form = form; s.hold = (int)r.n(4); s.pause = (int)r.n(3);
    s.ns = r.pick< int64_t >({ 0, -7, 1, 100, 1000, 3000 });
    s.sleep = r.p(0.15) ? r.pick< int64_t >({ 50, 500, 1500, 5000 }) : 0;
    return s;
}

template< typename M > struct World { M m; Monitor mn; };

template< typename M > void concurrent_case(hx::Rng& r)
{
    vrt::Options o = hx::options(r);
    int nt = (int)r.in(2, 5);
    bool many = r.p(0.02), lengthy = !many && r.p(0.005);
    if (many) { nt = (int)r.in(6, 24); o.stack_size = 64 * 1024; o.max_steps = 5000000; o.storm_spurious = o.storm_eintr = o.storm_weak = o.storm_eintr_pthread = 0; }
    std::vector< std::vector< Step > > prog(nt);
    std::string what = hx::fmt("%s:", caps< M >::name());
    for (int t = 0; t < nt; ++t)
    {
        int n = (int)r.in(1, 5);
        what += hx::fmt(" T%d(", t + 1);
        for (int i = 0; i < n; ++i) { prog[t].push_back(rand_step(r, rand_form< M >(r))); what += hx::fmt("%s%s", i ? "," : "", form_names[prog[t].back().form]); }
        what += ")";
    }
    if (lengthy) // somebody holds the mutex for long while the others spin
    {
        Step& s = prog[r.n(nt)][0];
        s.hold = (int)r.pick({ 300, 1500, 6000, 20000 }); s.sleep = 0; s.pause = 0;
        o.max_steps = 20000000; if (o.strategy == 2) o.strategy = 0;
        what += hx::fmt(" hold %d", s.hold);
    }
    vrt::deadlock_kind = &classify;
    hx::execute(o, what, [&]
    {
        World< M >* w = new World< M >;
        { vrt::Quiet q; mon = &w->mn; }
        std::vector< int > ids;
        for (int t = 0; t < nt; ++t) ids.push_back(vrt::spawn([w, t, &prog] { for (Step const& s : prog[t]) perform(w->m, w->mn, s); }));
        for (int t : ids) vrt::join(t);
        // everything has been released: the mutex is free again
        if (!w->m.try_lock()) { vrt::Quiet q; vrt::fail(w->mn.failures ? "leaked-failure" : "stuck-free", "the mutex is not free after all owners released it (try_lock failed)"); }
        w->m.unlock();
        if constexpr (caps< M >::shared)
        {
            if (!w->m.try_lock_shared()) vrt::fail("stuck-free", "try_lock_shared failed on a free mutex");
            if (!w->m.try_lock_shared()) vrt::fail("stuck-free", "try_lock_shared failed on a mutex that is only held shared");
            if (w->m.try_lock()) vrt::fail("exclusion", "try_lock succeeded on a mutex that is held shared");
            w->m.unlock_shared();
            if (w->m.try_lock()) vrt::fail("exclusion", "try_lock succeeded on a mutex that is held shared");
            w->m.unlock_shared();
            if (!w->m.try_lock()) vrt::fail("stuck-free", "the mutex is not free after all shared owners released it");
            w->m.unlock();
        }
        { vrt::Quiet q; hx::count("acquisitions", w->mn.acquisitions); hx::count("contended_acquisitions", w->mn.contended); mon = nullptr; }
        delete w;
    });
}

// One operation at a time, exact expectation of the result
template< typename M > void turn_case(hx::Rng& r, bool excl)
{
    vrt::Options o = hx::options(r);
    o.p_jump = 0; o.p_spurious = 0; o.storm_spurious = 0;
    int nt = (int)r.in(2, 4), ops = (int)r.in(4, 14);
    struct Cmd { int tid, op, form; int64_t ns; }; // op 0 acquire, 1 release
    struct Turn { int cur = -1; Cmd cmd; bool done = true, stop = false; bool result = false; };
    std::string what = hx::fmt("%s, one operation at a time:", caps< M >::name());
    // model: simulate while generating
    std::vector< Cmd > cmds; std::vector< int > expect;
    int writer = -1; std::vector< int > readers(nt, 0);
    for (int i = 0; i < ops; ++i)
    {
        int t = (int)r.n(nt);
        int nread = 0; for (int x : readers) nread += x;
        if (writer == t || readers[t]) { cmds.push_back(Cmd{ t, 1, writer == t ? FM_LOCK : FM_SHARED, 0 }); expect.push_back(1); if (writer == t) writer = -1; else readers[t] = 0; }
        else
        {
            int f; do f = rand_form< M >(r); while (f >= FM_GUARD && f <= FM_ADOPT);
            if (f == FM_SHARED_GUARD || f == FM_SHARED_LOCK || f == FM_SHARED_LOCK_TRY) f = FM_TRY_SHARED;
            bool ex = exclusive(f);
            bool avail = ex ? writer < 0 && nread == 0 : writer < 0;
            if (!avail && f == FM_NATIVE) f = FM_NATIVE_TRY;
            if (!avail && (f == FM_LOCK || f == FM_SHARED)) f = ex ? FM_TRY : FM_TRY_SHARED;
            cmds.push_back(Cmd{ t, 0, f, r.pick< int64_t >({ 0, -9, 10, 1000 }) }); expect.push_back(avail);
            if (avail) { if (ex) writer = t; else readers[t] = 1; }
        }
        what += hx::fmt(" T%d:%s%s=%d", t + 1, cmds.back().op ? "un" : "", cmds.back().op ? (cmds.back().form == FM_LOCK ? "lock" : "lock_shared") : form_names[cmds.back().form], expect.back());
    }
    for (int t = 0; t < nt; ++t) if (writer == t || readers[t]) { cmds.push_back(Cmd{ t, 1, writer == t ? FM_LOCK : FM_SHARED, 0 }); expect.push_back(1); }
    vrt::deadlock_kind = nullptr;
    hx::execute(o, what, [&]
    {
        M* m = new M;
        Turn* tn; { vrt::Quiet q; tn = new Turn(); }
        std::vector< int > ids;
        for (int t = 0; t < nt; ++t)
            ids.push_back(vrt::spawn([m, tn, t]
            {
                for (;;)
                {
                    vrt::gate([tn, t] { return tn->stop || (tn->cur == t && !tn->done); });
                    Cmd c; { vrt::Quiet q; if (tn->stop) return; c = tn->cmd; }
                    bool res = true;
                    if (c.op == 0) res = acquire(*m, c.form, c.ns); else release(*m, c.form == FM_LOCK);
                    { vrt::Quiet q; tn->result = res; tn->done = true; }
                }
            }));
        for (size_t i = 0; i < cmds.size(); ++i)
        {
            { vrt::Quiet q; tn->cmd = cmds[i]; tn->cur = cmds[i].tid; tn->done = false; vrt::log("turn of T%d: %s %s", cmds[i].tid + 1, cmds[i].op ? "release" : "acquire", form_names[cmds[i].form]); }
            vrt::gate([tn] { return tn->done; });
            vrt::Quiet q;
            hx::count(expect[i] ? "expected_success" : "expected_failure");
            if (tn->result != (expect[i] != 0))
                vrt::fail(tn->result && excl ? "exclusion" : "dishonest-try", "operation %zu: %s by T%d %s with no concurrent activity, %s expected", i, form_names[cmds[i].form], cmds[i].tid + 1, tn->result ? "succeeded" : "failed", expect[i] ? "success" : "failure");
        }
        { vrt::Quiet q; tn->stop = true; }
        for (int t : ids) vrt::join(t);
        hx::nontrivial();
        { vrt::Quiet q; delete tn; }
        delete m;
    });
}

// Many concurrent readers
static void crowd_case(hx::Rng& r, int n)
{
    vrt::Options o = hx::options(r);
    o.strategy = 0; o.stack_size = 64 * 1024; o.max_steps = 5000000;
    hx::execute(o, hx::fmt("shared_spin_mutex: %d concurrent readers", n), [&]
    {
        World< shared_spin_mutex >* w = new World< shared_spin_mutex >;
        { vrt::Quiet q; mon = &w->mn; }
        for (int i = 0; i < n; ++i) { w->m.lock_shared(); { vrt::Quiet q; w->mn.readers.push_back(0); } if (w->m.try_lock()) vrt::fail("exclusion", "try_lock succeeded with %d readers", i + 1); }
        for (int i = 0; i < n; ++i) { if (w->m.try_lock()) vrt::fail("exclusion", "try_lock succeeded with %d of %d readers left", n - i, n); w->m.unlock_shared(); }
        if (!w->m.try_lock()) vrt::fail("stuck-free", "the mutex is not free after %d readers left", n);
        w->m.unlock();
        hx::nontrivial();
        { vrt::Quiet q; mon = nullptr; }
        delete w;
    });
}

void one_case(hx::Rng& r, std::string const& mode, uint64_t index)
{
    if (index % 2000 == 1999) { vrt::deadlock_kind = nullptr; crowd_case(r, (int)r.pick({ 40, 300, 70000 })); return; }
    bool turn = mode == "C02" ? index % 2 : index % 10 == 9;
    bool excl = mode == "C01"; // what a success that shouldn't be is called
    switch (index / 2 % 5)
    {
    case 0: turn ? turn_case< mutex >(r, excl) : concurrent_case< mutex >(r); break;
    case 1: turn ? turn_case< timed_mutex >(r, excl) : concurrent_case< timed_mutex >(r); break;
    case 2: turn ? turn_case< spin_mutex >(r, excl) : concurrent_case< spin_mutex >(r); break;
    default: turn ? turn_case< shared_spin_mutex >(r, excl) : concurrent_case< shared_spin_mutex >(r); break;
    }
}
