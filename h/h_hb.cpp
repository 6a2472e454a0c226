// Happens-before between release-type and acquire-type operations (C06): plain data is handed over through the primitives under a
// vector-clock race detector, with loads allowed to return any value C++11 permits.
#include "harness.hpp"
#include <chrono>
#include <memory>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>

using namespace boost::sync;
typedef std::chrono::nanoseconds N;

struct Data { long a; char b; int c; long d[3]; };
static __attribute__((noinline)) void touch(Data& x) { x.a += 1; x.b = (char)x.a; x.c += 2; x.d[x.a % 3] += 1; }
static __attribute__((noinline)) long look(Data const& x) { return x.a + x.c + x.d[0] + x.d[1] + x.d[2] + x.b * 0; }
static void expect(Data const& x, long n, const char* who)
{
    long v = look(x);
    if (v != n * 4) vrt::fail("stale-data", "%s: expected %ld updates to be visible, sum is %ld instead of %ld", who, n, v, n * 4);
}

static vrt::Options hb_options(hx::Rng& r)
{
    vrt::Options o = hx::options(r);
    o.races = true;
    o.p_stale = r.pick({ 0.0, 0.1, 0.3, 0.5 });
    o.switch_on_plain = r.p(0.15);
    return o;
}

// -------------------------------------------------------------------- mutexes
template< typename M > struct is_timed { static constexpr bool value = false; };
template<> struct is_timed< timed_mutex > { static constexpr bool value = true; };
template< typename M > struct is_shared { static constexpr bool value = false; };
template<> struct is_shared< shared_spin_mutex > { static constexpr bool value = true; };

template< typename M > bool acq(M& m, int form, int64_t ns)
{
    switch (form)
    {
    case 0: m.lock(); return true;
    case 1: return m.try_lock();
    default:
        if constexpr (is_timed< M >::value)
        {
            switch (form)
            {
            case 2: return m.timed_lock(N(ns));
            case 3: return m.try_lock_for(N(ns));
            case 4: return m.try_lock_until(std::chrono::system_clock::now() + N(ns));
            default: return m.try_lock_until(std::chrono::steady_clock::now() + N(ns));
            }
        }
        m.lock(); return true;
    }
}
template< typename M > struct MW { M m; Data x; long n; };
template< typename M > void mutex_case(hx::Rng& r, const char* name)
{
    vrt::Options o = hb_options(r);
    int nt = (int)r.in(2, 4);
    std::vector< std::vector< int > > prog(nt);
    std::string what = hx::fmt("%s protects plain data:", name);
    for (int t = 0; t < nt; ++t)
    {
        int n = (int)r.in(1, 4);
        what += hx::fmt(" T%d(", t + 1);
        for (int i = 0; i < n; ++i) { prog[t].push_back((int)r.n(is_shared< M >::value ? 12 : 8)); what += hx::fmt("%s%d", i ? "," : "", prog[t].back()); }
        what += ")";
    }
    hx::execute(o, what, [&]
    {
        MW< M >* w = new MW< M >; w->x = Data(); w->n = 0;
        std::vector< int > ids;
        for (int t = 0; t < nt; ++t)
            ids.push_back(vrt::spawn([w, t, &prog]
            {
                for (int f : prog[t])
                {
                    if (f >= 8)
                    {
                        if constexpr (is_shared< M >::value)
                        {
                            if (f == 8) { w->m.lock_shared(); expect(w->x, w->n, "shared owner"); w->m.unlock_shared(); }
                            else if (f == 9) { if (w->m.try_lock_shared()) { expect(w->x, w->n, "shared owner"); w->m.unlock_shared(); } }
                            else if (f == 10) { shared_lock< M > g(w->m); expect(w->x, w->n, "shared owner"); }
                            else { shared_lock_guard< M > g(w->m); expect(w->x, w->n, "shared owner"); }
                        }
                        continue;
                    }
                    if (f == 6) { lock_guard< M > g(w->m); expect(w->x, w->n, "owner"); touch(w->x); ++w->n; }
                    else if (f == 7) { unique_lock< M > g(w->m, try_to_lock); if (g) { expect(w->x, w->n, "owner"); touch(w->x); ++w->n; } }
                    else if (acq(w->m, f, 2000)) { expect(w->x, w->n, "owner"); touch(w->x); ++w->n; w->m.unlock(); }
                    else hx::count("failed_attempts");
                    hx::count("protected_sections");
                }
            }));
        for (int t : ids) vrt::join(t);
        hx::nontrivial();
        delete w;
    });
}

// -------------------------------------------------------------------- rings: data travels with the signal
struct SemE { semaphore x; SemE() : x(0) {} void signal() { x.post(); } void consumed() {} };
struct AreE { auto_reset_event x; void signal() { x.post(); } void consumed() {} };
struct MreE { manual_reset_event x; void signal() { x.set(); } void consumed() { x.reset(); } };
template< typename E > void await(E& e, int form)
{
    switch (form)
    {
    case 0: e.x.wait(); return;
    case 1: while (!e.x.try_wait()) vrt::yield(); return;
    case 2: while (!e.x.timed_wait(N(500))) {} return;
    case 3: while (!e.x.wait_for(N(700))) {} return;
    case 4: while (!e.x.wait_until(std::chrono::system_clock::now() + N(300))) {} return;
    default: while (!e.x.wait_until(std::chrono::steady_clock::now() + N(300))) {} return;
    }
}
template< typename E > void ring_case(hx::Rng& r, const char* name)
{
    vrt::Options o = hb_options(r);
    int nt = (int)r.in(2, 4), rounds = (int)r.in(1, 3);
    std::vector< int > forms;
    std::string what = hx::fmt("%s ring of %d, %d rounds:", name, nt, rounds);
    for (int i = 0; i < nt * rounds; ++i) { forms.push_back((int)r.n(6)); what += hx::fmt(" %d", forms.back()); }
    hx::execute(o, what, [&]
    {
        struct W { std::vector< std::unique_ptr< E > > e; Data x; };
        W* w = new W; w->x = Data();
        for (int i = 0; i < nt; ++i) w->e.push_back(std::unique_ptr< E >(new E));
        std::vector< int > ids;
        for (int t = 0; t < nt; ++t)
            ids.push_back(vrt::spawn([w, t, nt, rounds, &forms]
            {
                for (int k = 0; k < rounds; ++k)
                {
                    E& mine = *w->e[t];
                    await(mine, forms[k * nt + t]);
                    mine.consumed();
                    expect(w->x, k * nt + t, "signalled thread");
                    touch(w->x);
                    w->e[(t + 1) % nt]->signal();
                    hx::count("handovers");
                }
            }));
        w->e[0]->signal();
        for (int t : ids) vrt::join(t);
        hx::nontrivial();
        delete w;
    });
}

// -------------------------------------------------------------------- all completed posts are visible to the wait that consumes the signal
template< typename E > void coalesce_case(hx::Rng& r, const char* name, bool sem, bool mre)
{
    vrt::Options o = hb_options(r);
    int np = (int)r.in(1, 4), each = (int)r.in(1, 3), form = (int)r.n(6);
    if (mre) o.p_stale = 0;
    hx::execute(o, hx::fmt("%s: %d producers post %d each, consumer form %d", name, np, each, form), [&]
    {
        struct W { E e; long slot[16]; bool done[16]; };
        W* w = new W; for (int i = 0; i < 16; ++i) { w->slot[i] = 0; w->done[i] = false; }
        std::vector< int > ids;
        for (int t = 0; t < np; ++t)
            ids.push_back(vrt::spawn([w, t, each]
            {
                for (int k = 0; k < each; ++k)
                {
                    w->slot[t * 4 + k] = 1 + k;
                    w->e.signal();
                    { vrt::Quiet q; w->done[t * 4 + k] = true; }
                }
            }));
        int total = np * each;
        if (sem)
        {
            // after as many waits as there are posts, all of them are visible; with one producer after k waits the first k
            for (int k = 0; k < total; ++k)
            {
                await(w->e, form);
                if (np == 1) { if (w->slot[k] != k + 1) vrt::fail("stale-data", "slot %d not visible after wait %d", k, k); hx::count("handovers"); }
            }
            for (int t = 0; t < np; ++t) for (int k = 0; k < each; ++k) { if (w->slot[t * 4 + k] != k + 1) vrt::fail("stale-data", "slot not visible"); hx::count("handovers"); }
        }
        else
        {
            bool seen[16] = {};
            for (int left = total; left > 0;)
            {
                bool before[16]; { vrt::Quiet q; for (int i = 0; i < 16; ++i) before[i] = w->done[i]; }
                await(w->e, form);
                w->e.consumed();
                for (int i = 0; i < 16; ++i)
                    if (before[i] && !seen[i])
                    {
                        seen[i] = true; --left;
                        if (w->slot[i] != 1 + i % 4) vrt::fail("stale-data", "the post of slot %d completed before the wait began, but its data isn't visible after it", i);
                        hx::count("handovers");
                    }
                if (left > 0)
                {
                    // more posts are coming, or all are done and the event has been consumed: make sure there is a signal for the next wait
                    bool all = true; { vrt::Quiet q; int n = 0; for (int i = 0; i < 16; ++i) n += w->done[i]; all = n == total; }
                    if (all) { w->e.signal(); }
                    else { vrt::gate([w, total] { int n = 0; for (int i = 0; i < 16; ++i) n += w->done[i]; return n == total; }); if (!w->e.x.try_wait()) {} w->e.signal(); }
                }
            }
        }
        for (int t : ids) vrt::join(t);
        hx::nontrivial();
        delete w;
    });
}

// -------------------------------------------------------------------- one set, several waiters of all forms
static void latch_case(hx::Rng& r)
{
    vrt::Options o = hb_options(r);
    int nt = (int)r.in(1, 4);
    std::vector< int > forms; std::string what = "manual_reset_event latch:";
    for (int i = 0; i < nt; ++i) { forms.push_back((int)r.n(6)); what += hx::fmt(" %d", forms.back()); }
    bool reset_first = r.p(0.3);
    hx::execute(o, what, [&]
    {
        struct W { MreE e; Data x; };
        W* w = new W; w->x = Data();
        std::vector< int > ids;
        for (int t = 0; t < nt; ++t) ids.push_back(vrt::spawn([w, t, &forms] { await(w->e, forms[t]); expect(w->x, 1, "released thread"); hx::count("handovers"); }));
        touch(w->x);
        if (reset_first) w->e.x.reset();
        w->e.signal();
        for (int t : ids) vrt::join(t);
        hx::nontrivial();
        delete w;
    });
}

void one_case(hx::Rng& r, std::string const&, uint64_t index)
{
    switch (index % 14)
    {
    case 0: mutex_case< mutex >(r, "mutex"); break;
    case 1: mutex_case< timed_mutex >(r, "timed_mutex"); break;
    case 2: mutex_case< spin_mutex >(r, "spin_mutex"); break;
    case 3: case 4: mutex_case< shared_spin_mutex >(r, "shared_spin_mutex"); break;
    case 5: ring_case< SemE >(r, "semaphore"); break;
    case 6: case 7: ring_case< AreE >(r, "auto_reset_event"); break;
    case 8: ring_case< MreE >(r, "manual_reset_event"); break;
    case 9: coalesce_case< SemE >(r, "semaphore", true, false); break;
    case 10: case 11: coalesce_case< AreE >(r, "auto_reset_event", false, false); break;
    case 12: coalesce_case< MreE >(r, "manual_reset_event", false, true); break;
    default: latch_case(r); break;
    }
}
