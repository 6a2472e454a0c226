// Lifetime and races (C18): objects on the heap, destroyed at the earliest moment a user may destroy them, with the race detector on.
#include "harness.hpp"
#include <atomic>
#include <chrono>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/lock_options.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>

using namespace boost::sync;
static const std::chrono::hours FOREVER(100);
struct Payload { int a, b; Payload() : a(1), b(2) {} };

template< typename E > void wait_form(E& e, int form)
{
    switch (form)
    {
    case 0: e.wait(); break;
    case 1: while (!e.wait_for(FOREVER)) {} break;
    case 2: while (!e.wait_until(std::chrono::steady_clock::now() + std::chrono::microseconds(50))) {} break;
    case 3: while (!e.wait_for(std::chrono::microseconds(10))) {} break;
    case 4: while (!e.try_wait()) vrt::yield(); break;
    default: while (!e.wait_until(std::chrono::system_clock::now() + FOREVER)) {} break;
    }
}
// k posts by k threads, one waiter takes all and destroys the object
template< typename E, typename P > void one_waiter(int k, int form, P post)
{
    struct Box { E e; int data[8]; };
    Box* b = new Box;
    std::vector< int > ids;
    for (int i = 0; i < k; ++i) { int id = vrt::spawn([b, i, &post] { b->data[i] = i + 1; post(b->e); }); vrt::Quiet q; ids.push_back(id); }
    int w = vrt::spawn([b, k, form]
    {
        for (int i = 0; i < k; ++i) wait_form(b->e, form);
        int s = 0; for (int i = 0; i < k; ++i) s += b->data[i];
        if (s != k * (k + 1) / 2) vrt::fail("stale-data", "data of a poster is missing");
        delete b;
        hx::count("destroyed_by_waiter");
    });
    for (int id : ids) vrt::join(id);
    vrt::join(w);
}
// one setter, several waiters, the last of them destroys
static void last_waiter(int k, int form)
{
    struct Box { manual_reset_event e; std::atomic< int > refs; int data; };
    Box* b = new Box; b->refs = k; b->data = 0;
    std::vector< int > ids;
    for (int i = 0; i < k; ++i)
    {
        int id = vrt::spawn([b, form] { wait_form(b->e, form); if (b->data != 7) vrt::fail("stale-data", "data of the setter is missing"); if (b->refs.fetch_sub(1) == 1) { delete b; hx::count("destroyed_by_waiter"); } });
        vrt::Quiet q; ids.push_back(id);
    }
    int s = vrt::spawn([b] { b->data = 7; b->e.set(); });
    for (int id : ids) vrt::join(id);
    vrt::join(s);
}
// auto-reset: k waiters, k posts that can't be merged as each follows the end of a wait
static void ping_pong(int k, int form)
{
    struct Box { auto_reset_event a, b; int data; };
    Box* b = new Box; b->data = 0;
    int x = vrt::spawn([b, k, form] { for (int i = 0; i < k; ++i) { wait_form(b->a, form); b->data++; b->b.post(); } });
    int y = vrt::spawn([b, k, form] { for (int i = 0; i < k; ++i) { b->a.post(); wait_form(b->b, form); b->data++; } if (b->data != 2 * k) vrt::fail("stale-data", "ping-pong"); delete b; hx::count("destroyed_by_waiter"); });
    vrt::join(x); vrt::join(y);
}
// reference count protected by the mutex inside of the object
template< typename M > void ref_count(int k, int form)
{
    struct Box { M m; int refs; int data; };
    Box* b = new Box; b->refs = k; b->data = 0;
    std::vector< int > ids;
    for (int i = 0; i < k; ++i)
    {
        int id = vrt::spawn([b, i, form]
        {
            bool last;
            int f = (form + i) % 3;
            if (f == 0) { b->m.lock(); b->data++; last = --b->refs == 0; b->m.unlock(); }
            else if (f == 1) { unique_lock< M > l(b->m); b->data++; last = --b->refs == 0; }
            else { while (!b->m.try_lock()) vrt::yield(); lock_guard< M > l(b->m, adopt_lock); b->data++; last = --b->refs == 0; }
            if (last) { delete b; hx::count("destroyed_by_last_owner"); }
        });
        vrt::Quiet q; ids.push_back(id);
    }
    for (int id : ids) vrt::join(id);
}
// readers leave, the last one out destroys (counted outside of the mutex, after unlock_shared)
static void shared_ref(int k)
{
    struct Box { shared_spin_mutex m; std::atomic< int > refs; int data; };
    Box* b = new Box; b->refs = k + 1; b->data = 0;
    std::vector< int > ids;
    for (int i = 0; i <= k; ++i)
    {
        int id = vrt::spawn([b, i]
        {
            if (i == 0) { b->m.lock(); b->data = 5; b->m.unlock(); }
            else { shared_lock< shared_spin_mutex > l(b->m); int d = b->data; if (d != 0 && d != 5) vrt::fail("stale-data", "reader"); }
            if (b->refs.fetch_sub(1) == 1) { delete b; hx::count("destroyed_by_last_owner"); }
        });
        vrt::Quiet q; ids.push_back(id);
    }
    for (int id : ids) vrt::join(id);
}
// a waiter that finds the condition true may destroy mutex and condition variable if the notification is made under the mutex
template< typename CV, typename M > void cv_life(int k, int form, bool one)
{
    struct Box { M m; CV cv; int waiting, done; };
    Box* b = new Box; b->waiting = k; b->done = 0;
    std::vector< int > ids;
    for (int i = 0; i < k; ++i)
    {
        int id = vrt::spawn([b, form]
        {
            bool last;
            {
                unique_lock< M > l(b->m);
                auto p = [b] { return b->done > 0; };
                if (form == 0) b->cv.wait(l, p);
                else if (form == 1) while (!b->cv.wait_for(l, FOREVER, p)) {}
                else if (form == 2) while (!p()) b->cv.wait_for(l, std::chrono::microseconds(30));
                else while (!b->cv.wait_until(l, std::chrono::steady_clock::now() + std::chrono::microseconds(100), p)) {}
                --b->done; last = --b->waiting == 0;
            }
            if (last) { delete b; hx::count("destroyed_by_waiter"); }
        });
        vrt::Quiet q; ids.push_back(id);
    }
    int n = vrt::spawn([b, k, one] { if (one) for (int i = 0; i < k; ++i) { unique_lock< M > l(b->m); b->done++; b->cv.notify_one(); } else { unique_lock< M > l(b->m); b->done += k; b->cv.notify_all(); } });
    for (int id : ids) vrt::join(id);
    vrt::join(n);
}
void one_case(hx::Rng& r, std::string const&, uint64_t)
{
    vrt::Options o = hx::options(r);
    o.races = true;
    o.switch_on_plain = r.p(0.4);
    o.p_stale = r.pick({ 0.0, 0.0, 0.1 });
#ifdef VCFG_WIN
    // unlock() of the Windows mutexes touches the mutex after releasing it (DESIGN.md): no destruction by the next owner
    static const int kinds[] = { 0, 1, 2, 3, 4, 5, 8, 9, 10 };
    int kind = kinds[r.n(9)], k = (int)r.in(1, 4), form = (int)r.n(6);
#else
    int kind = (int)r.n(14), k = (int)r.in(1, 4), form = (int)r.n(6);
#endif
    static const char* const names[] = { "semaphore", "semaphore", "auto_reset_event", "manual_reset_event", "manual_reset_event (last waiter)", "auto_reset_event ping-pong", "mutex", "timed_mutex", "spin_mutex", "shared_spin_mutex",
        "shared_spin_mutex (readers)", "condition_variable", "condition_variable_any", "condition_variable_any/spin" };
    bool one = r.p(0.5);
    if (form == 4) o.strategy = r.p(0.5) ? 0 : 1; // busy waiting
    std::string what = hx::fmt("%s, %d threads, form %d%s", names[kind], k, form, one ? ", one" : "");
    hx::execute(o, what, [&]
    {
        size_t before = vrt::live_blocks();
        switch (kind)
        {
        case 0: case 1: one_waiter< semaphore >(k, form, [](semaphore& e) { e.post(); }); break;
        case 2: one_waiter< auto_reset_event >(1, form, [](auto_reset_event& e) { e.post(); }); break;
        case 3: one_waiter< manual_reset_event >(1, form, [](manual_reset_event& e) { e.set(); }); break;
        case 4: last_waiter(k, form); break;
        case 5: ping_pong(k, form); break;
        case 6: ref_count< mutex >(k, form); break;
        case 7: ref_count< timed_mutex >(k, form); break;
        case 8: ref_count< spin_mutex >(k, form); break;
        case 9: ref_count< shared_spin_mutex >(k, form); break;
        case 10: shared_ref(k); break;
        case 11: cv_life< condition_variable, mutex >(k, form % 4, one); break;
        case 12: cv_life< condition_variable_any, mutex >(k, form % 4, one); break;
        default: cv_life< condition_variable_any, spin_mutex >(k, form % 4, one); break;
        }
        (void)before;
        hx::nontrivial();
    });
}
