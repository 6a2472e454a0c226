// Real threads under AddressSanitizer+LeakSanitizer+UndefinedBehaviorSanitizer or ThreadSanitizer (C18), with signals that interrupt system calls.
// usage: n_stress MODE SEED FROM TO HASHFILE: rounds FROM..TO-1
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <boost/chrono/chrono.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/mutexes/spin_mutex.hpp>
#include <boost/sync/mutexes/shared_spin_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/locks/lock_options.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>

using namespace boost::sync;
typedef std::chrono::microseconds us;

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t x) : s(x) { u(); }
    uint64_t u() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t n(uint64_t k) { return u() % k; }
    bool p(int percent) { return (int)n(100) < percent; }
};
static std::map< std::string, uint64_t > counts;
static std::mutex counts_m;
static void count(const char* k, uint64_t n = 1) { std::lock_guard< std::mutex > l(counts_m); counts[k] += n; }
static std::atomic< long > progress;
static std::string current;
static void fail(const char* kind, std::string const& msg) { printf("VIOL\t%s\t%s\nCASE\t%s\n", kind, msg.c_str(), current.c_str()); fflush(stdout); _exit(10); }
static void require(bool ok, const char* what) { if (!ok) fail("wrong-result", what); }

// Interruptions
static void on_signal(int) {}
struct Team
{
    std::vector< std::thread > t;
    std::atomic< int > left{ 0 };
    std::atomic< bool > go{ false };
    bool signals; Rng& r;
    std::vector< pthread_t > ids; std::mutex m; std::condition_variable cv; int parked = 0; bool released = false;
    Team(bool s, Rng& rr) : signals(s), r(rr) {}
    void add(std::function< void() > f)
    {
        ++left;
        t.emplace_back([this, f]
        {
            { std::unique_lock< std::mutex > l(m); ids.push_back(pthread_self()); }
            while (!go) std::this_thread::yield();
            f();
            --left;
            // stay alive until the signals have stopped
            if (signals) { std::unique_lock< std::mutex > l(m); while (!released) cv.wait(l); }
        });
    }
    void run()
    {
        go = true;
        if (signals)
        {
            while (left > 0)
            {
                std::this_thread::sleep_for(us(50));
                std::lock_guard< std::mutex > l(m);
                if (!ids.empty()) { pthread_kill(ids[r.n(ids.size())], SIGUSR1); }
            }
            { std::lock_guard< std::mutex > l(m); released = true; }
            cv.notify_all();
        }
        for (auto& x : t) x.join();
        ++progress;
    }
};

template< typename M > void lock_some(M& m, Rng& r, int& data) { if (r.p(50)) { lock_guard< M > g(m); ++data; } else { unique_lock< M > g(m); ++data; } }
template< typename M > void counter(bool sig, Rng& r, int threads, int n)
{
    M m; int data = 0; Team t(sig, r);
    for (int i = 0; i < threads; ++i)
    {
        uint64_t s = r.u();
        t.add([&, s, n] { Rng q(s); for (int k = 0; k < n; ++k) { if (q.p(30)) { while (!m.try_lock()) std::this_thread::yield(); ++data; m.unlock(); } else lock_some(m, q, data); } });
    }
    t.run();
    require(data == threads * n, "a counter protected by a mutex is wrong");
    count("lock_acquisitions", data);
}
static void timed_counter(bool sig, Rng& r, int threads, int n)
{
    typedef timed_mutex M; M m; int data = 0; std::atomic< int > got{ 0 }; Team t(sig, r);
    for (int i = 0; i < threads; ++i)
    {
        uint64_t s = r.u();
        t.add([&, s, n]
        {
            Rng q(s);
            for (int k = 0; k < n; ++k)
            {
                bool ok;
                switch (q.n(6))
                {
                case 0: ok = m.try_lock_for(us(q.n(200))); break;
                case 1: ok = m.try_lock_until(std::chrono::steady_clock::now() + us(q.n(200))); break;
                case 2: ok = m.try_lock_until(std::chrono::system_clock::now() + us(q.n(200))); break;
                case 3: ok = m.timed_lock(boost::posix_time::microseconds((long)q.n(200))); break;
                case 4: ok = m.try_lock_for(boost::chrono::microseconds(q.n(200))); break;
                default: m.lock(); ok = true;
                }
                if (ok) { ++data; ++got; if (q.p(10)) std::this_thread::sleep_for(us(q.n(100))); m.unlock(); }
            }
        });
    }
    t.run();
    require(data == got, "a counter protected by a timed_mutex is wrong");
    count("timed_acquisitions", data);
}
static void readers_writers(bool sig, Rng& r, int threads, int n)
{
    shared_spin_mutex m; int a = 0, b = 0; std::atomic< int > bad{ 0 }, w{ 0 }; Team t(sig, r);
    for (int i = 0; i < threads; ++i)
    {
        uint64_t s = r.u();
        t.add([&, s, n]
        {
            Rng q(s);
            for (int k = 0; k < n; ++k)
                if (q.p(25)) { unique_lock< shared_spin_mutex > l(m); ++a; ++b; ++w; }
                else if (q.p(50)) { shared_lock< shared_spin_mutex > l(m); if (a != b) ++bad; }
                else if (q.p(50)) { shared_lock_guard< shared_spin_mutex > l(m); if (a != b) ++bad; }
                else { shared_lock< shared_spin_mutex > l(m, try_to_lock); if (l.owns_lock() && a != b) ++bad; }
        });
    }
    t.run();
    require(!bad && a == w, "readers saw a writer at work");
    count("writes", a);
}
template< typename E > bool wait_any(E& e, Rng& q)
{
    switch (q.n(7))
    {
    case 0: return e.try_wait();
    case 1: return e.wait_for(us(q.n(300)));
    case 2: return e.wait_until(std::chrono::steady_clock::now() + us(q.n(300)));
    case 3: return e.wait_until(std::chrono::system_clock::now() + us(q.n(300)));
    case 4: return e.timed_wait(boost::posix_time::microseconds((long)q.n(300)));
    case 5: return e.wait_until(boost::chrono::steady_clock::now() + boost::chrono::microseconds(q.n(300)));
    default: e.wait(); return true;
    }
}
static void tokens(bool sig, Rng& r, int threads, int n)
{
    // every waiter takes n tokens, the posters post as many in total; the last waiter destroys the semaphore
    std::unique_ptr< semaphore > s(new semaphore(0)); semaphore* sp = s.get(); s.release();
    std::atomic< int >* refs = new std::atomic< int >(threads); std::vector< int >* data = new std::vector< int >(threads, 0);
    Team t(sig, r);
    for (int i = 0; i < threads; ++i)
    {
        uint64_t sd = r.u(), sd2 = r.u();
        t.add([=] { Rng q(sd); for (int k = 0; k < n; ++k) while (!wait_any(*sp, q)) {} if (refs->fetch_sub(1) == 1) { delete sp; delete data; delete refs; } });
        t.add([=] { Rng q(sd2); (*data)[i] = 1; for (int k = 0; k < n; ++k) { if (q.p(10)) std::this_thread::yield(); sp->post(); } });
    }
    t.run();
    count("tokens", (uint64_t)threads * n);
}
static void ping_pong(bool sig, Rng& r, int n)
{
    struct B { auto_reset_event a, b; int data; }; B* b = new B; b->data = 0;
    Team t(sig, r); uint64_t s1 = r.u(), s2 = r.u();
    t.add([=] { Rng q(s1); for (int i = 0; i < n; ++i) { while (!wait_any(b->a, q)) {} ++b->data; b->b.post(); } });
    t.add([=] { Rng q(s2); for (int i = 0; i < n; ++i) { b->a.post(); while (!wait_any(b->b, q)) {} ++b->data; } require(b->data == 2 * n, "ping-pong"); delete b; });
    t.run();
    count("auto_reset_signals", 2 * (uint64_t)n);
}
static void gate(bool sig, Rng& r, int threads)
{
    struct B { manual_reset_event e; std::atomic< int > refs; int data; }; B* b = new B; b->refs = threads; b->data = 0;
    Team t(sig, r); unsigned delay = (unsigned)r.n(200);
    for (int i = 0; i < threads; ++i) { uint64_t s = r.u(); t.add([=] { Rng q(s); while (!wait_any(b->e, q)) {} require(b->data == 3, "manual_reset_event"); if (b->refs.fetch_sub(1) == 1) delete b; }); }
    t.add([=] { if (delay > 50) std::this_thread::sleep_for(us(delay)); b->data = 3; b->e.set(); });
    t.run();
    count("gates", threads);
}
template< typename CV, typename M > void queue_(bool sig, Rng& r, int threads, int n)
{
    struct B { M m; CV cv; std::deque< int > q; int consumers; long sum; }; B* b = new B; b->consumers = threads; b->sum = 0;
    Team t(sig, r);
    for (int i = 0; i < threads; ++i)
    {
        uint64_t s = r.u(), s2 = r.u();
        t.add([=]
        {
            Rng q(s); bool last = false;
            for (int k = 0; k < n; ++k)
            {
                unique_lock< M > l(b->m);
                auto ready = [b] { return !b->q.empty(); };
                switch (q.n(5))
                {
                case 0: b->cv.wait(l, ready); break;
                case 1: while (!b->cv.wait_for(l, us(q.n(300)), ready)) {} break;
                case 2: while (b->q.empty()) b->cv.wait_until(l, std::chrono::steady_clock::now() + us(q.n(300))); break;
                case 3: while (b->q.empty()) b->cv.timed_wait(l, boost::posix_time::microseconds((long)q.n(300))); break;
                default: while (b->q.empty()) b->cv.wait(l); break;
                }
                b->sum += b->q.front(); b->q.pop_front();
                if (k == n - 1) last = --b->consumers == 0;
            }
            if (last) delete b;
        });
        t.add([=] { Rng q(s2); for (int k = 0; k < n; ++k) { unique_lock< M > l(b->m); b->q.push_back(1); if (q.p(50)) b->cv.notify_one(); else b->cv.notify_all(); } });
    }
    t.run();
    count("queue_items", (uint64_t)threads * n);
}
struct Obj { static std::atomic< int > live; int v; explicit Obj(int x) : v(x) { ++live; } ~Obj() { --live; } };
std::atomic< int > Obj::live{ 0 };
static std::atomic< int > exit_runs, cleaned;
static void my_clean(Obj* o) { ++cleaned; delete o; }
static void storage(Rng& r, int threads, int n)
{
    static thread_specific_ptr< Obj > global;
    thread_specific_ptr< Obj > local(&my_clean);
    thread_specific_ptr< Obj >* lp = &local;
    exit_runs = 0; std::atomic< int > reg{ 0 };
    Team t(false, r); // a parked thread would keep the mutex
    mutex m; condition_variable cv; int done = 0;
    for (int i = 0; i < threads; ++i)
    {
        uint64_t s = r.u();
        t.add([&, lp, s, n, i]
        {
            Rng q(s);
            for (int k = 0; k < n; ++k)
            {
                switch (q.n(6))
                {
                case 0: global.reset(new Obj(i)); break;
                case 1: local.reset(new Obj(i)); break;
                case 2: { thread_specific_ptr< Obj > own; if (own.get()) fail("wrong-value", "a new thread_specific_ptr isn't empty"); own.reset(new Obj(i)); require(own->v == i, "wrong value"); break; }
                case 3: ++reg; at_thread_exit([lp, i] { ++exit_runs; if (lp->get()) require((*lp)->v == i, "wrong value at exit"); }); break;
                case 4: delete local.release(); break;
                default: if (Obj* o = global.get()) require(o->v == i, "wrong value"); if (Obj* o = local.get()) require(o->v == i, "wrong value"); break;
                }
            }
            global.reset(); 
            unique_lock< mutex > l(m); ++done;
            notify_all_at_thread_exit(cv, boost::move(l));
        });
    }
    t.add([&] { unique_lock< mutex > l(m); while (done < threads) cv.wait(l); });
    t.run();
    require(exit_runs == reg, "at_thread_exit functions didn't run once");
    require(Obj::live == 0, "values are left");
    count("thread_values", (uint64_t)threads * n); count("exit_functions", exit_runs);
}
int main(int argc, char** argv)
{
    if (argc < 6) return 2;
    bool sig = !strcmp(argv[1], "signals");
    uint64_t seed = strtoull(argv[2], 0, 0); long from = atol(argv[3]), to = atol(argv[4]);
    struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = &on_signal; sigaction(SIGUSR1, &sa, 0);
    std::thread([]
    {
        long last = -1; int same = 0;
        for (;;) { std::this_thread::sleep_for(std::chrono::seconds(1)); long p = progress; if (p == last) { if (++same > 150) fail("hang", "no progress for 150 s"); } else same = 0, last = p; }
    }).detach();
    std::string pos = std::string(argv[5]) + ".pos";
    std::vector< uint64_t > hashes;
    uint64_t done = 0;
    for (long i = from; i < to; ++i)
    {
        if (strcmp(argv[5], "-")) if (FILE* f = fopen(pos.c_str(), "w")) { fprintf(f, "%ld\n", i); fclose(f); }
        Rng r(seed * 1000003 + (uint64_t)i);
        int kind = (int)r.n(12), th = (int)(1 + r.n(5)), n = (int)(1 + r.n(sig ? 60 : 200));
        current = "kind " + std::to_string(kind) + " threads " + std::to_string(th) + " n " + std::to_string(n);
        switch (kind)
        {
        case 0: counter< mutex >(sig, r, th, n); break;
        case 1: counter< spin_mutex >(sig, r, th, n); break;
        case 2: timed_counter(sig, r, th, n / 4 + 1); break;
        case 3: readers_writers(sig, r, th, n); break;
        case 4: tokens(sig, r, th, n / 4 + 1); break;
        case 5: ping_pong(sig, r, n / 4 + 1); break;
        case 6: gate(sig, r, th); break;
        case 7: queue_< condition_variable, mutex >(sig, r, th, n / 4 + 1); break;
        case 8: queue_< condition_variable_any, mutex >(sig, r, th, n / 4 + 1); break;
        case 9: queue_< condition_variable_any, shared_spin_mutex >(sig, r, th, n / 4 + 1); break;
        default: storage(r, th, n / 4 + 1); break;
        }
        count(("kind_" + std::to_string(kind)).c_str());
        hashes.push_back(r.u()); ++done;
    }
    printf("STAT\t{\"runs\":%llu,\"counts\":{", (unsigned long long)done);
    bool first = true;
    for (auto& c : counts) { printf("%s\"native_%s\":%llu", first ? "" : ",", c.first.c_str(), (unsigned long long)c.second); first = false; }
    printf("}}\nSAMPLE\tnative %s: %s\n", argv[1], current.c_str());
    if (strcmp(argv[5], "-")) if (FILE* f = fopen(argv[5], "wb")) { fwrite(hashes.data(), 8, hashes.size(), f); fclose(f); }
    fflush(stdout);
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
    return 0; // let LeakSanitizer run
#endif
#endif
    _exit(0);
}
