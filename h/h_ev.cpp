// Semaphore, auto_reset_event, manual_reset_event: recorded concurrent histories against sequential models.
// Modes: C03 (semaphore), C04 (auto_reset_event), C05 (manual_reset_event).
#include "harness.hpp"
#include <chrono>
#include <memory>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/support/std_chrono.hpp>

using namespace boost::sync;
using lin::Op;

enum Kind { POST, WAIT, TRY, TIMED, RESET };
static const char* const names[] = { "post", "wait", "try_wait", "timed_wait", "reset" };

struct SemModel : lin::Model
{
    int steps(Op const&) const override { return 1; }
    int step(int s, Op const& o, int) const override
    {
        if (o.kind == POST) return s + 1;
        if (o.result) return s > 0 ? s - 1 : -1;
        return s == 0 ? s : -1;
    }
    bool quiescent_ok(int s, int pending) const override { return pending == 0 || s == 0; }
};
struct MreModel : lin::Model
{
    int steps(Op const&) const override { return 1; }
    int step(int s, Op const& o, int) const override
    {
        if (o.kind == POST) return 1;
        if (o.kind == RESET) return 0;
        return s == (o.result ? 1 : 0) ? s : -1;
    }
    bool quiescent_ok(int s, int pending) const override { return pending == 0 || s == 0; }
};
// state = waiters * 64 + permits. A waiter registers (first step) and is released (second step).
struct AreModel : lin::Model
{
    int steps(Op const& o) const override { return o.kind == POST || o.kind == TRY ? 1 : 2; }
    int step(int s, Op const& o, int phase) const override
    {
        int w = s / 64, p = s % 64;
        if (o.kind == POST) return p <= w ? s + 1 : s;
        if (o.kind == TRY) { if (o.result) return p > 0 ? s - 1 : -1; return p <= w ? s : -1; }
        if (phase == 0) return s + 64;
        if (o.result) return p > 0 ? s - 65 : -1;
        return p <= w - 1 ? s - 64 : -1;   // all permits are spoken for by other waiters
    }
    bool quiescent_ok(int s, int pending) const override { return pending == 0 || s % 64 == 0; }
};

struct SemObj
{
    semaphore x;
    static const char* name() { return "semaphore"; }
    explicit SemObj(long long init) : x((unsigned)init) {}
    void post() { x.post(); }
    void reset() {}
};
struct AreObj
{
    auto_reset_event x;
    static const char* name() { return "auto_reset_event"; }
    explicit AreObj(long long) {}
    void post() { x.post(); }
    void reset() {}
};
struct MreObj
{
    manual_reset_event x;
    static const char* name() { return "manual_reset_event"; }
    explicit MreObj(long long) {}
    void post() { x.set(); }
    void reset() { x.reset(); }
};

template< typename X > bool timed(X& x, int form, int64_t ns)
{
    typedef std::chrono::nanoseconds N;
    switch (form)
    {
    case 0: return x.timed_wait(N(ns));
    case 1: return x.wait_for(N(ns));
    case 2: return x.wait_until(std::chrono::system_clock::now() + N(ns));
    case 3: return x.timed_wait(std::chrono::system_clock::now() + N(ns));
    default: return x.wait_until(std::chrono::steady_clock::now() + N(ns));
    }
}

struct Step { int kind, form; int64_t ns; int pause; };

template< typename Obj > struct World
{
    Obj o;
    lin::History h;
    explicit World(int init) : o(init) {}
    int pending() { int n = 0; for (Op& x : h.ops) if (!x.ret) ++n; return n; }
};

template< typename Obj > void perform(World< Obj >& w, Step const& s)
{
    for (int i = 0; i < s.pause; ++i) vrt::yield();
    int id = w.h.begin(s.kind);
    bool r = true;
    switch (s.kind)
    {
    case POST: w.o.post(); break;
    case WAIT: w.o.x.wait(); break;
    case TRY: r = w.o.x.try_wait(); break;
    case TIMED: r = timed(w.o.x, s.form, s.ns); break;
    default: w.o.reset(); break;
    }
    w.h.end(id, r);
}

static Step rand_step(hx::Rng& r, bool mre, int bias)
{
    Step s; s.form = (int)r.n(5); s.pause = (int)r.n(3);
    s.ns = r.pick< int64_t >({ 0, -5, 1, 50, 300, 1000, 5000, 20000 });
    int k = (int)r.n(12);
    if (bias == 1) s.kind = k < 5 ? WAIT : k < 9 ? TIMED : TRY;              // waiters
    else if (bias == 2) s.kind = k < 10 ? POST : mre ? RESET : TRY;           // posters
    else s.kind = k < 4 ? POST : k < 6 ? WAIT : k < 8 ? TIMED : k < 10 ? TRY : mre ? RESET : POST;
    if (mre && bias == 2 && r.p(0.3)) s.kind = RESET;
    return s;
}

template< typename Obj, typename M > void concurrent_case(hx::Rng& r, bool mre, int init)
{
    vrt::Options o = hx::options(r);
    int nt = (int)r.in(2, 5), style = (int)r.n(3);
    std::vector< std::vector< Step > > prog(nt);
    std::string what = hx::fmt("%s init=%d:", Obj::name(), init);
    int total = 0;
    for (int t = 0; t < nt; ++t)
    {
        int bias = style == 0 ? 0 : t == 0 ? 2 : style == 1 ? 1 : (t & 1 ? 1 : 0);
        int n = (int)r.in(1, bias == 2 ? 5 : 3);
        what += hx::fmt(" T%d(", t + 1);
        for (int i = 0; i < n && total < 14; ++i, ++total) { Step s = rand_step(r, mre, bias); prog[t].push_back(s); what += hx::fmt("%s%s", i ? "," : "", names[s.kind]); if (s.kind == TIMED) what += hx::fmt("/%d/%lld", s.form, (long long)s.ns); }
        what += ")";
    }
    // operations of the main thread at instants when all the others are blocked
    int phases = (int)r.n(4);
    std::vector< std::vector< Step > > mainp(phases);
    for (auto& v : mainp)
    {
        int n = (int)r.in(1, 3);
        for (int i = 0; i < n; ++i) { Step s = rand_step(r, mre, r.p(0.7) ? 2 : 0); if (s.kind == WAIT) s.kind = TRY; v.push_back(s); }
    }
    hx::execute(o, what, [&]
    {
        World< Obj >* w = new World< Obj >(init);
        std::vector< int > ids;
        for (int t = 0; t < nt; ++t) ids.push_back(vrt::spawn([w, t, &prog] { for (Step const& s : prog[t]) perform(*w, s); }));
        for (auto& v : mainp)
        {
            vrt::idle(true);
            w->h.quiescent();
            { vrt::Quiet q; int p = w->pending(); if (p) { hx::count("quiescent_with_blocked"); hx::count("blocked_waiters_seen", p); } }
            for (Step const& s : v) perform(*w, s);
        }
        // Release everything that is still blocked, one post at a time
        for (int guard = 0; ; ++guard)
        {
            vrt::idle(false);
            w->h.quiescent();
            int p; { vrt::Quiet q; p = w->pending(); }
            if (p == 0) break;
            if (guard > 40) { vrt::Quiet q; vrt::fail("stuck", "%s: %d thread(s) stay blocked although the object was signalled %d times: %s", Obj::name(), p, guard, lin::show(w->h, names).c_str()); }
            perform(*w, Step{ POST, 0, 0, 0 });
        }
        for (int t : ids) vrt::join(t);
        // what is left
        for (int i = 0; i < 4; ++i) perform(*w, Step{ i == 2 ? TIMED : TRY, (int)(i % 5), 0, 0 });
        {
            vrt::Quiet q;
            hx::count("operations", w->h.ops.size());
            for (Op& x : w->h.ops) if (x.kind == TIMED && !x.result) hx::count("timeouts_observed");
            bool conc = false;
            for (size_t i = 0; i < w->h.ops.size(); ++i) for (size_t j = 0; j < i; ++j) if (w->h.ops[j].ret > w->h.ops[i].inv) conc = true;
            if (conc) hx::nontrivial();
            M m;
            if (!lin::check(w->h, m, init)) vrt::fail("linearizability", "%s history (initial state %d) has no explanation: %s", Obj::name(), init, lin::show(w->h, names).c_str());
            hx::count("histories_explained");
        }
        delete w;
    });
}

// Many threads blocked at once, released by as many posts (or one set)
template< typename Obj > void crowd_case(hx::Rng& r, bool mre, int n)
{
    vrt::Options o = hx::options(r);
    o.strategy = 1; o.p_switch = 0.0005; o.p_spurious = 0; o.p_jump = 0; o.p_eintr = 0; o.storm_spurious = o.storm_eintr = 0;
    o.stack_size = 64 * 1024; o.max_steps = 20000000;
    hx::execute(o, hx::fmt("%s: %d blocked threads released", Obj::name(), n), [&]
    {
        Obj* x = new Obj(0);
        int* released = new int(0);
        std::vector< int > ids;
        for (int i = 0; i < n; ++i) ids.push_back(vrt::spawn([x, released] { x->x.wait(); vrt::Quiet q; ++*released; }));
        vrt::idle(false);
        { vrt::Quiet q; if (*released) vrt::fail("linearizability", "%s: %d waits succeeded without a signal", Obj::name(), *released); }
        int posts = mre ? 1 : n;
        for (int i = 0; i < posts; ++i) x->post();
        vrt::idle(false);
        { vrt::Quiet q; if (*released != n) vrt::fail("stuck", "%s: %d threads were blocked, %d signals released only %d of them", Obj::name(), n, posts, *released); }
        if (!mre && x->x.try_wait()) vrt::fail("linearizability", "%s: a signal is left after %d posts released %d waiters", Obj::name(), n, n);
        for (int t : ids) vrt::join(t);
        hx::count("crowd_released", n); hx::nontrivial();
        { vrt::Quiet q; delete released; }
        delete x;
    });
}

// A crowd on random schedules, in rounds: at an instant when everybody is blocked some signals are made by several threads; exactly the right number of waiters comes out
template< typename Obj > void batch_case(hx::Rng& r, bool mre, bool are)
{
    vrt::Options o = hx::options(r);
    o.p_jump = 0; o.spin_time = false; // no timeout unless nothing else can happen
    if (r.p(0.7)) o.storm_spurious = o.storm_eintr = o.storm_weak = 0;
    o.max_steps = 5000000; o.stack_size = 64 * 1024;
    int n = (int)r.pick({ 3, 6, 9, 17, 20, 33, 40 }), rounds = (int)r.in(1, 4);
    if (n > 9) o.p_spurious = o.p_eintr = 0; // so many threads would never all be blocked
    struct Round { std::vector< int > posts; int fresh; };
    std::vector< Round > rs;
    std::string what = hx::fmt("%s: %d waiters, signals", Obj::name(), n);
    for (int i = 0; i < rounds; ++i)
    {
        Round x; int np = (int)r.in(1, 3);
        what += i ? " | " : " ";
        for (int k = 0; k < np; ++k) { x.posts.push_back((int)r.in(0, mre ? 2 : n / 2 + 1)); what += hx::fmt("%s%d", k ? "+" : "", x.posts.back()); }
        x.fresh = (int)r.n(4) ? 0 : (int)r.n(5);
        rs.push_back(x);
    }
    std::vector< int > forms; for (int i = 0; i < n + 20; ++i) forms.push_back((int)r.n(10));
    hx::execute(o, what, [&]
    {
        Obj* x = new Obj(0);
        int released = 0, failed = 0, blocked = 0, left = 0;
        std::vector< int > ids;
        auto start = [&](int form)
        {
            ids.push_back(vrt::spawn([x, form, &released, &failed]
            {
                bool ok = true;
                if (form < 5) x->x.wait(); else ok = timed(x->x, form - 5, 3600ll * 1000000000 * 1000);
                vrt::Quiet q; ++(ok ? released : failed);
            }));
        };
        for (int i = 0; i < n; ++i) start(forms[i]);
        blocked = n;
        size_t nf = n;
        for (Round const& rd : rs)
        {
            vrt::idle(true);
            int total = 0;
            { vrt::Quiet q; released = 0; for (int p : rd.posts) total += p; }
            std::vector< int > pids;
            for (int p : rd.posts) pids.push_back(vrt::spawn([x, p] { for (int i = 0; i < p; ++i) x->post(); }));
            for (int t : pids) vrt::join(t);
            vrt::idle(true);
            {
                vrt::Quiet q;
                int avail = left + total, want = mre ? (total || left ? blocked : 0) : avail < blocked ? avail : blocked;
                if (failed) vrt::fail("stuck", "%s: a wait with a deadline far away timed out when nothing else could run", Obj::name());
                if (released != want) vrt::fail(released < want ? "stuck" : "linearizability", "%s: %d threads were blocked, %d signals released %d of them instead of %d", Obj::name(), blocked, total, released, want);
                hx::count("batch_released", released); hx::count("batch_rounds");
                bool was = left > 0;
                blocked -= want; left = avail - want;
                if (are && left > 1) left = 1;
                if (mre) left = was || total ? 1 : 0;
            }
            if (blocked == 0)
            {
                bool more = x->x.try_wait();
                if (more != (left > 0)) vrt::fail("linearizability", "%s: try_wait after %d signals %s", Obj::name(), total, more ? "succeeded without a signal" : "didn't find the signal that is left");
                if (more && !mre) { vrt::Quiet q; --left; }
            }
            if (mre && left && (total & 1)) { x->reset(); vrt::Quiet q; left = 0; }
            if (left == 0) for (int k = 0; k < rd.fresh && nf < forms.size(); ++k) { start(forms[nf++]); vrt::Quiet q; ++blocked; }
        }
        while (blocked > 0) { vrt::idle(true); x->post(); vrt::Quiet q; if (mre) blocked = 0; else --blocked; }
        for (int t : ids) vrt::join(t);
        hx::nontrivial();
        delete x;
    });
}
// A long life: exact results of many operations, one at a time, from various initial counts
template< typename Obj > void long_case(hx::Rng& r, bool mre, bool are)
{
    vrt::Options o = hx::options(r);
    o.p_jump = 0; o.strategy = 1; o.max_steps = 50000000;
    o.storm_spurious = o.storm_eintr = o.storm_weak = 0;
    bool sem = !mre && !are;
    long long init = sem ? r.pick< long long >({ 0, 1, 100, 255, 256, 257, 32767, 32768, 65535, 65536, 1000000, 0x7ffffff0, 0x7fffffff }) : 0;
    if (sem && r.p(0.5)) { init = (1ll << r.n(31)) + (int)r.n(5) - 2; if (init < 0) init = 0; } // around every power of two
#if defined(VCFG_NO_SEM)
    if (sem && r.p(0.15)) init = r.pick< long long >({ 0x80000000ll, 0x80000001ll, 0xfffffff0ll, 0xffffffffll });
    const long long top = 0xffffffffll;
#else
    const long long top = 0x7fffffffll;
#endif
#if defined(VCFG_DISPATCH)
    if (init > 70000) init %= 70001; // the constructor posts one by one
#endif
    int len = r.p(0.1) ? 70000 : (int)r.in(200, 2000), drain = 0;
    if (sem && init && init <= 70000 && r.p(0.5)) drain = (int)init;
    hx::execute(o, hx::fmt("%s from %lld: %d operations one at a time", Obj::name(), init, len), [&]
    {
        Obj* x = new Obj(init);
        long long s = init;
        bool timers = !r.p(0.3);
        auto down = [&](int k)
        {
            bool res = k == 0 ? x->x.try_wait() : k == 1 ? (s > 0 ? (x->x.wait(), true) : x->x.try_wait()) : timed(x->x, k % 5, k & 8 ? 200 : 0);
            if (res != (s > 0)) vrt::fail("linearizability", "%s: %s %s with count %lld and no concurrent activity", Obj::name(), k == 0 ? "try_wait" : k == 1 ? "wait" : "a timed wait", res ? "succeeded" : "failed", s);
            if (res && !mre) --s;
        };
        for (int i = 0; i < drain; ++i) down(i & 1);
        int mood = 0;
        for (int i = 0; i < len; ++i)
        {
            if (i % 97 == 0) mood = (int)r.n(4);
            int k = (int)r.n(10);
            if (k < (mood == 0 ? 9 : mood == 1 ? 1 : 5) && (!sem || s < top)) { x->post(); s = mre || are ? 1 : s + 1; }
            else if (mre && k == 9) { x->reset(); s = 0; }
            else down(timers ? (int)r.n(14) : (int)r.n(2));
        }
        hx::count("long_operations", len); hx::nontrivial();
        for (int i = 0; i < 3; ++i) down(0);
        delete x;
    });
}

void one_case(hx::Rng& r, std::string const& mode, uint64_t index)
{
    if (index % 4000 == 3999)
    {
        int n = (int)r.pick({ 40, 150, 1100 });
        if (mode == "C03") crowd_case< SemObj >(r, false, n); else if (mode == "C04") crowd_case< AreObj >(r, false, n); else crowd_case< MreObj >(r, true, n);
        return;
    }
    if (index % 25 == 7)
    {
        if (mode == "C03") batch_case< SemObj >(r, false, false); else if (mode == "C04") batch_case< AreObj >(r, false, true); else batch_case< MreObj >(r, true, false);
        return;
    }
    if (index % 200 == 33)
    {
        if (mode == "C03") long_case< SemObj >(r, false, false); else if (mode == "C04") long_case< AreObj >(r, false, true); else long_case< MreObj >(r, true, false);
        return;
    }
    if (mode == "C03") concurrent_case< SemObj, SemModel >(r, false, (int)r.pick({ 0, 0, 0, 1, 1, 2, 3 }));
    else if (mode == "C04") concurrent_case< AreObj, AreModel >(r, false, 0);
    else concurrent_case< MreObj, MreModel >(r, true, 0);
}
