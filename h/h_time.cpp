// Timed operations (C07) and time units (C08): every timed form of every primitive, called with every supported time type, judged on the
// virtual clock with exact arithmetic.
#include "harness.hpp"
#include <chrono>
#include <ratio>
#include <boost/chrono/chrono.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>

using namespace boost::sync;
typedef __int128 i128;
static const i128 G = 1000000000;
static const i128 YEAR = (i128)31556952 * G;

// A clock at half the speed of the steady clock, with an epoch of its own
struct slow_clock
{
    typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period;
    typedef std::chrono::time_point< slow_clock, duration > time_point;
    static constexpr bool is_steady = true;
    static time_point now() noexcept { return time_point(duration(std::chrono::steady_clock::now().time_since_epoch().count() / 2 + 12345)); }
};
enum Clk { REL, REAL, MONO, SLOW };
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; return (a % b != 0 && (a % b < 0) != (b < 0)) ? q - 1 : q; }
static i128 now_of(int clk) { return clk == REAL ? vrt::real_ns() : clk == SLOW ? vrt::mono_ns() / 2 + 12345 : vrt::mono_ns(); }
static std::string s128(i128 v) { bool neg = v < 0; if (neg) v = -v; std::string s; do { s.insert(s.begin(), char('0' + (int)(v % 10))); v /= 10; } while (v); return (neg ? "-" : "") + s; }

// What a timeout value means: ns (floor) on a clock (REL: relative)
// ns_lo: what the library may make of a value beyond its range of +-292 years
// slack: rounding of floating-point values
struct Meaning { int clk = REL; i128 ns = 0, slack = 0; std::string text; i128 ns_lo() const { const i128 lim = (i128)9223372035 * G; return clk >= MONO ? ns : ns > lim ? lim : ns; } };

// Calls f(value) with a value of the chosen type close to (not above, at the type's resolution) off ns from now
template< typename Rep, typename Ratio > i128 ticks(i128 ns)
{
    i128 n = fdiv(ns * Ratio::den, (i128)Ratio::num * G);
    if (!std::is_floating_point< Rep >::value)
    {
        i128 lo = (i128)std::numeric_limits< Rep >::min(), hi = (i128)std::numeric_limits< Rep >::max();
        if (n < lo) n = lo;
        if (n > hi) n = hi;
    }
    return n;
}
template< typename Rep, typename Ratio > i128 ticks_ns(i128 n) { return fdiv(n * Ratio::num * G, Ratio::den); }
template< typename D > struct ratio_of { typedef typename D::period type; };

template< typename D, typename F > void dur(Meaning& m, const char* name, i128 off, F f)
{
    typedef typename D::rep rep; typedef typename D::period per;
    vrt::Quiet* q = new vrt::Quiet();
    i128 n;
    D d;
    if constexpr (std::is_floating_point< rep >::value)
    {
        d = D((rep)((long double)off * per::den / ((long double)per::num * 1e9L)));
        long double e = floorl((long double)d.count() * per::num * 1e9L / per::den);
        m.ns = (i128)e; m.slack = (i128)(fabsl(e) * 8 * std::max(std::numeric_limits< rep >::epsilon(), (rep)std::numeric_limits< double >::epsilon())); m.text = hx::fmt("%s(%.10Lg)", name, (long double)d.count());
    }
    else
    {
        n = ticks< rep, per >(off); d = D((rep)n); m.ns = ticks_ns< rep, per >(n); m.text = std::string(name) + "(" + s128(n) + ")";
    }
    m.clk = REL;
    delete q;
    f(d);
}
template< typename TP, typename F > void point(Meaning& m, int clk, const char* name, i128 off, F f)
{
    typedef typename TP::duration D; typedef typename D::rep rep; typedef typename D::period per;
    vrt::Quiet* q = new vrt::Quiet();
    if (clk >= MONO && off > 60 * YEAR) off = 60 * YEAR;
    if (clk >= MONO && off < -60 * YEAR && off > -1000 * YEAR) off = -60 * YEAR; // beyond that: the smallest value there is
    if (std::is_floating_point< rep >::value)
    {
        D d((rep)((long double)(now_of(clk) + off) * per::den / ((long double)per::num * 1e9L)));
        long double e = floorl((long double)d.count() * per::num * 1e9L / per::den);
        m.ns = (i128)e; m.clk = clk; m.text = hx::fmt("%s(%.20Lg)", name, (long double)d.count());
        m.slack = (i128)((fabsl(e) + (long double)now_of(clk)) * 8 * std::max(std::numeric_limits< rep >::epsilon(), (rep)std::numeric_limits< double >::epsilon()));
        TP t(d);
        delete q;
        f(t);
        return;
    }
    i128 n = ticks< rep, per >(now_of(clk) + off);
    TP t = TP(D((rep)n));
    m.ns = ticks_ns< rep, per >(n); m.clk = clk; m.text = std::string(name) + "(" + s128(n) + ")";
    delete q;
    f(t);
}
namespace pt = boost::posix_time;
template< typename F > void pt_dur(Meaning& m, i128 off, int form, F f)
{
    vrt::Quiet* q = new vrt::Quiet();
    const i128 tps = pt::time_duration::ticks_per_second();
    if (tps == G && off > 200 * YEAR) off = 200 * YEAR;
    if (tps == G && off < -200 * YEAR) off = -200 * YEAR;
    i128 n = fdiv(off * tps, G);
    pt::time_duration d;
    switch (form)
    {
    case 0: d = pt::microseconds((int64_t)fdiv(off, 1000)); n = fdiv(off, 1000) * (tps / 1000000); break;
    case 1: d = pt::milliseconds((int64_t)fdiv(off, 1000000)); n = fdiv(off, 1000000) * (tps / 1000); break;
    case 2: d = pt::seconds((long)fdiv(off, G)); n = fdiv(off, G) * tps; break;
    case 3: d = pt::minutes((long)fdiv(off, 60 * G)); n = fdiv(off, 60 * G) * 60 * tps; break;
    default:
        {
            i128 a = n < 0 ? -n : n;
            d = pt::time_duration((long)(a / tps / 3600), (long)(a / tps / 60 % 60), (long)(a / tps % 60), (int64_t)(a % tps));
            if (n < 0) d = d.invert_sign();
            break;
        }
    }
    m.clk = REL; m.ns = fdiv(n * G, tps); m.text = hx::fmt("posix_time duration form %d(", form) + s128(n) + " ticks)";
    delete q;
    f(d);
}
template< typename F > void pt_point(Meaning& m, i128 off, F f)
{
    vrt::Quiet* q = new vrt::Quiet();
    const i128 tps = pt::time_duration::ticks_per_second();
    if (off > 5000 * YEAR) off = 5000 * YEAR;
    if (off < -100 * YEAR) off = -100 * YEAR;
    if (tps == G && off > 50 * YEAR) off = 50 * YEAR;
    i128 n = fdiv((vrt::real_ns() + off) * tps, G);
    i128 days = fdiv(n, 86400 * tps), rem = n - days * 86400 * tps;
    pt::ptime t(boost::gregorian::date(1970, 1, 1) + boost::gregorian::days((long)days), pt::time_duration((long)(rem / tps / 3600), (long)(rem / tps / 60 % 60), (long)(rem / tps % 60), (int64_t)(rem % tps)));
    m.clk = REAL; m.ns = fdiv(n * G, tps); m.text = "ptime(" + s128(n) + " ticks)";
    delete q;
    f(t);
}
template< typename F > void ts_point(Meaning& m, i128 off, F f)
{
    i128 v = vrt::real_ns() + off, s = fdiv(v, G);
    struct timespec t; t.tv_sec = (time_t)s; t.tv_nsec = (long)(v - s * G);
    { vrt::Quiet q; m.clk = REAL; m.ns = v; m.text = hx::fmt("timespec{%lld,%ld}", (long long)t.tv_sec, t.tv_nsec); }
    f(t);
}
enum { NDUR = 34, NPOINT = 22 };
template< typename F > void with_duration(int type, i128 off, Meaning& m, F f)
{
    namespace sc = std::chrono; namespace bc = boost::chrono;
    switch (type)
    {
    case 0: dur< sc::nanoseconds >(m, "std ns", off, f); break;
    case 1: dur< sc::microseconds >(m, "std us", off, f); break;
    case 2: dur< sc::milliseconds >(m, "std ms", off, f); break;
    case 3: dur< sc::seconds >(m, "std s", off, f); break;
    case 4: dur< sc::minutes >(m, "std min", off, f); break;
    case 5: dur< sc::hours >(m, "std h", off, f); break;
    case 6: dur< sc::duration< int, std::ratio< 1, 3 > > >(m, "std int 1/3s", off, f); break;
    case 7: dur< sc::duration< double > >(m, "std double s", off, f); break;
    case 8: dur< sc::duration< double, std::milli > >(m, "std double ms", off, f); break;
    case 9: dur< sc::duration< int64_t, std::pico > >(m, "std ps", off, f); break;
    case 10: dur< sc::duration< short, std::milli > >(m, "std short ms", off, f); break;
    case 11: dur< sc::duration< int, std::ratio< 7, 60 > > >(m, "std int 7/60s", off, f); break;
    case 12: dur< sc::duration< signed char > >(m, "std char s", off, f); break;
    case 13: dur< bc::nanoseconds >(m, "boost ns", off, f); break;
    case 14: dur< bc::microseconds >(m, "boost us", off, f); break;
    case 15: dur< bc::milliseconds >(m, "boost ms", off, f); break;
    case 16: dur< bc::seconds >(m, "boost s", off, f); break;
    case 17: dur< bc::minutes >(m, "boost min", off, f); break;
    case 18: dur< bc::duration< int, boost::ratio< 1, 3 > > >(m, "boost int 1/3s", off, f); break;
    case 19: dur< bc::duration< double > >(m, "boost double s", off, f); break;
    case 20: dur< bc::duration< int64_t, boost::pico > >(m, "boost ps", off, f); break;
    case 21: pt_dur(m, off, 0, f); break;
    case 22: pt_dur(m, off, 1, f); break;
    case 23: pt_dur(m, off, 2, f); break;
    case 24: pt_dur(m, off, 3, f); break;
    case 25: pt_dur(m, off, 4, f); break;
    case 26: dur< sc::duration< float > >(m, "std float s", off, f); break;
    case 27: dur< sc::duration< double, std::ratio< 3600 > > >(m, "std double h", off, f); break;
    case 28: dur< sc::duration< long double, std::micro > >(m, "std long double us", off, f); break;
    case 29: dur< sc::duration< uint64_t, std::milli > >(m, "std unsigned ms", off, f); break;
    case 30: dur< sc::duration< unsigned short > >(m, "std unsigned short s", off, f); break;
    case 31: dur< sc::duration< int64_t, std::ratio< 86400 * 7 > > >(m, "std weeks", off, f); break;
    case 32: dur< bc::duration< float, boost::milli > >(m, "boost float ms", off, f); break;
    default: dur< bc::duration< unsigned, boost::micro > >(m, "boost unsigned us", off, f); break;
    }
}
template< typename F > void with_point(int type, i128 off, Meaning& m, F f)
{
    namespace sc = std::chrono; namespace bc = boost::chrono;
    switch (type)
    {
    case 0: point< sc::system_clock::time_point >(m, REAL, "std system ns", off, f); break;
    case 1: point< sc::time_point< sc::system_clock, sc::microseconds > >(m, REAL, "std system us", off, f); break;
    case 2: point< sc::time_point< sc::system_clock, sc::milliseconds > >(m, REAL, "std system ms", off, f); break;
    case 3: point< sc::time_point< sc::system_clock, sc::seconds > >(m, REAL, "std system s", off, f); break;
    case 4: point< sc::time_point< sc::system_clock, sc::hours > >(m, REAL, "std system h", off, f); break;
    case 5: point< sc::steady_clock::time_point >(m, MONO, "std steady", off, f); break;
    case 6: point< sc::steady_clock::time_point >(m, MONO, "std steady", off, f); break;
    case 7: point< slow_clock::time_point >(m, SLOW, "slow clock", off / 2, f); break;
    case 8: point< sc::time_point< sc::steady_clock, sc::duration< int64_t, std::ratio< 1, 4000000000 > > > >(m, MONO, "std steady 1/4 ns", off > 10 * YEAR ? 10 * YEAR : off < -10 * YEAR && off > -1000 * YEAR ? -10 * YEAR : off, f); break;
    case 9: point< bc::system_clock::time_point >(m, REAL, "boost system", off, f); break;
    case 10: point< bc::time_point< bc::system_clock, bc::milliseconds > >(m, REAL, "boost system ms", off, f); break;
    case 11: point< bc::time_point< bc::system_clock, bc::seconds > >(m, REAL, "boost system s", off, f); break;
    case 12: point< bc::steady_clock::time_point >(m, MONO, "boost steady", off, f); break;
    case 13: point< bc::steady_clock::time_point >(m, MONO, "boost steady", off, f); break;
    case 14: case 15: pt_point(m, off, f); break;
    case 18: point< sc::time_point< sc::system_clock, sc::duration< double > > >(m, REAL, "std system double s", off, f); break;
    case 19: point< sc::time_point< sc::steady_clock, sc::duration< double, std::milli > > >(m, MONO, "std steady double ms", off, f); break;
    case 20: point< bc::time_point< bc::system_clock, bc::duration< double > > >(m, REAL, "boost system double s", off, f); break;
    case 21: point< bc::time_point< bc::steady_clock, bc::duration< double > > >(m, MONO, "boost steady double s", off, f); break;
    default: ts_point(m, off, f); break;
    }
}

static i128 rand_offset(hx::Rng& r)
{
    static const int64_t sp[] = { 0, 1, 2, 999, 1000, 1001, 999999, 1000000, 1000001, 500000000, 999999998, 999999999, 1000000000, 1000000001, 1999999999, 2000000000, 60000000000ll, 3600000000000ll };
    i128 v;
    switch (r.n(5))
    {
    case 0: v = sp[r.n(sizeof(sp) / sizeof(*sp))]; break;
    case 1: v = (i128)r.n(3000000000ull); break;
    case 2: v = (i128)r.n(20) * G + sp[r.n(14)]; break;
    default: v = (i128)(r.u() >> (1 + r.n(63))); break; // log-uniform, up to 292 years
    }
    if (v > 100 * YEAR) v = 100 * YEAR + v % YEAR;
    if (r.p(0.02)) v = (i128)(1 + r.n(1000)) * 10 * YEAR; // "infinite"
    if (r.p(0.3)) v = -v;
    return v;
}

// ---------------------------------------------------------------- primitives under one interface
// available: make the resource obtainable; wait(t): the timed operation (false: timed out)
struct PMutex
{
    timed_mutex m; bool held = false;
    static const char* name() { return "timed_mutex"; }
    enum { forms = 3, spurious_ok = 0, pulse_releases = 1 };
    void setup(bool avail) { if (!avail) { m.lock(); held = true; } }
    void make_available() { m.unlock(); held = false; }      // by the thread that called setup
    void pulse() { m.unlock(); m.lock(); }
    void disturb() { if (m.try_lock_for(std::chrono::nanoseconds(50))) m.unlock(); }
    void finish(bool got) { if (got) m.unlock(); }
    void teardown() { if (held) m.unlock(); }
    template< typename T > bool dur(T const& t, int form) { if (form == 0) return m.timed_lock(t); if (form == 1) return m.try_lock_for(t); unique_lock< timed_mutex > l(m, t); if (!l) return false; l.release(); return true; }
    template< typename T > bool point(T const& t, int form) { if (form == 0) return m.timed_lock(t); if (form == 1) return m.try_lock_until(t); unique_lock< timed_mutex > l(m, defer_lock); bool b = l.timed_lock(t); if (b != l.owns_lock()) vrt::fail("bogus", "unique_lock::timed_lock result doesn't match owns_lock"); if (b) l.release(); return b; }
};
template< typename E > struct PWait
{
    E x;
    enum { forms = 2, spurious_ok = 0, pulse_releases = 1 };
    void finish(bool) {}
    void teardown() {}
    void disturb() { x.wait_for(std::chrono::nanoseconds(50)); }
    template< typename T > bool dur(T const& t, int form) { return form == 0 ? x.timed_wait(t) : x.wait_for(t); }
    template< typename T > bool point(T const& t, int form) { return form == 0 ? x.timed_wait(t) : x.wait_until(t); }
};
struct PSem : PWait< semaphore >
{
    static const char* name() { return "semaphore"; }
    void setup(bool avail) { if (avail) x.post(); }
    void make_available() { x.post(); }
    void pulse() { x.post(); x.try_wait(); }
};
struct PAre : PWait< auto_reset_event >
{
    static const char* name() { return "auto_reset_event"; }
    void setup(bool avail) { if (avail) x.post(); }
    void make_available() { x.post(); }
    void pulse() { x.post(); x.try_wait(); }
};
struct PMre : PWait< manual_reset_event >
{
    static const char* name() { return "manual_reset_event"; }
    void setup(bool avail) { if (avail) x.set(); }
    void make_available() { x.set(); }
    void pulse() { x.set(); x.reset(); }
};
template< typename CV, typename M > struct PCv
{
    CV cv; M m; bool ready = false;
    enum { forms = 4, spurious_ok = 1, pulse_releases = 0 };
    void setup(bool avail) { ready = avail; }
    void make_available() { m.lock(); ready = true; m.unlock(); cv.notify_all(); }
    void pulse() { if (vrt::rnd(2)) cv.notify_all(); else cv.notify_one(); }
    void disturb() { unique_lock< M > l(m); cv.wait_for(l, std::chrono::nanoseconds(50)); }
    void finish(bool) {}
    void teardown() {}
    static bool ok(cv_status s) { return s == cv_status::no_timeout; }
    // forms 0,1: with a predicate; 2,3: without
    template< typename T > bool dur(T const& t, int form)
    {
        unique_lock< M > l(m);
        switch (form)
        {
        case 0: return cv.timed_wait(l, t, [this] { return ready; });
        case 1: return cv.wait_for(l, t, [this] { return ready; });
        case 2: return cv.timed_wait(l, t);
        default: return ok(cv.wait_for(l, t));
        }
    }
    template< typename T > bool point(T const& t, int form)
    {
        unique_lock< M > l(m);
        switch (form)
        {
        case 0: return cv.timed_wait(l, t, [this] { return ready; });
        case 1: return cv.wait_until(l, t, [this] { return ready; });
        case 2: while (!ready) if (!cv.timed_wait(l, t)) return ready; return true;
        default: while (!ready) if (!ok(cv.wait_until(l, t))) return ready; return true;
        }
    }
};
struct PCond : PCv< condition_variable, mutex > { static const char* name() { return "condition_variable"; } };
struct PCondAny : PCv< condition_variable_any, timed_mutex > { static const char* name() { return "condition_variable_any"; } };

enum Scen { NEVER, READY, LATER, NOISE, ADJUST };
static const char* const scen_names[] = { "never available", "available", "becomes available", "disturbed", "system clock adjusted" };

template< typename P > void time_case(hx::Rng& r, std::string const& mode)
{
    const bool c08 = mode == "C08";
    vrt::Options o = hx::options(r);
    o.p_jump = 0;
    static const int64_t nsecs[] = { 0, 1, 999999999, 999999998, 500000000, 123456789 };
    o.real_start = (int64_t)(r.n(7000000000ull)) * 1000000000ll + (r.p(0.7) ? nsecs[r.n(6)] : (int64_t)r.n(1000000000));
    o.mono_start = (int64_t)(1000 + r.n(100000000)) * 1000000000ll + (int64_t)r.n(1000000000);
    if (r.p(0.1)) o.real_start = (int64_t)r.n(100) * 1000000000ll + nsecs[r.n(6)]; // close to the epoch
    int scen = c08 ? (int)r.pick({ NEVER, NEVER, NEVER, LATER, READY }) : (int)r.n(5);
    bool is_point = r.p(0.5);
    int type = (int)r.n(is_point ? NPOINT : NDUR), form = (int)r.n(P::forms);
    i128 off = rand_offset(r);
    if (scen == ADJUST) { is_point = true; type = (int)r.pick({ 5, 6, 7, 8, 12, 13 }); if (off < 0) off = -off; if (off > 10 * YEAR) off %= 10 * YEAR; }
    if (scen == NOISE && r.p(0.8)) { if (off < 0) off = -off; if (off < 5000) off += 20000; }
    if (o.storm_spurious || o.storm_eintr || o.storm_eintr_pthread) o.spin_time = false; // time would pass for whoever is blocked only
    const bool noisy = scen == NOISE;
    if (!noisy) { o.p_spurious = r.p(0.3) ? 0.05 : 0; if (r.p(0.5)) o.p_eintr = 0; }
    int pulses = (int)r.in(1, 8);
    bool backward = r.p(0.5);
    bool later_before = r.p(0.6);
    std::vector< int > acts; for (int i = 0; i < 12; ++i) acts.push_back((int)r.n(3));
#ifdef VCFG_DISPATCH
    // libdispatch counts nanoseconds in 63 bits: a wait with a later deadline never ends
    if (scen != READY && !(scen == LATER && later_before))
    {
        if (off > 60 * YEAR) off %= 60 * YEAR;
        o.real_start %= (int64_t)150 * YEAR;
    }
#endif
    std::string what = hx::fmt("%s, %s, %s type %d form %d, offset ", P::name(), scen_names[scen], is_point ? "point" : "duration", type, form) + s128(off);
    // Every clock read takes 1 ns; the other threads read the clock too
    if (c08) { o.p_spurious = o.p_eintr = o.p_eintr_pthread = 0; o.storm_spurious = o.storm_eintr = o.storm_eintr_pthread = 0; }
    i128 tol = 4 * (o.storm_spurious + o.storm_eintr + o.storm_eintr_pthread) + (noisy ? 20000 : c08 ? (is_point && type == 7 ? 600 : 60) : 3000);
#ifdef VCFG_WIN
    // durations are rounded up to milliseconds, calls of the system take time, the system clock ticks every 100 ns
    tol += 1000000 * (is_point && type == 7 ? 8 : 2) + (noisy ? 10000000 : 0);
    const int tick = 100;
#else
    const int tick = 0;
#endif
    hx::execute(o, what, [&]
    {
        struct W { P p; int posted = 0; i128 avail_at = -1; bool done = false; i128 last_pulse = -1; };
        W* w = new W;
        bool now_avail = scen == READY;
        // Without a predicate a condition variable has no resource
        const bool plain_cv = P::spurious_ok && form >= 2;
        w->p.setup(now_avail);
        int helper = -1, helper2 = -1;
        Meaning m;
        i128 t0 = 0, t1 = 0, dmono = 0, m0 = 0;
        bool res = false, early = false;
        i128 t_clk1 = 0;
        int waiter = vrt::spawn([&, w]
        {
            auto before = [&] { vrt::Quiet q; m0 = vrt::mono_ns(); t0 = now_of(m.clk);
                dmono = m.clk == REL ? m0 + m.ns : m.clk == REAL ? m.ns - (vrt::real_ns() - vrt::mono_ns()) : m.clk == MONO ? m.ns : (m.ns - 12345) * 2;
                vrt::log("call with %s, deadline in %s ns", m.text.c_str(), s128(dmono - m0).c_str());
                tol += 4 * m.slack;
                w->avail_at = dmono; };
            auto after = [&](bool b) { vrt::Quiet q; res = b; t1 = vrt::mono_ns(); t_clk1 = now_of(m.clk); w->done = true; vrt::log("returned %d", (int)b); };
            if (is_point) with_point(type, off, m, [&](auto const& t) { before(); bool b = w->p.point(t, form); after(b); });
            else with_duration(type, off, m, [&](auto const& t) { before(); bool b = w->p.dur(t, form); after(b); });
            w->p.finish(res);
        });
        i128 act_at = -1;
        if (scen == LATER && !plain_cv)
        {
            // the deadline is known once the call has begun
            vrt::gate([&] { return w->avail_at != -1; });
            i128 span = dmono - m0;
            i128 at = later_before && span > 4 * tol ? m0 + (span > 2000 * G && r.p(0.5) ? 1000 * G : span > 100 * YEAR ? YEAR : span / 2) : (dmono > m0 ? dmono : m0) + 4 * tol;
            vrt::sleep_until_mono(at);
            act_at = vrt::mono_ns();
            w->p.make_available();
        }
        else if (scen == NOISE)
        {
            vrt::gate([&] { return w->avail_at != -1; });
            i128 span = dmono - m0;
            helper2 = vrt::spawn([&, w] { for (int i = 0; i < pulses; ++i) { if (span > 20000) vrt::sleep_ns((int64_t)(span > 1000 * G ? 1000 * G / 40 : span / 40)); if (w->done) break; w->p.disturb(); } });
            for (int i = 0; i < pulses; ++i)
            {
                vrt::idle(true);
                if (w->done) break;
                if (span > 20000) vrt::sleep_ns((int64_t)((span > 1000 * G ? 1000 * G : span) / (pulses + 4)));
                if (w->done) break;
                if (acts[i] != 0) { w->last_pulse = vrt::mono_ns(); w->p.pulse(); hx::count("disturbances"); }
                w->last_pulse = vrt::mono_ns();
            }
        }
        else if (scen == ADJUST)
        {
            vrt::gate([&] { return w->avail_at != -1; });
            i128 span = dmono - m0;
            for (int i = 0; i < 3; ++i)
            {
                vrt::idle(true);
                if (w->done) break;
                if (span > 100) vrt::sleep_ns((int64_t)(span / 5));
                int64_t d = (int64_t)(vrt::rnd(2) ? vrt::rnd(2000000000) : (uint64_t)(span % (1000 * YEAR)) + vrt::rnd(1000));
                if (vrt::real_ns() + d > 250 * YEAR) d = 12345678;
                if (backward && vrt::real_ns() > d + G) d = -d;
                vrt::adjust_realtime(d); hx::count("clock_adjustments");
            }
        }
        vrt::join(waiter);
        if (helper >= 0) vrt::join(helper);
        if (helper2 >= 0) vrt::join(helper2);
        {
            vrt::Quiet q;
            hx::count(hx::fmt("%s_%s", P::name(), res ? "success" : "timeout").c_str());
            i128 late = t1 - (dmono > m0 ? dmono : m0);
            std::string ctx = m.text + ", deadline " + s128(dmono - m0) + " ns after the call";
            // the clock is 1 ns coarse, conversions may round by 1 ns
            early = m.clk == REL ? t1 - m0 < m.ns_lo() - 1 - (noisy ? 10000 : 1) * tick - m.slack : t_clk1 < m.ns_lo() - 1 - tick - m.slack;
            if (!res && early) vrt::fail("early", "%s gave up %s ns before the deadline (%s)", P::name(), s128(dmono - t1).c_str(), ctx.c_str());
            // the time a success may come
            if (scen == READY && !plain_cv)
            {
                if (!res) vrt::fail("not-obtained", "%s was available, but %s timed out (%s)", P::name(), "the call", ctx.c_str());
                if (t1 - m0 > tol) vrt::fail("late", "%s was available, but the call took %s ns (%s)", P::name(), s128(t1 - m0).c_str(), ctx.c_str());
            }
            else if (scen == LATER && !plain_cv)
            {
                if (act_at < dmono)
                {
                    if (!res) vrt::fail("not-obtained", "%s became available %s ns before the deadline, but the call timed out (%s)", P::name(), s128(dmono - act_at).c_str(), ctx.c_str());
                    if (t1 - act_at > tol) vrt::fail("late", "%s returned %s ns after it became available (%s)", P::name(), s128(t1 - act_at).c_str(), ctx.c_str());
                }
                else
                {
                    if (res) vrt::fail("bogus", "%s reported success, but became available only %s ns after the deadline (%s)", P::name(), s128(act_at - dmono).c_str(), ctx.c_str());
                    if (late > tol) vrt::fail("late", "%s returned %s ns after the deadline (%s)", P::name(), s128(late).c_str(), ctx.c_str());
                }
            }
            else
            {
                bool judge_late = !(scen == ADJUST && backward);
                if (judge_late && late > tol) vrt::fail("late", "%s returned %s ns after the deadline (%s)", P::name(), s128(late).c_str(), ctx.c_str());
                bool may = (plain_cv && (o.p_spurious > 0 || o.storm_spurious > 0 || noisy || o.p_eintr_pthread > 0 || o.storm_eintr_pthread > 0 || scen == READY)) || (noisy && P::pulse_releases && w->last_pulse >= 0);
                if (res && !may) vrt::fail("bogus", "%s reported success without having become available (%s)", P::name(), ctx.c_str());
            }
            hx::nontrivial();
        }
        if (scen != LATER) w->p.teardown();
        delete w;
    });
}

void one_case(hx::Rng& r, std::string const& mode, uint64_t index)
{
    switch (index % 6)
    {
    case 0: time_case< PMutex >(r, mode); break;
    case 1: time_case< PSem >(r, mode); break;
    case 2: time_case< PAre >(r, mode); break;
    case 3: time_case< PMre >(r, mode); break;
    case 4: time_case< PCond >(r, mode); break;
    default: time_case< PCondAny >(r, mode); break;
    }
}
