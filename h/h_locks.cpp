// Scoped locks over a mock lockable: conservation of ownership (C11), rejection of misuse (C12).
#include "harness.hpp"
#include <chrono>
#include <memory>
#include <boost/sync/locks/lock_guard.hpp>
#include <boost/sync/locks/shared_lock_guard.hpp>
#include <boost/sync/locks/unlock_guard.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/locks/shared_lock.hpp>
#include <boost/sync/locks/upgrade_lock.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/support/std_chrono.hpp>

using namespace boost::sync;

// ---------------------------------------------------------------- the lockable
enum Mode { EX, SH, UP };
static const char* const mode_names[] = { "exclusive", "shared", "upgrade" };
enum OpKind { LOCK, TRY, TIMED, UNLOCK, CONV };
struct Rec { int mtx, op, mode, to; bool ok, thrown, legal; int64_t t; };
struct Boom { int id; };

static std::vector< Rec > recs;      // what was done to lockables since the last reset
static int outcome;                  // what the next acquiring operation does: 0 succeed, 1 fail (throw where it can't fail), 2 throw
static int boom_id;

template< typename R, typename P > int64_t ticks(std::chrono::duration< R, P > const& d) { return std::chrono::duration_cast< std::chrono::nanoseconds >(d).count(); }
template< typename C, typename D > int64_t ticks(std::chrono::time_point< C, D > const& t) { return ticks(t.time_since_epoch()); }

struct Mtx
{
    int id; int held[3];
    explicit Mtx(int i) : id(i) { held[0] = held[1] = held[2] = 0; }
    Mtx(Mtx const&) = delete;
    bool acquire(int op, int mode, int64_t t = 0)
    {
        vrt::Quiet q;
        Rec r = { id, op, mode, mode, false, false, true, t };
        if (outcome == 2 || (outcome == 1 && op == LOCK)) { r.thrown = true; recs.push_back(r); throw Boom{ ++boom_id }; }
        r.ok = outcome == 0;
        if (r.ok) ++held[mode];
        recs.push_back(r);
        return r.ok;
    }
    void drop(int mode) { vrt::Quiet q; Rec r = { id, UNLOCK, mode, mode, true, false, held[mode] > 0, 0 }; --held[mode]; recs.push_back(r); }
    bool conv(int from, int to, bool may_fail, int64_t t = 0)
    {
        vrt::Quiet q;
        Rec r = { id, CONV, from, to, false, false, held[from] > 0, t };
        if (outcome == 2 || (outcome == 1 && !may_fail)) { r.thrown = true; recs.push_back(r); throw Boom{ ++boom_id }; }
        r.ok = outcome == 0;
        if (r.ok) { --held[from]; ++held[to]; }
        recs.push_back(r);
        return r.ok;
    }
    void lock() { acquire(LOCK, EX); }
    bool try_lock() { return acquire(TRY, EX); }
    template< typename T > bool timed_lock(T const& t) { return acquire(TIMED, EX, ticks(t)); }
    template< typename T > bool try_lock_for(T const& t) { return acquire(TIMED, EX, ticks(t)); }
    template< typename T > bool try_lock_until(T const& t) { return acquire(TIMED, EX, ticks(t)); }
    void unlock() { drop(EX); }
    void lock_shared() { acquire(LOCK, SH); }
    bool try_lock_shared() { return acquire(TRY, SH); }
    template< typename T > bool timed_lock_shared(T const& t) { return acquire(TIMED, SH, ticks(t)); }
    template< typename T > bool try_lock_shared_for(T const& t) { return acquire(TIMED, SH, ticks(t)); }
    template< typename T > bool try_lock_shared_until(T const& t) { return acquire(TIMED, SH, ticks(t)); }
    void unlock_shared() { drop(SH); }
    void lock_upgrade() { acquire(LOCK, UP); }
    bool try_lock_upgrade() { return acquire(TRY, UP); }
    template< typename T > bool timed_lock_upgrade(T const& t) { return acquire(TIMED, UP, ticks(t)); }
    template< typename T > bool try_lock_upgrade_for(T const& t) { return acquire(TIMED, UP, ticks(t)); }
    template< typename T > bool try_lock_upgrade_until(T const& t) { return acquire(TIMED, UP, ticks(t)); }
    void unlock_upgrade() { drop(UP); }
    void unlock_and_lock_shared() { conv(EX, SH, false); }
    void unlock_and_lock_upgrade() { conv(EX, UP, false); }
    void unlock_upgrade_and_lock() { conv(UP, EX, false); }
    void unlock_upgrade_and_lock_shared() { conv(UP, SH, false); }
    bool try_unlock_upgrade_and_lock() { return conv(UP, EX, true); }
    bool try_unlock_shared_and_lock() { return conv(SH, EX, true); }
    bool try_unlock_shared_and_lock_upgrade() { return conv(SH, UP, true); }
    template< typename T > bool timed_unlock_shared_and_lock(T const& t) { return conv(SH, EX, true, ticks(t)); }
    template< typename T > bool timed_unlock_shared_and_lock_upgrade(T const& t) { return conv(SH, UP, true, ticks(t)); }
    template< typename T > bool try_unlock_shared_and_lock_for(T const& t) { return conv(SH, EX, true, ticks(t)); }
    template< typename T > bool try_unlock_shared_and_lock_until(T const& t) { return conv(SH, EX, true, ticks(t)); }
    template< typename T > bool try_unlock_shared_and_lock_upgrade_for(T const& t) { return conv(SH, UP, true, ticks(t)); }
    template< typename T > bool try_unlock_shared_and_lock_upgrade_until(T const& t) { return conv(SH, UP, true, ticks(t)); }
};

static std::string script;           // the operations so far, for reports
static std::string show_recs()
{
    vrt::Quiet q;
    static const char* const n[] = { "lock", "try_lock", "timed lock", "unlock", "conversion" };
    std::string s;
    for (Rec const& r : recs) s += hx::fmt("%s%s(%s) of M%d%s%s", s.empty() ? "" : ", ", n[r.op], mode_names[r.mode], r.mtx, r.thrown ? " throws" : r.ok ? "" : " fails", r.legal ? "" : " WITHOUT OWNING IT");
    return s.empty() ? "nothing" : s;
}
[[noreturn]] static void bad(const char* kind, std::string const& msg) { vrt::Quiet q; vrt::fail(kind, "%s | operations on lockables: %s | history: %s", msg.c_str(), show_recs().c_str(), script.c_str()); }

// ---------------------------------------------------------------- lock objects
template< int M > struct LockT;
template<> struct LockT< EX > { typedef unique_lock< Mtx > type; };
template<> struct LockT< SH > { typedef shared_lock< Mtx > type; };
template<> struct LockT< UP > { typedef upgrade_lock< Mtx > type; };
struct View { Mtx* m; bool owns; bool operator==(View const& o) const { return m == o.m && owns == o.owns; } };
template< typename L > View view(L& l)
{
    View v = { l.mutex(), l.owns_lock() };
    bool b = l ? true : false;
    if (b != v.owns || !l == v.owns) bad("untruth", "operator bool or operator! disagrees with owns_lock()");
    return v;
}
struct World
{
    std::unique_ptr< Mtx > m[2];
    std::vector< std::unique_ptr< unique_lock< Mtx > > > ex;
    std::vector< std::unique_ptr< shared_lock< Mtx > > > sh;
    std::vector< std::unique_ptr< upgrade_lock< Mtx > > > up;
    int ext[2][3]; // claims held by the client itself (released from lock objects, or for adoption)
    int guards[2][3];
    World() { for (int i = 0; i < 2; ++i) { m[i].reset(new Mtx(i)); for (int k = 0; k < 3; ++k) ext[i][k] = guards[i][k] = 0; } }
    template< int K > auto& objs() { if constexpr (K == EX) return ex; else if constexpr (K == SH) return sh; else return up; }
    // every claim on a lockable belongs to exactly one owner
    void conserve(std::string const& what)
    {
        vrt::Quiet q;
        hx::count("conservation_checks");
        for (Rec const& r : recs) if (!r.legal) bad("conservation", what + ": a lockable was released or converted that wasn't held");
        int n[2][3];
        for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) n[i][k] = ext[i][k] + guards[i][k];
        auto add = [&](View v, int mode) { if (v.owns) { if (!v.m) bad("untruth", what + ": owns_lock() without a mutex"); ++n[v.m->id][mode]; } };
        for (auto& o : ex) if (o) add(view(*o), EX);
        for (auto& o : sh) if (o) add(view(*o), SH);
        for (auto& o : up) if (o) add(view(*o), UP);
        for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k)
            if (n[i][k] != m[i]->held[k]) bad("conservation", hx::fmt("after %s the lockable M%d is held %d times in %s mode, but lock objects and the client own %d", what.c_str(), i, m[i]->held[k], mode_names[k], n[i][k]));
    }
};

struct Driver
{
    hx::Rng& r; World w; bool misuse_heavy;
    Driver(hx::Rng& x, bool mh) : r(x), misuse_heavy(mh) {}
    void say(std::string const& s) { vrt::Quiet q; script += (script.empty() ? "" : "; ") + s; }
    void fresh() { recs.clear(); outcome = r.p(0.55) ? 0 : r.p(0.6) ? 1 : 2; }
    static const char* on() { return outcome == 0 ? "" : outcome == 1 ? " [fails]" : " [throws]"; }

    // expected: exactly one acquiring operation of the mode on m, then the object owns it according to the result
    void expect_acquire(View before, View after, int op, int mode, Mtx* m, bool thrown, int result, int64_t t, std::string const& what, bool ctor)
    {
        if (recs.size() != 1) bad("wrong-op", what + ": expected exactly one locking operation");
        Rec const& a = recs[0];
        if (a.mtx != m->id || a.op != op || a.mode != mode) bad("wrong-op", what + ": wrong operation on the lockable");
        if (op == TIMED && a.t != t) bad("wrong-op", hx::fmt("%s: the timeout passed to the lockable is %lld instead of %lld ns", what.c_str(), (long long)a.t, (long long)t));
        if (a.thrown != thrown) bad("wrong-op", what + ": the exception of the lockable wasn't passed on");
        if (thrown) { if (!ctor && !(after == before)) bad("untruth", what + ": the object changed although the lockable threw"); return; }
        if (after.m != m || after.owns != a.ok) bad("untruth", what + ": owns_lock()/mutex() don't tell the result");
        if (result >= 0 && result != (int)a.ok) bad("untruth", what + ": wrong result returned");
    }
    template< int K > void ctor()
    {
        typedef typename LockT< K >::type L;
        int i = (int)r.n(2); Mtx& m = *w.m[i];
        int form = (int)r.n(7); int64_t ns = r.in(-5, 2000000000);
        std::unique_ptr< L > p;
        fresh();
        bool thrown = false; int op = -1; int64_t t = 0;
        static const char* const names[] = { "()", "(m)", "(m,adopt)", "(m,defer)", "(m,try)", "(m,duration)", "(m,time_point)" };
        std::string what = hx::fmt("%s%s M%d%s", K == EX ? "unique_lock" : K == SH ? "shared_lock" : "upgrade_lock", names[form], i, on());
        say(what);
        if (form == 2 && !w.ext[i][K]) { ++m.held[K]; ++w.ext[i][K]; }
        try
        {
            switch (form)
            {
            case 0: p.reset(new L()); break;
            case 1: op = LOCK; p.reset(new L(m)); break;
            case 2: p.reset(new L(m, adopt_lock)); --w.ext[i][K]; break;
            case 3: p.reset(new L(m, defer_lock)); break;
            case 4: op = TRY; p.reset(new L(m, try_to_lock)); break;
            case 5: op = TIMED; if (r.p(0.5)) { t = ns; p.reset(new L(m, std::chrono::nanoseconds(ns))); } else { t = ns / 1000000 * 1000000; p.reset(new L(m, std::chrono::milliseconds(ns / 1000000))); } break;
            default: op = TIMED; t = ns; p.reset(new L(m, std::chrono::time_point< std::chrono::system_clock, std::chrono::nanoseconds >(std::chrono::nanoseconds(ns)))); break;
            }
        }
        catch (Boom&) { thrown = true; }
        if (op < 0)
        {
            if (!recs.empty()) bad("wrong-op", what + ": performed an operation on the lockable");
            View v = view(*p), e = { form == 0 ? nullptr : &m, form == 2 };
            if (!(v == e)) bad("untruth", what + ": wrong initial state");
        }
        else { View none = { nullptr, false }; expect_acquire(none, thrown ? none : view(*p), op, K, &m, thrown, -1, t, what, true); }
        if (p) w.objs< K >().push_back(std::move(p));
        w.conserve(what);
    }
    template< int K > typename LockT< K >::type* pick(int* idx = nullptr)
    {
        auto& v = w.objs< K >();
        if (v.empty()) return nullptr;
        int i = (int)r.n(v.size()); if (idx) *idx = i;
        return v[i].get();
    }
    // a member that locks or unlocks, from whatever state the object is in
    template< int K > void member()
    {
        typedef typename LockT< K >::type L;
        int idx; L* l = pick< K >(&idx); if (!l) return;
        int op = (int)r.n(6); int64_t ns = r.in(-5, 2000000000), t = 0;
        View before = view(*l);
        bool unl = op == 5;
        bool ok_state = before.m && (unl ? before.owns : !before.owns);
        if (!ok_state && !misuse_heavy && r.p(0.7)) return;
        static const char* const names[] = { "lock", "try_lock", "timed_lock", "try_lock_for", "try_lock_until", "unlock" };
        fresh();
        std::string what = hx::fmt("%s%d.%s (%s)%s", K == EX ? "U" : K == SH ? "S" : "G", idx, names[op], before.owns ? "owns" : before.m ? "doesn't own" : "no mutex", on());
        say(what);
        bool thrown = false, lerr = false; int result = -1, code = 0; int k = LOCK;
        try
        {
            switch (op)
            {
            case 0: l->lock(); break;
            case 1: k = TRY; result = l->try_lock(); break;
            case 2: k = TIMED; t = ns; result = r.p(0.5) ? l->timed_lock(std::chrono::nanoseconds(ns)) : l->timed_lock(std::chrono::time_point< std::chrono::system_clock, std::chrono::nanoseconds >(std::chrono::nanoseconds(ns))); break;
            case 3: k = TIMED; t = ns; result = l->try_lock_for(std::chrono::nanoseconds(ns)); break;
            case 4: k = TIMED; t = ns; result = l->try_lock_until(std::chrono::time_point< std::chrono::system_clock, std::chrono::nanoseconds >(std::chrono::nanoseconds(ns))); break;
            default: l->unlock(); break;
            }
        }
        catch (Boom&) { thrown = true; }
        catch (lock_error& e) { lerr = true; code = e.code().value(); }
        View after = view(*l);
        if (!ok_state)
        {
            hx::count("misuses");
            if (!recs.empty()) bad("misuse-op", what + ": an operation was performed on a lockable");
            if (!lerr) bad("misuse-accepted", what + ": no lock_error");
            int want = !before.m || unl ? EPERM : EDEADLK;
            if (code != want) bad("wrong-code", hx::fmt("%s: error code %d instead of %d", what.c_str(), code, want));
            if (!(after == before)) bad("misuse-changed", what + ": the object changed");
            w.conserve(what);
            return;
        }
        if (lerr) bad("misuse-false", hx::fmt("%s: lock_error(%d) although the call is legitimate", what.c_str(), code));
        if (unl)
        {
            if (recs.size() != 1 || recs[0].op != UNLOCK || recs[0].mode != K || recs[0].mtx != before.m->id) bad("wrong-op", what + ": expected exactly one unlock");
            if (after.owns || after.m != before.m) bad("untruth", what + ": wrong state after unlock");
        }
        else expect_acquire(before, after, k, K, before.m, thrown, result, t, what, false);
        w.conserve(what);
    }
    template< int K > void destroy()
    {
        int idx; if (!pick< K >(&idx)) return;
        auto& v = w.objs< K >();
        View before = view(*v[idx]);
        std::string what = hx::fmt("destroy %s%d", K == EX ? "U" : K == SH ? "S" : "G", idx);
        say(what);
        fresh(); outcome = 0;
        v[idx].reset(); v.erase(v.begin() + idx);
        if (before.owns ? (recs.size() != 1 || recs[0].op != UNLOCK || recs[0].mode != K || recs[0].mtx != before.m->id) : !recs.empty()) bad("conservation", what + ": wrong operations");
        w.conserve(what);
    }
    template< int K > void release()
    {
        int idx; auto* l = pick< K >(&idx); if (!l) return;
        View before = view(*l);
        std::string what = hx::fmt("%s%d.release", K == EX ? "U" : K == SH ? "S" : "G", idx);
        say(what); fresh();
        Mtx* m = l->release();
        if (m != before.m) bad("untruth", what + ": returned the wrong mutex");
        if (!recs.empty()) bad("wrong-op", what + ": performed an operation on the lockable");
        View none = { nullptr, false };
        if (!(view(*l) == none)) bad("untruth", what + ": the object still refers to the mutex");
        if (before.owns) ++w.ext[m->id][K];
        w.conserve(what);
    }
    template< int K > void swap_objs()
    {
        int i, j; auto* a = pick< K >(&i); auto* b = pick< K >(&j); if (!a) return;
        View va = view(*a), vb = view(*b);
        std::string what = hx::fmt("swap %s%d %d", K == EX ? "U" : K == SH ? "S" : "G", i, j);
        say(what); fresh();
        if (r.p(0.5)) a->swap(*b); else { using boost::sync::swap; swap(*a, *b); }
        if (!recs.empty()) bad("wrong-op", what + ": performed an operation on the lockable");
        if (!(view(*a) == vb) || !(view(*b) == va)) bad("untruth", what + ": the states weren't exchanged");
        w.conserve(what);
    }
    template< int K > void move_ctor()
    {
        typedef typename LockT< K >::type L;
        int i; auto* a = pick< K >(&i); if (!a) return;
        View va = view(*a), none = { nullptr, false };
        std::string what = hx::fmt("move-construct from %s%d", K == EX ? "U" : K == SH ? "S" : "G", i);
        say(what); fresh();
        std::unique_ptr< L > p(new L(boost::move(*a)));
        if (!recs.empty()) bad("wrong-op", what + ": performed an operation on the lockable");
        if (!(view(*p) == va) || !(view(*a) == none)) bad("untruth", what + ": ownership wasn't transferred");
        w.objs< K >().push_back(std::move(p));
        w.conserve(what);
    }
    template< int K > void move_assign()
    {
        int i, j; auto* a = pick< K >(&i); auto* b = pick< K >(&j); if (!a) return;
        View va = view(*a), vb = view(*b), none = { nullptr, false };
        std::string what = hx::fmt("%s%d = move %d", K == EX ? "U" : K == SH ? "S" : "G", i, j);
        say(what); fresh(); outcome = 0;
        *a = boost::move(*b);
        View na = view(*a), nb = view(*b);
        if (a == b) { if (recs.empty() ? !(na == va) : !(na == none)) bad("untruth", what + ": self-assignment"); }
        else
        {
            if (!(na == vb)) bad("untruth", what + ": the target didn't get the ownership");
            // the old ownership is either handed to the source or released at once
            bool exchanged = recs.empty() && nb == va;
            bool dropped = nb == none && (va.owns ? recs.size() == 1 && recs[0].op == UNLOCK && recs[0].mode == K && recs[0].mtx == va.m->id : recs.empty());
            if (!exchanged && !dropped) bad("conservation", what + ": the previous ownership of the target is neither kept nor released once");
        }
        w.conserve(what);
    }
    // conversion between lock kinds. how: 0 constructor, 1 try, 2 timed, 3 assignment
    template< int F, int T > void convert(int how)
    {
        typedef typename LockT< T >::type L;
        int i; auto* s = pick< F >(&i); if (!s) return;
        View vs = view(*s), none = { nullptr, false }, old = none;
        L* target = nullptr; int j = -1;
        if (how == 3) { target = pick< T >(&j); if (!target) return; old = view(*target); }
        fresh();
        int64_t ns = r.in(0, 1000000);
        std::string what = hx::fmt("%s %s from %s%d%s", how == 0 ? "construct" : how == 1 ? "try" : how == 2 ? "timed" : "assign", mode_names[T], mode_names[F], i, on());
        say(what);
        std::unique_ptr< L > p; bool thrown = false;
        try
        {
            if constexpr (F == UP || F == EX)
            {
                if (how == 0) p.reset(new L(boost::move(*s)));
                else if (how == 3) *target = boost::move(*s);
            }
            if constexpr (F == SH || (F == UP && T == EX)) if (how == 1) p.reset(new L(boost::move(*s), try_to_lock));
            if constexpr (F == SH) if (how == 2) p.reset(new L(boost::move(*s), std::chrono::nanoseconds(ns)));
        }
        catch (Boom&) { thrown = true; }
        // the conversion itself
        int convs = 0, drops = 0; bool ok = true, cthrown = false;
        for (Rec const& a : recs)
        {
            if (a.op == CONV && vs.owns && a.mode == F && a.to == T && a.mtx == vs.m->id) { ++convs; ok = a.ok; cthrown = a.thrown; if (how == 2 && a.t != ns) bad("wrong-op", what + ": wrong timeout"); }
            else if (a.op == UNLOCK && how == 3 && old.owns && a.mode == T && a.mtx == old.m->id) ++drops;
            else bad("wrong-op", what + ": unexpected operation");
        }
        if (convs != (vs.owns ? 1 : 0)) bad("wrong-op", what + ": expected one conversion of an owned lockable, none otherwise");
        if (thrown != cthrown) bad("wrong-op", what + ": exception of the lockable lost");
        View ns_ = view(*s);
        if (thrown || (vs.owns && !ok))
        {
            if (!(ns_ == vs)) bad("untruth", what + ": a failed conversion has to leave the source owning");
            if (p && !(view(*p) == none)) bad("untruth", what + ": a failed conversion yields a lock that refers to a mutex");
        }
        else
        {
            if (!(ns_ == none)) bad("untruth", what + ": the source still refers to the mutex");
            View nt = how == 3 ? view(*target) : view(*p);
            if (!(nt == vs)) bad("untruth", what + ": ownership wasn't transferred");
            if (how == 3 && drops != (old.owns ? 1 : 0)) bad("conservation", what + ": the previous ownership of the target wasn't released once");
        }
        if (p) w.objs< T >().push_back(std::move(p));
        hx::count("conversions");
        w.conserve(what);
    }
    template< int K, typename G > void guard()
    {
        int i = (int)r.n(2); Mtx& m = *w.m[i];
        bool adopt = r.p(0.4), leave_by_exception = r.p(0.4);
        fresh();
        std::string what = hx::fmt("%s guard%s%s M%d%s", mode_names[K], adopt ? " adopt" : "", leave_by_exception ? " left by an exception" : "", i, on());
        say(what);
        if (adopt) { if (!w.ext[i][K]) ++m.held[K]; else --w.ext[i][K]; }
        bool entered = false, boom = false, mine = false;
        struct Mine {};
        try
        {
            if (adopt)
            {
                G g(m, adopt_lock); entered = true;
                if (!recs.empty()) bad("wrong-op", what + ": performed an operation on the lockable");
                w.guards[i][K]++; w.conserve(what); w.guards[i][K]--;
                if (leave_by_exception) throw Mine();
            }
            else
            {
                G g(m); entered = true;
                if (recs.size() != 1 || recs[0].op != LOCK || recs[0].mode != K || recs[0].mtx != i || !recs[0].ok) bad("wrong-op", what + ": expected one lock operation");
                w.guards[i][K]++; w.conserve(what); w.guards[i][K]--;
                if (leave_by_exception) throw Mine();
            }
        }
        catch (Boom&) { boom = true; }
        catch (Mine&) { mine = true; }
        if (entered)
        {
            size_t n = adopt ? 1 : 2;
            if (recs.size() != n || recs[n - 1].op != UNLOCK || recs[n - 1].mode != K || recs[n - 1].mtx != i) bad("conservation", what + ": the scope has to end with exactly one unlock");
            if (mine != leave_by_exception) bad("wrong-op", what + ": exception lost");
        }
        else if (!boom || recs.size() != 1) bad("conservation", what + ": a guard that failed to lock mustn't do anything else");
        w.conserve(what);
    }
    void unguard()
    {
        int i = (int)r.n(2); Mtx& m = *w.m[i];
        bool over_lock = r.p(0.5), leave_by_exception = r.p(0.4);
        std::string what = hx::fmt("unlock_guard over %s%s", over_lock ? "unique_lock" : "lockable", leave_by_exception ? " left by an exception" : "");
        struct Mine {};
        bool boom = false, mine = false;
        if (over_lock)
        {
            int idx; auto* l = pick< EX >(&idx); if (!l || !view(*l).owns) return;
            View before = view(*l);
            fresh(); if (leave_by_exception) outcome = 0;
            what += on(); say(what);
            try
            {
                unlock_guard< unique_lock< Mtx > > g(*l);
                if (recs.size() != 1 || recs[0].op != UNLOCK || view(*l).owns) bad("wrong-op", what + ": expected the lock to be released");
                w.conserve(what);
                if (leave_by_exception) throw Mine();
            }
            catch (Boom&) { boom = true; }
            catch (Mine&) { mine = true; }
            if (recs.size() != 2 || recs[1].op != LOCK || recs[1].mode != EX || recs[1].mtx != before.m->id) bad("conservation", what + ": the scope has to end with exactly one lock operation");
            if (boom != recs[1].thrown || mine != leave_by_exception) bad("wrong-op", what + ": exception lost");
            View after = view(*l);
            if (after.m != before.m || after.owns != recs[1].ok) bad("untruth", what + ": wrong state of the lock after the scope");
        }
        else
        {
            if (!w.ext[i][EX]) { ++m.held[EX]; ++w.ext[i][EX]; }
            fresh(); if (leave_by_exception) outcome = 0;
            what += on(); say(what);
            try
            {
                unlock_guard< Mtx > g(m);
                if (recs.size() != 1 || recs[0].op != UNLOCK || recs[0].mtx != i) bad("wrong-op", what + ": expected one unlock");
                --w.ext[i][EX]; w.conserve(what);
                if (leave_by_exception) throw Mine();
            }
            catch (Boom&) { boom = true; }
            catch (Mine&) { mine = true; }
            if (recs.size() != 2 || recs[1].op != LOCK || recs[1].mode != EX || recs[1].mtx != i) bad("conservation", what + ": the scope has to end with exactly one lock operation");
            if (boom != recs[1].thrown || mine != leave_by_exception) bad("wrong-op", what + ": exception lost");
            if (recs[1].ok) ++w.ext[i][EX];
        }
        w.conserve(what);
    }
    template< int K > void any_basic()
    {
        switch (r.n(misuse_heavy ? 16 : 12))
        {
        case 0: case 1: ctor< K >(); break;
        case 2: destroy< K >(); break;
        case 3: release< K >(); break;
        case 4: swap_objs< K >(); break;
        case 5: move_ctor< K >(); break;
        case 6: move_assign< K >(); break;
        default: member< K >(); break;
        }
    }
    void step()
    {
        int x = (int)r.n(100);
        if (x < 8) guard< EX, lock_guard< Mtx > >();
        else if (x < 14) guard< SH, shared_lock_guard< Mtx > >();
        else if (x < 20) unguard();
        else if (x < 40)
        {
            switch (r.n(12))
            {
            case 0: convert< UP, EX >(0); break;
            case 1: convert< UP, EX >(1); break;
            case 2: convert< UP, EX >(3); break;
            case 3: convert< SH, EX >(1); break;
            case 4: convert< SH, EX >(2); break;
            case 5: convert< EX, UP >(0); break;
            case 6: convert< EX, UP >(3); break;
            case 7: convert< SH, UP >(1); break;
            case 8: convert< SH, UP >(2); break;
            case 9: if (r.p(0.5)) convert< EX, SH >(0); else convert< UP, SH >(0); break;
            case 10: convert< EX, SH >(3); break;
            default: convert< UP, SH >(3); break;
            }
        }
        else switch (r.n(3)) { case 0: any_basic< EX >(); break; case 1: any_basic< SH >(); break; default: any_basic< UP >(); break; }
        // keep the number of objects small
        if (w.ex.size() > 3) destroy< EX >();
        if (w.sh.size() > 3) destroy< SH >();
        if (w.up.size() > 3) destroy< UP >();
    }
    void all()
    {
        int n = (int)r.in(3, 40);
        for (int i = 0; i < n; ++i) { step(); hx::count("operations"); }
        while (!w.ex.empty()) destroy< EX >();
        while (!w.sh.empty()) destroy< SH >();
        while (!w.up.empty()) destroy< UP >();
        for (int i = 0; i < 2; ++i) for (int k = 0; k < 3; ++k) if (w.m[i]->held[k] != w.ext[i][k]) bad("conservation", hx::fmt("in the end M%d is held %d times in %s mode", i, w.m[i]->held[k] - w.ext[i][k], mode_names[k]));
    }
};

void one_case(hx::Rng& r, std::string const& mode, uint64_t)
{
    vrt::Options o; o.seed = r.u(); o.strategy = 3; o.races = false;
    bool mh = mode == "C12";
    recs.clear(); script.clear(); outcome = 0;
    hx::execute(o, "operation sequence", [&]
    {
        Driver d(r, mh);
        d.all();
        hx::nontrivial();
        { vrt::Quiet q; hx::case_hash = std::hash< std::string >()(script); hx::sample(script); }
    });
}
