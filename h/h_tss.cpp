// Thread-specific storage: private values (C13), cleanup exactly once (C14), at_thread_exit (C15), notify_all_at_thread_exit (C16).
// Modes C18*: the same with the race detector and the leak check as the subject.
#include "harness.hpp"
#include <atomic>
#include <chrono>
#include <deque>
#include <new>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>

#ifdef VCFG_WIN
namespace boost { namespace sync { namespace detail { namespace windows {
void tss_cleanup_implemented() {}
void on_thread_exit();
// as DllMain does
static struct Attach { Attach() { vrt::w32_thread_exit = &on_thread_exit; } } attach;
} } } }
#endif

using namespace boost::sync;

struct Val { int id; int data; explicit Val(int i) : id(i), data(i * 7) {} ~Val(); };
typedef thread_specific_ptr< Val > TSP;
enum { FN_CUSTOM = 4, FN_DEFAULT = 4, FN_NULL = 5 };
static void on_cleanup(Val* v, int fn, bool in_dtor);
template< int K > void cln(Val* v) { on_cleanup(v, K, false); }
static void (*const fns[])(Val*) = { &cln< 0 >, &cln< 1 >, &cln< 2 >, &cln< 3 > };
Val::~Val() { on_cleanup(this, FN_DEFAULT, true); }

struct Obj
{
    int id; TSP ptr;
    Obj(int i, void (*f)(Val*)) : id(i), ptr(f) {}
    explicit Obj(int i) : id(i), ptr() {}
};
struct Slot { std::atomic< Obj* > p{ nullptr }; std::atomic< int > users{ 0 }; };

// ---------------------------------------------------------------- the model (only touched under Quiet)
enum { FRESH, STORED, RELEASED, CLEANED };
struct VInfo { Val* p; int obj, tid, st, fn; bool freeing; int spec; std::vector< int > kids; };
struct OInfo { int fn, destroyer; bool dead; };
struct TInfo { bool exiting = false, joined = false, clean_started = false; int resetting = -1, depth = 0, nest = 0; std::vector< int > initial; int touches = 0; };
struct FInfo { int tid, parent, parent_val, ran; bool from_clean, registered; std::vector< int > kids; int nkids; int act; };
struct Model
{
    std::deque< VInfo > vals; std::deque< OInfo > objs; std::deque< TInfo > thr; std::deque< FInfo > fun;
    std::map< Val*, int > by; std::map< std::pair< int, int >, int > cur;
    int live_fns = 0;
    TInfo& t(int i) { while ((int)thr.size() <= i) thr.emplace_back(); return thr[i]; }
};
static Model* M;
struct Pair { mutex own_m; condition_variable own_cv; mutex* m; condition_variable* cv; std::vector< int > done; Pair() : m(&own_m), cv(&own_cv) {} };
struct Shared_
{
    std::vector< Slot > slots; int witness[64]; Pair pairs[16]; int arrived = 0;
    explicit Shared_(int n) : slots(n) { memset(witness, 0, sizeof(witness)); }
};
static Shared_* S;
static bool alloc_faults;

static const char* faulty_fn(int& nth, int& err, bool locks); // draws a call to fail
// Runs f, in which a system or allocation call may be made to fail; returns whether it threw
// (not a lock of a mutex where the operation reads the value, too: reading may lock, and must not throw)
template< typename F > bool attempt(double p, F f, bool locks = true);

struct Step { int op, slot, arg; };
enum { GET, SET, RELEASE, RESET0, SAME, CREATE, DESTROY, ATEXIT, NOTIFY, YIELD, GETALL, BARRIER };
static const char* const step_names[] = { "get", "set", "release", "reset", "same", "new", "delete", "atexit", "notify", "yield", "getall", "barrier" };
static hx::Rng* R;                     // drawn only in the single OS thread, in scheduling order: deterministic

static const char* faulty_fn(int& nth, int& err, bool locks)
{
    int k = (int)R->n(10); nth = 1;
    if (k < 6) { nth = (int)R->in(1, 4); err = ENOMEM; return "new"; }
#ifdef VCFG_WIN
    err = 8; return "TlsSetValue";
#endif
    if (k < 8 || !locks) { err = R->pick({ ENOMEM, EAGAIN, EINVAL }); return "pthread_setspecific"; }
    nth = (int)R->in(1, 2); err = R->pick({ EINVAL, EAGAIN, EDEADLK }); return "pthread_mutex_lock";
}
template< typename F > bool attempt(double p, F f, bool locks)
{
    bool thrown = false, inj = false; int nth, err, code = 0;
    if (alloc_faults && R->p(p)) { const char* fn = faulty_fn(nth, err, locks); vrt::inject(fn, nth, err); inj = true; }
    try { f(); }
    catch (std::bad_alloc&) { thrown = true; code = ENOMEM; }
    catch (resource_error& e) { thrown = true; code = e.native_error(); }
    catch (lock_error& e) { thrown = true; code = e.native_error(); }
    bool fired = inj && vrt::injection_fired();
    if (inj) vrt::clear_injections();
    vrt::Quiet q;
    if (thrown && !fired) vrt::fail("exception", "an operation threw (%d) without a failing system call", code);
    return thrown;
}
template< typename F > void with_slot(int s, F f)
{
    Slot& sl = S->slots[s];
    int me = vrt::self();
    sl.users.fetch_add(1, std::memory_order_relaxed);
    { vrt::Quiet q; ++M->t(me).depth; }
    if (Obj* o = sl.p.load(std::memory_order_acquire)) f(*o);
    { vrt::Quiet q; --M->t(me).depth; }
    sl.users.fetch_sub(1, std::memory_order_release);
}
static int expected(int tid, int obj) { auto it = M->cur.find({ tid, obj }); return it == M->cur.end() ? -1 : it->second; }
// Values without a cleanup function may be forgotten any time once the values of an ending thread are being destroyed
static int forgotten(int e, Val* got, int obj)
{
    if (e < 0 || got || M->vals[e].fn != FN_NULL || !M->t(vrt::self()).clean_started) return e;
    M->vals[e].st = RELEASED; M->cur.erase({ vrt::self(), obj });
    return -1;
}
static void check_get(Obj& o)
{
    Val* g = o.ptr.get();
    bool b = o.ptr ? true : false, nb = !o.ptr;
    Val* gp = get_pointer(o.ptr);
    Val *da = g, *db = g;
    if (g) { da = &*o.ptr; db = o.ptr.operator->(); }
    vrt::Quiet q;
    int e = forgotten(expected(vrt::self(), o.id), g, o.id);
    Val* ep = e < 0 ? nullptr : M->vals[e].p;
    hx::count(e < 0 ? "gets_of_empty" : "gets_of_value");
    if (g != ep)
    {
        auto it = M->by.find(g);
        std::string w = !g ? "null" : it == M->by.end() ? "an unknown pointer" : hx::fmt("value %d (stored in object %d by T%d)", it->second, M->vals[it->second].obj, M->vals[it->second].tid);
        vrt::soft("wrong-value", "get() on object %d in T%d returned %s instead of %s", o.id, vrt::self(), w.c_str(), e < 0 ? "null" : hx::fmt("value %d", e).c_str());
    }
    if (b != (g != nullptr) || nb == b || gp != g || da != g || db != g) vrt::soft("wrong-value", "operator bool, operator!, operator*, operator-> or get_pointer disagrees with get()");
    if (g && e >= 0 && M->vals[e].fn != FN_NULL && g->id != e) vrt::soft("wrong-value", "the value was overwritten");
}
static void user_delete(Val* v) { { vrt::Quiet q; M->vals[M->by[v]].freeing = true; } delete v; }
static Val* fresh_val(int obj, int fn, int spec)
{
    int id; { vrt::Quiet q; id = (int)M->vals.size(); M->vals.push_back(VInfo{ nullptr, obj, vrt::self(), FRESH, fn, false, spec, {} }); }
    Val* v = new Val(id);
    vrt::Quiet q; M->vals[id].p = v; M->by[v] = id;
    return v;
}
static void must_be_clean(int v, const char* when)
{
    VInfo& i = M->vals[v];
    if (i.fn == FN_NULL ? i.st != STORED : i.st != CLEANED) vrt::soft(i.fn == FN_NULL ? "cleanup-wrong" : "cleanup-missing", "value %d of object %d (stored by T%d) has not been cleaned up %s", v, i.obj, i.tid, when);
}
static void do_set(int s, bool null_value, int spec)
{
    with_slot(s, [&](Obj& o)
    {
        int me = vrt::self(), fn; { vrt::Quiet q; fn = M->objs[o.id].fn; }
        Val* v = null_value ? nullptr : fresh_val(o.id, fn, spec);
        int old, id = -1;
        {
            vrt::Quiet q;
            old = expected(me, o.id); M->t(me).resetting = old;
            if (v) { id = M->by[v]; M->vals[id].st = STORED; M->cur[{ me, o.id }] = id; } else M->cur.erase({ me, o.id });
        }
        bool thrown = attempt(0.3, [&] { if (v) o.ptr.reset(v); else o.ptr.reset(); }, false);
        if (thrown)
        {
            { vrt::Quiet q; M->t(me).resetting = -1; if (v) M->vals[id].st = FRESH; if (old >= 0) M->cur[{ me, o.id }] = old; else M->cur.erase({ me, o.id }); }
            if (v) user_delete(v);
            hx::count("failed_stores");
        }
        else
        {
            vrt::Quiet q;
            M->t(me).resetting = -1;
            if (old >= 0) must_be_clean(old, "by reset");
            if (old >= 0 && M->vals[old].fn == FN_NULL) M->vals[old].st = RELEASED; // no cleanup function: the harness frees it in the end
            hx::count("stores");
        }
        bool top; { vrt::Quiet q; top = M->t(me).nest == 0; }
        if (top) check_get(o);
    });
}
static void do_release(int s)
{
    with_slot(s, [&](Obj& o)
    {
        int me = vrt::self(), e; { vrt::Quiet q; e = expected(me, o.id); }
        Val* p = o.ptr.release();
        {
            vrt::Quiet q;
            e = forgotten(e, p, o.id);
            Val* ep = e < 0 ? nullptr : M->vals[e].p;
            if (p != ep) vrt::soft("wrong-value", "release() returned the wrong pointer");
            if (e >= 0) { M->vals[e].st = RELEASED; M->cur.erase({ me, o.id }); hx::count("releases"); }
        }
        if (p) user_delete(p);
        check_get(o);
    });
}
static void do_same(int s)
{
    with_slot(s, [&](Obj& o) { Val* p = o.ptr.get(); o.ptr.reset(p); check_get(o); });
}
static void do_create(int s)
{
    int id, fn; { vrt::Quiet q; id = (int)M->objs.size(); fn = (int)R->n(6); M->objs.push_back(OInfo{ fn, -1, false }); }
    Obj* o = fn == FN_DEFAULT ? new Obj(id) : fn == FN_NULL ? new Obj(id, (void (*)(Val*))0) : new Obj(id, fns[fn]);
    hx::count("objects");
    check_get(*o);
    Obj* none = nullptr;
    if (!S->slots[s].p.compare_exchange_strong(none, o, std::memory_order_release, std::memory_order_relaxed)) { delete o; vrt::Quiet q; M->objs[id].dead = true; }
}
static void do_destroy(int s)
{
    { vrt::Quiet q; if (M->t(vrt::self()).depth) return; } // would wait for itself
    Obj* o = S->slots[s].p.exchange(nullptr, std::memory_order_acq_rel);
    if (!o) return;
    while (S->slots[s].users.load(std::memory_order_acquire)) vrt::yield();
    int id = o->id;
    { vrt::Quiet q; M->objs[id].destroyer = vrt::self(); vrt::log("destroying object %d", id); }
    delete o;
    vrt::Quiet q;
    M->objs[id].dead = true;
    hx::count("objects_destroyed");
    for (size_t i = 0; i < M->vals.size(); ++i)
    {
        VInfo& v = M->vals[i];
        if (v.obj != id || v.st != STORED) continue;
        if (v.fn == FN_NULL) { v.st = RELEASED; M->cur.erase({ v.tid, id }); continue; }
        TInfo& t = M->t(v.tid);
        if (t.exiting && !t.joined) { hx::count("cleanups_racing_destruction"); continue; } // the ending thread may be about to clean it up
        vrt::soft("cleanup-missing", "value %d (stored by T%d) has not been cleaned up by the destruction of object %d", (int)i, v.tid, id);
    }
    for (auto it = M->cur.begin(); it != M->cur.end();) if (it->first.second == id) it = M->cur.erase(it); else ++it;
}
static void touch() // plain data: "everything the thread did before, including its cleanups"
{
    int me = vrt::self();
    if (me < 64) { S->witness[me]++; vrt::Quiet q; M->t(me).touches++; }
}

// ---------------------------------------------------------------- at_thread_exit
struct Fn
{
    int id; char pad[20];
    explicit Fn(int i) : id(i) { vrt::Quiet q; ++M->live_fns; }
    Fn(Fn const& o) : id(o.id) { vrt::Quiet q; ++M->live_fns; }
    ~Fn() { vrt::Quiet q; --M->live_fns; if (id < 0) vrt::fail("exit-twice", "function object destroyed twice"); id = -1; }
    void operator()() const;
};
static void do_notify(int k);
static void do_atexit(int nkids, int act, int parent, int parent_val)
{
    int id;
    {
        vrt::Quiet q; id = (int)M->fun.size();
        bool fc = parent_val >= 0 || (parent >= 0 && M->fun[parent].from_clean);
        M->fun.push_back(FInfo{ vrt::self(), parent, parent_val, 0, fc, true, {}, nkids, act });
        if (parent >= 0) M->fun[parent].kids.push_back(id);
        else if (parent_val >= 0) M->vals[parent_val].kids.push_back(id);
        else M->t(vrt::self()).initial.push_back(id);
    }
    bool thrown = attempt(0.4, [&] { at_thread_exit(Fn(id)); }), notify_now = false;
    {
    vrt::Quiet q;
    if (thrown)
    {
        M->fun[id].registered = false;
        std::vector< int >& l = parent >= 0 ? M->fun[parent].kids : parent_val >= 0 ? M->vals[parent_val].kids : M->t(vrt::self()).initial;
        l.pop_back();
        hx::count("failed_registrations");
        notify_now = act >= 200;
    }
    else hx::count("registrations");
    }
    if (notify_now) do_notify(act - 200);
}
static void step(Step const& st);
static int slot_of(int obj, int otherwise) // the slot that holds the object
{
    vrt::Quiet q;
    for (size_t i = 0; i < S->slots.size(); ++i) { Obj* o = S->slots[i].p.load(std::memory_order_relaxed); if (o && o->id == obj) return (int)i; }
    return otherwise;
}
void Fn::operator()() const
{
    int nk, act;
    {
        vrt::Quiet q;
        if (id < 0 || id >= (int)M->fun.size()) vrt::fail("exit-twice", "a destroyed function object was called");
        FInfo& f = M->fun[id];
        TInfo& t = M->t(f.tid);
        vrt::log("at_thread_exit function %d of T%d", id, f.tid);
        if (vrt::self() != f.tid) vrt::soft("exit-thread", "function %d registered by T%d was called in T%d", id, f.tid, vrt::self());
        if (!f.registered) vrt::fail("exit-twice", "function %d was called although its registration failed", id);
        if (!t.exiting) vrt::soft("exit-order", "function %d was called before the thread ended", id);
        if (f.ran++) vrt::fail("exit-twice", "function %d was called twice", id);
        std::vector< int >& l = f.parent >= 0 ? M->fun[f.parent].kids : f.parent_val >= 0 ? M->vals[f.parent_val].kids : t.initial;
        for (size_t i = l.size(); i-- > 0;) { if (l[i] == id) break; if (!M->fun[l[i]].ran) vrt::soft("exit-order", "function %d was called before function %d, which was registered later", id, l[i]); }
        if (!f.from_clean && t.clean_started) vrt::soft("exit-values", "function %d was called after thread-specific values of its thread had been destroyed", id);
        hx::count("exit_functions_run");
        nk = f.nkids; act = f.act;
    }
    touch();
    for (int i = 0; i < nk; ++i) do_atexit(R->p(0.3) ? 1 : 0, (int)R->n(6), id, -1);
    if (act >= 200) { do_notify(act - 200); hx::count("notifications_scheduled_at_exit"); }
    else if (act > 100) do_atexit(0, act - 1, id, -1); // a chain
    Step x = { 0, (int)R->n(S->slots.size()), 0 };
    switch (act)
    {
    case 0: x.op = GETALL; step(x); break;
    case 1: x.op = SET; step(x); break;
    case 2: x.op = RESET0; step(x); break;
    case 3: x.op = R->p(0.5) ? DESTROY : CREATE; step(x); break;
    default: break;
    }
}

// ---------------------------------------------------------------- cleanup functions
static void on_cleanup(Val* v, int fn, bool in_dtor)
{
    int spec, id, tid, obj; bool exit_window;
    {
        vrt::Quiet q;
        auto it = M->by.find(v);
        if (it == M->by.end()) vrt::fail("cleanup-wrong", "cleanup of an unknown pointer");
        id = it->second;
        VInfo& i = M->vals[id];
        obj = i.obj;
        if (in_dtor && i.freeing) { i.freeing = false; M->by.erase(it); return; }
        int me = vrt::self(); tid = i.tid;
        OInfo& o = M->objs[i.obj];
        vrt::log("cleanup of value %d of object %d (stored by T%d)", id, i.obj, i.tid);
        if (i.st == CLEANED) vrt::fail("cleanup-twice", "value %d of object %d is cleaned up twice", id, i.obj);
        if (i.st == RELEASED) vrt::soft("cleanup-unexpected", "value %d of object %d is cleaned up after it was released", id, i.obj);
        if (i.st == FRESH) vrt::soft("cleanup-unexpected", "value %d of object %d is cleaned up although it couldn't be stored", id, i.obj);
        if (fn != o.fn) vrt::soft("cleanup-wrong", "value %d of object %d is passed to the wrong cleanup function", id, i.obj);
        exit_window = me == i.tid && M->t(me).exiting;
        bool reset_window = me == i.tid && M->t(me).resetting == id, destroy_window = o.destroyer == me && !o.dead;
        if (!exit_window && !reset_window && !destroy_window) vrt::soft("cleanup-unexpected", "value %d of object %d is cleaned up by T%d though it is still in use", id, i.obj, me);
        i.st = CLEANED;
        if (!reset_window && !destroy_window) M->t(me).clean_started = true;
        if (!reset_window) M->cur.erase({ i.tid, i.obj });
        hx::count(reset_window ? "cleanups_by_reset" : destroy_window ? "cleanups_by_destruction" : "cleanups_at_exit");
        spec = i.spec;
    }
    if (vrt::self() == tid) touch();
    { vrt::Quiet q; ++M->t(vrt::self()).nest; }
    int save; { vrt::Quiet q; save = M->t(vrt::self()).resetting; }
    if (spec > 0)
    {
        Step x = { SET, (int)R->n(S->slots.size()), spec - 1 };
        int k = (int)R->n(4);
        bool in_op; { vrt::Quiet q; in_op = M->t(vrt::self()).depth > 0; }
        if (in_op) { x.op = R->pick({ SET, SET, GET, RESET0, RELEASE, SAME }); if (R->p(0.5)) x.slot = slot_of(obj, x.slot); }
        if (k == 0 && exit_window && !in_op) do_atexit(0, 5, -1, id);
        else if (!in_op || !alloc_faults) step(x);
    }
    { vrt::Quiet q; M->t(vrt::self()).resetting = save; --M->t(vrt::self()).nest; }
    if (!in_dtor) { { vrt::Quiet q; M->vals[id].freeing = true; } delete v; }
    else { vrt::Quiet q; M->by.erase(v); }
}
static void do_notify(int k)
{
    if (alloc_faults && R->p(0.5))
    {
        // A failed attempt leaves the mutex unlocked; after a successful one it is still owned by this thread
        unique_lock< mutex > l(*S->pairs[k].m);
        if (!attempt(0.7, [&] { notify_all_at_thread_exit(*S->pairs[k].cv, boost::move(l)); }))
        {
            S->pairs[k].done.push_back(vrt::self());
            hx::count("exit_notifications");
            return;
        }
        hx::count("failed_exit_notifications");
        if (l.owns_lock()) l.unlock();
    }
    unique_lock< mutex > l(*S->pairs[k].m);
    S->pairs[k].done.push_back(vrt::self());
    hx::count("exit_notifications");
    notify_all_at_thread_exit(*S->pairs[k].cv, boost::move(l));
}
static void step(Step const& st)
{
    switch (st.op)
    {
    case GET: with_slot(st.slot, [](Obj& o) { check_get(o); }); break;
    case GETALL: for (size_t i = 0; i < S->slots.size(); ++i) with_slot((int)i, [](Obj& o) { check_get(o); }); break;
    case SET: do_set(st.slot, false, st.arg); break;
    case RELEASE: do_release(st.slot); break;
    case RESET0: do_set(st.slot, true, 0); break;
    case SAME: do_same(st.slot); break;
    case CREATE: do_create(st.slot); break;
    case DESTROY: do_destroy(st.slot); break;
    case ATEXIT: do_atexit(st.arg & 3, st.arg >> 2, -1, -1); break;
    case NOTIFY: do_notify(st.slot); break;
    case BARRIER: { { vrt::Quiet q; ++S->arrived; } int n = st.arg; vrt::gate([n] { return S->arrived >= n; }); } break;
    default: vrt::yield(); break;
    }
}
// Everything the thread left behind has been dealt with
static void all_gone(int tid, const char* when)
{
    vrt::Quiet q;
    for (size_t i = 0; i < M->vals.size(); ++i)
    {
        VInfo& v = M->vals[i];
        if (v.tid != tid || v.st != STORED || v.fn == FN_NULL) continue;
        OInfo& o = M->objs[v.obj];
        if (o.destroyer >= 0 && !o.dead) continue; // being done by the destroying thread
        vrt::soft("cleanup-missing", "value %d of object %d (stored by T%d) has not been cleaned up %s", (int)i, v.obj, tid, when);
    }
    for (size_t i = 0; i < M->fun.size(); ++i)
        if (M->fun[i].tid == tid && M->fun[i].registered && M->fun[i].ran != 1) vrt::soft("exit-missing", "at_thread_exit function %d of T%d has not been called %s", (int)i, tid, when);
}

struct Prog { std::vector< Step > s; };
struct Waiter { int pair, form; };
static const auto FOREVER = std::chrono::hours(1000);

// Objects and threads that come and go, one after the other, leave nothing behind
static void churn_case(hx::Rng& r)
{
    vrt::Options o = hx::options(r);
    o.p_spurious = 0; o.storm_spurious = 0; o.p_jump = 0; o.strategy = 1; o.p_switch = 0.01; o.max_steps = 20000000; o.stack_size = 64 * 1024;
    bool objects = r.p(0.5); int n = objects ? (int)r.pick({ 200, 1000 }) : (int)r.pick({ 40, 120 }), per = (int)r.in(0, 3), keep = (int)r.in(0, 5);
    vrt::deadlock_kind = nullptr;
    hx::execute_forked(o, hx::fmt("%d %s one after the other, %d kept", n, objects ? "objects" : "threads", keep), [&]
    {
        { vrt::Quiet q; alloc_faults = false; M = new Model(); }
        struct Plain { static void free_(int* p) { delete p; } static void fn() {} };
        typedef thread_specific_ptr< int > P;
        std::vector< P* > kept;
        for (int i = 0; i < keep; ++i) { kept.push_back(new P(&Plain::free_)); kept.back()->reset(new int(i)); }
        auto one = [&](int i)
        {
            if (objects)
            {
                P* p = new P(i & 1 ? &Plain::free_ : 0);
                if (p->get()) vrt::soft("wrong-value", "a new object isn't empty");
                int v = 0; int* q = i & 1 ? new int(i) : &v;
                p->reset(q);
                if (p->get() != q) vrt::soft("wrong-value", "get() returned the wrong pointer");
                delete p;
            }
            else
            {
                int t = vrt::spawn([&]
                {
                    for (int k = 0; k < per; ++k) at_thread_exit(&Plain::fn);
                    for (P* p : kept) { if (p->get()) vrt::soft("wrong-value", "an object isn't empty in a new thread"); p->reset(new int(7)); }
                });
                vrt::join(t);
            }
        };
        for (int i = 0; i < 10; ++i) one(i);
        size_t b0 = vrt::live_blocks(), y0 = vrt::live_bytes();
        for (int i = 0; i < n; ++i) one(i);
        size_t b1 = vrt::live_blocks(), y1 = vrt::live_bytes();
        if (b1 > b0 + 8 || y1 > y0 + 1024) vrt::soft("leak", "%d more heap blocks, %d more bytes after %d %s came and went", (int)(b1 - b0), (int)(y1 - y0), n, objects ? "objects" : "threads");
        hx::count("churned", n);
        for (P* p : kept) delete p;
        hx::nontrivial();
    });
}

void one_case(hx::Rng& r, std::string const& mode, uint64_t index)
{
    if (mode == "C18" && index % 50 == 49) { churn_case(r); return; }
    vrt::Options o = hx::options(r);
    bool c13 = mode == "C13", c14 = mode == "C14", c15 = mode == "C15", c16 = mode == "C16", c18 = mode == "C18";
    o.switch_on_plain = r.p(0.35);
    o.races = c16 || c18 || r.p(0.2);
    o.p_spurious = 0; o.storm_spurious = 0; o.p_jump = 0; o.spin_time = false;
    o.max_steps = 3000000;
    alloc_faults = (c15 || c16) && r.p(c15 ? 0.4 : 0.25);
    int nslots = r.p(0.15) ? (int)r.in(8, 40) : (int)r.in(1, 4);
    if (r.p(0.01)) nslots = (int)r.pick({ 70, 140, 300, 600 });
    if (nslots > 40) o.max_steps = 50000000;
    bool heavy = r.p(0.03); // many values, functions and generations of values per thread
    int waves = (int)r.in(1, c18 ? 2 : 3);
    int npairs = c16 || (c18 && r.p(0.4)) ? (int)r.in(1, 3) : 0;
    bool many_pairs = c16 && r.p(0.04); // notifications per thread
    if (many_pairs) { npairs = (int)r.in(5, 16); waves = 1; }
    bool crowd = (c13 || c14) && r.p(0.03); // threads that have values of the same objects when these are destroyed
    if (crowd) { waves = 1; heavy = false; if (nslots > 4) nslots = 4; }
    // Sometimes the pairs share their condition variable (then all waiters use the same mutex) or their mutex (then a thread locks one of them only)
    int sharing = npairs > 1 && r.p(0.4) ? (int)r.in(1, 2) : 0, waited = (int)r.n(npairs ? npairs : 1);
    std::string what = hx::fmt("%d slots%s%s:", nslots, alloc_faults ? ", failing calls" : "", sharing == 1 ? ", one condition variable" : sharing == 2 ? ", one mutex" : "");
    std::vector< std::vector< Prog > > progs(waves);
    std::vector< std::vector< Waiter > > waiters(waves);
    std::vector< std::vector< int > > nnot(waves, std::vector< int >(16, 0));
    for (int w = 0; w < waves; ++w)
    {
        int nt = (int)r.in(1, c16 || c18 ? 3 : 4);
        if (crowd) nt = (int)r.in(5, 22);
        int victims = crowd ? (int)r.in(1, nslots) : 0; bool stay = r.p(0.7);
        for (int t = 0; t < nt; ++t)
        {
            Prog p; int n = (int)r.in(1, c16 ? 4 : 9);
            if (heavy) n = (int)r.in(10, 120);
            if (crowd) n = (int)r.in(0, 3);
            what += hx::fmt(" [");
            if (crowd)
            {
                for (int k = 0; k < victims; ++k) if (r.p(0.9)) p.s.push_back(Step{ SET, k, 0 });
                p.s.push_back(Step{ BARRIER, 0, nt });
                if (t == 0) for (int k = 0; k < victims; ++k) { p.s.push_back(Step{ DESTROY, k, 0 }); if (r.p(0.4)) p.s.push_back(Step{ CREATE, k, 0 }); }
                if (stay) p.s.push_back(Step{ BARRIER, 0, 2 * nt });
                what += hx::fmt("(set %d, all, %s%s) ", victims, t ? "-" : "delete", stay ? ", all" : "");
            }
            for (int k = 0; k < n; ++k)
            {
                Step st = { GET, (int)r.n(nslots), 0 };
                int x = (int)r.n(100);
                if (c15 ? x < 45 : c16 ? x < 30 : x < 6) { st.op = ATEXIT; st.arg = (int)(r.p(0.4) ? r.in(1, 3) : 0) | (int)r.n(8) << 2; if (r.p(0.01)) st.arg = (100 + (int)r.pick({ 3, 6, 12, 40 })) << 2; }
                else
                {
                    int y = (int)r.n(100);
                    if (y < 38) { st.op = SET; st.arg = r.p(c13 ? 0.1 : 0.35) ? (int)r.in(1, heavy ? 14 : 3) : 0; }
                    else if (y < (c13 ? 62 : 48)) st.op = r.p(0.6) ? GETALL : GET;
                    else if (y < 70) st.op = CREATE;
                    else if (y < 85) st.op = DESTROY;
                    else if (y < 89) st.op = RELEASE;
                    else if (y < 93) st.op = RESET0;
                    else if (y < 96) st.op = SAME;
                    else st.op = YIELD;
                }
                p.s.push_back(st);
                what += hx::fmt("%s%s%d", k ? " " : "", step_names[st.op], st.slot);
            }
            int only = sharing == 2 ? (int)r.n(npairs) : -1;
            if (npairs) for (int k = 0; k < npairs; ++k) if (r.p(many_pairs ? 0.9 : 0.6) && (only < 0 || k == only))
            {
                Step st = { NOTIFY, k, 0 };
                p.s.push_back(st); ++nnot[w][k]; what += hx::fmt(" notify%d", k);
                if (r.p(0.4)) { Step s2 = { r.p(0.5) ? SET : ATEXIT, (int)r.n(nslots), 0 }; if (s2.op == ATEXIT) s2.arg = 5 << 2; p.s.push_back(s2); }
            }
            if (npairs && r.p(0.3))
            {
                // a notification scheduled while the thread is ending already (of a pair later in the order in which the locks are taken)
                int last = -1; for (Step const& st : p.s) if (st.op == NOTIFY) last = st.slot;
                if (last + 1 < npairs && !(sharing == 2 && last >= 0))
                {
                    int k = (int)r.in(last + 1, npairs - 1);
                    p.s.insert(p.s.begin() + (last < 0 ? r.n(p.s.size() + 1) : p.s.size()), Step{ ATEXIT, 0, (200 + k) << 2 });
                    ++nnot[w][k]; what += hx::fmt(" atexit-notify%d", k);
                }
            }
            what += "]";
            progs[w].push_back(p);
        }
        if (npairs) { int nw = many_pairs ? (int)r.in(4, 14) : (int)r.in(1, c18 ? 2 : 3); for (int i = 0; i < nw; ++i) waiters[w].push_back(Waiter{ sharing == 1 ? waited : (int)r.n(npairs), (int)r.n(4) }); what += hx::fmt(" %d waiters", nw); }
        what += " /";
    }
    bool init_all = alloc_faults || r.p(0.7); // allocation failure in the very first use is documented to abort
    hx::Rng inner(r.u());
    vrt::deadlock_kind = nullptr;
    hx::execute_forked(o, what, [&]
    {
        { vrt::Quiet q; M = new Model(); R = &inner; S = new Shared_(nslots); for (int k = 1; k < npairs; ++k) { if (sharing == 1) S->pairs[k].cv = S->pairs[0].cv; if (sharing == 2) S->pairs[k].m = S->pairs[0].m; } }
        if (init_all) for (int i = 0; i < nslots; ++i) do_create(i);
        size_t most_blocks = 0; int grown = 0, per_round = 0, rounds = c18 ? 2 : 1;
        for (int w = 0; w < waves; ++w) per_round += (int)(progs[w].size() + waiters[w].size());
        bool can_repeat = per_round * 6 < 32; // the race detector can't follow more threads
        if (c18) { thread_specific_ptr< int > t(nullptr); int i; t.reset(&i); t.reset(); } // the main thread's own context
        for (int round = 0; round < rounds; ++round)
        {
            for (int w = 0; w < waves; ++w)
            {
                std::vector< int > ids, wids;
                for (auto& p : progs[w])
                {
                    int id = vrt::spawn([&p] { for (Step const& st : p.s) step(st); { vrt::Quiet q; M->t(vrt::self()).exiting = true; } });
                    vrt::Quiet q; ids.push_back(id);
                }
                for (auto& wt : waiters[w])
                {
                    int need = nnot[w][wt.pair];
                    int id = vrt::spawn([&wt, need]
                    {
                        Pair& p = S->pairs[wt.pair];
                        unique_lock< mutex > l(*p.m);
                        auto enough = [&]
                        {
                            // whoever has announced its end has ended by the time its lock can be taken
                            for (int t : p.done)
                            {
                                { vrt::Quiet q; if (!M->t(t).exiting) vrt::soft("early-unlock", "the lock that T%d handed to its end was free before it ended", t); }
                                all_gone(t, "by the time the mutex is released to those waiting for the end of the thread");
                                int seen = S->witness[t];
                                vrt::Quiet q;
                                if (seen != M->t(t).touches) vrt::soft("early-unlock", "a thread waiting for the end of T%d saw %d of its %d actions", t, seen, M->t(t).touches);
                                hx::count("ends_observed");
                            }
                            return (int)p.done.size() >= need;
                        };
                        bool ok = true;
                        if (wt.form == 0) p.cv->wait(l, enough);
                        else if (wt.form == 1) while (!enough()) p.cv->wait(l);
                        else if (wt.form == 2) ok = p.cv->wait_for(l, FOREVER, enough);
                        else while (!enough() && ok) ok = p.cv->wait_for(l, FOREVER) == cv_status::no_timeout || enough();
                        if (!ok) vrt::soft("lost", "a waiter missed the notification at thread exit");
                    });
                    vrt::Quiet q; wids.push_back(id);
                }
                if (R->p(0.3)) do_destroy((int)R->n(nslots));
                for (int id : ids) { vrt::join(id); all_gone(id, "at the end of its thread"); vrt::Quiet q; M->t(id).joined = true; }
                for (int id : wids) vrt::join(id);
                for (int k = 0; k < npairs; ++k) { unique_lock< mutex > l(*S->pairs[k].m); S->pairs[k].done.clear(); }
            }
            if (c18)
            {
                { unique_lock< mutex > l(*S->pairs[0].m); }
                for (int i = 0; i < nslots; ++i) do_destroy(i);
                { vrt::Quiet q; for (size_t i = 0; i < M->vals.size(); ++i) if (M->vals[i].fn == FN_NULL && M->vals[i].st != CLEANED && M->by.count(M->vals[i].p)) { M->vals[i].freeing = true; delete M->vals[i].p; M->vals[i].st = CLEANED; } }
                // What is left belongs to the manager. It may grow for a while, as the threads run differently each time, but not on and on.
                size_t now = vrt::live_blocks();
                if (round) hx::count("leak_checks");
                if (round && now > most_blocks + (round == 1 ? 2 : 0)) { ++grown; rounds = can_repeat ? 6 : 2; }
                if (grown >= 5) { vrt::soft("leak", "%d heap blocks more after the same work was done again and again", (int)(now - most_blocks)); rounds = 0; }
                if (now > most_blocks) most_blocks = now;
            }
        }
        for (int i = 0; i < nslots; ++i) do_destroy(i);
        vrt::Quiet q;
        for (size_t i = 0; i < M->vals.size(); ++i) if (M->vals[i].st == STORED && M->vals[i].fn != FN_NULL) must_be_clean((int)i, "in the end");
        if (M->live_fns) vrt::soft("leak-function", "%d copies of functions passed to at_thread_exit have not been destroyed", M->live_fns);
        hx::nontrivial();
    });
}
