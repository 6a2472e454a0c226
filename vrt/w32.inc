// Model of the part of the Windows API that fake/win/w32.hpp declares. Included at the end of vrt.cpp.
namespace vrt {
enum { W_EVENT, W_SEM, W_TIMER, W_THREAD };
enum { WE_INVALID_HANDLE = 6, WE_INVALID_PARAMETER = 87, WE_ALREADY_EXISTS = 183, WE_FILE_NOT_FOUND = 2, WE_TOO_MANY_POSTS = 298, WE_TIMEOUT = 258 };
struct WObj
{
    int kind = 0, refs = 0, tid = -1;
    bool manual = false, sig = false, armed = false, named = false;
    long count = 0, max = 0;
    int clk = CLK_NONE; i128 due = 0;
    VC vc;
    std::wstring name;
};
struct WWaiter { std::vector< int > objs; int got = -1; };
struct WReg { int obj; void (*f)(void*, unsigned char); void* ctx; };
static std::map< int, WObj > w_objs;          // by object id
static std::map< uintptr_t, int > w_handles;  // open handle -> object
static std::map< int, WWaiter* > w_waits;     // by thread
static std::map< uintptr_t, WReg > w_regs;
static std::map< std::pair< int, unsigned >, void* > w_tls;
static std::vector< bool > w_keys(1, false);  // key 0 isn't used, to tell it from "no key"
static std::map< int, unsigned > w_err;
static std::map< long*, int > w_onces;
static int w_next_obj = 1;
static uintptr_t w_next_handle = 0x10004;

void (*w32_thread_exit)() = nullptr;
void (*w32_reset_library)() = nullptr;
size_t open_handles()
{
    size_t n = 0;
    for (auto& h : w_handles) { auto it = w_objs.find(h.second); if (it != w_objs.end() && !it->second.named) ++n; }
    return n;
}
static int wtid() { return cur ? cur->tid : -1; }
static void w_set_err(unsigned e) { w_err[wtid()] = e; }
static uintptr_t w_open(int obj)
{
    ++w_objs[obj].refs;
    uintptr_t h = w_next_handle; w_next_handle += 4;
    w_handles[h] = obj;
    return h;
}
static void* w_create(WObj const& o) { int id = w_next_obj++; w_objs[id] = o; if (cur) hb_release(w_objs[id].vc); return (void*)w_open(id); }
static WObj& w_get(void* h, const char* fn, int kind = -1)
{
    auto it = w_handles.find((uintptr_t)h);
    if (it == w_handles.end()) fail("misuse", "%s on a closed or invalid handle %p", fn, h);
    WObj& o = w_objs[it->second];
    if (kind >= 0 && o.kind != kind) fail("misuse", "%s on a handle of another kind", fn);
    return o;
}
static int w_id(void* h) { return w_handles[(uintptr_t)h]; }
static i128 w_due_mono(WObj const& o) { return o.clk == CLK_REAL ? o.due - real_off : o.due; }
static bool w_ready(WObj& o)
{
    if (o.kind == W_TIMER && o.armed && w_due_mono(o) <= vtime) { o.armed = false; o.sig = true; }
    return o.kind == W_SEM ? o.count > 0 : o.sig;
}
static void w_consume(WObj& o)
{
    if (o.kind == W_SEM) --o.count;
    else if (!o.manual && o.kind != W_THREAD) o.sig = false;
    hb_acquire(o.vc);
}
// Hand one signal to a blocked thread. Returns false if nobody waits for the object.
static bool w_hand(int id)
{
    int c[64], n = 0;
    for (auto& w : w_waits)
        if (threads[w.first]->state == Thread::BLOCKED && threads[w.first]->bkind == K_WWAIT && w.second->got < 0 && n < 64)
            if (std::find(w.second->objs.begin(), w.second->objs.end(), id) != w.second->objs.end()) c[n++] = w.first;
    if (!n) return false;
    int t = c[srnd(n)];
    w_waits[t]->got = id;
    wake(threads[t], W_WOKEN);
    mix(t);
    return true;
}
static void w_signal_thread(Thread* t)
{
    // the end of a thread
    for (auto& e : w_objs)
        if (e.second.kind == W_THREAD && e.second.tid == t->tid)
        {
            e.second.sig = true; hb_release(e.second.vc);
            while (w_hand(e.first)) {}
        }
}
static void w32_end_of_thread(Thread* t)
{
    if (w32_thread_exit && t->tid != 0) w32_thread_exit();
    for (;;)
    {
        WReg r; bool found = false;
        {
            RT rt;
            for (auto it = w_regs.begin(); it != w_regs.end(); ++it)
            {
                auto o = w_objs.find(it->second.obj);
                if (o != w_objs.end() && o->second.kind == W_THREAD && o->second.tid == t->tid) { r = it->second; it->second.obj = -1; found = true; break; }
            }
            if (found) log("registered wait callback");
        }
        if (!found) break;
        r.f(r.ctx, 0);
    }
    RT rt;
    w_signal_thread(t);
    for (auto it = w_tls.begin(); it != w_tls.end();) if (it->first.first == t->tid) it = w_tls.erase(it); else ++it;
}
static void w32_start_run()
{
    if (w32_reset_library)
    {
        // every run starts as a new process does
        w32_reset_library();
        w_handles.clear(); w_objs.clear(); w_keys.clear();
    }
    w_waits.clear(); w_regs.clear(); w_err.clear(); w_tls.clear();
    for (auto it = w_handles.begin(); it != w_handles.end();) if (!w_objs[it->second].named) it = w_handles.erase(it); else ++it;
    for (auto it = w_objs.begin(); it != w_objs.end();) if (!it->second.named) it = w_objs.erase(it); else { it->second.vc = VC(); ++it; }
    w_next_handle = 0x10004 + (srnd(1000) * 4);
    while (!w_handles.empty() && w_next_handle <= w_handles.rbegin()->first) w_next_handle += 4;
}
static void w_enter(int kind, void* h) { ++stats.os_calls; if (active && cur && cur->quiet == 0) sched_point(kind, h); }
}
#define W_INJECT(name, fail_value) do { if (int inj_e = injected(name)) { w_set_err((unsigned)inj_e); return fail_value; } } while (0)

extern "C" {
unsigned w32_GetLastError(void) { RT rt; return w_err[wtid()]; }
void* w32_CreateEvent(int manual, int initial)
{
    w_enter(K_OTHER, nullptr); RT rt;
    W_INJECT("CreateEvent", nullptr);
    WObj o; o.kind = W_EVENT; o.manual = manual; o.sig = initial;
    w_set_err(0);
    return w_create(o);
}
void* w32_CreateSemaphore(long initial, long max, const wchar_t* name)
{
    w_enter(K_OTHER, nullptr); RT rt;
    W_INJECT(name ? "CreateNamedSemaphore" : "CreateSemaphore", nullptr);
    if (name) for (auto& e : w_objs) if (e.second.named && e.second.name == name) { w_set_err(WE_ALREADY_EXISTS); return (void*)w_open(e.first); }
    if (initial < 0 || max <= 0 || initial > max) { w_set_err(WE_INVALID_PARAMETER); return nullptr; }
    WObj o; o.kind = W_SEM; o.count = initial; o.max = max;
    if (name) { o.named = true; o.name = name; }
    w_set_err(0);
    return w_create(o);
}
void* w32_OpenSemaphore(const wchar_t* name)
{
    w_enter(K_OTHER, nullptr); RT rt;
    W_INJECT("OpenSemaphore", nullptr);
    for (auto& e : w_objs) if (e.second.named && e.second.name == name) { w_set_err(0); return (void*)w_open(e.first); }
    w_set_err(WE_FILE_NOT_FOUND);
    return nullptr;
}
void* w32_CreateTimer(int manual)
{
    w_enter(K_OTHER, nullptr); RT rt;
    W_INJECT("CreateTimer", nullptr);
    WObj o; o.kind = W_TIMER; o.manual = manual;
    w_set_err(0);
    return w_create(o);
}
int w32_CloseHandle(void* h)
{
    if (!active) { w_handles.erase((uintptr_t)h); return 1; }
    w_enter(K_OTHER, h); RT rt;
    WObj& o = w_get(h, "CloseHandle");
    int id = w_id(h);
    w_handles.erase((uintptr_t)h);
    if (--o.refs == 0)
    {
        for (auto& w : w_waits)
            if (w.second->got < 0 && std::find(w.second->objs.begin(), w.second->objs.end(), id) != w.second->objs.end()) fail("misuse", "a handle is closed while a thread is blocked on it");
        w_objs.erase(id);
    }
    return 1;
}
int w32_SetEvent(void* h)
{
    w_enter(K_SEMPOST, h); RT rt;
    WObj& o = w_get(h, "SetEvent", W_EVENT);
    W_INJECT("SetEvent", 0);
    hb_release(o.vc);
    int id = w_id(h);
    if (o.manual) { o.sig = true; while (w_hand(id)) {} }
    else if (!o.sig && !w_hand(id)) o.sig = true;
    return 1;
}
int w32_ResetEvent(void* h)
{
    w_enter(K_SEMPOST, h); RT rt;
    WObj& o = w_get(h, "ResetEvent", W_EVENT);
    W_INJECT("ResetEvent", 0);
    o.sig = false;
    return 1;
}
int w32_ReleaseSemaphore(void* h, long n, long* prev)
{
    w_enter(K_SEMPOST, h); RT rt;
    WObj& o = w_get(h, "ReleaseSemaphore", W_SEM);
    W_INJECT("ReleaseSemaphore", 0);
    if (n <= 0) { w_set_err(WE_INVALID_PARAMETER); return 0; }
    if (o.count > o.max - n) { w_set_err(WE_TOO_MANY_POSTS); return 0; }
    if (prev) *prev = o.count;
    hb_release(o.vc);
    int id = w_id(h);
    while (n > 0 && w_hand(id)) --n;
    o.count += n;
    return 1;
}
int w32_SetWaitableTimer(void* h, int64_t due)
{
    w_enter(K_TIME, h); RT rt;
    WObj& o = w_get(h, "SetWaitableTimer", W_TIMER);
    W_INJECT("SetWaitableTimer", 0);
    o.sig = false; o.armed = true;
    if (due > 0) { o.clk = CLK_REAL; o.due = ((i128)due - (i128)116444736000000000ll) * 100; }
    else { o.clk = CLK_MONO; o.due = vtime + (i128)(-(i128)due) * 100; }
    return 1;
}
unsigned w32_WaitForMultipleObjects(unsigned n, void* const* h, int all, unsigned ms)
{
    const char* fn = n == 1 ? "WaitForSingleObject" : "WaitForMultipleObjects";
    w_enter(K_SEMWAIT, n ? h[0] : nullptr); RT rt;
    if (all || !n) unsupported("WaitForMultipleObjects with bWaitAll");
    WWaiter w;
    for (unsigned i = 0; i < n; ++i) { w_get(h[i], fn); w.objs.push_back(w_id(h[i])); }
    W_INJECT(fn, 0xFFFFFFFFu);
    i128 end = vtime + (i128)ms * 1000000;
    vtime += 20000; // a system call takes a while
    for (;;)
    {
        for (unsigned i = 0; i < n; ++i)
        {
            WObj& o = w_objs[w.objs[i]];
            if (w_ready(o)) { w_consume(o); mix(i); return i; }
        }
        if (ms == 0 || (ms != 0xFFFFFFFFu && end <= vtime)) { mix(WE_TIMEOUT); return WE_TIMEOUT; }
        // the first of the deadlines
        int clk = CLK_NONE, first = -1; i128 dl = 0, m = 0;
        if (ms != 0xFFFFFFFFu) { clk = CLK_MONO; dl = m = end; }
        for (unsigned i = 0; i < n; ++i)
        {
            WObj& o = w_objs[w.objs[i]];
            if (o.kind == W_TIMER && o.armed && (clk == CLK_NONE || w_due_mono(o) < m)) { clk = o.clk; dl = o.due; m = w_due_mono(o); first = (int)i; }
        }
        w.got = -1;
        w_waits[cur->tid] = &w;
        Wake cause = block(K_WWAIT, h[0], clk, dl, false, false);
        w_waits.erase(cur->tid);
        if (w.got >= 0)
        {
            hb_acquire(w_objs[w.got].vc);
            for (unsigned i = 0; i < n; ++i) if (w.objs[i] == w.got) { mix(i); return i; }
        }
        if (cause == W_TIMEOUT)
        {
            // the wait has ended when the time passed: objects signalled since then, before the thread runs, stay signalled
            if (first < 0) { mix(WE_TIMEOUT); return WE_TIMEOUT; }
            WObj& o = w_objs[w.objs[first]];
            if (w_ready(o)) { w_consume(o); mix(first); return (unsigned)first; }
        }
    }
}
int w32_DuplicateHandle(void* h, void** res)
{
    w_enter(K_OTHER, nullptr); RT rt;
    W_INJECT("DuplicateHandle", 0);
    if (h == (void*)(intptr_t)-2)
    {
        for (auto& e : w_objs) if (e.second.kind == W_THREAD && e.second.tid == wtid()) { *res = (void*)w_open(e.first); return 1; }
        WObj o; o.kind = W_THREAD; o.tid = wtid(); o.manual = true;
        *res = w_create(o);
        return 1;
    }
    w_get(h, "DuplicateHandle");
    *res = (void*)w_open(w_id(h));
    return 1;
}
int w32_RegisterWait(void** res, void* h, void (*f)(void*, unsigned char), void* ctx)
{
    w_enter(K_OTHER, nullptr); RT rt;
    W_INJECT("RegisterWaitForSingleObject", 0);
    WObj& o = w_get(h, "RegisterWaitForSingleObject");
    if (o.kind != W_THREAD) unsupported("RegisterWaitForSingleObject on something other than a thread");
    uintptr_t k = w_next_handle; w_next_handle += 4;
    w_regs[k] = WReg{ w_id(h), f, ctx };
    *res = (void*)k;
    return 1;
}
int w32_UnregisterWait(void* w)
{
    w_enter(K_OTHER, nullptr); RT rt;
    if (active && !w_regs.erase((uintptr_t)w)) fail("misuse", "UnregisterWait of a wait that isn't registered");
    return 1;
}
unsigned w32_TlsAlloc(void)
{
    w_enter(K_TSD, nullptr); RT rt;
    W_INJECT("TlsAlloc", 0xFFFFFFFFu);
    w_keys.push_back(true);
    return (unsigned)w_keys.size() - 1;
}
int w32_TlsFree(unsigned k) { RT rt; if (k >= w_keys.size() || !w_keys[k]) { if (active) fail("misuse", "TlsFree of an invalid key"); return 0; } w_keys[k] = false; return 1; }
void* w32_TlsGetValue(unsigned k)
{
    RT rt;
    if (k >= w_keys.size() || !w_keys[k]) { w_set_err(WE_INVALID_PARAMETER); return nullptr; }
    auto it = w_tls.find(std::make_pair(wtid(), k));
    w_set_err(0);
    return it == w_tls.end() ? nullptr : it->second;
}
int w32_TlsSetValue(unsigned k, void* p)
{
    RT rt;
    W_INJECT("TlsSetValue", 0);
    if (k >= w_keys.size() || !w_keys[k]) { w_set_err(WE_INVALID_PARAMETER); return 0; }
    w_tls[std::make_pair(wtid(), k)] = p;
    return 1;
}
void w32_GetSystemTime(uint64_t* t)
{
    if (active && cur) { ++stats.os_calls; if (cur->quiet == 0) { sched_point(K_TIME, nullptr); ++vtime; } }
    *t = (uint64_t)(real_ns() / 100 + (i128)116444736000000000ll);
}
unsigned w32_GetTickCount(void) { return (unsigned)(vtime / 1000000); }
int64_t w32_QueryPerformanceCounter(void) { return 1000000 + vtime / 100; }
void w32_SwitchToThread(void) { if (active && cur) vrt::yield(); }
int w32_QuerySemaphore(void* h, unsigned, void* info, unsigned, unsigned*)
{
    RT rt;
    W_INJECT("NtQuerySemaphore", (int)0xC0000022);
    WObj& o = w_get(h, "NtQuerySemaphore", W_SEM);
    ((unsigned*)info)[0] = (unsigned)o.count; ((unsigned*)info)[1] = (unsigned)o.max;
    return 0;
}
int w32_InitOnce(long* o, int (*f)(void*, void*, void**), void* arg)
{
    if (!active || !cur) { if (w_onces[o] == 0) { w_onces[o] = 2; return f(o, arg, nullptr); } return 1; }
    ++stats.os_calls;
    if (cur->quiet == 0) sched_point(K_ONCE, o);
    {
        RT rt;
        while (w_onces[o] == 1) block(K_ONCE, o, CLK_NONE, 0, false, false);
        if (w_onces[o] == 2) { hb_acquire(once_vc[o]); return 1; }
        w_onces[o] = 1;
    }
    int r = f(o, arg, nullptr);
    RT rt;
    hb_release(once_vc[o]);
    w_onces[o] = r ? 2 : 0;
    for (Thread* t : threads) if (t->state == Thread::BLOCKED && t->bkind == K_ONCE && t->baddr == o) wake(t, W_WOKEN);
    return r;
}
}
