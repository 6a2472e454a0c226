// See vrt.h. This file is compiled without instrumentation.
#include "vrt.h"
#include <cxxabi.h>
#include <errno.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <map>
#include <new>
#include <unordered_map>
#include <vector>

// Instrumented code may pass the address of the caller for reports
#define PC() __builtin_return_address(0)

namespace vrt {

typedef __int128 i128;
enum { MAXHB = 32 };

struct VC
{
    uint32_t c[MAXHB];
    VC() { memset(c, 0, sizeof(c)); }
    void join(VC const& o) { for (int i = 0; i < MAXHB; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

enum Kind { K_LOAD, K_STORE, K_RMW, K_CAS, K_FENCE, K_PLAIN, K_MLOCK, K_MUNLOCK, K_CWAIT, K_CSIGNAL, K_SEMWAIT, K_SEMPOST, K_FWAIT, K_FWAKE, K_ONCE, K_TIME, K_YIELD, K_JOIN, K_SLEEP, K_SPAWN, K_TSD, K_OTHER, K_IDLE, K_GATE, K_WWAIT };
static const char* const kind_names[] = { "load", "store", "rmw", "cas", "fence", "plain", "mutex_lock", "mutex_unlock", "cond_wait", "cond_signal", "sem_wait", "sem_post", "futex_wait", "futex_wake", "once", "time", "yield", "join", "sleep", "spawn", "tsd", "other", "idle", "gate", "win_wait" };

enum Wake { W_NONE, W_WOKEN, W_TIMEOUT, W_SPURIOUS, W_EINTR };
enum { CLK_NONE = -1, CLK_REAL = 0, CLK_MONO = 1 };

struct Thread
{
    int tid = 0;
    void* sp = nullptr;
    char* stack = nullptr;
    size_t stack_size = 0;
    enum State { RUN, BLOCKED, DONE } state = RUN;
    std::function< void() > f;
    VC vc, fence_rel, acq_pend;
    bool has_fence_rel = false;
    uint64_t sc_seq = 0;
    // blocking
    int bkind = 0;
    const void* baddr = nullptr; bool fprivate = false; unsigned fbits = ~0u; // of a futex
    int bclk = CLK_NONE;
    i128 bdl = 0;
    bool can_spurious = false, can_eintr = false;
    Wake wake = W_NONE;
    bool idle_timed = false;
    std::function< bool() > gate;
    // saved per-thread C++ runtime state
    void* eh_caught = nullptr;
    unsigned eh_uncaught = 0;
    int saved_errno = 0;
    int quiet = 0;
    bool fired = false; // an injected fault hit this thread
    int64_t prio = 0;
    uint64_t since_switch = 0, last_run = 0;
    std::map< unsigned, void* >* tsd = nullptr;
    std::vector< int > joiners;
    std::string tls; // contents of the executable's thread_local variables
};

struct StoreRec { uint64_t val[2]; VC sync; int tid; uint32_t epoch; uint64_t seq; };
struct ReadMark { int tid; uint32_t epoch; uint32_t idx; };
struct Loc
{
    int size = 0;
    VC sync;
    bool has_sync = false;
    std::vector< StoreRec > hist;
    std::vector< ReadMark > reads;
};

struct Acc { uint8_t tid, mask, type; uint32_t epoch; void* pc; }; // type: 0 read, 1 write, 2 atomic read, 3 atomic write
struct Cell { uintptr_t key = 0; uint32_t gen = 0; std::vector< Acc > acc; };

struct Mutex { int owner = -1; int depth = 0; VC vc; int type = 0; };
struct Cond { std::vector< int > waiters; const void* mtx = nullptr; int clk = CLK_REAL; };
struct Sem { unsigned value = 0; VC vc; std::vector< int > waiters; };

Stats stats;
void (*on_os_time)(const char*, int64_t, int64_t) = nullptr;

const char* (*deadlock_kind)() = nullptr;
static Options opt;
static std::vector< Thread* > threads;
static Thread* cur = nullptr;         // current virtual thread, null outside of a run
static bool active = false;
static void* sched_sp = nullptr;      // OS thread context
static uint64_t steps, last_time_step, plain_count, thash, gseq;
static i128 vtime = (i128)1000000000000ll;
static int64_t real_off;
static std::unordered_map< uintptr_t, Loc > locs;
static std::unordered_map< const void*, Mutex > mutexes;
static std::unordered_map< const void*, Cond > conds;
static std::unordered_map< const void*, Sem > sems;
static std::unordered_map< const void*, std::vector< int > > futexes;
static std::unordered_map< const void*, int > onces; // 1 running, 2 done
static std::unordered_map< const void*, VC > once_vc;
static std::unordered_map< uintptr_t, int > loc_ids;
static std::map< const void*, int > cond_clk; // from pthread_cond_init
struct Key { void (*dtor)(void*); bool used; };
static std::vector< Key > keys;
static std::map< unsigned, void* > main_tsd;
static std::vector< Cell > cells;
static size_t cells_used;
static uint32_t cell_gen = 1;
static uint64_t rng_s[4], drng_s[4];
static std::vector< char* > stack_pool;
static size_t stack_pool_size;
static std::string case_str, replay_str;
static std::vector< uint64_t > pct_points;
static int64_t pct_low;
static bool reporting;

// ---------------------------------------------------------------- randomness
static inline uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static void seed_rng(uint64_t* s, uint64_t x) { for (int i = 0; i < 4; ++i) s[i] = splitmix(x); }
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static inline uint64_t next(uint64_t* s)
{
    const uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
}
static inline uint64_t srnd(uint64_t n) { return n ? next(rng_s) % n : 0; }
static inline bool schance(double p) { return p > 0 && (next(rng_s) >> 11) * (1.0 / 9007199254740992.0) < p; }
uint64_t rnd() { return next(drng_s); }
uint64_t rnd(uint64_t n) { return n ? next(drng_s) % n : 0; }
bool chance(double p) { return p > 0 && (next(drng_s) >> 11) * (1.0 / 9007199254740992.0) < p; }

// ---------------------------------------------------------------- log and reports
enum { RING = 600 };
static char ring[RING][160];
static uint64_t ring_n;
static void vlogf(const char* fmt, va_list ap)
{
    char* p = ring[ring_n++ % RING];
    int n = snprintf(p, 160, "%6llu t=%lld T%d ", (unsigned long long)steps, (long long)(vtime - (i128)opt.mono_start), cur ? cur->tid : -1);
    vsnprintf(p + n, 160 - n, fmt, ap);
}
void log(const char* fmt, ...) { va_list ap; va_start(ap, fmt); vlogf(fmt, ap); va_end(ap); }
void set_case(std::string const& s) { case_str = s; }
void set_replay(std::string const& s) { replay_str = s; }
std::string get_case() { return case_str; }

[[noreturn]] static void report(const char* kind, const char* msg)
{
    if (reporting) _exit(11);
    reporting = true;
    if (cur) ++cur->quiet;
    FILE* o = stdout;
    fprintf(o, "VIOL\t%s\t%s\n", kind, msg);
    fprintf(o, "REPLAY\t%s\n", replay_str.c_str());
    fprintf(o, "CASE\t%s\n", case_str.c_str());
    fprintf(o, "TRACE\tstep %llu, thread %d, last events:\n", (unsigned long long)steps, cur ? cur->tid : -1);
    uint64_t b = ring_n > RING ? ring_n - RING : 0;
    for (uint64_t i = b; i < ring_n; ++i) fprintf(o, "TRACE\t%s\n", ring[i % RING]);
    for (Thread* t : threads)
        fprintf(o, "TRACE\tthread %d: %s%s%s\n", t->tid, t->state == Thread::RUN ? "runnable" : t->state == Thread::DONE ? "done" : "blocked in ",
            t->state == Thread::BLOCKED ? kind_names[t->bkind] : "", t->state == Thread::BLOCKED && t->bclk != CLK_NONE ? " (timed)" : "");
    fflush(o);
    _exit(10);
}
void fail(const char* kind, const char* fmt, ...)
{
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
    for (char* p = buf; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
    report(kind, buf);
}
bool wanted(const char* kind)
{
    static const char* const kinds = getenv("VRT_KINDS");
    if (!kinds) return true;
    size_t n = strlen(kind);
    for (const char* p = kinds; (p = strstr(p, kind)); p += n) if ((p == kinds || p[-1] == ',') && (p[n] == ',' || !p[n])) return true;
    return false;
}
void soft(const char* kind, const char* fmt, ...)
{
    if (!wanted(kind)) return;
    char buf[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
    for (char* p = buf; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
    report(kind, buf);
}
[[noreturn]] static void unsupported(const char* what)
{
    printf("UNSUPPORTED\t%s\n", what);
    fflush(stdout);
    _exit(12);
}

// ---------------------------------------------------------------- guards
Quiet::Quiet() { if (cur) ++cur->quiet; }
Quiet::~Quiet() { if (cur) --cur->quiet; }
static int dummy_quiet;
int& quiet_depth() { return cur ? cur->quiet : dummy_quiet; }
static inline bool watched() { return active && cur && cur->quiet == 0; }
struct RT { Thread* t; RT() : t(cur) { if (t) ++t->quiet; } ~RT() { if (t) --t->quiet; } };

// ---------------------------------------------------------------- arena
static char* arena; static const size_t ARENA = (size_t)4 << 30;
static uint8_t* ashadow; // per 16 bytes: 0 free space, 1 live, 2 freed, 3 red zone
static size_t apos, alive_blocks, alive_bytes;
static inline bool in_arena(const void* p) { return (const char*)p >= arena && (const char*)p < arena + ARENA; }
static void* arena_alloc(size_t n, size_t al)
{
    if (al < 16) al = 16;
    size_t sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
    size_t st = (apos + 32 + al - 1) & ~(al - 1);
    if (st + sz + 64 > ARENA) unsupported("arena exhausted");
    memset(ashadow + apos / 16, 3, (st - apos) / 16);
    *(size_t*)(arena + st - 16) = n;
    memset(ashadow + st / 16, 1, sz / 16);
    ashadow[(st + sz) / 16] = 3;
    apos = st + sz + 16;
    ++alive_blocks; alive_bytes += n;
    return arena + st;
}
static void arena_reset()
{
    if (alive_blocks) return;
    memset(ashadow, 0, apos / 16 + 2);
    if (apos > (1 << 20)) madvise(arena, apos, MADV_DONTNEED);
    apos = 0;
}
static inline void check_mem(const void* p, size_t n, const char* what)
{
    if (!in_arena(p)) { if ((uintptr_t)p < 4096) fail("memory", "null pointer access (%s)", what); return; }
    size_t b = ((const char*)p - arena) / 16, e = ((const char*)p - arena + n - 1) / 16;
    for (; b <= e; ++b)
        if (ashadow[b] != 1)
            fail("memory", "%s of %s memory (%p, %zu bytes)", what, ashadow[b] == 2 ? "freed" : "unallocated/out-of-bounds", p, n);
}
size_t live_blocks() { return alive_blocks; }
size_t live_bytes() { return alive_bytes; }

// ---------------------------------------------------------------- context switching
extern "C" void vrt_switch(void** save, void* to);
asm(R"(
.text
.globl vrt_switch
.type vrt_switch,@function
vrt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vrt_switch,.-vrt_switch
)");

struct eh_globals { void* caught; unsigned uncaught; };
static inline eh_globals* ehg() { return reinterpret_cast< eh_globals* >(abi::__cxa_get_globals()); }

// ---------------------------------------------------------------- compiler TLS: every fiber has its own copy of the executable's block
static char* tls_block; static size_t tls_size; static std::string tls_image;
static int find_tls(struct dl_phdr_info* info, size_t, void*)
{
    for (int i = 0; i < info->dlpi_phnum; ++i)
        if (info->dlpi_phdr[i].p_type == PT_TLS && info->dlpi_tls_data)
        {
            tls_block = (char*)info->dlpi_tls_data; tls_size = info->dlpi_phdr[i].p_memsz;
            tls_image.assign((char*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr), info->dlpi_phdr[i].p_filesz);
            tls_image.resize(tls_size, 0);
        }
    return 1; // the executable comes first
}

static void thread_end();
static void run_tsd_destructors(Thread* t);
static void w32_end_of_thread(Thread* t);
static void w32_start_run();
static void fiber_entry()
{
    Thread* t = cur;
    {
        try { t->f(); }
        catch (std::exception& e) { fail("exception", "exception escaped from a virtual thread: %s", e.what()); }
        catch (...) { fail("exception", "unknown exception escaped from a virtual thread"); }
    }
    w32_end_of_thread(t);
    if (t->tid != 0) run_tsd_destructors(t);
    thread_end();
}

static void switch_to(Thread* t)
{
    Thread* o = cur;
    if (t == o) return;
    ++stats.switches;
    if (o) { eh_globals* g = ehg(); o->eh_caught = g->caught; o->eh_uncaught = g->uncaught; o->saved_errno = errno; o->since_switch = 0; if (tls_size) memcpy(&o->tls[0], tls_block, tls_size); }
    cur = t;
    if (tls_size) memcpy(tls_block, t->tls.data(), tls_size);
    { eh_globals* g = ehg(); g->caught = t->eh_caught; g->uncaught = t->eh_uncaught; errno = t->saved_errno; }
    vrt_switch(o ? &o->sp : &sched_sp, t->sp);
}

// ---------------------------------------------------------------- scheduling
static i128 mono_deadline(Thread* t) { return t->bclk == CLK_REAL ? t->bdl - real_off : t->bdl; }
__int128 mono_ns() { return vtime; }
__int128 real_ns() { return vtime + real_off; }
void adjust_realtime(int64_t d) { real_off += d; log("realtime adjusted by %lld", (long long)d); }

static void remove_from(std::vector< int >& v, int tid) { v.erase(std::remove(v.begin(), v.end(), tid), v.end()); }
static void wake(Thread* t, Wake w)
{
    t->state = Thread::RUN;
    t->wake = w;
    t->last_run = steps;
    if (t->bkind == K_FWAIT && w != W_WOKEN) { auto it = futexes.find(t->baddr); if (it != futexes.end()) remove_from(it->second, t->tid); }
    if (t->bkind == K_CWAIT && w != W_WOKEN) { auto it = conds.find(t->baddr); if (it != conds.end()) remove_from(it->second.waiters, t->tid); }
    if (t->bkind == K_SEMWAIT && w != W_WOKEN) { auto it = sems.find(t->baddr); if (it != sems.end()) remove_from(it->second.waiters, t->tid); }
}

static Thread* earliest_timed()
{
    Thread* best = nullptr; i128 bd = 0; int n = 0;
    for (Thread* t : threads)
        if (t->state == Thread::BLOCKED && t->bclk != CLK_NONE)
        {
            i128 d = mono_deadline(t);
            if (!best || d < bd) { best = t; bd = d; n = 1; }
            else if (d == bd && srnd(++n) == 0) best = t;
        }
    return best;
}
static void fire_timeout(Thread* t)
{
    i128 d = mono_deadline(t);
    if (d > vtime) vtime = d;
    last_time_step = steps;
    ++stats.timeouts;
    wake(t, W_TIMEOUT);
}

static void deadlock()
{
    std::string s;
    for (Thread* t : threads)
        if (t->state == Thread::BLOCKED) { char b[64]; snprintf(b, sizeof(b), "%sT%d in %s", s.empty() ? "" : ", ", t->tid, kind_names[t->bkind]); s += b; }
    fail(deadlock_kind ? deadlock_kind() : "deadlock", "no thread can run: %s", s.c_str());
}

static inline bool hits(int budget, double p) { return budget > 0 ? schance(0.97) : p > 0 && schance(p); }
static inline bool strikes(int& budget, double p) { bool h = hits(budget, p); if (h && budget > 0) --budget; return h; }
static Thread* pick(bool cur_ok)
{
    // time passes for threads that spin
    if (opt.spin_time && steps - last_time_step > 1500) { last_time_step = steps; if (Thread* t = earliest_timed()) fire_timeout(t); }
    // make expired timed waits and injected events happen
    if (opt.p_jump > 0 && schance(opt.p_jump)) { if (Thread* t = earliest_timed()) fire_timeout(t); }
    if (hits(opt.storm_spurious, opt.p_spurious))
    {
        Thread* c[64]; int n = 0;
        for (Thread* t : threads) if (t->state == Thread::BLOCKED && t->can_spurious && n < 64) c[n++] = t;
        if (n) { ++stats.spurious; if (opt.storm_spurious > 0) --opt.storm_spurious; wake(c[srnd(n)], W_SPURIOUS); }
    }
    if (hits(opt.storm_eintr, opt.p_eintr))
    {
        Thread* c[64]; int n = 0;
        for (Thread* t : threads) if (t->state == Thread::BLOCKED && t->can_eintr && n < 64) c[n++] = t;
        if (n) { ++stats.eintr; if (opt.storm_eintr > 0) --opt.storm_eintr; wake(c[srnd(n)], W_EINTR); }
    }
    static std::vector< Thread* > cand;
    for (;;)
    {
        // timed waits whose deadline has passed may end any time: let them end here
        for (Thread* t : threads)
            if (t->state == Thread::BLOCKED && t->bclk != CLK_NONE && mono_deadline(t) <= vtime && schance(0.5)) fire_timeout(t);
        cand.clear();
        Thread* idler = nullptr;
        for (Thread* t : threads)
        {
            if (t->state == Thread::BLOCKED && t->bkind == K_GATE && t->gate()) wake(t, W_WOKEN);
            if (t->state == Thread::RUN) cand.push_back(t);
            else if (t->state == Thread::BLOCKED && t->bkind == K_IDLE) idler = t;
        }
        if (!cand.empty()) break;
        Thread* t = earliest_timed();
        if (idler && (!t || idler->idle_timed)) { wake(idler, W_WOKEN); continue; }
        if (!t) deadlock();
        fire_timeout(t);
    }
    cur_ok = cur_ok && cur && cur->state == Thread::RUN;
    // fairness: a thread that could run isn't kept from it for ever
    if (cur) cur->last_run = steps;
    for (Thread* t : cand) if (steps - t->last_run > 1500) { t->last_run = steps; return t; }
    switch (opt.strategy)
    {
    case 1:
        if (cur_ok && ++cur->since_switch < 2000 && !schance(opt.p_switch)) return cur;
        return cand[srnd(cand.size())];
    case 2:
        {
            while (!pct_points.empty() && steps >= pct_points.back()) { pct_points.pop_back(); if (cur) cur->prio = --pct_low; }
            if (cur_ok && ++cur->since_switch > 60) { cur->prio = --pct_low; cur->since_switch = 0; }
            Thread* b = cand[0];
            for (Thread* t : cand) if (t->prio > b->prio) b = t;
            return b;
        }
    case 3:
        if (cur_ok && ++cur->since_switch < 100) return cur;
        {
            int from = cur ? cur->tid : 0;
            for (size_t i = 1; i <= threads.size(); ++i) { Thread* t = threads[(from + i) % threads.size()]; if (t->state == Thread::RUN) return t; }
        }
        return cand[0];
    default:
        return cand[srnd(cand.size())];
    }
}

static inline void mix(uint64_t x) { thash = (thash ^ x) * 0x100000001b3ull; thash ^= thash >> 29; }

static inline int loc_id(const void* p)
{
    auto r = loc_ids.emplace((uintptr_t)p, (int)loc_ids.size());
    return r.first->second;
}

// A visible operation of the current thread is about to happen
static bool trace_all;
static void sched_point(int kind, const void* addr)
{
    if (!active || !cur) return;
    RT rt;
    if (trace_all) log("%s loc %d", kind_names[kind], addr ? loc_id(addr) : -1);
    if (++steps > opt.max_steps) fail("livelock", "no end after %llu steps", (unsigned long long)steps);
    Thread* t = pick(true);
    if (t != cur) switch_to(t);
    mix((uint64_t)cur->tid * 31 + kind); mix(addr ? loc_id(addr) : 0x55);
}

static Wake block(int kind, const void* addr, int clk, i128 deadline, bool spurious, bool eintr)
{
    RT rt;
    ++stats.blocks;
    cur->state = Thread::BLOCKED;
    cur->bkind = kind; cur->baddr = addr; cur->bclk = clk; cur->bdl = deadline; cur->can_spurious = spurious; cur->can_eintr = eintr;
    cur->wake = W_NONE;
    if (trace_all) log("block in %s loc %d", kind_names[kind], addr ? loc_id(addr) : -1);
    Thread* t = pick(false);
    switch_to(t);
    if (trace_all) log("resume from %s, cause %d", kind_names[kind], (int)cur->wake);
    if (++steps > opt.max_steps) fail("livelock", "no end after %llu steps", (unsigned long long)steps);
    mix((uint64_t)cur->tid * 131 + kind); mix(cur->wake);
    return cur->wake;
}

static Thread* new_thread(std::function< void() > f)
{
    Thread* t = new Thread();
    t->tid = (int)threads.size();
    t->f = std::move(f);
    t->stack_size = opt.stack_size;
    if (!stack_pool.empty() && stack_pool_size == opt.stack_size) { t->stack = stack_pool.back(); stack_pool.pop_back(); }
    else
    {
        t->stack = (char*)mmap(nullptr, opt.stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (t->stack == MAP_FAILED) unsupported("mmap");
        mprotect(t->stack, 4096, PROT_NONE);
    }
    void** sp = (void**)(t->stack + t->stack_size - 64);
    sp = (void**)((uintptr_t)sp & ~(uintptr_t)15);
    *--sp = nullptr;                 // alignment: entry sees rsp % 16 == 8
    *--sp = (void*)&fiber_entry;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    t->sp = sp;
    t->prio = (int64_t)(next(rng_s) >> 2);
    t->last_run = steps;
    t->tsd = new std::map< unsigned, void* >();
    t->tls = tls_image;
    threads.push_back(t);
    if (t->tid < MAXHB) t->vc.c[t->tid] = 1;
    else if (opt.races || opt.p_stale > 0) unsupported("too many threads for happens-before tracking");
    return t;
}

static inline void tick(Thread* t) { if (t->tid < MAXHB) ++t->vc.c[t->tid]; }

static void thread_end()
{
    Thread* t = cur;
    ++t->quiet;
    t->state = Thread::DONE;
    log("end of thread");
    for (Thread* j : threads) if (j->state == Thread::BLOCKED && j->bkind == K_JOIN && j->baddr == t) wake(j, W_WOKEN);
    bool all = true;
    for (Thread* j : threads) if (j->state != Thread::DONE) all = false;
    if (all) { vrt_switch(&t->sp, sched_sp); abort(); }
    Thread* n = pick(false);
    switch_to(n);
    abort();
}

int spawn(std::function< void() > f)
{
    sched_point(K_SPAWN, nullptr);
    RT rt;
    Thread* t = new_thread(std::move(f));
    t->vc.join(cur->vc); if (t->tid < MAXHB) t->vc.c[t->tid] = 1;
    t->sc_seq = gseq;
    tick(cur);
    log("spawn T%d", t->tid);
    return t->tid;
}
void join(int tid)
{
    sched_point(K_JOIN, nullptr);
    RT rt;
    Thread* t = threads[tid];
    while (t->state != Thread::DONE) block(K_JOIN, t, CLK_NONE, 0, false, false);
    cur->vc.join(t->vc);
}
bool finished(int tid) { return threads[tid]->state == Thread::DONE; }
bool blocked(int tid) { return threads[tid]->state == Thread::BLOCKED; }
int self() { return cur ? cur->tid : -1; }
int thread_count() { return (int)threads.size(); }
void yield()
{
    // a spinning thread gives way
    if (active && cur) { if (opt.strategy == 2) { cur->prio = --pct_low; cur->since_switch = 0; } else cur->since_switch = 100000; }
    sched_point(K_YIELD, nullptr);
}
void idle(bool with_timed)
{
    RT rt;
    for (;;)
    {
        cur->idle_timed = with_timed;
        block(K_IDLE, nullptr, CLK_NONE, 0, false, false);
        bool other = false;
        for (Thread* t : threads) if (t != cur && t->state == Thread::RUN) other = true;
        if (!other) return;
    }
}
void gate(std::function< bool() > f)
{
    sched_point(K_GATE, nullptr);
    RT rt;
    if (f()) return;
    cur->gate = std::move(f);
    block(K_GATE, nullptr, CLK_NONE, 0, false, false);
    cur->gate = nullptr;
}
void sleep_until_mono(__int128 d)
{
    sched_point(K_SLEEP, nullptr);
    while (vtime < d) block(K_SLEEP, nullptr, CLK_MONO, d, false, false);
}
void sleep_ns(int64_t d) { sleep_until_mono(vtime + d); }
uint64_t trace_hash() { return thash; }
uint64_t run_steps() { return steps; }

// ---------------------------------------------------------------- fault injection
struct Inj { std::string name; int nth; int err; int tid; };
static std::vector< Inj > injs;
static std::map< std::string, uint64_t > calls;
void inject(const char* name, int nth, int err) { RT rt; cur->fired = false; injs.push_back(Inj{ name, nth, err, cur->tid }); }
void clear_injections() { RT rt; for (size_t i = injs.size(); i-- > 0;) if (injs[i].tid == cur->tid) injs.erase(injs.begin() + i); }
bool injection_fired() { return cur->fired; }
uint64_t call_count(const char* n) { RT rt; auto it = calls.find(n); return it == calls.end() ? 0 : it->second; }
static int injected(const char* name)
{
    if (!active || !cur || cur->quiet > 1) return 0;
    ++calls[name];
    for (size_t i = 0; i < injs.size(); ++i)
        if (injs[i].tid == cur->tid && injs[i].name == name && --injs[i].nth == 0)
        {
            int e = injs[i].err;
            injs.erase(injs.begin() + i);
            cur->fired = true;
            ++stats.faults_fired;
            log("inject %s -> %d", name, e);
            return e;
        }
    return 0;
}

// ---------------------------------------------------------------- happens-before race detection
static Cell& cell_of(uintptr_t key)
{
    if (cells.empty()) cells.resize(1 << 15);
    if (cells_used * 2 > cells.size())
    {
        std::vector< Cell > old(cells.size() * 2);
        old.swap(cells);
        for (Cell& c : old) if (c.gen == cell_gen)
        {
            size_t m = cells.size() - 1, i = (c.key * 0x9e3779b97f4a7c15ull >> 20) & m;
            while (cells[i].gen == cell_gen) i = (i + 1) & m;
            cells[i] = std::move(c);
        }
    }
    size_t m = cells.size() - 1, i = (key * 0x9e3779b97f4a7c15ull >> 20) & m;
    while (cells[i].gen == cell_gen) { if (cells[i].key == key) return cells[i]; i = (i + 1) & m; }
    cells[i].gen = cell_gen; cells[i].key = key; cells[i].acc.clear(); ++cells_used;
    return cells[i];
}
} extern "C" char __executable_start, _end; namespace vrt {
// Objects of the program: its heap, its static data, the stacks of its threads. Not: memory that the C++ runtime recycles by itself
// (exception objects), thread_local variables.
static bool trackable(const char* p)
{
    if (p >= arena && p < arena + ARENA) return true;
    if (p >= &__executable_start && p < &_end) return true;
    for (Thread* t : threads) if (p >= t->stack && p < t->stack + t->stack_size) return true;
    return false;
}
static const char* const acc_names[] = { "read", "write", "atomic read", "atomic write", "free" };
static void track(uintptr_t a, size_t n, int type, void* pc, const char* how = nullptr)
{
    Thread* t = cur;
    if (t->tid >= MAXHB) return;
    if (!trackable((char*)a)) return;
    while (n)
    {
        uintptr_t w = a >> 3; unsigned off = a & 7; size_t k = std::min(n, (size_t)(8 - off));
        uint8_t mask = (uint8_t)(((1u << k) - 1) << off);
        Cell& c = cell_of(w);
        bool placed = false;
        for (Acc& x : c.acc)
        {
            if (x.tid == t->tid) { if (x.type == type && !placed) { x.epoch = t->vc.c[t->tid]; x.mask |= mask; x.pc = pc; placed = true; } continue; }
            if (!(x.mask & mask)) continue;
            if (!(x.type & 1) && !(type & 1)) continue;         // both reads
            if ((x.type & 2) && (type & 2)) continue;           // both atomic
            if (x.epoch <= t->vc.c[x.tid]) continue;            // ordered
            if (wanted("race")) fail("race", "data race on %p: %s by T%d (pc %p) is not ordered with %s by T%d (pc %p)", (void*)a, how ? how : acc_names[type], t->tid, pc, acc_names[x.type], (int)x.tid, x.pc);
        }
        if (!placed) c.acc.push_back(Acc{ (uint8_t)t->tid, mask, (uint8_t)type, t->vc.c[t->tid], pc });
        a += k; n -= k;
    }
}

static inline bool own_stack(const void* p) { return (const char*)p >= cur->stack && (const char*)p < cur->stack + cur->stack_size; }

static void plain_access(const void* p, size_t n, bool write, void* pc)
{
    if (!watched() || !n) return;
    if (own_stack(p)) return;
    ++plain_count;
    if (plain_count > 60000000ull) fail("livelock", "no end after %llu memory accesses", (unsigned long long)plain_count);
    if (opt.switch_on_plain) sched_point(K_PLAIN, nullptr);
    RT rt;
    check_mem(p, n, write ? "write" : "read");
    if (opt.races) track((uintptr_t)p, n, write ? 1 : 0, pc);
    if (write && !locs.empty()) { uintptr_t a = (uintptr_t)p; for (uintptr_t b = a & ~(uintptr_t)0; b < a + n && n <= 64; ++b) locs.erase(b); }
}

// ---------------------------------------------------------------- atomics
static uint64_t mem_load(const void* p, int n)
{
    switch (n)
    {
    case 1: return *(const volatile uint8_t*)p;
    case 2: return *(const volatile uint16_t*)p;
    case 4: return *(const volatile uint32_t*)p;
    default: return *(const volatile uint64_t*)p;
    }
}
static void mem_store(void* p, int n, uint64_t v)
{
    switch (n)
    {
    case 1: *(volatile uint8_t*)p = (uint8_t)v; break;
    case 2: *(volatile uint16_t*)p = (uint16_t)v; break;
    case 4: *(volatile uint32_t*)p = (uint32_t)v; break;
    default: *(volatile uint64_t*)p = v; break;
    }
}
// order: 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
static inline bool acq(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static inline bool rel(int o) { return o == 3 || o == 4 || o == 5; }

static Loc& loc_of(const void* p, int n)
{
    Loc& l = locs[(uintptr_t)p];
    if (!l.size)
    {
        l.size = n;
        if (opt.p_stale > 0) { StoreRec r; r.val[0] = mem_load(p, n); r.tid = -1; r.epoch = 0; r.seq = ++gseq; l.hist.push_back(r); }
    }
    return l;
}
static void note_read(Loc& l, uint32_t idx)
{
    uint32_t e = cur->vc.c[cur->tid];
    for (ReadMark& r : l.reads) if (r.tid == cur->tid && r.epoch == e) { if (r.idx < idx) r.idx = idx; return; }
    l.reads.push_back(ReadMark{ cur->tid, e, idx });
}
static void do_acquire(Loc& l, VC const& s, bool has, int o)
{
    if (!has) return;
    ++stats.hb_pairs;
    if (acq(o)) cur->vc.join(s); else cur->acq_pend.join(s);
}
static void record_store(Loc& l, void* p, int n, uint64_t v, int o, bool rmw)
{
    VC s; bool has = false;
    if (rmw && l.has_sync) { s = l.sync; has = true; }
    if (rel(o)) { s.join(cur->vc); has = true; }
    else if (cur->has_fence_rel) { s.join(cur->fence_rel); has = true; }
    l.sync = s; l.has_sync = has;
    mem_store(p, n, v);
    if (opt.p_stale > 0)
    {
        StoreRec r; r.val[0] = v; r.sync = s; r.tid = cur->tid; r.epoch = cur->vc.c[cur->tid]; r.seq = ++gseq;
        l.hist.push_back(r);
        note_read(l, (uint32_t)l.hist.size() - 1);
    }
    if (has && cur->tid < MAXHB) tick(cur);
}
static void pre_atomic(const void* p, int n, int kind, void* pc, bool write)
{
    ++stats.atomics;
    sched_point(kind, p);
    RT rt;
    if (!own_stack(p)) check_mem(p, n, write ? "atomic write" : "atomic read");
    if (opt.races && !own_stack(p)) track((uintptr_t)p, n, write ? 3 : 2, pc);
}

static uint64_t a_load(const void* p, int n, int o, void* pc)
{
    if (!watched()) return mem_load(p, n);
    pre_atomic(p, n, K_LOAD, pc, false);
    RT rt;
    if (cur->tid >= MAXHB) return mem_load(p, n);
    Loc& l = loc_of(p, n);
    if (opt.p_stale > 0)
    {
        uint32_t last = (uint32_t)l.hist.size() - 1, idx = last;
        if (o != 5 && last > 0 && schance(opt.p_stale))
        {
            uint32_t lo = 0;
            for (uint32_t i = last; i > 0; --i)
            {
                StoreRec& r = l.hist[i];
                if (r.tid < 0 || r.epoch <= cur->vc.c[r.tid] || r.tid == cur->tid || r.seq <= cur->sc_seq) { lo = i; break; }
            }
            for (ReadMark& r : l.reads) if (r.idx > lo && r.epoch <= cur->vc.c[r.tid]) lo = r.idx;
            if (lo < last) { idx = lo + (uint32_t)srnd(last - lo); ++stats.stale; log("stale read of loc %d: %llu instead of %llu", loc_id(p), (unsigned long long)l.hist[idx].val[0], (unsigned long long)l.hist[last].val[0]); }
        }
        note_read(l, idx);
        if (idx != last)
        {
            // hist carries the sync clock of that store's release sequence up to it
            StoreRec& r = l.hist[idx];
            do_acquire(l, r.sync, true, o);
            return r.val[0];
        }
    }
    do_acquire(l, l.sync, l.has_sync, o);
    return mem_load(p, n);
}
static void a_store(void* p, int n, uint64_t v, int o, void* pc)
{
    if (!watched()) { mem_store(p, n, v); return; }
    pre_atomic(p, n, K_STORE, pc, true);
    RT rt;
    if (cur->tid >= MAXHB) { mem_store(p, n, v); return; }
    Loc& l = loc_of(p, n);
    record_store(l, p, n, v, o, false);
    mix(v);
}
static uint64_t trunc_n(uint64_t v, int n) { return n == 8 ? v : v & ((1ull << (n * 8)) - 1); }
static uint64_t a_rmw(void* p, int n, uint64_t v, int o, int op, void* pc)
{
    bool w = watched();
    if (w) pre_atomic(p, n, K_RMW, pc, true);
    RT rt;
    uint64_t old = mem_load(p, n), nv;
    switch (op)
    {
    case 0: nv = v; break;
    case 1: nv = old + v; break;
    case 2: nv = old - v; break;
    case 3: nv = old & v; break;
    case 4: nv = old | v; break;
    case 5: nv = old ^ v; break;
    default: nv = ~(old & v); break;
    }
    nv = trunc_n(nv, n);
    if (!w || cur->tid >= MAXHB) { mem_store(p, n, nv); return old; }
    Loc& l = loc_of(p, n);
    do_acquire(l, l.sync, l.has_sync, o);
    record_store(l, p, n, nv, o, true);
    mix(nv);
    return old;
}
static bool a_cas(void* p, int n, void* exp, uint64_t des, int o, int fo, bool weak, void* pc)
{
    uint64_t e = mem_load(exp, n);
    bool w = watched();
    if (w) pre_atomic(p, n, K_CAS, pc, true);
    RT rt;
    uint64_t old = mem_load(p, n);
    bool ok = old == trunc_n(e, n);
    if (!w || cur->tid >= MAXHB)
    {
        if (ok) mem_store(p, n, trunc_n(des, n)); else mem_store(exp, n, old);
        return ok;
    }
    Loc& l = loc_of(p, n);
    if (ok)
    {
        do_acquire(l, l.sync, l.has_sync, o);
        record_store(l, p, n, trunc_n(des, n), o, true);
        mix(des);
    }
    else
    {
        do_acquire(l, l.sync, l.has_sync, fo);
        if (opt.p_stale > 0) note_read(l, (uint32_t)l.hist.size() - 1);
        mem_store(exp, n, old);
    }
    mix(ok);
    return ok;
}
static void a_fence(int o)
{
    if (!watched()) return;
    sched_point(K_FENCE, nullptr);
    RT rt;
    if (cur->tid >= MAXHB) return;
    if (acq(o)) cur->vc.join(cur->acq_pend);
    if (rel(o)) { cur->fence_rel = cur->vc; cur->has_fence_rel = true; tick(cur); }
    if (o == 5) cur->sc_seq = gseq;
}

// HB helpers for OS objects
static inline void hb_release(VC& v) { if (cur->tid < MAXHB) { v.join(cur->vc); tick(cur); } }
static inline void hb_acquire(VC const& v) { if (cur->tid < MAXHB) cur->vc.join(v); }

// ---------------------------------------------------------------- running
size_t live_os_objects()
{
    size_t n = 0;
    for (auto& m : mutexes) if (m.second.owner >= 0) ++n;
    for (auto& c : conds) if (!c.second.waiters.empty()) ++n;
    for (auto& s : sems) if (!s.second.waiters.empty()) ++n;
    return n;
}
bool owns_os_mutex(const void* m) { auto it = mutexes.find(m); return it != mutexes.end() && cur && it->second.owner == cur->tid; }

void run(Options const& o, std::function< void() > body)
{
    opt = o;
    seed_rng(rng_s, o.seed);
    seed_rng(drng_s, o.seed ^ 0xabcdef1234567ull);
    steps = last_time_step = plain_count = gseq = 0; thash = 0xcbf29ce484222325ull;
    vtime = (i128)o.mono_start; real_off = o.real_start - o.mono_start;
    locs.clear(); mutexes.clear(); conds.clear(); sems.clear(); futexes.clear(); loc_ids.clear(); cond_clk.clear();
    injs.clear(); calls.clear(); ring_n = 0;
    w32_start_run();
    ++cell_gen; cells_used = 0;
    if (stack_pool_size != o.stack_size) { for (char* s : stack_pool) munmap(s, stack_pool_size); stack_pool.clear(); stack_pool_size = o.stack_size; }
    pct_points.clear(); pct_low = 0;
    if (o.strategy == 2)
    {
        uint64_t horizon = 20 + srnd(400);
        for (int i = 0; i < o.pct_depth; ++i) pct_points.push_back(srnd(horizon));
        std::sort(pct_points.rbegin(), pct_points.rend());
    }
    new_thread(std::move(body));
    active = true;
    switch_to(threads[0]);
    // back here when everything is done
    active = false;
    { eh_globals* g = ehg(); g->caught = nullptr; g->uncaught = 0; }
    cur = nullptr;
    ++stats.runs; stats.steps += steps; stats.plain += plain_count;
    if (threads.size() > stats.max_threads) stats.max_threads = threads.size();
    for (Thread* t : threads) { stack_pool.push_back(t->stack); delete t->tsd; delete t; }
    threads.clear();
    arena_reset();
}

// ---------------------------------------------------------------- signals, terminate
static void on_signal(int s)
{
    if (reporting) _exit(11);
    report(s == SIGABRT ? "abort" : "crash", s == SIGABRT ? "assertion failure or abort() (see stderr)" : s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : "fatal signal");
}
static void on_terminate()
{
    const char* what = "unknown";
    if (std::type_info* t = abi::__cxa_current_exception_type()) what = t->name();
    char b[200]; snprintf(b, sizeof(b), "std::terminate called (exception %s)", what);
    report("terminate", b);
}
static void init_arena()
{
    if (arena) return;
    arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ashadow = (uint8_t*)mmap(nullptr, ARENA / 16 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || ashadow == MAP_FAILED) _exit(13);
}
void init()
{
    init_arena();
    dl_iterate_phdr(&find_tls, nullptr);
    trace_all = getenv("VRT_TRACE") != nullptr;
    std::set_terminate(&on_terminate);
    stack_t ss; memset(&ss, 0, sizeof(ss)); ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = &on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL };
    for (int s : sigs) sigaction(s, &sa, nullptr);
}

// ---------------------------------------------------------------- OS model helpers
static i128 ts_ns(const struct timespec* t) { return (i128)t->tv_sec * 1000000000 + t->tv_nsec; }
static bool ts_valid(const char* fn, const struct timespec* t)
{
    if (on_os_time) on_os_time(fn, t->tv_sec, t->tv_nsec);
    if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) fail("bad-time", "invalid time passed to %s: tv_sec=%lld tv_nsec=%lld", fn, (long long)t->tv_sec, (long long)t->tv_nsec);
    return true;
}
static int lock_slow(const void* m, Mutex* mx, int clk, i128 dl, int* res)
{
    for (;;)
    {
        Mutex& x = mutexes[m];
        if (x.owner < 0) { x.owner = cur->tid; x.depth = 1; hb_acquire(x.vc); mix(1); *res = 0; return 0; }
        Wake w = block(K_MLOCK, m, clk, dl, false, false);
        if (w == W_TIMEOUT) { Mutex& y = mutexes[m]; if (y.owner < 0 && schance(0.5)) { y.owner = cur->tid; y.depth = 1; hb_acquire(y.vc); *res = 0; return 0; } *res = ETIMEDOUT; return 0; }
    }
}
static void unlock_raw(const void* m)
{
    Mutex& x = mutexes[m];
    hb_release(x.vc);
    x.owner = -1; x.depth = 0;
    for (Thread* t : threads) if (t->state == Thread::BLOCKED && t->bkind == K_MLOCK && t->baddr == m) wake(t, W_WOKEN);
}

} // namespace vrt

using namespace vrt;

#define OS_ENTER(kind, addr, name) ++stats.os_calls; if (cur->quiet == 0) sched_point(kind, addr); RT rt_guard; if (!own_stack(addr)) check_mem(addr, 1, name)
#define INJECT(name) do { if (int inj_e = injected(name)) return inj_e; } while (0)
#define INJECT_ERRNO(name) do { if (int inj_e = injected(name)) { errno = inj_e; return -1; } } while (0)
#define EINTR_BUG(n) do { if (strikes(opt.storm_eintr_pthread, opt.p_eintr_pthread)) { ++stats.eintr; return EINTR; } } while (0)

// ================================================================ libc / libpthread replacements
extern "C" {

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
    int type = 0;
    if (a) pthread_mutexattr_gettype(a, &type);
    if (!active || !cur) { memset(m, 0, sizeof(*m)); return 0; }
    OS_ENTER(K_OTHER, m, "pthread_mutex_init");
    INJECT("pthread_mutex_init");
    memset(m, 0, sizeof(*m));
    Mutex& x = mutexes[m]; x = Mutex(); x.type = type;
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_OTHER, m, "pthread_mutex_destroy");
    EINTR_BUG(); injected("pthread_mutex_destroy");
    auto it = mutexes.find(m);
    if (it != mutexes.end())
    {
        if (it->second.owner >= 0) fail("misuse", "a locked pthread mutex is destroyed");
        for (Thread* t : threads) if (t->state == Thread::BLOCKED && t->bkind == K_MLOCK && t->baddr == m) fail("misuse", "a pthread mutex is destroyed while a thread is blocked on it");
        mutexes.erase(it);
    }
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_MLOCK, m, "pthread_mutex_lock");
    INJECT("pthread_mutex_lock");
    EINTR_BUG();
    Mutex& x = mutexes[m];
    if (x.owner == cur->tid)
    {
        if (x.type == PTHREAD_MUTEX_RECURSIVE) { ++x.depth; return 0; }
        if (x.type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    int r; lock_slow(m, &x, CLK_NONE, 0, &r);
    return r;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_MLOCK, m, "pthread_mutex_trylock");
    INJECT("pthread_mutex_trylock");
    EINTR_BUG();
    Mutex& x = mutexes[m];
    if (x.owner == cur->tid && x.type == PTHREAD_MUTEX_RECURSIVE) { ++x.depth; return 0; }
    if (x.owner >= 0) { mix(0); return EBUSY; }
    x.owner = cur->tid; x.depth = 1; hb_acquire(x.vc); mix(1);
    return 0;
}
static int mutex_timedlock(pthread_mutex_t* m, int clk, const struct timespec* t, const char* name)
{
    if (!active || !cur) return 0;
    OS_ENTER(K_MLOCK, m, name);
    INJECT("pthread_mutex_timedlock");
    EINTR_BUG();
    ts_valid(name, t);
    Mutex& x = mutexes[m];
    if (x.owner >= 0)
    {
        if (x.owner == cur->tid && x.type == PTHREAD_MUTEX_RECURSIVE) { ++x.depth; return 0; }
        i128 d = ts_ns(t), now = clk == CLK_REAL ? real_ns() : mono_ns();
        if (d <= now) return ETIMEDOUT;
    }
    int r; lock_slow(m, &x, clk, ts_ns(t), &r);
    return r;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept { return mutex_timedlock(m, CLK_REAL, t, "pthread_mutex_timedlock"); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* t) noexcept { return mutex_timedlock(m, c == CLOCK_REALTIME ? CLK_REAL : CLK_MONO, t, "pthread_mutex_clocklock"); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_MUNLOCK, m, "pthread_mutex_unlock");
    EINTR_BUG();
    Mutex& x = mutexes[m];
    if (x.owner != cur->tid)
    {
        if (x.type != 0) return EPERM;
        fail("misuse", "pthread_mutex_unlock by a thread that doesn't own the mutex (owner %d)", x.owner);
    }
    if (x.type == PTHREAD_MUTEX_RECURSIVE && --x.depth > 0) return 0;
    unlock_raw(m);
    return 0;
}

int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
{
    clockid_t clk = CLOCK_REALTIME;
    if (a) pthread_condattr_getclock(a, &clk);
    if (!active || !cur) { memset(c, 0, sizeof(*c)); return 0; }
    OS_ENTER(K_OTHER, c, "pthread_cond_init");
    INJECT("pthread_cond_init");
    memset(c, 0, sizeof(*c));
    Cond& x = conds[c]; x = Cond(); x.clk = clk == CLOCK_REALTIME ? CLK_REAL : CLK_MONO;
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_OTHER, c, "pthread_cond_destroy");
    EINTR_BUG(); injected("pthread_cond_destroy");
    auto it = conds.find(c);
    if (it != conds.end())
    {
        if (!it->second.waiters.empty()) fail("misuse", "a condition variable is destroyed while a thread is blocked on it");
        conds.erase(it);
    }
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int clk, const struct timespec* t, const char* name)
{
    if (!active || !cur) return 0;
    OS_ENTER(K_CWAIT, c, name);
    if (!own_stack(m)) check_mem(m, 1, name);
    if (injs.size() || active) { if (int e = injected(t ? "pthread_cond_timedwait" : "pthread_cond_wait")) return e; }
    EINTR_BUG();
    Mutex& x = mutexes[m];
    if (x.owner != cur->tid) fail("misuse", "%s with a mutex that the thread doesn't own", name);
    if (t) ts_valid(name, t);
    Cond& k = conds[c];
    if (!k.waiters.empty() && k.mtx != m) fail("misuse", "concurrent waits on a condition variable with different mutexes");
    if (clk == -2) clk = k.clk;
    i128 d = 0;
    if (t)
    {
        d = ts_ns(t);
        i128 now = clk == CLK_REAL ? real_ns() : mono_ns();
        if (d <= now)
        {
            // the mutex is released and reacquired
            unlock_raw(m);
            if (schance(0.5)) { sched_point(K_CWAIT, c); }
            int r; lock_slow(m, &x, CLK_NONE, 0, &r);
            return ETIMEDOUT;
        }
    }
    k.mtx = m;
    k.waiters.push_back(cur->tid);
    int depth = x.depth;
    unlock_raw(m);
    Wake w = block(K_CWAIT, c, t ? clk : CLK_NONE, d, true, false);
    int r; lock_slow(m, nullptr, CLK_NONE, 0, &r);
    mutexes[m].depth = depth;
    mix(w);
    return w == W_TIMEOUT ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, CLK_NONE, nullptr, "pthread_cond_wait"); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cond_wait(c, m, -2, t, "pthread_cond_timedwait"); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return cond_wait(c, m, k == CLOCK_REALTIME ? CLK_REAL : CLK_MONO, t, "pthread_cond_clockwait"); }
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_CSIGNAL, c, "pthread_cond_signal");
    Cond& k = conds[c];
    if (!k.waiters.empty())
    {
        size_t i = srnd(k.waiters.size()); int t = k.waiters[i];
        k.waiters.erase(k.waiters.begin() + i);
        wake(threads[t], W_WOKEN);
        mix(t);
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_CSIGNAL, c, "pthread_cond_broadcast");
    Cond& k = conds[c];
    std::vector< int > w; w.swap(k.waiters);
    for (int t : w) wake(threads[t], W_WOKEN);
    return 0;
}

int sem_init(sem_t* s, int, unsigned v) noexcept
{
    if (v > (unsigned)SEM_VALUE_MAX) { errno = EINVAL; return -1; }
    if (!active || !cur) return 0;
    OS_ENTER(K_OTHER, s, "sem_init");
    INJECT_ERRNO("sem_init");
    Sem& x = sems[s]; x = Sem(); x.value = v;
    hb_release(x.vc);
    return 0;
}
static Sem& sem_get(sem_t* s, const char* n)
{
    auto it = sems.find(s);
    if (it == sems.end()) fail("misuse", "%s on an uninitialised or destroyed semaphore", n);
    return it->second;
}
int sem_destroy(sem_t* s) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_OTHER, s, "sem_destroy");
    Sem& x = sem_get(s, "sem_destroy");
    if (!x.waiters.empty()) fail("misuse", "a semaphore is destroyed while a thread is blocked on it");
    sems.erase(s);
    return 0;
}
int sem_getvalue(sem_t* s, int* v) noexcept { OS_ENTER(K_OTHER, s, "sem_getvalue"); *v = (int)sem_get(s, "sem_getvalue").value; return 0; }
int sem_post(sem_t* s) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_SEMPOST, s, "sem_post");
    INJECT_ERRNO("sem_post");
    Sem& x = sem_get(s, "sem_post");
    if (x.value >= (unsigned)SEM_VALUE_MAX) { errno = EOVERFLOW; return -1; }
    ++x.value;
    hb_release(x.vc);
    if (!x.waiters.empty())
    {
        size_t i = srnd(x.waiters.size()); int t = x.waiters[i];
        x.waiters.erase(x.waiters.begin() + i);
        wake(threads[t], W_WOKEN);
    }
    return 0;
}
int sem_trywait(sem_t* s) noexcept
{
    if (!active || !cur) return 0;
    OS_ENTER(K_SEMWAIT, s, "sem_trywait");
    INJECT_ERRNO("sem_trywait");
    Sem& x = sem_get(s, "sem_trywait");
    mix(x.value != 0);
    if (!x.value) { errno = EAGAIN; return -1; }
    --x.value;
    hb_acquire(x.vc);
    return 0;
}
static int sem_wait_impl(sem_t* s, int clk, const struct timespec* t, const char* name)
{
    if (!active || !cur) return 0;
    OS_ENTER(K_SEMWAIT, s, name);
    INJECT_ERRNO(t ? "sem_timedwait" : "sem_wait");
    if (strikes(opt.storm_eintr, opt.p_eintr)) { ++stats.eintr; errno = EINTR; return -1; }
    if (t) ts_valid(name, t);
    for (;;)
    {
        Sem& x = sem_get(s, name);
        if (x.value) { --x.value; hb_acquire(x.vc); mix(1); return 0; }
        if (t && ts_ns(t) <= (clk == CLK_REAL ? real_ns() : mono_ns())) { errno = ETIMEDOUT; return -1; }
        x.waiters.push_back(cur->tid);
        Wake w = block(K_SEMWAIT, s, t ? clk : CLK_NONE, t ? ts_ns(t) : 0, false, true);
        if (w == W_EINTR) { errno = EINTR; return -1; }
    }
}
int sem_wait(sem_t* s) { return sem_wait_impl(s, CLK_NONE, nullptr, "sem_wait"); }
int sem_timedwait(sem_t* s, const struct timespec* t) { return sem_wait_impl(s, CLK_REAL, t, "sem_timedwait"); }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* t) { return sem_wait_impl(s, c == CLOCK_REALTIME ? CLK_REAL : CLK_MONO, t, "sem_clockwait"); }

static long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
static long futex_model(int* addr, int op, int val, const struct timespec* t, int val3)
{
    int cmd = op & FUTEX_CMD_MASK;
    ++stats.os_calls;
    if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET)
    {
        sched_point(K_FWAKE, addr);
        RT rt_guard;
        injected("futex_wake");
        auto it = futexes.find(addr);
        long n = 0;
        if (it != futexes.end())
            for (;;)
            {
                // As in the kernel: the number is signed, and is compared after a thread has been woken; private and shared waits are apart
                std::vector< size_t > c;
                for (size_t i = 0; i < it->second.size(); ++i)
                {
                    Thread* w = threads[it->second[i]];
                    if (w->fprivate == ((op & FUTEX_PRIVATE_FLAG) != 0) && (cmd == FUTEX_WAKE || (w->fbits & (unsigned)val3))) c.push_back(i);
                }
                if (c.empty() || (n && n >= (long)val)) break;
                size_t i = c[srnd(c.size())]; int w = it->second[i];
                it->second.erase(it->second.begin() + i);
                wake(threads[w], W_WOKEN);
                ++n;
            }
        mix(n);
        return n;
    }
    if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET)
    {
        sched_point(K_FWAIT, addr);
        RT rt_guard;
        if (!own_stack(addr)) check_mem(addr, 4, "futex wait");
        INJECT_ERRNO("futex_wait");
        int clk = CLK_NONE; i128 d = 0;
        if (t)
        {
            ts_valid("futex", t);
            if (t->tv_sec < 0) { fail("bad-time", "negative timeout passed to futex: %lld", (long long)t->tv_sec); }
            if (cmd == FUTEX_WAIT) { clk = CLK_MONO; d = vtime + ts_ns(t); }
            else { clk = (op & FUTEX_CLOCK_REALTIME) ? CLK_REAL : CLK_MONO; d = ts_ns(t); }
        }
        if (*(volatile int*)addr != val) { mix(0); errno = EAGAIN; return -1; }
        if (strikes(opt.storm_eintr, opt.p_eintr)) { ++stats.eintr; errno = EINTR; return -1; }
        if (strikes(opt.storm_spurious, opt.p_spurious)) { ++stats.spurious; return 0; }
        if (clk != CLK_NONE && d <= (clk == CLK_REAL ? real_ns() : mono_ns())) { errno = ETIMEDOUT; return -1; }
        cur->fprivate = (op & FUTEX_PRIVATE_FLAG) != 0; cur->fbits = cmd == FUTEX_WAIT ? ~0u : (unsigned)val3;
        futexes[addr].push_back(cur->tid);
        Wake w = block(K_FWAIT, addr, clk, d, true, true);
        if (w == W_TIMEOUT) { errno = ETIMEDOUT; return -1; }
        if (w == W_EINTR) { errno = EINTR; return -1; }
        return 0;
    }
    unsupported("futex operation");
}
long syscall(long n, ...) noexcept
{
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active && cur) return futex_model((int*)a, (int)b, (int)c, (const struct timespec*)d, (int)f);
    return raw_syscall(n, a, b, c, d, e, f);
}

int pthread_once(pthread_once_t* o, void (*f)(void))
{
    if (!active || !cur)
    {
        if (*(int*)o == 0) { *(int*)o = 2; f(); }
        return 0;
    }
    ++stats.os_calls;
    if (cur->quiet == 0) sched_point(K_ONCE, o);
    {
        RT rt_guard;
        while (*(volatile int*)o == 1) block(K_ONCE, o, CLK_NONE, 0, false, false);
        if (*(volatile int*)o == 2) { hb_acquire(once_vc[o]); return 0; }
        *(volatile int*)o = 1;
    }
    f();
    RT rt_guard;
    hb_release(once_vc[o]);
    *(volatile int*)o = 2;
    for (Thread* t : threads) if (t->state == Thread::BLOCKED && t->bkind == K_ONCE && t->baddr == o) wake(t, W_WOKEN);
    return 0;
}
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept
{
    RT rt_guard;
    INJECT("pthread_key_create");
    keys.push_back(Key{ d, true });
    *k = (unsigned)keys.size() - 1;
    return 0;
}
int pthread_key_delete(pthread_key_t k) noexcept { if (k < keys.size()) { keys[k].used = false; return 0; } return EINVAL; }
void* pthread_getspecific(pthread_key_t k) noexcept
{
    RT rt_guard;
    std::map< unsigned, void* >& m = cur ? *cur->tsd : main_tsd;
    auto it = m.find(k);
    return it == m.end() ? nullptr : it->second;
}
int pthread_setspecific(pthread_key_t k, const void* v) noexcept
{
    RT rt_guard;
    INJECT("pthread_setspecific");
    if (k >= keys.size() || !keys[k].used) return EINVAL;
    (cur ? *cur->tsd : main_tsd)[k] = const_cast< void* >(v);
    return 0;
}
pthread_t pthread_self(void) noexcept { return cur ? (pthread_t)(0x1000 + cur->tid) : (pthread_t)0xfff; }

static void put_time(struct timespec* t, i128 v) { t->tv_sec = (time_t)(v / 1000000000); t->tv_nsec = (long)(v % 1000000000); }
int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    if (!active || !cur) return (int)raw_syscall(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0);
    ++stats.os_calls;
    if (cur->quiet == 0) { sched_point(K_TIME, nullptr); ++vtime; }
    put_time(t, (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? real_ns() : mono_ns());
    return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
    struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p) noexcept { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
int timespec_get(struct timespec* t, int base) { if (base != TIME_UTC) return 0; clock_gettime(CLOCK_REALTIME, t); return base; }
int sched_yield(void) noexcept { if (active && cur) vrt::yield(); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) { if (active && cur) vrt::sleep_ns((int64_t)ts_ns(t)); return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec*)
{
    if (!active || !cur) return 0;
    if (flags & TIMER_ABSTIME) vrt::sleep_until_mono(c == CLOCK_REALTIME ? ts_ns(t) - real_off : ts_ns(t)); else vrt::sleep_ns((int64_t)ts_ns(t));
    return 0;
}
int usleep(useconds_t u) { if (active && cur) vrt::sleep_ns((int64_t)u * 1000); return 0; }

// Function-local statics
int vrt_guard_acquire(uint64_t* g) asm("__cxa_guard_acquire");
void vrt_guard_release(uint64_t* g) asm("__cxa_guard_release");
void vrt_guard_abort(uint64_t* g) asm("__cxa_guard_abort");
int vrt_guard_acquire(uint64_t* g)
{
    volatile char* b = (volatile char*)g;
    if (b[0]) { if (active && cur) { RT rt_guard; hb_acquire(once_vc[g]); } return 0; }
    if (active && cur) { while (b[1] && !b[0]) { RT rt_guard; block(K_ONCE, g, CLK_NONE, 0, false, false); } if (b[0]) { RT rt_guard; hb_acquire(once_vc[g]); return 0; } }
    b[1] = 1;
    return 1;
}
static void guard_done(uint64_t* g)
{
    if (!active || !cur) return;
    RT rt_guard;
    hb_release(once_vc[g]);
    if (cur->tid < MAXHB) { Loc& l = locs[(uintptr_t)g]; l.size = 1; l.sync.join(cur->vc); l.has_sync = true; tick(cur); }
    for (Thread* t : threads) if (t->state == Thread::BLOCKED && t->bkind == K_ONCE && t->baddr == g) wake(t, W_WOKEN);
}
void vrt_guard_release(uint64_t* g) { ((volatile char*)g)[0] = 1; ((volatile char*)g)[1] = 0; guard_done(g); }
void vrt_guard_abort(uint64_t* g) { ((volatile char*)g)[1] = 0; guard_done(g); }

// ================================================================ instrumentation callbacks
int vrt_weak_fail(void) { if (!watched() || !strikes(opt.storm_weak, opt.p_weak)) return 0; ++stats.weak_fail; return 1; }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { plain_access(p, n, false, PC()); } \
    void __tsan_write##n(void* p) { plain_access(p, n, true, PC()); } \
    void __tsan_unaligned_read##n(void* p) { plain_access(p, n, false, PC()); } \
    void __tsan_unaligned_write##n(void* p) { plain_access(p, n, true, PC()); } \
    void __tsan_read_write##n(void* p) { plain_access(p, n, true, PC()); } \
    void __tsan_unaligned_read_write##n(void* p) { plain_access(p, n, true, PC()); } \
    void __tsan_volatile_read##n(void* p) { plain_access(p, n, false, PC()); } \
    void __tsan_volatile_write##n(void* p) { plain_access(p, n, true, PC()); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { plain_access(p, n, false, PC()); }
void __tsan_write_range(void* p, unsigned long n) { plain_access(p, n, true, PC()); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) plain_access(p, sizeof(void*), true, PC()); }
void __tsan_vptr_read(void** p) { plain_access(p, sizeof(void*), false, PC()); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain_access(s, n, false, PC()); plain_access(d, n, true, PC()); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain_access(s, n, false, PC()); plain_access(d, n, true, PC()); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain_access(d, n, true, PC()); return memset(d, c, n); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int mo) { return (T)a_load((const void*)a, bits / 8, mo, PC()); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { a_store((void*)a, bits / 8, v, mo, PC()); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { return (T)a_rmw((void*)a, bits / 8, v, mo, 0, PC()); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { return (T)a_rmw((void*)a, bits / 8, v, mo, 1, PC()); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { return (T)a_rmw((void*)a, bits / 8, v, mo, 2, PC()); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { return (T)a_rmw((void*)a, bits / 8, v, mo, 3, PC()); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { return (T)a_rmw((void*)a, bits / 8, v, mo, 4, PC()); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { return (T)a_rmw((void*)a, bits / 8, v, mo, 5, PC()); } \
    T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { return (T)a_rmw((void*)a, bits / 8, v, mo, 6, PC()); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return a_cas((void*)a, bits / 8, e, v, mo, fmo, false, PC()); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return a_cas((void*)a, bits / 8, e, v, mo, fmo, true, PC()); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { a_cas((void*)a, bits / 8, &e, v, mo, fmo, false, PC()); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"

namespace vrt {
static void run_tsd_destructors(Thread* t)
{
    for (int iter = 0; iter < 4; ++iter)
    {
        std::vector< unsigned > ks;
        {
            RT rt;
            for (auto& e : *t->tsd) if (e.second && keys[e.first].used && keys[e.first].dtor) ks.push_back(e.first);
            for (size_t i = ks.size(); i > 1; --i) std::swap(ks[i - 1], ks[srnd(i)]);
        }
        if (ks.empty()) return;
        for (unsigned k : ks)
        {
            void* v;
            { RT rt; v = (*t->tsd)[k]; (*t->tsd)[k] = nullptr; }
            if (v) { log("tsd destructor"); keys[k].dtor(v); }
        }
        { RT rt; std::vector< unsigned >().swap(ks); }
    }
}
} // namespace vrt

// ================================================================ heap
static void* vrt_new(size_t n, size_t al)
{
    if (watched())
    {
        RT rt;
        if (injected("new")) return nullptr;
        void* p = arena_alloc(n, al);
        static const unsigned char fills[] = { 0xbe, 0xbe, 0x01, 0xff, 0x00 };
        memset(p, fills[opt.seed % 5], n); // uninitialized
        return p;
    }
    if (al > 16) { void* p = nullptr; if (posix_memalign(&p, al, n ? n : 1)) return nullptr; return p; }
    return malloc(n ? n : 1);
}
static void vrt_delete(void* p, void* pc)
{
    if (!p) return;
    if (!arena || !in_arena(p)) { free(p); return; }
    RT rt;
    size_t off = (char*)p - arena;
    if (ashadow[off / 16] == 2) { if (active) fail("memory", "double free of %p", p); abort(); }
    if (ashadow[off / 16] != 1 || ashadow[off / 16 - 1] != 3) { if (active) fail("memory", "free of invalid pointer %p", p); abort(); }
    size_t n = *(size_t*)(arena + off - 16), sz = (n + 15) & ~(size_t)15; if (!sz) sz = 16;
    if (active && cur)
    {
        for (auto& m : mutexes) if ((char*)m.first >= (char*)p && (char*)m.first < (char*)p + sz && m.second.owner >= 0) fail("misuse", "memory of a locked mutex is freed");
        if (opt.races && cur->tid < MAXHB && cur->quiet <= 1 && n <= 4096) track((uintptr_t)p, n, 1, pc, "free");
        for (uintptr_t a = (uintptr_t)p; a < (uintptr_t)p + n && n <= 4096; ++a) locs.erase(a);
    }
    memset(p, 0xdd, n);
    memset(ashadow + off / 16, 2, sz / 16);
    --alive_blocks; alive_bytes -= n;
}
void* operator new(size_t n) { void* p = vrt_new(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = vrt_new(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vrt_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vrt_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = vrt_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = vrt_new(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { vrt_delete(p, PC()); }
void operator delete[](void* p) noexcept { vrt_delete(p, PC()); }
void operator delete(void* p, size_t) noexcept { vrt_delete(p, PC()); }
void operator delete[](void* p, size_t) noexcept { vrt_delete(p, PC()); }
void operator delete(void* p, std::align_val_t) noexcept { vrt_delete(p, PC()); }
void operator delete[](void* p, std::align_val_t) noexcept { vrt_delete(p, PC()); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { vrt_delete(p, PC()); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { vrt_delete(p, PC()); }

#include "w32.inc"
