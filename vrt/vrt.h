// vrt: a deterministic, monitored runtime for multi-threaded C++ code.
//
// Code under observation is compiled with "clang++ -fsanitize=thread" but linked against this runtime instead of
// the ThreadSanitizer one. Every atomic operation, plain memory access and every libc/libpthread synchronisation call the
// code makes arrives here. Virtual threads are fibers of one OS thread, scheduled by a seeded controller, time is virtual.
#ifndef VRT_H_
#define VRT_H_
#include <stdint.h>
#include <functional>
#include <string>

namespace vrt {

struct Options
{
    uint64_t seed = 1;
    int strategy = 0;        // 0 uniform random, 1 sticky random, 2 PCT, 3 round robin (run until blocked)
    int pct_depth = 3;
    double p_switch = 0.25;  // sticky: probability of considering a switch
    double p_jump = 0;       // probability per step of jumping the clock to the next pending deadline ("timeouts race")
    double p_spurious = 0;   // spurious condition variable / futex wake-up
    double p_eintr = 0;      // EINTR from sem_wait/sem_timedwait/futex
    double p_eintr_pthread = 0; // EINTR from pthread_* (only for BOOST_SYNC_HAS_PTHREAD_EINTR_BUG builds)
    double p_weak = 0;       // spurious failure of compare_exchange_weak
    // Storms: this many interruptions hit almost every opportunity in a row, before the probabilities above apply
    int storm_spurious = 0, storm_eintr = 0, storm_eintr_pthread = 0, storm_weak = 0;
    double p_stale = 0;      // stale (but C++11-permitted) value of relaxed/acquire loads
    bool races = true;       // happens-before race detection on plain accesses
    bool switch_on_plain = false; // scheduling points at plain accesses of non-stack memory too
    uint64_t max_steps = 400000;
    size_t stack_size = 128 * 1024;
    bool spin_time = true;   // time passes for threads that spin (the earliest timed wait ends after 1500 steps)
    int64_t real_start = 1700000000000000000ll; // CLOCK_REALTIME at the start of the run, ns
    int64_t mono_start = 1000000000000ll;       // CLOCK_MONOTONIC at the start of the run, ns
};

struct Stats
{
    uint64_t runs = 0, steps = 0, switches = 0, atomics = 0, plain = 0, os_calls = 0, blocks = 0, timeouts = 0,
             spurious = 0, eintr = 0, weak_fail = 0, storms = 0, stale = 0, hb_pairs = 0, faults_fired = 0, max_threads = 0;
};
extern Stats stats;

// Run one execution. body is virtual thread 0. Returns when all virtual threads have ended.
void run(Options const& opt, std::function< void() > body);
uint64_t trace_hash();           // hash of the interleaving of the last run
uint64_t run_steps();

int spawn(std::function< void() > f);
void join(int tid);
bool finished(int tid);
int self();
int thread_count();
void yield();                    // scheduling point
bool blocked(int tid);           // the thread is blocked in an OS primitive (not runnable)
// Block until no other thread can run. with_timed: also when some are in timed waits (time doesn't advance meanwhile).
void idle(bool with_timed);
// Block until f() is true (evaluated by the scheduler). No happens-before edge.
void gate(std::function< bool() > f);

// Virtual time, ns
__int128 mono_ns();
__int128 real_ns();
void adjust_realtime(int64_t delta_ns);
void sleep_until_mono(__int128 t);   // block the virtual thread
void sleep_ns(int64_t d);

// Deterministic randomness for test data
uint64_t rnd();
uint64_t rnd(uint64_t n);        // [0,n)
bool chance(double p);

// Oracle failure. Never returns.
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// The same, but returns if the check that runs this isn't about violations of this kind (VRT_KINDS=kind,kind,... in the environment).
void soft(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool wanted(const char* kind);
// Event log (kept in a ring, printed with a violation)
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Context string included in violation reports
extern const char* (*deadlock_kind)(); // classifies a deadlock; null: "deadlock"
void set_case(std::string const& s);
void set_replay(std::string const& s);
std::string get_case();

// No instrumentation (no scheduling, no race tracking) while alive: for oracle bookkeeping
struct Quiet { Quiet(); ~Quiet(); };
int& quiet_depth();

// Fault injection: the nth (1-based) call from now on of the named function made by the calling virtual thread fails with err.
// name: "pthread_mutex_lock", "sem_init", ..., "new" (operator new throws bad_alloc)
void inject(const char* name, int nth, int err);
void clear_injections();
bool injection_fired();
uint64_t call_count(const char* name); // number of calls of the function so far in this run

// OS-level observations
extern void (*on_os_time)(const char* fn, int64_t sec, int64_t nsec); // called with every timespec handed to the OS
size_t live_bytes();
size_t live_blocks();            // heap blocks (operator new) live, allocated inside a run
size_t live_os_objects();        // mutexes/conds/semaphores with waiters or owners
size_t open_handles();           // open handles of the Windows model
extern void (*w32_reset_library)(); // called at the start of every run, returns the global data of the library to their initial state
extern void (*w32_thread_exit)(); // called at the end of every thread but the first (DLL_THREAD_DETACH)
bool owns_os_mutex(const void* m); // calling thread owns pthread mutex m

void init(); // call at start of main
}
#endif
