// Model of libdispatch's semaphores on top of POSIX semaphores (which vrt models), as far as Boost.Sync uses them.
// Written from the documentation and the behaviour of Apple's implementation, including how it encodes and saturates times.
#ifndef VERIF_DISPATCH_H_
#define VERIF_DISPATCH_H_
#include <errno.h>
#include <semaphore.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>

typedef uint64_t dispatch_time_t;
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
struct dispatch_semaphore_s { sem_t sem; };
typedef struct dispatch_semaphore_s* dispatch_semaphore_t;

inline int64_t dispatch_fake_now(clockid_t c)
{
    struct timespec ts;
    clock_gettime(c, &ts);
    return (int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec;
}
// Times are positive on the monotonic clock and negated on the wall clock
inline dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta)
{
    if (when == DISPATCH_TIME_FOREVER) return when;
    if ((int64_t)when < 0)
    {
        int64_t t;
        if (__builtin_add_overflow(-(int64_t)when, delta, &t)) return delta > 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;
        return t <= 1 ? (dispatch_time_t)-2ll : (dispatch_time_t)-t;
    }
    int64_t base = when ? (int64_t)when : dispatch_fake_now(CLOCK_MONOTONIC), t;
    if (__builtin_add_overflow(base, delta, &t)) return delta > 0 ? DISPATCH_TIME_FOREVER : 1;
    return t < 1 ? 1 : (dispatch_time_t)t;
}
inline dispatch_time_t dispatch_walltime(const struct timespec* when, int64_t delta)
{
    int64_t nsec = when ? (int64_t)((uint64_t)when->tv_sec * 1000000000u + (uint64_t)when->tv_nsec) : dispatch_fake_now(CLOCK_REALTIME);
    nsec = (int64_t)((uint64_t)nsec + (uint64_t)delta);
    if (nsec <= 1)
        return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll; // sic
    return (dispatch_time_t)-nsec;
}
inline dispatch_semaphore_t dispatch_semaphore_create(long value)
{
    if (value < 0) return 0;
    dispatch_semaphore_t s = (dispatch_semaphore_t)malloc(sizeof(*s));
    if (!s) return 0;
    if (sem_init(&s->sem, 0, (unsigned)value) != 0) { free(s); return 0; }
    return s;
}
inline void dispatch_release(dispatch_semaphore_t s)
{
    if (sem_destroy(&s->sem) != 0) abort();
    free(s);
}
inline long dispatch_semaphore_signal(dispatch_semaphore_t s)
{
    if (sem_post(&s->sem) != 0) abort();
    return 0;
}
inline long dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t timeout)
{
    for (;;)
    {
        int r;
        if (timeout == DISPATCH_TIME_FOREVER) r = sem_wait(&s->sem);
        else if (timeout == DISPATCH_TIME_NOW) r = sem_trywait(&s->sem);
        else
        {
            int64_t t = (int64_t)timeout < 0 ? -(int64_t)timeout : (int64_t)timeout;
            struct timespec ts = { (time_t)(t / 1000000000), (long)(t % 1000000000) };
            r = sem_clockwait(&s->sem, (int64_t)timeout < 0 ? CLOCK_REALTIME : CLOCK_MONOTONIC, &ts);
        }
        if (r == 0) return 0;
        if (errno != EINTR) return 49;
    }
}
#endif
