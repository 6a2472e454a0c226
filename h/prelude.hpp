// Forced into every translation unit that is watched by an instrumentation (-include).
//  * Boost.Atomic: replace the x86 inline-assembler "extra" operations by the compiler intrinsics, which the
//    instrumentation can see. The operations and memory orders requested by the library are unchanged.
//  * VCFG_NO_SEM: pretend that the platform has neither POSIX semaphores nor POSIX timeouts, which selects the
//    library's emulations.
//  * VCFG_NO_STATIC_INIT: pretend that mutexes and condition variables have no static initializers.
#ifndef VERIF_PRELUDE_HPP_
#define VERIF_PRELUDE_HPP_
#include <unistd.h>
#ifdef VCFG_VRT
// vrt makes compare_exchange_weak fail spuriously. The instrumentation doesn't tell weak from strong, so catch the intrinsic.
extern "C" int vrt_weak_fail(void);
template< typename T, typename U, typename V >
inline __attribute__((always_inline)) bool vrt_cas_n(T* p, U* e, V d, bool weak, int so, int fo) noexcept
{
    if (weak && vrt_weak_fail()) { *e = __atomic_load_n(p, fo); return false; }
    return __atomic_compare_exchange_n(p, e, d, weak, so, fo);
}
#define __atomic_compare_exchange_n(p, e, d, w, s, f) vrt_cas_n(p, e, d, w, s, f)
#endif
#ifdef VCFG_NO_SEM
#undef _POSIX_SEMAPHORES
#undef _POSIX_TIMEOUTS
#endif
#include <boost/atomic/detail/platform.hpp>
#undef BOOST_ATOMIC_DETAIL_EXTRA_BACKEND
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND generic
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_GENERIC
#undef BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_HEADER
#include <boost/assert.hpp>
#ifdef VCFG_NO_STATIC_INIT
#include <pthread.h>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <system_error>
#include <boost/system/system_error.hpp>
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_COND_INITIALIZER
#endif
#ifdef VCFG_WIN
// The Windows back ends, on the model of the Windows API in vrt/w32.inc. Everything that isn't Boost.Sync is still what it is on Linux.
#include <errno.h>
#include <limits.h>
#include <time.h>
#include <sys/time.h>
#include <pthread.h>
#include <semaphore.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <ratio>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <vector>
#include <boost/config.hpp>
#include <boost/cstdint.hpp>
#include <boost/version.hpp>
#include <boost/memory_order.hpp>
#include <boost/static_assert.hpp>
#include <boost/throw_exception.hpp>
#include <boost/assert/source_location.hpp>
#include <boost/atomic/atomic.hpp>
#include <boost/atomic/atomic_flag.hpp>
#include <boost/atomic/fences.hpp>
#include <boost/chrono/chrono.hpp>
#include <boost/core/enable_if.hpp>
#include <boost/core/explicit_operator_bool.hpp>
#include <boost/core/scoped_enum.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/intrusive/list.hpp>
#include <boost/move/core.hpp>
#include <boost/move/utility.hpp>
#include <boost/mpl/and.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/preprocessor/seq/enum.hpp>
#include <boost/ratio/ratio.hpp>
#include <boost/system/error_code.hpp>
#include <boost/system/system_error.hpp>
#define BOOST_WINDOWS
#include "../fake/win/w32.hpp"
#endif
#endif
