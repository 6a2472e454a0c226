// Stand-in for the part of the Windows API (and of Boost.WinAPI) that Boost.Sync uses. The functions are implemented by
// vrt, which models the behaviour Windows documents. Used only by the configurations that run the Windows back ends.
#ifndef VERIF_W32_HPP_
#define VERIF_W32_HPP_
#include <stdint.h>
#include <stddef.h>

#define BOOST_WINAPI_VERSION_NT4 0x0400
#define BOOST_WINAPI_VERSION_WINXP 0x0501
#define BOOST_WINAPI_VERSION_WIN6 0x0600
#ifndef BOOST_USE_WINAPI_VERSION
#define BOOST_USE_WINAPI_VERSION BOOST_WINAPI_VERSION_WIN6
#endif
#define BOOST_WINAPI_NTAPI_CC
#define BOOST_WINAPI_WINAPI_CC

extern "C" {
struct w32_filetime { unsigned dwLowDateTime, dwHighDateTime; };
struct w32_semaphore_info { unsigned current, maximum; };
unsigned w32_GetLastError(void);
void* w32_CreateEvent(int manual, int initial);
void* w32_CreateSemaphore(long initial, long max, const wchar_t* name);
void* w32_OpenSemaphore(const wchar_t* name);
void* w32_CreateTimer(int manual);
int w32_CloseHandle(void* h);
int w32_SetEvent(void* h);
int w32_ResetEvent(void* h);
int w32_ReleaseSemaphore(void* h, long n, long* previous);
int w32_SetWaitableTimer(void* h, int64_t due);
unsigned w32_WaitForMultipleObjects(unsigned n, void* const* h, int all, unsigned ms);
int w32_DuplicateHandle(void* h, void** res);
int w32_RegisterWait(void** res, void* h, void (*f)(void*, unsigned char), void* ctx);
int w32_UnregisterWait(void* w);
unsigned w32_TlsAlloc(void);
int w32_TlsFree(unsigned key);
void* w32_TlsGetValue(unsigned key);
int w32_TlsSetValue(unsigned key, void* p);
void w32_GetSystemTime(uint64_t* t);
unsigned w32_GetTickCount(void);
int64_t w32_QueryPerformanceCounter(void);
void w32_SwitchToThread(void);
int w32_QuerySemaphore(void* h, unsigned info_class, void* info, unsigned size, unsigned* ret);
int w32_InitOnce(long* once, int (*f)(void*, void*, void**), void* arg);
}

namespace boost { namespace winapi {

typedef unsigned int DWORD_;
typedef unsigned int ULONG_;
typedef int LONG_;
typedef int BOOL_;
typedef unsigned char BOOLEAN_;
typedef void* HANDLE_;
typedef void* PVOID_;
typedef void* LPVOID_;
typedef void* HMODULE_;
typedef int NTSTATUS_;
typedef int64_t LONGLONG_;
typedef unsigned long ULONG_PTR_;
union LARGE_INTEGER_ { struct { DWORD_ LowPart; LONG_ HighPart; } u; LONGLONG_ QuadPart; };
typedef w32_filetime FILETIME_;

const DWORD_ infinite = 0xFFFFFFFFu;
const DWORD_ wait_object_0 = 0;
const DWORD_ wait_timeout = 258;
const DWORD_ wait_failed = 0xFFFFFFFFu;
const DWORD_ max_non_infinite_wait = 0xFFFFFFFEu;
const DWORD_ semaphore_all_access = 0x1F0003;
const DWORD_ duplicate_same_access = 2;
const DWORD_ wt_execute_only_once = 8, wt_execute_in_wait_thread = 4;
const DWORD_ tls_out_of_indexes = 0xFFFFFFFFu;

inline DWORD_ GetLastError() { return w32_GetLastError(); }
inline HANDLE_ create_anonymous_event(void*, BOOL_ manual, BOOL_ initial) { return w32_CreateEvent(manual, initial); }
inline HANDLE_ create_anonymous_semaphore(void*, LONG_ initial, long max) { return w32_CreateSemaphore(initial, max > 0x7fffffff ? 0x7fffffff : max, 0); }
inline HANDLE_ create_anonymous_waitable_timer(void*, BOOL_ manual) { return w32_CreateTimer(manual); }
inline HANDLE_ CreateSemaphoreW(void*, LONG_ initial, long max, const wchar_t* name) { return w32_CreateSemaphore(initial, max > 0x7fffffff ? 0x7fffffff : max, name); }
inline HANDLE_ OpenSemaphoreW(DWORD_, BOOL_, const wchar_t* name) { return w32_OpenSemaphore(name); }
inline BOOL_ CloseHandle(HANDLE_ h) { return w32_CloseHandle(h); }
inline BOOL_ SetEvent(HANDLE_ h) { return w32_SetEvent(h); }
inline BOOL_ ResetEvent(HANDLE_ h) { return w32_ResetEvent(h); }
inline BOOL_ ReleaseSemaphore(HANDLE_ h, long n, LONG_* prev) { long p = 0; BOOL_ r = w32_ReleaseSemaphore(h, n, &p); if (prev) *prev = (LONG_)p; return r; }
inline BOOL_ SetWaitableTimer(HANDLE_ h, const LARGE_INTEGER_* due, long, void*, void*, BOOL_) { return w32_SetWaitableTimer(h, due->QuadPart); }
inline DWORD_ WaitForSingleObject(HANDLE_ h, DWORD_ ms) { return w32_WaitForMultipleObjects(1, &h, 0, ms); }
inline DWORD_ WaitForMultipleObjects(DWORD_ n, HANDLE_ const* h, BOOL_ all, DWORD_ ms) { return w32_WaitForMultipleObjects(n, h, all, ms); }
inline HANDLE_ GetCurrentProcess() { return (HANDLE_)(intptr_t)-1; }
inline HANDLE_ GetCurrentThread() { return (HANDLE_)(intptr_t)-2; }
inline DWORD_ GetCurrentProcessId() { return 0x1234abcd; }
inline BOOL_ DuplicateHandle(HANDLE_, HANDLE_ h, HANDLE_, HANDLE_* res, DWORD_, BOOL_, DWORD_) { return w32_DuplicateHandle(h, res); }
inline BOOL_ RegisterWaitForSingleObject(HANDLE_* res, HANDLE_ h, void (*f)(PVOID_, BOOLEAN_), PVOID_ ctx, DWORD_, DWORD_) { return w32_RegisterWait(res, h, f, ctx); }
inline BOOL_ UnregisterWait(HANDLE_ w) { return w32_UnregisterWait(w); }
inline DWORD_ TlsAlloc() { return w32_TlsAlloc(); }
inline BOOL_ TlsFree(DWORD_ k) { return w32_TlsFree(k); }
inline LPVOID_ TlsGetValue(DWORD_ k) { return w32_TlsGetValue(k); }
inline BOOL_ TlsSetValue(DWORD_ k, LPVOID_ p) { return w32_TlsSetValue(k, p); }
inline void GetSystemTimeAsFileTime(FILETIME_* t) { uint64_t v; w32_GetSystemTime(&v); t->dwLowDateTime = (unsigned)v; t->dwHighDateTime = (unsigned)(v >> 32); }
inline DWORD_ GetTickCount() { return w32_GetTickCount(); }
inline BOOL_ QueryPerformanceCounter(LARGE_INTEGER_* v) { v->QuadPart = w32_QueryPerformanceCounter(); return 1; }
inline BOOL_ QueryPerformanceFrequency(LARGE_INTEGER_* v) { v->QuadPart = 10000000; return 1; }
inline BOOL_ SwitchToThread() { w32_SwitchToThread(); return 1; }
inline HMODULE_ GetModuleHandleW(const wchar_t*) { return (HMODULE_)(intptr_t)0x1000; }
inline void* get_proc_address(HMODULE_, const char*) { return (void*)&w32_QuerySemaphore; }

} }
#endif
