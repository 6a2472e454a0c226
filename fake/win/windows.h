#ifndef VERIF_WINDOWS_H_
#define VERIF_WINDOWS_H_
#include "w32.hpp"
typedef unsigned int DWORD;
typedef int BOOL;
typedef void* HANDLE;
typedef void* LPVOID;
typedef void* PVOID;
typedef long INIT_ONCE;
typedef int (*PINIT_ONCE_FN)(void*, void*, void**);
#define INIT_ONCE_STATIC_INIT 0
#define TRUE 1
#define FALSE 0
#define WINAPI
#define TLS_OUT_OF_INDEXES 0xFFFFFFFFu
inline DWORD GetLastError() { return w32_GetLastError(); }
inline DWORD TlsAlloc() { return w32_TlsAlloc(); }
inline BOOL TlsFree(DWORD k) { return w32_TlsFree(k); }
inline void* TlsGetValue(DWORD k) { return w32_TlsGetValue(k); }
inline BOOL TlsSetValue(DWORD k, void* p) { return w32_TlsSetValue(k, p); }
inline BOOL SwitchToThread() { w32_SwitchToThread(); return 1; }
inline BOOL InitOnceExecuteOnce(INIT_ONCE* o, PINIT_ONCE_FN f, void* arg, void**) { return w32_InitOnce(o, f, arg); }
#endif
