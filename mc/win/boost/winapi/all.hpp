// A model of the part of the Windows API the library uses, on top of the model checker's kernel objects (mc_k_*).
// Included in place of Boost.WinAPI when the Windows implementation is checked (build variant win).
#ifndef MC_WINAPI_HPP
#define MC_WINAPI_HPP
#include <stdint.h>
#include <stddef.h>
#include <errno.h>
#include <stdlib.h>
#include <time.h>
#include <pthread.h>
#include <new>
#include "mc.h"
#define MCW static inline __attribute__((unused,no_sanitize("thread")))
#define BOOST_WINAPI_VERSION_WIN6 0x0600
#ifndef BOOST_USE_WINAPI_VERSION
#define BOOST_USE_WINAPI_VERSION 0x0501
#endif
#define BOOST_WINAPI_NTAPI_CC
#undef LONG_MAX
#define LONG_MAX 0x7fffffffL      // a long has 32 bits there
#define ERROR_ALREADY_EXISTS 183
namespace mc { namespace win {
struct H { uint32_t id; int kind; int64_t due; bool rel; };   // kind: 0 semaphore, 1 event, 2 manual event, 3 timer, 4 thread
MCW H* make(int kind,long v){ H* h=(H*)malloc(sizeof(H)); if(!h){ errno=8; return 0; } h->id=0; h->kind=kind; h->due=INT64_MAX; h->rel=false; if(kind<3) mc_k_init(&h->id,kind,v); return h; }
struct W { void (*f)(void*,unsigned char); void* p; };
MCW pthread_key_t& wkey(){ static pthread_key_t k; return k; }
MCW bool& wmade(){ static bool b; return b; }
MCW void wrun(void* p){ W* w=(W*)p; w->f(w->p,0); }
} }
namespace boost { namespace winapi {
typedef int BOOL_; typedef unsigned char BOOLEAN_; typedef uint32_t DWORD_; typedef uint32_t ULONG_; typedef int32_t LONG_; typedef void* HANDLE_; typedef void* HMODULE_; typedef void* PVOID_; typedef int32_t NTSTATUS_; typedef int64_t LARGE_INTEGER_;
struct FILETIME_ { uint32_t lo, hi; };
static const DWORD_ infinite=0xffffffffu, max_non_infinite_wait=0xfffffffeu, wait_object_0=0, wait_timeout=258, wait_failed=0xffffffffu, wait_abandoned=0x80;
static const DWORD_ tls_out_of_indexes=0xffffffffu, duplicate_same_access=2, semaphore_all_access=0x1F0003, wt_execute_in_wait_thread=4, wt_execute_only_once=8;
static const HANDLE_ invalid_handle_value=(HANDLE_)-1;
MCW DWORD_ GetLastError(){ return errno; }
MCW DWORD_ GetCurrentProcessId(){ return 0x1234abcd; }
MCW HANDLE_ GetCurrentProcess(){ return (HANDLE_)-1; }
MCW HANDLE_ GetCurrentThread(){ return (HANDLE_)-2; }
MCW BOOL_ CloseHandle(HANDLE_ p){ mc::win::H* h=(mc::win::H*)p; if(h->kind<3) mc_k_close(&h->id); free(h); return 1; }
MCW BOOL_ DuplicateHandle(HANDLE_,HANDLE_,HANDLE_,HANDLE_* r,DWORD_,BOOL_,DWORD_){ *r=mc::win::make(4,0); return *r!=0; }
MCW HANDLE_ create_anonymous_event(void*,BOOL_ manual,BOOL_ set){ return mc::win::make(manual?2:1,set); }
MCW HANDLE_ create_anonymous_semaphore(void*,LONG_ v,LONG_ mx){ if(v<0||mx<=0||v>mx){ errno=87; return 0; } return mc::win::make(0,v); }
MCW HANDLE_ CreateSemaphoreW(void*,LONG_ v,LONG_ mx,const wchar_t*){ errno=0; return create_anonymous_semaphore(0,v,mx); }
MCW HANDLE_ OpenSemaphoreW(DWORD_,BOOL_,const wchar_t*){ errno=2; return 0; }
MCW HANDLE_ create_anonymous_waitable_timer(void*,BOOL_){ return mc::win::make(3,0); }
MCW BOOL_ SetEvent(HANDLE_ h){ return mc_k_signal(&((mc::win::H*)h)->id,1,1); }
MCW BOOL_ ResetEvent(HANDLE_ h){ return mc_k_signal(&((mc::win::H*)h)->id,0,1); }
MCW BOOL_ ReleaseSemaphore(HANDLE_ h,LONG_ n,LONG_*){ if(n<=0){ errno=87; return 0; } return mc_k_signal(&((mc::win::H*)h)->id,n,LONG_MAX); }
static const int64_t epoch_diff=116444736000000000ll;
MCW BOOL_ SetWaitableTimer(HANDLE_ p,const LARGE_INTEGER_* due,LONG_,void*,void*,BOOL_){ mc::win::H* h=(mc::win::H*)p; __int128 d=*due; h->rel=d<0; if(h->rel) d=-d*100+mc::mono_now(); else d=(d-epoch_diff)*100; h->due=d>INT64_MAX/2?INT64_MAX/2:d<INT64_MIN/2?INT64_MIN/2:(int64_t)d; return 1; }
MCW DWORD_ waited(int r){ return r==0?wait_object_0:r==1?wait_timeout:wait_failed; }
MCW DWORD_ WaitForSingleObject(HANDLE_ p,DWORD_ ms){ int64_t d=ms==infinite?INT64_MAX:mc::mono_now()+ms*1000000ll; return waited(mc_k_wait(&((mc::win::H*)p)->id,d,CLOCK_MONOTONIC)); }
MCW DWORD_ WaitForMultipleObjects(DWORD_,const HANDLE_* h,BOOL_,DWORD_){ mc::win::H* t=(mc::win::H*)h[1]; int r=mc_k_wait(&((mc::win::H*)h[0])->id,t->due,t->rel?CLOCK_MONOTONIC:CLOCK_REALTIME); return r==1?wait_object_0+1:waited(r); }
MCW void GetSystemTimeAsFileTime(FILETIME_* f){ struct timespec t; clock_gettime(CLOCK_REALTIME,&t); int64_t v=(t.tv_sec*1000000000ll+t.tv_nsec)/100+epoch_diff; __builtin_memcpy(f,&v,sizeof v); }
MCW DWORD_ TlsAlloc(){ pthread_key_t k; if(pthread_key_create(&k,0)){ errno=259; return tls_out_of_indexes; } return k; }
MCW BOOL_ TlsFree(DWORD_ k){ pthread_key_delete(k); return 1; }
MCW BOOL_ TlsSetValue(DWORD_ k,void* p){ int e=pthread_setspecific(k,p); errno=e; return !e; }
MCW void* TlsGetValue(DWORD_ k){ return pthread_getspecific(k); }
MCW BOOL_ SwitchToThread(){ return 1; }
MCW HMODULE_ GetModuleHandleW(const wchar_t*){ return 0; }
MCW void* get_proc_address(HMODULE_,const char*){ return 0; }
// only used to wait for the end of the current thread
MCW BOOL_ RegisterWaitForSingleObject(HANDLE_* r,HANDLE_,void (*f)(void*,BOOLEAN_),void* p,DWORD_,ULONG_){ using namespace mc::win; if(!wmade()){ pthread_key_create(&wkey(),&wrun); wmade()=true; } W* w=(W*)malloc(sizeof(W)); if(!w){ errno=8; return 0; } w->f=f; w->p=p; pthread_setspecific(wkey(),w); *r=w; return 1; }
MCW BOOL_ UnregisterWait(HANDLE_ h){ pthread_setspecific(mc::win::wkey(),0); free(h); return 1; }
} }
#undef MCW
#endif
