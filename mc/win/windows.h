// the part of windows.h that src/tss_windows.cpp uses
#ifndef MC_WINDOWS_H
#define MC_WINDOWS_H
#include <boost/winapi/all.hpp>
#define WINAPI
#define TRUE 1
#define FALSE 0
#define TLS_OUT_OF_INDEXES boost::winapi::tls_out_of_indexes
typedef boost::winapi::BOOL_ BOOL; typedef boost::winapi::DWORD_ DWORD;
using boost::winapi::TlsAlloc; using boost::winapi::TlsFree; using boost::winapi::TlsSetValue; using boost::winapi::TlsGetValue; using boost::winapi::SwitchToThread;
// one time initialization (Windows Vista and later)
typedef struct { long state; } INIT_ONCE; typedef BOOL (*PINIT_ONCE_FN)(INIT_ONCE*,void*,void**);
#define INIT_ONCE_STATIC_INIT { 0 }
#define INIT_ONCE_CHECK_ONLY 1
static inline __attribute__((unused)) BOOL InitOnceExecuteOnce(INIT_ONCE* o,PINIT_ONCE_FN f,void* p,void** c){ for(;;){ long s=mc_cmpxchg(&o->state,1,0); if(s==2) return TRUE; if(s==0) break; } f(o,p,c); __atomic_store_n(&o->state,2l,__ATOMIC_SEQ_CST); return TRUE; }
static inline __attribute__((unused)) BOOL InitOnceBeginInitialize(INIT_ONCE* o,DWORD,BOOL* pending,void**){ bool r=__atomic_load_n(&o->state,__ATOMIC_SEQ_CST)==2; *pending=!r; return r; }
// the notifications a DLL or the TLS callback of an executable gets from the system (tss_windows_dll.cpp, tss_windows_pe.cpp)
namespace boost { namespace sync { namespace detail { namespace windows { void on_thread_exit(); void tss_cleanup_implemented(){} } } } }
extern "C" void mc_thread_end(){ boost::sync::detail::windows::on_thread_exit(); }
#endif
