// Forced include for every instrumented translation unit: makes Boost.Atomic use the compiler's atomic
// builtins everywhere (its x86 "extra" backend is inline assembly, which instrumentation cannot see).
#ifndef MC_PREFIX_H
#define MC_PREFIX_H
#if defined(MC_NO_POSIX_EXT)
#include <unistd.h>
#undef _POSIX_SEMAPHORES
#define _POSIX_SEMAPHORES -1
#undef _POSIX_TIMEOUTS
#define _POSIX_TIMEOUTS -1
#endif
#if defined(MC_NO_INITIALIZER)   // a platform without static initializers: the constructors call pthread_*_init
#include <mutex>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <memory>
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_COND_INITIALIZER
#endif
#include <boost/atomic/detail/platform.hpp>
#undef BOOST_ATOMIC_DETAIL_EXTRA_BACKEND
#undef BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_GCC_X86
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND generic
#define BOOST_ATOMIC_DETAIL_EXTRA_BACKEND_GENERIC
#undef BOOST_ATOMIC_DETAIL_EXTRA_FP_BACKEND
#define BOOST_ATOMIC_DETAIL_EXTRA_FP_BACKEND generic
#define BOOST_ATOMIC_DETAIL_EXTRA_FP_BACKEND_GENERIC
#if defined(MC_CXX03)   // the code paths for compilers without C++11 initialisation and variadic templates (the rest of Boost keeps its own)
#include <mutex>
#include <condition_variable>
#include <thread>
#include <boost/version.hpp>
#include <boost/config.hpp>
#include <boost/atomic.hpp>
#include <boost/system/system_error.hpp>
#include <boost/throw_exception.hpp>
#include <boost/move/move.hpp>
#include <boost/chrono.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/intrusive/list.hpp>
#define BOOST_NO_CXX11_UNIFIED_INITIALIZATION_SYNTAX
#define BOOST_NO_CXX11_VARIADIC_TEMPLATES
#define BOOST_NO_CXX11_CONSTEXPR
#endif
#if defined(MC_WIN)   // the Windows implementation of the library, on a model of the Windows API (mc/win); the rest of Boost stays as it is here
#include <mutex>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <climits>
#include <cstdlib>
#include <boost/version.hpp>
#include <boost/config.hpp>
#include <boost/atomic.hpp>
#include <boost/system/system_error.hpp>
#include <boost/throw_exception.hpp>
#include <boost/move/move.hpp>
#include <boost/chrono.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
namespace std { inline int mc_win_atexit(void(*)()){ return 0; } }
#define atexit mc_win_atexit
#define BOOST_WINDOWS
#include <boost/sync/detail/config.hpp>
#undef BOOST_WINDOWS
#endif
#endif
