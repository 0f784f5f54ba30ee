// Helpers shared by the scenario programs.
#ifndef H_COMMON_H
#define H_COMMON_H
#include <mc.h>
#include <boost/assert.hpp>
#include <boost/sync/support/std_chrono.hpp>
#include <chrono>
#include <vector>
#include <stdexcept>
namespace bs = boost::sync;
using mc::spawn; using mc::join; using mc::quiesce; using mc::choose; using mc::Counter;
typedef std::chrono::nanoseconds ns;
typedef std::chrono::system_clock sysclk;
typedef std::chrono::steady_clock stdclk;
#if defined(BOOST_SYNC_HAS_PTHREAD_EINTR_BUG)
static const unsigned F_WAKE = mc::F_EINTR|mc::F_SPURIOUS|mc::F_CASWEAK|mc::F_PTHREAD_EINTR;
#else
static const unsigned F_WAKE = mc::F_EINTR|mc::F_SPURIOUS|mc::F_CASWEAK;
#endif   // environment faults every caller must tolerate

// and, for primitives that the library builds on condition variables itself, timed waits that consume a signal although they time out (POSIX)
static const unsigned F_WAKE_C = F_WAKE|mc::F_SIGEAT;

// the ways to give a timeout
enum TK { TK_FOR, TK_TIMED, TK_SYS, TK_STEADY, TK_TIMED_SYS, TK_TIMED_STEADY, TK_OWN, TK_TIMED_OWN, TK_N };
static inline const char* tkname(int k){ static const char* n[]={"duration","timed_*(duration)","system_clock","steady_clock","timed_*(system_clock)","timed_*(steady_clock)","own clock","timed_*(own clock)"}; return n[k]; }
static inline sysclk::time_point sys_at(int64_t d){ return sysclk::now()+std::chrono::duration_cast<sysclk::duration>(ns(d)); }
static inline stdclk::time_point std_at(int64_t d){ return stdclk::now()+ns(d); }

// a user's clock: the monotonic clock with another epoch
struct OwnClock { typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<OwnClock> time_point; static const bool is_steady=true; static time_point now(){ return time_point(duration(mc::mono_now()-3000000000LL)); } };
static inline OwnClock::time_point own_at(int64_t d){ return OwnClock::now()+ns(d); }

// Client programs: nthreads threads x nops operations out of nkinds, up to symmetry of the threads. run(kind) executes one operation.
template<class Run> void programs(int nthreads,int nops,int nkinds,Run run){
  int total=1; for(int i=0;i<nops;i++) total*=nkinds;
  int* prog=new int[nthreads]; prog[0]=mc::choose_shard(total); for(int t=1;t<nthreads;t++) prog[t]=prog[t-1]+choose(total-prog[t-1]);
  for(int t=0;t<nthreads;t++){ int code=prog[t]; spawn([=]{ int c=code; for(int i=0;i<nops;i++){ run(c%nkinds); c/=nkinds; } }); }
  delete[] prog;
}
static inline int64_t max0(int64_t x){ return x<0?0:x; }
// Durations and deadlines on other clocks while the system clock is adjusted. f(tk,d) is a timed operation that nothing ends before its time; it returns
// true if it ended for another reason. exact: the adjustment does not concern it; otherwise it at least never gives up before a deadline on
// another clock, and is wrong by no more than the adjustment.
template<class F> void clock_set_during(F f,bool exact){
  static const int64_t J[]={-700,-300,100,300,700}; static const int K[]={TK_FOR,TK_TIMED,TK_STEADY,TK_TIMED_STEADY,TK_OWN,TK_TIMED_OWN};
  int64_t d=1000, j=J[choose(5)]; int k=choose(6), tk=K[k];
  spawn([=]{ mc::sleep_ns(500); mc::jump_real(j); });
  int64_t m=mc::mono_now(); bool r=f(tk,d); int64_t el=mc::mono_now()-m; if(r) return;
  int64_t lo=exact||k>1?d:d-max0(j), hi=exact?d:d+max0(-j);
  MC_CHECK(el>=lo&&el<=hi,"an operation with a timeout of %ld ns (%s) ended after %ld ns because the system clock was set by %ld ns",(long)d,tkname(tk),(long)el,(long)j);
}
// a user's clock (half the rate of real time) that fails at its left-th reading
struct ThrowClock { struct failure {}; typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<ThrowClock> time_point; static const bool is_steady=true; static int& left(){ static int l; return l; } static time_point now(){ if(left()--==0) throw failure(); return time_point(duration(mc::mono_now()/2)); } };
#endif
