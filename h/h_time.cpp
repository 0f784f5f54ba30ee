// Time types: every supported type x boundary grids of values x every timed operation of every primitive x several positions of
// the system clock. The oracle is exact integer arithmetic on when (in virtual time) the operation gives up.
#include "common.h"
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events.hpp>
#include <boost/sync/mutexes.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/condition_variables.hpp>
#include <boost/sync/support/boost_chrono.hpp>
#include <boost/sync/support/boost_date_time.hpp>
#include <boost/sync/support/posix_time.hpp>
#include <limits>
#include <atomic>
typedef __int128 big;
namespace bc = boost::chrono; namespace pt = boost::posix_time; namespace gr = boost::gregorian;
namespace sc = std::chrono;
#if defined(BOOST_DATE_TIME_POSIX_TIME_STD_CONFIG)
enum { PT_TICK=1 };   // the resolution of ptime in ns
#else
enum { PT_TICK=1000 };
#endif
enum How { FOR, TIMED };
static inline bool ok(bool b){ return b; } static inline bool ok(bs::cv_status s){ return s==bs::cv_status::no_timeout; }
// the primitives, in a state in which every wait has to time out
template<class E> struct PE { E e; template<class T> bool rel(int how,T const& t){ return how==FOR?e.wait_for(t):e.timed_wait(t); } template<class T> bool abs(int how,T const& t){ return how==FOR?e.wait_until(t):e.timed_wait(t); } };
struct PSem : PE<bs::semaphore> { void release(){ e.post(); } };
struct PAre : PE<bs::auto_reset_event> { void release(){ e.post(); } };
struct PMre : PE<bs::manual_reset_event> { void release(){ e.set(); } };
struct PMtx { bs::timed_mutex m; PMtx(){ m.lock(); } void release(){ m.unlock(); } template<class T> bool rel(int how,T const& t){ bool r=how==FOR?m.try_lock_for(t):m.timed_lock(t); if(r) m.unlock(); return r; } template<class T> bool abs(int how,T const& t){ bool r=how==FOR?m.try_lock_until(t):m.timed_lock(t); if(r) m.unlock(); return r; } };
struct PCv { bs::mutex m; bs::condition_variable c; void release(){ bs::lock_guard<bs::mutex> g(m); c.notify_all(); } template<class T> bool rel(int how,T const& t){ bs::unique_lock<bs::mutex> l(m); return how==FOR?ok(c.wait_for(l,t)):ok(c.timed_wait(l,t)); } template<class T> bool abs(int how,T const& t){ bs::unique_lock<bs::mutex> l(m); return how==FOR?ok(c.wait_until(l,t)):ok(c.timed_wait(l,t)); } };
struct PCvP { bs::mutex m; bs::condition_variable c; bool f; PCvP():f(false){} void release(){ bs::lock_guard<bs::mutex> g(m); f=true; c.notify_all(); } struct Pr { PCvP* p; bool operator()() const { return p->f; } }; Pr pr(){ Pr p={this}; return p; } template<class T> bool rel(int how,T const& t){ bs::unique_lock<bs::mutex> l(m); return how==FOR?c.wait_for(l,t,pr()):c.timed_wait(l,t,pr()); } template<class T> bool abs(int how,T const& t){ bs::unique_lock<bs::mutex> l(m); return how==FOR?c.wait_until(l,t,pr()):c.timed_wait(l,t,pr()); } };
typedef bs::unique_lock<bs::spin_mutex> USpin;
struct PAny { bs::spin_mutex m; bs::condition_variable_any c; void release(){ bs::lock_guard<bs::spin_mutex> g(m); c.notify_all(); } template<class T> bool rel(int how,T const& t){ USpin l(m); return how==FOR?ok(c.wait_for(l,t)):ok(c.timed_wait(l,t)); } template<class T> bool abs(int how,T const& t){ USpin l(m); return how==FOR?ok(c.wait_until(l,t)):ok(c.timed_wait(l,t)); } };
struct PAnyP { bs::spin_mutex m; bs::condition_variable_any c; bool f; PAnyP():f(false){} void release(){ bs::lock_guard<bs::spin_mutex> g(m); f=true; c.notify_all(); } struct Pr { PAnyP* p; bool operator()() const { return p->f; } }; Pr pr(){ Pr p={this}; return p; } template<class T> bool rel(int how,T const& t){ USpin l(m); return how==FOR?c.wait_for(l,t,pr()):c.timed_wait(l,t,pr()); } template<class T> bool abs(int how,T const& t){ USpin l(m); return how==FOR?c.wait_until(l,t,pr()):c.timed_wait(l,t,pr()); } };

#if defined(MC_V_win)   // the resolution there: milliseconds for durations and chrono time points, 100 ns for the clock
static const int64_t REL_SLOP=1000099, ABS_SLOP=999999;
#else
static const int64_t REL_SLOP=0, ABS_SLOP=0;
#endif
static const int64_t YEAR=31536000LL*1000000000LL;
static int real_pos(){   // where the system clock stands: carry, no carry, just after the epoch
  static const int64_t at[]={1600000000LL*1000000000LL+999999999LL,1600000000LL*1000000000LL,1000000001LL,500000000LL}; int k=choose(4); int64_t d=at[k]-mc::real_now(); mc::jump_real(d); return k; }
static bool huge(big ns){ return ns>(big)60*YEAR; }
static const char* str(big v){ static char b[4][48]; static int k; k=(k+1)&3; char* p=b[k]+47; *p=0; bool n=v<0; if(n) v=-v; do { *--p='0'+(int)(v%10); v/=10; } while(v); if(n) *--p='-'; return p; }
// lo..hi: the exact time in ns, rounded down and up
template<class P,class T> void rel_wait(int how,T const& t,big lo,big hi){
  real_pos(); P* p=new P; bool h=huge(lo); int tid=spawn([=]{
    int64_t t0=mc::mono_now(); bool r=p->rel(how,t); int64_t el=mc::mono_now()-t0; 
    if(h){ MC_CHECK(r,"a wait of %s ns timed out after %ld ns",str(lo),(long)el); return; }
    MC_CHECK(!r,"a wait succeeded although nothing happened"); big a=lo<=REL_SLOP?0:lo-REL_SLOP,b=hi<0?0:hi; MC_CHECK((big)el>=a&&(big)el<=b,"a relative wait of %s ns took %ld ns",str(lo),(long)el); });
  if(h){ mc::sleep_ns(50*YEAR); MC_CHECK(!mc::finished(tid),"a wait of %s ns ended within 50 years",str(lo)); p->release(); }
  join(tid);
}
// instant: in ns since 1970 (relative to the real clock)
template<class P,class T> void abs_wait(int how,T const& t,big lo,big hi){
  if(ABS_SLOP&&lo<(big)-11644473600LL*1000000000) return;   // before 1601, not representable there
  P* p=new P; big now=mc::real_now(); bool h=huge(lo-now); int tid=spawn([=]{
    bool r=p->abs(how,t); big at=mc::real_now();
    if(h){ MC_CHECK(r,"a wait until %s ns timed out at %s",str(lo),str(at)); return; }
    MC_CHECK(!r,"a wait succeeded although nothing happened"); big a=lo-ABS_SLOP<now?now:lo-ABS_SLOP,b=hi<now?now:hi; MC_CHECK(at>=a&&at<=b,"a wait until %s ns ended at %s ns (started at %s)",str(lo),str(at),str(now)); });
  if(h){ mc::sleep_ns(50*YEAR); MC_CHECK(!mc::finished(tid),"a wait until %s ns ended within 50 years",str(lo)); p->release(); }
  join(tid);
}
static const int64_t G[]={0,1,-1,2,-2,3,-3,7,-7,59,60,61,-60,-61,100,-100,127,-128,999,-999,1000,-1000,1001,-1001,999999,-999999,1000000,-1000000,1000001,-1000001,16777217,999999999,-999999999,1000000000,-1000000000,1000000001,-1000000001,1999999999,-1999999999,2000000000,-2000000000,2147483647,2147483648LL,-2147483648LL,-2147483649LL,4294967295LL,4294967296LL,4294967297LL,-4294967297LL,123456789012LL,-123456789012LL,9007199254740993LL,-9007199254740993LL,1LL<<60,-(1LL<<60),(1LL<<60)+1,(1LL<<62)-1,-(1LL<<62),9223372036854775807LL,-9223372036854775807LL};
enum { NG=sizeof G/sizeof *G };
static big floor_div(big a,big b){ big q=a/b; return a%b<0?q-1:q; }
static big ceil_div(big a,big b){ return -floor_div(-a,b); }
static const big IMAX=((big)1<<63)-1;
// picks a count for which the value (count*num/den seconds... given in ns as count*n/d) and the intermediate product of an exact conversion fit
template<class Rep> bool pick(big n,big d,Rep* out,big* lo,big* hi){
  int64_t c=G[choose(NG)]; if((big)c>(big)std::numeric_limits<Rep>::max()||(big)c<(big)std::numeric_limits<Rep>::lowest()) return false; big v=(big)c*n; if(floor_div(v,d)>IMAX||floor_div(v,d)<-IMAX) return false; if(v>IMAX||v<-IMAX) return false; *out=(Rep)c; *lo=floor_div(v,d); *hi=ceil_div(v,d); return true; }
template<class P,class D> void std_dur(int how){ typename D::rep c; big lo,hi; typedef typename D::period R; if(!pick(R::num*(1000000000/std::min<intmax_t>(R::den,1000000000)),std::max<intmax_t>(1,R::den/1000000000),&c,&lo,&hi)) return; rel_wait<P>(how,D(c),lo,hi); }
template<class P,class R> void std_ratio(int how){ typedef std::chrono::duration<int64_t,R> D; int64_t c; big lo,hi; if(!pick((big)R::num*1000000000,R::den,&c,&lo,&hi)) return; rel_wait<P>(how,D(c),lo,hi); }
template<class P> void dbl(int how){ static const double v[]={0.0,1e-9,3e-9,1.5,-1.5,0.25,0.3,-0.3,1e-10,-1e-10,0.9999999999,1234567.000001,-0.5,2.5e-9,86400.0,6e8}; double x=v[choose(16)]; long double e=(long double)x*1000000000.0L; big lo=(big)e; if((long double)lo>e) lo--; big hi=lo; if((long double)hi<e) hi++; if(x>1e6){ lo--; hi++; } rel_wait<P>(how,std::chrono::duration<double>(x),lo,hi); }
template<class P> void flt(int how){ static const float v[]={0.0f,0.5f,-0.5f,1.25f,1024.0f,0.001953125f,-8.0f}; float x=v[choose(7)]; big e=(big)((double)x*1e9); rel_wait<P>(how,std::chrono::duration<float>(x),e,e); }
template<class P,class R> void boost_ratio_dur(int how){ typedef bc::duration<int64_t,R> D; int64_t c; big lo,hi; if(!pick((big)R::num*1000000000,R::den,&c,&lo,&hi)) return; rel_wait<P>(how,D(c),lo,hi); }
template<class P> void date_dur(int how){
  int u=choose(6); int64_t c; big lo,hi; static const int64_t n[]={1000,1000000,1000000000LL,60000000000LL,3600000000000LL,PT_TICK}; if(!pick(n[u],1,&c,&lo,&hi)) return;
  switch(u){ case 0: rel_wait<P>(how,pt::microseconds(c),lo,hi); break; case 1: if(c>9000000000000LL||c<-9000000000000LL) return; rel_wait<P>(how,pt::milliseconds(c),lo,hi); break; case 2: if(c>4000000000LL||c<-4000000000LL) return; rel_wait<P>(how,pt::seconds(c),lo,hi); break; case 3: if(c>100000000||c<-100000000) return; rel_wait<P>(how,pt::minutes((long)c),lo,hi); break; case 4: if(c>2000000||c<-2000000) return; rel_wait<P>(how,pt::hours((long)c),lo,hi); break; default: if(c>(1LL<<62)||c<-(1LL<<62)) return; rel_wait<P>(how,pt::time_duration(0,0,0,c),lo,hi); } }
// date-time durations of any resolution
template<int64_t TPS> struct DtTraits { typedef boost::date_time::time_resolution_traits<boost::date_time::time_resolution_traits_adapted64_impl,boost::date_time::nano,(boost::date_time::time_resolution_traits_adapted64_impl::int_type)TPS,9> type; };
template<int64_t TPS> struct DtDur : boost::date_time::time_duration<DtDur<TPS>,typename DtTraits<TPS>::type> { typedef boost::date_time::time_duration<DtDur<TPS>,typename DtTraits<TPS>::type> B; DtDur(int64_t t):B(typename B::impl_type(t)){} DtDur(boost::date_time::special_values s):B(s){} };
template<class P,int64_t TPS> void dt_res(int how){ int64_t c; big lo,hi; if(!pick(TPS>=1000000000?1:1000000000/TPS,TPS>=1000000000?TPS/1000000000:1,&c,&lo,&hi)) return; if(c>(1LL<<62)||c<-(1LL<<62)) return; rel_wait<P>(how,DtDur<TPS>(c),lo,hi); }
// absolute times: a count relative to now, or relative to the epoch
template<class P,class D,class TP> void sys_tp(int how){
  real_pos(); typedef typename D::period R; big n=(big)R::num*1000000000/R::den; int64_t c=G[choose(NG)]; big base=choose(2)?0:floor_div(mc::real_now(),n); big cnt=base+c; if(cnt*n>IMAX||cnt*n<-IMAX||cnt>IMAX||cnt<-IMAX) return; abs_wait<P>(how,TP(D((typename D::rep)cnt)),cnt*n,cnt*n); }
template<class P> void tspec(int how){
  real_pos(); int64_t c=G[choose(NG)]; big base=choose(2)?0:(big)mc::real_now(); big v=base+c; if(choose(2)) v=base+(big)c*1000000000; struct timespec t; big s=floor_div(v,1000000000); if(s>(big)1000000000000000LL||s<-(big)1000000000000000LL) return; t.tv_sec=(time_t)s; t.tv_nsec=(long)(v-s*1000000000); abs_wait<P>(how,t,v,v); }
template<class P> void ptm(int how){
  real_pos(); int64_t c=G[choose(NG)]; big base=choose(2)?0:floor_div(mc::real_now(),PT_TICK); big v=base+c, ns=v*PT_TICK; if(ns>(big)8000000000LL*1000000000||ns<-(big)9000000000LL*1000000000) return; pt::ptime t=pt::ptime(gr::date(1970,1,1))+pt::time_duration(0,0,0,(int64_t)v); abs_wait<P>(how,t,ns,ns); }
// other clocks: steady (the model's monotonic clock has its own epoch)
template<class P,class D,class TP,class CLK> void mono_tp(int how){
  real_pos(); typedef typename D::period R; big n=(big)R::num*1000000000/R::den; int k=choose(NG+1); big now=CLK::now().time_since_epoch().count(); big cnt=k<NG?floor_div(now,n)+G[k]:(-IMAX-1)/n; if(cnt*n>IMAX||cnt*n<-IMAX-1) return;  // the last one: time_point::min()
  big lo=cnt*n-now; P* p=new P; TP tp(D((typename D::rep)cnt)); bool h=huge(lo);
  int tid=spawn([=]{ int64_t t0=mc::mono_now(); bool r=p->abs(how,tp); int64_t el=mc::mono_now()-t0; if(h){ MC_CHECK(r,"timed out after %ld ns",(long)el); return; } MC_CHECK(!r,"a wait succeeded although nothing happened"); big a=lo<0?0:lo; MC_CHECK((big)el==a,"a wait for a deadline %s ns ahead took %ld ns",str(lo),(long)el); });
  if(h){ mc::sleep_ns(50*YEAR); MC_CHECK(!mc::finished(tid),"a wait for %s ns ended within 50 years",str(lo)); p->release(); } join(tid); }

template<class P> void types(int group){
  int how=choose(2);
  if(group==0) switch(mc::choose_shard(12)){
    case 0: std_dur<P,sc::nanoseconds>(how); break; case 1: std_dur<P,sc::microseconds>(how); break; case 2: std_dur<P,sc::milliseconds>(how); break; case 3: std_dur<P,sc::seconds>(how); break; case 4: std_dur<P,sc::minutes>(how); break; case 5: std_dur<P,sc::hours>(how); break;
    case 6: std_dur<P,sc::duration<int,std::milli> >(how); break; case 7: std_dur<P,sc::duration<signed char> >(how); break; case 8: std_dur<P,sc::duration<unsigned,std::micro> >(how); break; case 9: std_dur<P,sc::duration<int64_t,std::pico> >(how); break; case 10: std_ratio<P,std::ratio<1,3> >(how); break; default: std_ratio<P,std::ratio<1001,30000> >(how); }
  if(group==1) switch(mc::choose_shard(24)){
    case 0: dbl<P>(how); break; case 1: flt<P>(how); break; case 2: boost_ratio_dur<P,boost::nano>(how); break; case 3: boost_ratio_dur<P,boost::micro>(how); break; case 4: boost_ratio_dur<P,boost::milli>(how); break; case 5: boost_ratio_dur<P,boost::ratio<1> >(how); break; case 6: boost_ratio_dur<P,boost::ratio<60> >(how); break; case 7: boost_ratio_dur<P,boost::ratio<3600> >(how); break; case 8: boost_ratio_dur<P,boost::ratio<1,3> >(how); break; case 9: boost_ratio_dur<P,boost::pico>(how); break; case 10: dt_res<P,1>(how); break; case 11: dt_res<P,1000>(how); break; case 12: dt_res<P,1000000000>(how); break; case 13: dt_res<P,1000000000000LL>(how); break; case 14: dt_res<P,100>(how); break;
    case 15: std_ratio<P,std::ratio<31556952> >(how); break; case 16: std_ratio<P,std::ratio<86400> >(how); break; case 17: std_ratio<P,std::ratio<1,50000000> >(how); break; case 18: boost_ratio_dur<P,boost::ratio<86400> >(how); break; case 19: std_dur<P,sc::duration<uint32_t,std::nano> >(how); break; case 20: std_dur<P,sc::duration<short,std::micro> >(how); break; case 21: std_dur<P,sc::duration<unsigned char,std::milli> >(how); break;
    default: date_dur<P>(how); }
  if(group==2) switch(mc::choose_shard(12)){
    case 0: sys_tp<P,sysclk::duration,sysclk::time_point>(how); break; case 1: sys_tp<P,sc::microseconds,sc::time_point<sysclk,sc::microseconds> >(how); break; case 2: sys_tp<P,sc::milliseconds,sc::time_point<sysclk,sc::milliseconds> >(how); break; case 3: sys_tp<P,sc::seconds,sc::time_point<sysclk,sc::seconds> >(how); break; case 4: sys_tp<P,sc::hours,sc::time_point<sysclk,sc::hours> >(how); break;
    case 5: sys_tp<P,bc::system_clock::duration,bc::system_clock::time_point>(how); break; case 6: sys_tp<P,bc::milliseconds,bc::time_point<bc::system_clock,bc::milliseconds> >(how); break; case 7: sys_tp<P,bc::seconds,bc::time_point<bc::system_clock,bc::seconds> >(how); break; case 8: sys_tp<P,bc::minutes,bc::time_point<bc::system_clock,bc::minutes> >(how); break; case 9: tspec<P>(how); break; default: ptm<P>(how); }
  if(group==3) switch(mc::choose_shard(4)){
    case 0: mono_tp<P,sc::nanoseconds,stdclk::time_point,stdclk>(how); break; case 1: mono_tp<P,sc::milliseconds,sc::time_point<stdclk,sc::milliseconds>,stdclk>(how); break; case 2: mono_tp<P,bc::nanoseconds,bc::steady_clock::time_point,bc::steady_clock>(how); break; default: mono_tp<P,bc::seconds,bc::time_point<bc::steady_clock,bc::seconds>,bc::steady_clock>(how); }
}
#define TIMES(P) \
SCENARIO(dur_std_##P, "C13,C12", CFG, CFG) { types<P>(0); } \
SCENARIO(dur_other_##P, "C13,C12", CFG, CFG) { types<P>(1); } \
SCENARIO(point_system_##P, "C13,C12", CFG, CFG) { types<P>(2); }
#define STEADY(P) \
SCENARIO(point_steady_##P, "C13,C12", CFG, CFG) { types<P>(3); }
TIMES(PSem) TIMES(PAre) TIMES(PMre) TIMES(PMtx) TIMES(PCv) TIMES(PCvP) TIMES(PAny) TIMES(PAnyP)
#if !defined(MC_V_win)   // there, the last millisecond before a deadline of another clock is spent polling; h_win has these clocks
STEADY(PSem) STEADY(PAre) STEADY(PMre) STEADY(PMtx) STEADY(PCv) STEADY(PCvP) STEADY(PAny) STEADY(PAnyP)
// clocks of the user: half the rate of real time, twice the rate, one that stands still for a while and one that fails
template<int NUM,int DEN> struct RateClock { typedef sc::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef sc::time_point<RateClock> time_point; static const bool is_steady=true; static time_point now(){ return time_point(duration(mc::mono_now()*NUM/DEN)); } };
struct StepClock { typedef sc::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef sc::time_point<StepClock> time_point; static const bool is_steady=false; static std::atomic<int64_t> off; static time_point now(){ return time_point(duration(mc::mono_now()+off)); } };
std::atomic<int64_t> StepClock::off;
struct Boom {};
struct FailClock { typedef sc::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef sc::time_point<FailClock> time_point; static const bool is_steady=true; static int left; static time_point now(){ if(left--==0) throw Boom(); return time_point(duration(mc::mono_now()/2)); } };
int FailClock::left;
static const int64_t DL[]={0,1,2,3,1000,999999999,1000000000,1000000001,5000000000LL,-1,-1000000000};
template<class P,class C> void rate_clock(int how,int num,int den){
  real_pos(); P* p=new P; int64_t d=DL[choose(11)]; typename C::time_point tp=C::now()+typename C::duration(d); int tid=spawn([=]{ int64_t t0=mc::mono_now(); bool r=p->abs(how,tp); int64_t el=mc::mono_now()-t0;
    MC_CHECK(!r,"a wait succeeded although nothing happened"); MC_CHECK(C::now()>=tp,"a wait gave up %ld ns before the deadline of its clock",(long)(tp-C::now()).count());
    if(d<=0) MC_CHECK(el==0,"a wait for a time that had passed took %ld ns",(long)el); else if(num<=den) MC_CHECK(el<=(d+2)*den/num+2,"a wait for %ld ns of a clock with rate %d/%d took %ld ns",(long)d,num,den,(long)el); });
  join(tid); }
// the clock is put back while the wait is in progress
template<class P> void step_clock(int how){
  P* p=new P; StepClock::off=0; int64_t back=choose(2)?2000000000LL:7; StepClock::time_point tp=StepClock::now()+sc::seconds(1); int tid=spawn([=]{ bool r=p->abs(how,tp); MC_CHECK(!r,"a wait succeeded although nothing happened"); MC_CHECK(StepClock::now()>=tp,"a wait gave up %ld ns before the deadline of its clock",(long)(tp-StepClock::now()).count()); });
  mc::sleep_ns(500000000); StepClock::off=-back; join(tid); }
template<class P> void fail_clock(int how){
  P* p=new P; FailClock::left=1<<30; FailClock::time_point tp=FailClock::now()+sc::nanoseconds(40); int n=choose(5); FailClock::left=n; int tid=spawn([=]{ bool r=false,thrown=false; try { r=p->abs(how,tp); } catch(Boom&){ thrown=true; } MC_CHECK(!r,"a wait succeeded although nothing happened"); MC_CHECK(thrown||FailClock::left>=0,"the failure of the clock was lost"); });
  join(tid); int t2=spawn([=]{ bool r=p->rel(how,sc::nanoseconds(100)); MC_CHECK(r,"not usable after the clock had failed"); }); mc::sleep_ns(10); p->release(); join(t2); }
#define CLOCKS(P) \
SCENARIO(clock_rate_##P, "C12", CFG, CFG) { int how=choose(2); switch(choose(4)){ case 0: rate_clock<P,RateClock<1,2> >(how,1,2); break; case 1: rate_clock<P,RateClock<1,3> >(how,1,3); break; case 2: rate_clock<P,RateClock<2,1> >(how,2,1); break; default: rate_clock<P,RateClock<1,1> >(how,1,1); } } \
SCENARIO(clock_step_##P, "C12", CFG, CFG) { step_clock<P>(choose(2)); } \
SCENARIO(clock_fail_##P, "C19", CFG, CFG) { fail_clock<P>(choose(2)); }
CLOCKS(PSem) CLOCKS(PAre) CLOCKS(PMre) CLOCKS(PMtx) CLOCKS(PCv) CLOCKS(PCvP) CLOCKS(PAny) CLOCKS(PAnyP)
#endif
