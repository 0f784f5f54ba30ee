// The Windows implementation (mutexes, condition variables, semaphores, events, waitable timers), executed on a model of the Windows API (mc/win).
// Times here are in milliseconds, the resolution of that implementation.
#include "common.h"
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/mutexes/timed_mutex.hpp>
#include <boost/sync/locks/unique_lock.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events/auto_reset_event.hpp>
#include <boost/sync/events/manual_reset_event.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/condition_variables/condition_variable_any.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>
#include <boost/sync/exceptions/overflow_error.hpp>
using mc::Config;
#define CFG Config().Real0(1600000000000000000LL)
typedef std::chrono::milliseconds ms;
static int64_t now(){ return mc::mono_now(); }
static const int64_t MS=1000000;
typedef bs::mutex M; typedef bs::timed_mutex TM; typedef bs::semaphore SEM; typedef bs::auto_reset_event ARE; typedef bs::manual_reset_event MRE;
enum { K_FOR, K_TIMED, K_SYS, K_STEADY, K_N };
static const char* kn(int k){ static const char* n[]={"wait_for","timed_wait","system_clock","steady_clock"}; return n[k]; }
template<class E> static bool timed(E& e,int k,int64_t d){ switch(k){ case K_FOR: return e.wait_for(ms(d)); case K_TIMED: return e.timed_wait(ms(d)); case K_SYS: return e.wait_until(sysclk::now()+ms(d)); default: return e.wait_until(stdclk::now()+ms(d)); } }
static bool tlock(TM& e,int k,int64_t d){ switch(k){ case K_FOR: return e.try_lock_for(ms(d)); case K_TIMED: return e.timed_lock(ms(d)); case K_SYS: return e.try_lock_until(sysclk::now()+ms(d)); default: return e.try_lock_until(stdclk::now()+ms(d)); } }

// ---------------------------------------------------------------- mutexes
struct Cell2 { long v; int in; Cell2():v(0),in(0){} void use(){ MC_CHECK_P("C01",in==0,"two threads hold the lock"); in=1; v++; mc::yield(); in=0; } };
template<class Mx> struct Ops { static const int n=2; static bool get(Mx& m,int k){ if(k==0){ m.lock(); return true; } return m.try_lock(); } };
template<> struct Ops<TM> { static const int n=4; static bool get(TM& m,int k){ switch(k){ case 0: m.lock(); return true; case 1: return m.try_lock(); case 2: return m.try_lock_for(ms(1)); default: return tlock(m,K_SYS,1); } } };
template<class Mx> static void excl(int nt,int nops){
  Mx* m=new Mx; Cell2* c=new Cell2; Counter* got=new Counter;
  programs(nt,nops,Ops<Mx>::n,[=](int k){ if(Ops<Mx>::get(*m,k)){ c->use(); got->add(1); m->unlock(); } });
  for(int i=1;i<=nt;i++) join(i); MC_CHECK_P("C02",m->try_lock(),"a free lock is refused"); MC_CHECK_P("C01",c->v==got->get(),"lost updates"); m->unlock(); delete m; delete c;
}
SCENARIO(win_mutex_2x2, "C01,C02", CFG.Faults(1,mc::F_CASWEAK).Stale(1), CFG.Faults(2,mc::F_CASWEAK).Stale(2)) { excl<M>(2,2); }
SCENARIO(win_mutex_3x1, "C01,C02", CFG.Faults(1,mc::F_CASWEAK).Preempt(2), CFG.Faults(1,mc::F_CASWEAK).Stale(1)) { excl<M>(3,1); }
SCENARIO(win_tmutex_2x2, "C01,C02,C12", CFG.Preempt(3), CFG.Stale(1).Faults(1,mc::F_CASWEAK).Early(1)) { excl<TM>(2,2); }
SCENARIO(win_tmutex_3x1, "C01,C02,C12", CFG.Early(1).Preempt(2), CFG.Stale(1).Early(1)) { excl<TM>(3,1); }
// a timed lock gives up exactly at its deadline, and gets a lock released before it at once
SCENARIO(win_tmutex_times, "C02,C12", CFG, CFG.Stale(1))
{
  int k=choose(K_N); int64_t at=choose(4)*10, d=(choose(4)-1)*10; TM* m=new TM; mc::Flag* in=new mc::Flag; mc::Flag* out=new mc::Flag; bool never=choose(2);
  int t=spawn([=]{ m->lock(); in->set(); if(never) out->await(); else if(at) mc::sleep_ns(at*MS); m->unlock(); }); in->await();
  int64_t t0=now(); bool r=tlock(*m,k,d); int64_t el=now()-t0;
  if(never) MC_CHECK(!r,"a held lock is acquired"); if(!r) MC_CHECK_P("C12",el==max0(d)*MS,"timed lock (%s, %ld ms) gave up after %ld ns",kn(k),(long)d,(long)el); else MC_CHECK(el<=at*MS,"timed lock returned after %ld ns, the lock was free after %ld ms",(long)el,(long)at);
  if(!never&&at<d) MC_CHECK(r,"the lock was released after %ld ms, but a timed lock of %ld ms failed",(long)at,(long)d); out->set(); if(r) m->unlock(); join(t); MC_CHECK(m->try_lock(),"the lock is not free"); m->unlock(); delete m;
}
// however often other threads take the lock away, the deadline stays
SCENARIO(win_tmutex_stolen, "C12", CFG.Preempt(4), CFG.Preempt(5))
{
  int k=choose(K_N); TM* m=new TM; m->lock(); Counter* left=new Counter; spawn([=]{ int64_t t0=now(); bool r=tlock(*m,k,20); int64_t el=now()-t0; MC_CHECK(r?el<=20*MS:el==20*MS,"a timed lock (%s) of 20 ms returned %d after %ld ns",kn(k),r,(long)el); if(r) m->unlock(); left->add(1); });
  for(int i=0;i<3;i++){ mc::sleep_ns(8*MS); m->unlock(); m->lock(); } mc::sleep_ns(8*MS); m->unlock(); quiesce(); MC_CHECK(left->get()==1,"a timed lock never returns"); delete m;
}

// ---------------------------------------------------------------- semaphore
SCENARIO(win_sem, "C08", CFG.Early(1), CFG.Early(2).Stale(1))
{
  int n=choose(2), posts=choose(3), k=choose(K_N+2), k2=choose(K_N+2); SEM* s=new SEM(n); Counter* ok=new Counter;
  auto w=[=](int k){ if(k==K_N){ s->wait(); ok->add(1); } else if(k==K_N+1){ if(s->try_wait()) ok->add(1); } else if(timed(*s,k,10)) ok->add(1); };
  if(k>k2) return; spawn([=]{ w(k); }); spawn([=]{ w(k2); }); spawn([=]{ for(int i=0;i<posts;i++) s->post(); });
  quiesce(); int have=n+posts-ok->get(); MC_CHECK(have>=0,"more waits succeeded than there were units"); mc::sleep_ns(100*MS); quiesce(); have=n+posts-ok->get();
  for(int i=0;i<have;i++) MC_CHECK(s->try_wait(),"%d units should be left, only %d are",have,i); MC_CHECK(!s->try_wait(),"units created"); for(int i=0;i<2;i++) s->post(); quiesce(); delete s;
}
SCENARIO(win_sem_sequences, "C08,C12", CFG.Fixed(), CFG.Fixed())
{
  int n=choose(3), k=choose(K_N), len=mc::thorough()?6:4; SEM* e=new SEM(n); static const int64_t D[]={-10,0,10};
  for(int i=0;i<len;i++){ int op=choose(6); int64_t t0=now(), ex=0;
    if(op==0){ e->post(); n++; } else if(op==1){ bool r=e->try_wait(); MC_CHECK(r==(n>0),"try_wait gives %d, the count is %d",r,n); n-=r; } else if(op==2){ if(!n) continue; e->wait(); n--; }
    else { int64_t d=D[op-3]; bool r=timed(*e,k,d); MC_CHECK(r==(n>0),"timed wait (%s, %ld ms) gives %d, the count is %d",kn(k),(long)d,r,n); if(!n) ex=max0(d); n-=r; }
    MC_CHECK(now()-t0==ex*MS,"the operation took %ld ns",(long)(now()-t0)); }
  for(;n>0;n--) MC_CHECK(e->try_wait(),"units are lost"); MC_CHECK(!e->try_wait(),"units are created"); delete e;
}
SCENARIO(win_sem_publish, "C11", CFG.Stale(1), CFG.Stale(2))
{
  int k=choose(K_N+2); SEM* s=new SEM; int* v=new int(0); spawn([=]{ *v=1; s->post(); }); if(k==K_N) s->wait(); else if(k==K_N+1){ while(!s->try_wait()){} } else if(!timed(*s,k,10)) return; MC_CHECK(*v==1,"stale data");
}

// ---------------------------------------------------------------- events
template<class E> struct Sig; template<> struct Sig<ARE> { static void go(ARE& e){ e.post(); } }; template<> struct Sig<MRE> { static void go(MRE& e){ e.set(); } };
template<class E,bool MANUAL> static void event_race(){
  int k=choose(K_N+2), k2=choose(K_N+2), sets=choose(2)+1; if(k>k2) return; E* e=new E; Counter* ok=new Counter;
  auto w=[=](int k){ if(k==K_N){ e->wait(); ok->add(1); } else if(k==K_N+1){ if(e->try_wait()) ok->add(1); } else if(timed(*e,k,10)) ok->add(1); };
  spawn([=]{ w(k); }); spawn([=]{ w(k2); }); spawn([=]{ for(int i=0;i<sets;i++) Sig<E>::go(*e); });
  quiesce(); mc::sleep_ns(100*MS); quiesce();
  if(MANUAL){ MC_CHECK(e->try_wait(),"not set any more"); MC_CHECK(mc::finished(1)&&mc::finished(2),"a thread is blocked on a set event"); }
  else { int n=ok->get(); MC_CHECK(n<=sets,"%d waits succeeded after %d posts",n,sets); bool left=e->try_wait(); if(n==0) MC_CHECK(left,"the signal is lost"); if(n==sets) MC_CHECK(!left,"a signal is created"); if(!mc::finished(1)||!mc::finished(2)) MC_CHECK(!left,"a thread is blocked although the event is signalled"); Sig<E>::go(*e); quiesce(); Sig<E>::go(*e); quiesce(); MC_CHECK(mc::finished(1)&&mc::finished(2),"a post is lost"); }
  join(3); delete e;
}
SCENARIO(win_are, "C09", CFG.Early(1), CFG.Early(2)) { event_race<ARE,false>(); }
SCENARIO(win_mre, "C10", CFG.Early(1), CFG.Early(2)) { event_race<MRE,true>(); }
template<class E,bool MANUAL> static void sequence(){
  E* e=new E; int k=choose(K_N), len=mc::thorough()?6:4; bool set=false; static const int64_t D[]={-10,0,10};
  for(int i=0;i<len;i++){ int op=choose(7); int64_t t0=now(), ex=0;
    if(op==0){ Sig<E>::go(*e); set=true; } else if(op==1){ if constexpr(MANUAL) e->reset(); else continue; set=false; }
    else if(op==2){ bool r=e->try_wait(); MC_CHECK(r==set,"try_wait gives %d, signalled: %d",r,set); if(!MANUAL) set=false; } else if(op==3){ if(!set) continue; e->wait(); if(!MANUAL) set=false; }
    else { int64_t d=D[op-4]; bool r=timed(*e,k,d); MC_CHECK(r==set,"timed wait (%s, %ld ms) gives %d, signalled: %d",kn(k),(long)d,r,set); if(!set) ex=max0(d); if(!MANUAL) set=false; }
    MC_CHECK(now()-t0==ex*MS,"the operation took %ld ns",(long)(now()-t0)); }
  MC_CHECK(e->try_wait()==set,"the state is wrong"); delete e;
}
SCENARIO(win_are_sequences, "C09,C12", CFG.Fixed(), CFG.Fixed()) { sequence<ARE,false>(); }
SCENARIO(win_mre_sequences, "C10,C12", CFG.Fixed(), CFG.Fixed()) { sequence<MRE,true>(); }
SCENARIO(win_event_publish, "C11", CFG.Stale(1), CFG.Stale(2))
{
  int k=choose(K_N+2); MRE* s=new MRE; int* v=new int(0); spawn([=]{ *v=1; s->set(); }); if(k==K_N) s->wait(); else if(k==K_N+1){ while(!s->try_wait()){} } else if(!timed(*s,k,10)) return; MC_CHECK(*v==1,"stale data");
}
// the deadline follows the system clock
SCENARIO(win_clock_jump, "C12", CFG, CFG)
{
  int what=choose(4); int64_t j=(choose(3)-1)*5; SEM* s=new SEM; MRE* e=new MRE; TM* m=new TM; M* um=new M; bs::condition_variable* c=new bs::condition_variable; m->lock(); Counter* done=new Counter;
  spawn([=]{ int64_t end=mc::real_now()+20*MS; auto at=sysclk::now()+ms(20); bool r; if(what==0) r=s->wait_until(at); else if(what==1) r=e->wait_until(at); else if(what==2) r=m->try_lock_until(at); else { bs::unique_lock<M> l(*um); r=c->timed_wait(l,at); } MC_CHECK(!r&&mc::real_now()==end,"a deadline of the system clock was missed by %ld ns",(long)(mc::real_now()-end)); done->add(1); });
  mc::sleep_ns(10*MS); mc::jump_real(j*MS); quiesce(); mc::sleep_ns(100*MS); quiesce(); MC_CHECK(done->get(),"no timeout");
}
// and no other timeout does
SCENARIO(win_clock_set, "C12", CFG, CFG)
{
  int what=choose(6), st=choose(2); int64_t j=(choose(3)-1)*5; SEM* s=new SEM; MRE* e=new MRE; ARE* a=new ARE; TM* m=new TM; M* um=new M; bs::condition_variable* c=new bs::condition_variable; bs::condition_variable_any* ca=new bs::condition_variable_any; m->lock(); Counter* done=new Counter;
  spawn([=]{ int64_t end=mc::mono_now()+20*MS; auto at=stdclk::now()+ms(20); bool r=false; ms d(20);
    if(what==0) r=st?s->wait_until(at):s->wait_for(d); else if(what==1) r=st?e->wait_until(at):e->wait_for(d); else if(what==2) r=st?m->try_lock_until(at):m->try_lock_for(d); else if(what==3) r=st?a->wait_until(at):a->wait_for(d);
    else { bs::unique_lock<M> l(*um); if(what==4) r=st?c->timed_wait(l,at):c->timed_wait(l,d); else r=st?ca->timed_wait(l,at):ca->timed_wait(l,d); }
    MC_CHECK(!r&&mc::mono_now()==end,"a timeout (%s) ended %ld ns late because the system clock was set",st?"steady_clock":"duration",(long)(mc::mono_now()-end)); done->add(1); });
  mc::sleep_ns(10*MS); mc::jump_real(j*MS); quiesce(); mc::sleep_ns(100*MS); quiesce(); MC_CHECK(done->get(),"no timeout");
}

// ---------------------------------------------------------------- condition variables
template<class CV,class Mx> struct Cond { Mx m; CV c; int go; Cond():go(0){} };
template<class CV,class L> static int cwait(CV& c,L& l,int k){ switch(k){ case 0: c.wait(l); return 1; case 1: return c.wait_for(l,ms(10))==bs::cv_status::no_timeout; case 2: return c.timed_wait(l,ms(10)); case 3: return c.wait_until(l,sysclk::now()+ms(10))==bs::cv_status::no_timeout; default: return c.wait_until(l,stdclk::now()+ms(10))==bs::cv_status::no_timeout; } }
// a notification made with the mutex after the release reaches the waiters
template<class CV,class Mx> static void notify(int nw,int kinds){
  typedef bs::unique_lock<Mx> L; Cond<CV,Mx>* x=new Cond<CV,Mx>; Counter* woke=new Counter; Counter* in=new Counter; bool all=choose(2), inside=choose(2); int k=choose(kinds);
  for(int i=0;i<nw;i++) spawn([=]{ L l(x->m); in->add(1); int r=cwait(x->c,l,i?0:k); MC_CHECK(l.owns_lock(),"not locked"); x->go++; if(r) woke->add(1); x->go--; });
  L l(x->m); int n=in->get(); if(!inside) l.unlock(); if(all) x->c.notify_all(); else x->c.notify_one(); if(inside) l.unlock(); quiesce();
  int w=woke->get(), least=all?n:n?1:0; MC_CHECK(w>=least,"%d threads waited, %s woke %d",n,all?"notify_all":"notify_one",w);
  for(int i=0;i<nw;i++){ x->c.notify_all(); quiesce(); } mc::sleep_ns(100*MS); for(int i=1;i<=nw;i++) join(i); delete x;
}
SCENARIO(win_cv_notify_2, "C04", CFG.Preempt(2), CFG.Preempt(4)) { notify<bs::condition_variable,M>(2,5); }
SCENARIO(win_cv_notify_3, "C04", CFG.Preempt(1), CFG.Preempt(3)) { notify<bs::condition_variable,M>(3,2); }
SCENARIO(win_cva_notify_2, "C05", CFG.Preempt(2), CFG.Preempt(4)) { notify<bs::condition_variable_any,TM>(2,5); }
// notifications are not taken by threads that start to wait later, and timeouts take none
template<class CV> static void queue(){
  typedef bs::unique_lock<M> L; Cond<CV,M>* x=new Cond<CV,M>; int items=2, k=choose(5); for(int i=0;i<2;i++) spawn([=]{ for(;;){ L l(x->m); while(!x->go){ int r=cwait(x->c,l,i?0:k); if(!r&&!x->go) return; } x->go--; return; } });
  spawn([=]{ for(int i=0;i<items;i++){ { L l(x->m); x->go++; } x->c.notify_one(); } }); mc::sleep_ns(100*MS); quiesce(); MC_CHECK(mc::finished(2),"a thread waits for ever although there is work"); join(1); join(2); join(3); delete x;
}
SCENARIO(win_cv_queue, "C04", CFG.Preempt(2), CFG.Early(1)) { queue<bs::condition_variable>(); }
SCENARIO(win_cva_queue, "C05", CFG.Preempt(2), CFG.Early(1)) { queue<bs::condition_variable_any>(); }
// timed waits end exactly at the deadline, whatever happens in between
template<class CV> static void cv_times(){
  typedef bs::unique_lock<M> L; Cond<CV,M>* x=new Cond<CV,M>; int k=choose(4)+1; bool pred=choose(2), other=choose(2), notify=choose(2); Counter* done=new Counter;
  spawn([=]{ L l(x->m); int64_t t0=now(); bool r; if(pred){ switch(k){ case 1: r=x->c.wait_for(l,ms(10),[&]{ return x->go; }); break; case 2: r=x->c.timed_wait(l,ms(10),[&]{ return x->go; }); break; case 3: r=x->c.wait_until(l,sysclk::now()+ms(10),[&]{ return x->go; }); break; default: r=x->c.wait_until(l,stdclk::now()+ms(10),[&]{ return x->go; }); } } else r=cwait(x->c,l,k);
    int64_t el=now()-t0; if(!r) MC_CHECK(el==10*MS,"a timed wait of 10 ms (kind %d) gave up after %ld ns",k,(long)el); else MC_CHECK(notify&&!pred&&el<=10*MS,"a timed wait (kind %d) returned true after %ld ns",k,(long)el); done->add(1); });
  if(other) spawn([=]{ L l(x->m); cwait(x->c,l,1); }); for(int i=0;i<3;i++){ mc::sleep_ns(4*MS); if(notify) x->c.notify_all(); } quiesce(); mc::sleep_ns(100*MS); quiesce(); MC_CHECK(done->get(),"no timeout"); join(1); delete x;
}
// a waiter whose time is up takes the notification that was meant to wake another one; that one keeps its deadline
template<class CV> static void cv_times2(){
  typedef bs::unique_lock<M> L; Cond<CV,M>* x=new Cond<CV,M>; int k=choose(4)+1, k2=choose(4)+1, at=choose(3)*5; bool all=choose(2); Counter* woke=new Counter; Counter* done=new Counter;
  auto w=[=](int k){ L l(x->m); int64_t t0=now(); int r=cwait(x->c,l,k), el=(now()-t0)/MS; if(!r) MC_CHECK(el==10,"a timed wait of 10 ms (kind %d) gave up after %d ms",k,el); else MC_CHECK(el<=10,"a timed wait of 10 ms (kind %d) was woken after %d ms",k,el); woke->add(r); done->add(1); };
  spawn([=]{ w(k); }); spawn([=]{ mc::sleep_ns(5*MS); w(k2); }); mc::sleep_ns(at*MS); if(all) x->c.notify_all(); else x->c.notify_one(); quiesce(); mc::sleep_ns(100*MS); quiesce(); MC_CHECK(done->get()==2,"no timeout"); MC_CHECK(all||woke->get()<=1,"notify_one woke 2 threads"); delete x;
}
SCENARIO(win_cv_times2, "C06,C12,C04", CFG.Preempt(2), CFG.Preempt(4)) { cv_times2<bs::condition_variable>(); }
SCENARIO(win_cva_times2, "C05,C12", CFG.Preempt(2), CFG.Preempt(4)) { cv_times2<bs::condition_variable_any>(); }
SCENARIO(win_cv_times, "C06,C12,C04", CFG.Preempt(2), CFG.Preempt(4)) { cv_times<bs::condition_variable>(); }
SCENARIO(win_cva_times, "C05,C12", CFG.Preempt(2), CFG.Preempt(4)) { cv_times<bs::condition_variable_any>(); }

// ---------------------------------------------------------------- destruction
template<class Mx> static void destroy(int nt,bool timed){ Mx* m=new Mx; int* n=new int(nt); for(int i=0;i<nt;i++) spawn([=]{ if constexpr(Ops<Mx>::n==4) if(timed){ while(!tlock(*m,choose(2)?K_SYS:K_FOR,100)){} goto in; } m->lock(); in: bool last=--*n==0; m->unlock(); if(last) delete m; }); }
SCENARIO(win_destroy_mutex, "C20", CFG, CFG.Stale(1)) { destroy<M>(2,false); }
SCENARIO(win_destroy_mutex_3, "C20", CFG.Preempt(3), CFG.Faults(1,mc::F_CASWEAK)) { destroy<M>(3,false); }
SCENARIO(win_destroy_tmutex_3, "C20", CFG.Preempt(3), CFG) { destroy<TM>(3,true); }
SCENARIO(win_destroy_sem, "C20", CFG, CFG.Stale(1)) { SEM* s=new SEM; int k=choose(K_N+1); spawn([=]{ s->post(); }); if(k==K_N) s->wait(); else if(!timed(*s,k,10)) return; delete s; }
SCENARIO(win_destroy_event, "C20", CFG, CFG.Stale(1)) { MRE* s=new MRE; int k=choose(K_N+1); spawn([=]{ s->set(); }); if(k==K_N) s->wait(); else if(!timed(*s,k,10)) return; delete s; }
SCENARIO(win_destroy_cv, "C20", CFG, CFG.Preempt(4)) { typedef bs::unique_lock<M> L; Cond<bs::condition_variable,M>* x=new Cond<bs::condition_variable,M>; spawn([=]{ L l(x->m); x->go=1; x->c.notify_one(); }); { L l(x->m); while(!x->go) x->c.wait(l); } x->c.~condition_variable(); }

// ---------------------------------------------------------------- failures
template<class F> static int code(F f){ try { f(); } catch(bs::lock_error& e){ return e.code().value(); } catch(bs::wait_error& e){ return 1000+e.code().value(); } catch(bs::resource_error& e){ return 2000+e.code().value(); } catch(bs::overflow_error& e){ return 3000+e.code().value(); } catch(std::bad_alloc&){ return 2008; } return 0; }
SCENARIO(win_wait_fails, "C19", CFG.Faults(1,mc::F_ERR), CFG.Faults(2,mc::F_ERR))
{
  int what=choose(5), k=choose(K_N+1); SEM* s=new SEM; MRE* e=new MRE; ARE* a=new ARE; TM* m=new TM; M* um=new M; bs::condition_variable* c=new bs::condition_variable; mc::inject(mc::CALL_SEM_WAIT,6); mc::injected();
  mc::Flag* in=new mc::Flag; mc::Flag* out=new mc::Flag; if(what==3){ spawn([=]{ m->lock(); in->set(); out->await(); m->unlock(); }); in->await(); }
  bool r=false; int want=what==3?6:1006; bool expect_to=k<K_N; int ec=code([&]{ if(what==0) k==K_N?s->post(),s->wait():void(r=timed(*s,k,10)); else if(what==1) k==K_N?e->set(),e->wait():void(r=timed(*e,k,10)); else if(what==2) k==K_N?a->post(),a->wait():void(r=timed(*a,k,10)); else if(what==3) r=k<K_N?tlock(*m,k,10):false; else { bs::unique_lock<M> l(*um); try { r=k<K_N?cwait(*c,l,k+1):(c->notify_all(),0); } catch(...){ MC_CHECK(l.owns_lock(),"not locked after a failure"); throw; } } });
  int n=mc::injected(); MC_CHECK(n?ec==want:ec==0&&(!expect_to||!r),"%d failures, reported %d",n,ec); mc::inject_clear(); out->set();
  if(what==3){ join(1); MC_CHECK(m->try_lock(),"the lock is not free"); m->unlock(); } else if(what==0&&k==K_N&&n) MC_CHECK(s->try_wait(),"a failure took a unit"); quiesce();
}
SCENARIO(win_no_memory, "C19", CFG.Faults(1,mc::F_NOMEM), CFG.Faults(2,mc::F_NOMEM))
{
  int what=choose(4); bool warm=what==3&&choose(2); if(warm){ ARE e; timed(e,K_SYS,1); } mc::nomem(true); long live=mc::live_blocks(); bool bad=false; int ec=0; void* p=0;
  try { if(what==0) p=new SEM; else if(what==1) p=new MRE; else if(what==2) p=new ARE; else { M m; bs::condition_variable c; bs::unique_lock<M> l(m); try { c.wait_for(l,ms(1)); } catch(...){ MC_CHECK(l.owns_lock(),"not locked after a failure"); throw; } } } catch(bs::resource_error& e){ bad=true; ec=e.code().value(); } catch(std::bad_alloc&){ bad=true; ec=8; } mc::nomem(false);
  int n=mc::injected(); MC_CHECK(bad==(n>0)&&(!bad||ec==8),"%d failures, reported %d",n,ec); if(what==3?warm:bad) MC_CHECK(mc::live_blocks()==live,"a leak"); if(what==0&&!bad) delete (SEM*)p;
}
// memory is short while threads compete for a lock: a lock operation may fail (and then the lock is not taken), but nothing is lost
template<class Mx> static void starved(){
  int k=choose(Ops<Mx>::n), k2=choose(Ops<Mx>::n); Mx* m=new Mx; Counter* fails=new Counter; int* v=new int(0); mc::Flag* go=new mc::Flag; mc::injected();
  auto f=[=](int k){ if(mc::self()) go->await(); bool r=false; int ec=code([&]{ r=Ops<Mx>::get(*m,k); }); if(ec){ MC_CHECK(ec==2008,"reported %d",ec); fails->add(1); } if(r){ ++*v; m->unlock(); } };
  spawn([=]{ f(k); }); spawn([=]{ f(k2); }); mc::nomem(true); go->set(); f(0); join(1); join(2); mc::nomem(false); MC_CHECK(fails->get()<=mc::injected(),"a failure without a reason"); MC_CHECK(m->try_lock(),"a free lock is refused"); mc::Counter* got=new Counter; for(int i=0;i<2;i++) spawn([=]{ m->lock(); got->add(1); m->unlock(); }); quiesce(); MC_CHECK(!got->get(),"a held lock is acquired"); m->unlock(); quiesce(); MC_CHECK(got->get()==2,"the lock was released, but %d of 2 threads got it",(int)got->get()); delete m;
}
SCENARIO(win_mutex_starved, "C19,C02", CFG.Faults(1,mc::F_NOMEM), CFG.Faults(2,mc::F_NOMEM)) { starved<M>(); }
SCENARIO(win_tmutex_starved, "C19,C02", CFG.Faults(1,mc::F_NOMEM).Preempt(2), CFG.Faults(2,mc::F_NOMEM)) { starved<TM>(); }
SCENARIO(win_sem_overflow, "C19,C08", CFG.Fixed(), CFG.Fixed())
{
  SEM s(0x7fffffffu); MC_CHECK(code([&]{ s.post(); })==3298,"an overflow is not reported"); MC_CHECK(s.try_wait(),"no unit"); MC_CHECK(code([&]{ s.post(); })==0,"a post fails"); MC_CHECK(code([&]{ SEM t(0x80000000u); })==2087,"too large a count is not reported");
}
// the timers of the threads: first use by several threads at once, use by threads one after the other
SCENARIO(win_timer_first_use, "C12,C09", CFG.Preempt(3), CFG.Stale(1)) { ARE* e=new ARE; for(int i=0;i<2;i++) spawn([=]{ int64_t t0=now(); bool r=timed(*e,K_SYS,10); MC_CHECK(!r&&now()-t0==10*MS,"a timed wait returned %d after %ld ns",r,(long)(now()-t0)); r=timed(*e,K_SYS,5); MC_CHECK(!r&&now()-t0==15*MS,"a second timed wait returned %d after %ld ns",r,(long)(now()-t0)); }); join(1); join(2); delete e; }
