// Scenarios with very many threads, on fixed schedules (threads run in order until they block): counters of waiting threads, pending posts,
// readers and so on must hold as many threads as a process can have in practice. Linked with the MC_BIG runtime (see check.py).
#include "common.h"
#include <boost/sync/events.hpp>
#include <boost/sync/semaphore.hpp>
#include <boost/sync/mutexes.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/condition_variables.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#define BIG CFG.Fixed().Steps(20000000)
static int crowd(){ static const int N[]={17,70,260,1030}; return N[choose(4)]; }
static int crowd6(){ static const int N[]={17,70,260,1030,4100,32800}; return N[choose(6)]; }
template<class E> static bool timed(E& e,int tk,int64_t d){ return tk==TK_FOR?e.wait_for(ns(d)):tk==TK_SYS?e.wait_until(sys_at(d)):e.wait_until(std_at(d)); }
static int tkind(){ static const int K[]={TK_FOR,TK_SYS,TK_STEADY}; return K[choose(3)]; }
// n threads block on e (mode 0: wait, 1: timed, 2: alternating)
template<class E> static void block(E* e,int n,int mode,int tk,Counter* done){
  for(int i=0;i<n;i++) spawn([=]{ bool r=true; if(mode==1||(mode==2&&i%2)) r=timed(*e,tk,1000); else e->wait(); MC_CHECK(r,"a timed wait that was satisfied reports a timeout (%d threads)",n); done->add(1); });
  quiesce(); MC_CHECK(done->get()==0,"waits pass on an object that was never signalled");
}
SCENARIO(big_are, "C09", BIG, BIG)
{
  typedef bs::auto_reset_event ARE; int n=crowd6(), mode=n>2000?0:choose(3), tk=mode?tkind():TK_FOR, slow=n<300&&choose(2), k=slow||n>2000?n:n+choose(3)-1; ARE* e=new ARE; Counter* done=new Counter; block(e,n,mode,tk,done);
  for(int i=0;i<k;i++){ e->post(); if(slow){ quiesce(); MC_CHECK(done->get()==i+1,"post %d while %d threads are blocked released %d in total",i+1,n-i,(int)done->get()); } }
  quiesce(); int ex=k<n?k:n; MC_CHECK(done->get()==ex,"%d threads were blocked, %d posts were made, %d were released",n,k,(int)done->get());
  int left=0; while(left<4&&e->try_wait()) left++; MC_CHECK(left==(k>n),"%d threads were blocked, %d posts were made, afterwards %d further waits succeed",n,k,left);
  for(;ex<n;ex++){ e->post(); quiesce(); MC_CHECK(done->get()==ex+1,"a blocked thread is not released"); }
  e->post(); e->post(); MC_CHECK(e->try_wait()&&!e->try_wait(),"the event does not behave like a new one after %d threads used it",n); delete e;
}
SCENARIO(big_mre, "C10", BIG, BIG)
{
  typedef bs::manual_reset_event MRE; int n=crowd6(), mode=n>2000?0:choose(3), tk=mode?tkind():TK_FOR, again=choose(2); MRE* e=new MRE; Counter* done=new Counter; block(e,n,mode,tk,done);
  e->set(); if(again) e->set(); quiesce(); MC_CHECK(done->get()==n,"%d threads were blocked, set released %d",n,(int)done->get()); MC_CHECK(e->try_wait(),"the event is not set any more"); e->reset(); MC_CHECK(!e->try_wait(),"still set after reset"); delete e;
}
SCENARIO(big_sem, "C08", BIG, BIG)
{
  typedef bs::semaphore SEM; int n=crowd6(), mode=n>2000?0:choose(3), tk=mode?tkind():TK_FOR, slow=n<300&&choose(2), k=slow||n>2000?n:n+choose(4)-1; SEM* e=new SEM(0); Counter* done=new Counter; block(e,n,mode,tk,done);
  for(int i=0;i<k;i++){ e->post(); if(slow){ quiesce(); MC_CHECK(done->get()==i+1,"post %d while %d threads are blocked released %d in total",i+1,n-i,(int)done->get()); } }
  quiesce(); int ex=k<n?k:n; MC_CHECK(done->get()==ex,"%d threads were blocked, %d posts were made, %d were released",n,k,(int)done->get());
  int left=0; while(left<4&&e->try_wait()) left++; MC_CHECK(left==k-ex,"%d threads were blocked, %d posts were made, afterwards %d further waits succeed",n,k,left);
  for(;ex<n;ex++){ e->post(); quiesce(); MC_CHECK(done->get()==ex+1,"a blocked thread is not released"); } delete e;
}
template<class CV,class M> static void big_cv(){
  int n=crowd(), mode=choose(3), tk=mode?tkind():TK_FOR, one=choose(2); CV* c=new CV; M* m=new M; int* stage=new int(0); Counter* done=new Counter;
  for(int i=0;i<n;i++) spawn([=]{ bs::unique_lock<M> l(*m); auto p=[=]{ return *stage>0; }; bool r=true;
    if(mode==1||(mode==2&&i%2)) r=tk==TK_FOR?c->wait_for(l,ns(1000),p):tk==TK_SYS?c->wait_until(l,sys_at(1000),p):c->wait_until(l,std_at(1000),p); else c->wait(l,p);
    MC_CHECK(r,"a timed wait missed the notification (%d threads)",n); if(one) --*stage; done->add(1); });
  quiesce(); MC_CHECK(done->get()==0,"waits pass without a notification");
  if(one) for(int i=0;i<n;i++){ bs::unique_lock<M> l(*m); ++*stage; c->notify_one(); } else { bs::unique_lock<M> l(*m); *stage=1; c->notify_all(); }
  quiesce(); MC_CHECK(done->get()==n,"%d threads were waiting, %s woke %d",n,one?"as many notify_one calls":"notify_all",(int)done->get()); delete c; delete m;
}
SCENARIO(big_cv_posix, "C04", BIG, BIG) { big_cv<bs::condition_variable,bs::mutex>(); }
SCENARIO(big_cv_any, "C05", BIG, BIG) { if(choose(2)) big_cv<bs::condition_variable_any,bs::mutex>(); else big_cv<bs::condition_variable_any,bs::timed_mutex>(); }
template<class M> static void big_lock(bool tm){
  int n=crowd(), mode=tm?choose(3):0, tk=mode?tkind():TK_FOR; M* m=new M; int* in=new int(0); Counter* done=new Counter; (void)tk; m->lock();
  for(int i=0;i<n;i++) spawn([=]{ bool r=true; if constexpr(std::is_same<M,bs::timed_mutex>::value){ if(mode==1||(mode==2&&i%2)) r=tk==TK_FOR?m->try_lock_for(ns(1000)):tk==TK_SYS?m->try_lock_until(sys_at(1000)):m->try_lock_until(std_at(1000)); else m->lock(); } else m->lock();
    MC_CHECK_P("C02",r,"a timed lock gave up although the lock was released in time (%d threads)",n); if(!r) return; ++*in; MC_CHECK_P("C01",*in==1,"two owners"); mc::yield(); MC_CHECK_P("C01",*in==1,"two owners"); --*in; done->add(1); m->unlock(); });
  quiesce(); MC_CHECK_P("C01",done->get()==0,"a held lock was granted"); m->unlock(); quiesce(); MC_CHECK_P("C02",done->get()==n,"%d threads were waiting for the lock, %d got it",n,(int)done->get()); bool fr=m->try_lock(); MC_CHECK_P("C02",fr,"the lock is not free"); if(fr) m->unlock(); delete m;
}
SCENARIO(big_mutex, "C01,C02", BIG, BIG) { big_lock<bs::mutex>(false); }
SCENARIO(big_timed_mutex, "C01,C02", BIG, BIG) { big_lock<bs::timed_mutex>(true); }
SCENARIO(big_spin, "C01,C02", BIG, BIG) { big_lock<bs::spin_mutex>(false); }
SCENARIO(big_readers, "C03", BIG, BIG)
{
  int n=crowd(), tr=choose(3); bs::shared_spin_mutex* m=new bs::shared_spin_mutex; Counter* in=new Counter; mc::Flag* go=new mc::Flag;
  for(int i=0;i<n;i++) spawn([=]{ if(tr==1||(tr==2&&i%2)) MC_CHECK(m->try_lock_shared(),"try_lock_shared refused with %d shared owners",i); else m->lock_shared(); in->add(1); go->await(); in->add(-1); m->unlock_shared(); });
  quiesce(); MC_CHECK(in->get()==n,"%d of %d readers got the lock",(int)in->get(),n); MC_CHECK(!m->try_lock(),"exclusive lock granted with %d readers",n); int w=spawn([=]{ m->lock(); MC_CHECK(in->get()==0,"exclusive lock granted with %d readers",(int)in->get()); m->unlock(); });
  go->set(); join(w); MC_CHECK(in->get()==0,"readers left behind"); MC_CHECK(m->try_lock(),"the lock is not free"); m->unlock(); delete m;
}
static Counter* cleaned; static void clean(int*p){ MC_CHECK(*p==7,"a value was cleaned up twice"); *p=8; cleaned->add(1); }
SCENARIO(big_tss, "C14,C15,C16", BIG, BIG)
{ // n threads hold a value each; then they exit, or the object is destroyed while they live, or half of them exit before
  int n=crowd(), how=choose(3); bs::thread_specific_ptr<int>* p=new bs::thread_specific_ptr<int>(&clean); cleaned=new Counter; Counter* ex=new Counter; mc::Flag* go=new mc::Flag; mc::Flag* go2=new mc::Flag;
  for(int i=0;i<n;i++) spawn([=]{ int* v=new int(7); p->reset(v); bs::at_thread_exit([=]{ ex->add(1); }); if(how==2&&i%2) return; go->await(); if(how==0) MC_CHECK(p->get()==v,"a thread's value changed"); go2->await(); });
  quiesce(); int early=how==2?n/2:0; MC_CHECK(cleaned->get()==early,"%d values cleaned up, expected %d",(int)cleaned->get(),early);
  if(how){ delete p; MC_CHECK(cleaned->get()==n,"%d threads had a value when the object was destroyed, %d were cleaned up",n,(int)cleaned->get()); }
  go->set(); go2->set(); quiesce(); MC_CHECK(cleaned->get()==n,"%d of %d values were cleaned up",(int)cleaned->get(),n); MC_CHECK(ex->get()==n,"%d of %d exit callbacks ran",(int)ex->get(),n); if(!how) delete p;
}
