// Scenarios for mutex, timed_mutex, spin_mutex and shared_spin_mutex.
#include "common.h"
#include <boost/sync/mutexes.hpp>
#include <boost/sync/locks.hpp>
#include <atomic>
typedef bs::mutex M; typedef bs::timed_mutex TM; typedef bs::spin_mutex SM; typedef bs::shared_spin_mutex SSM;

template<class Mx> static bool tlock(Mx&,int,int64_t){ return false; }
template<> bool tlock<TM>(TM& m,int tk,int64_t d){
  switch(tk){ case TK_FOR: return m.try_lock_for(ns(d)); case TK_TIMED: return m.timed_lock(ns(d)); case TK_SYS: return m.try_lock_until(sys_at(d)); case TK_STEADY: return m.try_lock_until(std_at(d)); case TK_TIMED_SYS: return m.timed_lock(sys_at(d)); case TK_TIMED_STEADY: return m.timed_lock(std_at(d)); case TK_OWN: return m.try_lock_until(own_at(d)); default: return m.timed_lock(own_at(d)); }
}
enum { K_LOCK, K_TRY, K_TIMED, K_UNLOCK, K_LOCKS, K_TRYS, K_UNLOCKS };
template<class Mx> struct Kinds { enum { n=2 }; }; template<> struct Kinds<TM>{ enum { n=3 }; };
template<class Mx> static bool acquire(Mx& m,int kind,int tk=TK_FOR,int64_t d=10){
  int o=mc::op_begin(0,kind); bool r=true;
  switch(kind){ case K_LOCK: m.lock(); break; case K_TRY: r=m.try_lock(); break; default: r=tlock(m,tk,d); }
  mc::op_end(o,r); return r;
}
template<class Mx> static void release(Mx& m){ int o=mc::op_begin(0,K_UNLOCK); m.unlock(); mc::op_end(o,1); }

// State: 0 free, -1 exclusive, n>0 shared
static int lock_spec(int64_t* s,const mc::HOp& o,int alt){
  if(alt>0) return -1;
  switch(o.kind){
    case K_LOCK: if(*s==0){ *s=-1; return 1; } return 0;
    case K_TRY: case K_TIMED: if(o.result){ if(*s==0){ *s=-1; return 1; } return 0; } return *s!=0;
    case K_UNLOCK: if(*s==-1){ *s=0; return 1; } return 0;
    case K_LOCKS: if(*s>=0){ ++*s; return 1; } return 0;
    case K_TRYS: if(o.result){ if(*s>=0){ ++*s; return 1; } return 0; } return *s<0;
    default: if(*s>0){ --*s; return 1; } return 0;
  }
}
static void lock_final(){ MC_CHECK_P("C02",mc::linearizable(0,lock_spec,0,true),"no order of the operations explains their results: %s (0=lock 1=try_lock 2=timed lock 3=unlock 4=lock_shared 5=try_lock_shared 6=unlock_shared)",mc::history_str()); }

// nt threads x no critical sections, each entered by lock, try_lock or timed lock. The protected data is plain memory: a missing exclusion or
// publication is a data race, a lost update or two owners.
template<class Mx> static void exclusion(int nt,int no,bool timed_only_for=true){
  struct S { Mx m; int owner; int data; }; S* s=new S(); Counter* succ=new Counter; int tk=Kinds<Mx>::n==3?(choose(2)?TK_SYS:TK_FOR):0; (void)timed_only_for;
  mc::on_final(lock_final);
  programs(nt,no,Kinds<Mx>::n,[=](int k){
    if(!acquire(s->m,k,tk)) return;
    MC_CHECK_P("C01",s->owner==0,"two threads own the lock"); s->owner=mc::self()+1; int d=s->data; mc::yield(); s->data=d+1;
    MC_CHECK_P("C01",s->owner==mc::self()+1,"the lock was taken over while held"); s->owner=0; succ->add(1);
    release(s->m);
  });
  for(int t=1;t<=nt;t++) join(t);
  int last=acquire(s->m,K_TRY); MC_CHECK_P("C02",last,"the lock is not free after everybody has unlocked it"); MC_CHECK_P("C01",s->data==succ->get(),"updates made under the lock are lost"); if(last) release(s->m);
  delete s;
}
#define EXCL(T,N) \
SCENARIO(N##_excl_2x2, "C01,C02", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C).Early(1)) { exclusion<T>(2,2); } \
SCENARIO(N##_excl_3x1, "C01,C02", CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(3), CFG.Stale(2).Faults(1,F_WAKE_C).Early(1)) { exclusion<T>(3,1); } \
SCENARIO_IF(MC_MAIN, N##_excl_2x3, "C01,C02", CFG.Stale(1).Preempt(2), CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(4)) { exclusion<T>(2,3); } \
SCENARIO_IF(MC_MAIN, N##_excl_3x2, "C01,C02", CFG.Preempt(1), CFG.Stale(1).Preempt(2)) { exclusion<T>(3,2); } \
SCENARIO_IF(MC_MAIN, N##_excl_4x1, "C01,C02", CFG.Preempt(2), CFG.Preempt(3)) { exclusion<T>(4,1); }
EXCL(M,mutex)
EXCL(TM,tmutex)
#if !defined(BOOST_SYNC_USE_PTHREAD)
#define SPINS   // the spin mutexes do not depend on the platform configuration
EXCL(SM,spin)
EXCL(SSM,sspin)
#endif

// holding the lock over a whole attempt of another thread: the attempt must fail (try, timed) or stay blocked (lock)
template<class Mx> static void held(){
  Mx* m=new Mx; int kind=choose(Kinds<Mx>::n), hk=choose(Kinds<Mx>::n), n=1+choose(2); int tk=kind==K_TIMED?choose(TK_N):0; Counter* got=new Counter; Counter* done=new Counter;
  bool r0=acquire(*m,hk); MC_CHECK_P("C02",r0,"cannot acquire a free lock"); 
  for(int i=0;i<n;i++) spawn([=]{ bool r=acquire(*m,kind,tk,10); if(r) got->add(1); done->add(1); if(r) release(*m); });
  mc::sleep_ns(100);     // (spinning threads keep spinning)
  MC_CHECK_P("C01",got->get()==0,"a thread acquired a lock that is held");
  MC_CHECK_P("C02",done->get()==(kind==K_LOCK?0:n),"attempts did not end while the lock is held");
  release(*m);
  for(int i=1;i<=n;i++) join(i);
  MC_CHECK_P("C02",got->get()==(kind==K_LOCK?n:0),"%d of %d threads got the lock after it was released",(int)got->get(),n);
  bool r=acquire(*m,hk); MC_CHECK_P("C02",r,"a failed attempt left the lock locked"); release(*m); delete m;
}
SCENARIO(mutex_held, "C01,C02", CFG.Faults(1,F_WAKE_C).Preempt(3), CFG.Stale(1).Faults(1,F_WAKE_C)) { held<M>(); }
SCENARIO(tmutex_held, "C01,C02", CFG.Faults(1,F_WAKE_C).Preempt(2), CFG.Stale(1).Faults(1,F_WAKE_C)) { held<TM>(); }

// spin locks cannot be observed as "blocked": the owner sees the attempts while it holds the lock
template<class Mx> static void held_spin(){
  Mx* m=new Mx; int kind=choose(2), hk=choose(2); Counter* got=new Counter; Counter* in=new Counter;
  bool r0=acquire(*m,hk); MC_CHECK_P("C02",r0,"cannot acquire a free lock"); in->add(1);
  int t=spawn([=]{ bool r=acquire(*m,kind); if(r){ MC_CHECK_P("C01",in->get()==0,"a thread acquired a lock that is held"); got->add(1); release(*m); } });
  mc::yield(); mc::yield(); in->add(-1); release(*m); join(t);
  MC_CHECK_P("C02",kind!=K_LOCK||got->get()==1,"lock() returned without the lock");
  bool r=acquire(*m,hk); MC_CHECK_P("C02",r,"a failed attempt left the lock locked"); release(*m); mc::on_final(lock_final); delete m;
}
#ifdef SPINS
SCENARIO(spin_held, "C01,C02", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C)) { held_spin<SM>(); }
SCENARIO(sspin_held, "C01,C02", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C)) { held_spin<SSM>(); }
#endif

// a timed lock that expires when the lock is released
SCENARIO(tmutex_timeout_vs_unlock, "C02,C12", CFG.Faults(1,F_WAKE_C).Early(1).Preempt(4), CFG.Faults(2,F_WAKE_C).Early(2))
{
  TM* m=new TM; int tk=choose(TK_N), at=5*choose(3), n=1+choose(2); int64_t d=10; mc::on_final(lock_final);
  mc::Flag* locked=new mc::Flag;
  spawn([=]{ acquire(*m,K_LOCK); locked->set(); if(at) mc::sleep_ns(at); release(*m); });
  if(n==2) spawn([=]{ locked->await(); if(acquire(*m,K_TIMED,tk,d)) release(*m); });
  locked->await(); int64_t t0=mc::mono_now(); bool r=acquire(*m,K_TIMED,tk,d); int64_t el=mc::mono_now()-t0;
  MC_CHECK_P("C12",r||el>=d,"timed lock (%s) gave up after %ld of %ld ns",tkname(tk),(long)el,(long)d);
  if(r) release(*m);
  for(int i=1;i<=n;i++) join(i);
  bool f=acquire(*m,K_TRY); MC_CHECK_P("C02",f,"the lock is not free after everybody has unlocked it"); release(*m);
  delete m;
}
// several blocked threads, each unlock lets exactly one in, nobody is forgotten; a timed waiter may give up at any time
static void tmutex_queue(int n){
  TM* m=new TM; int tm=choose(1<<n); int tk=choose(2)?TK_SYS:TK_FOR; int hold=choose(2)*10; Counter* in=new Counter; mc::on_final(lock_final);
  m->lock();
  { int o=mc::op_begin(0,K_LOCK); mc::op_end(o,1); }
  for(int i=0;i<n;i++) spawn([=]{ bool r=acquire(*m,tm>>i&1?K_TIMED:K_LOCK,tk,10); if(r){ long i0=in->add(1); MC_CHECK_P("C01",i0==1,"two owners"); mc::yield(); in->add(-1); release(*m); } });
  if(hold) mc::sleep_ns(hold); else quiesce();
  release(*m);
  for(int i=1;i<=n;i++) join(i);
}
SCENARIO(tmutex_queue_2, "C01,C02", CFG.Faults(1,F_WAKE_C).Early(1).Preempt(3), CFG.Faults(2,F_WAKE_C).Early(2)) { tmutex_queue(2); }
SCENARIO_IF(MC_MAIN, tmutex_queue_3, "C01,C02", CFG.Preempt(2), CFG.Faults(1,F_WAKE_C).Early(1).Preempt(3)) { tmutex_queue(3); }

// deadlines of timed locks ------------------------------------------------------------------------------------------------------
static void tm_deadline(bool disturb){
  static const int64_t D[]={-3000000000LL,-1,0,1,999,1000,999999999,1000000000,1000000001,2500000000LL};
  TM* m=new TM; int tk=choose(TK_N); int64_t d=disturb?(choose(2)?1000000001:1000):D[choose(10)]; mc::Flag* f=new mc::Flag; Counter* rel=new Counter; (void)rel;
  spawn([=]{ m->lock(); f->set(); mc::sleep_ns(10000000000LL); m->unlock(); });
  f->await(); int64_t t0=mc::mono_now(); if(disturb){ spawn([=]{ mc::sleep_ns(d/4); }); spawn([=]{ mc::sleep_ns(d/2); }); }
  bool r=tlock(*m,tk,d); int64_t el=mc::mono_now()-t0;
  MC_CHECK(!r,"timed lock (%s, %ld ns) succeeds on a held lock",tkname(tk),(long)d);
  MC_CHECK(el>=d,"timed lock (%s) gave up after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
  MC_CHECK(el==max0(d),"timed lock (%s) blocked for %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
}
SCENARIO(tmutex_deadline, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { tm_deadline(false); }
SCENARIO(tmutex_deadline_disturbed, "C12", CFG.Faults(1,F_WAKE_C), CFG.Faults(3,F_WAKE_C)) { tm_deadline(true); }
// a free lock is granted whatever the timeout
SCENARIO(tmutex_free_any_timeout, "C02", CFG, CFG.Faults(1,F_WAKE_C))
{
  static const int64_t D[]={-3000000000LL,-1,0,1,1000000001};
  TM m; int tk=choose(TK_N); bool r=tlock(m,tk,D[choose(5)]); MC_CHECK(r,"timed lock (%s) of a free mutex failed",tkname(tk)); m.unlock();
}
// others take and release the lock meanwhile: the deadline does not move
SCENARIO(tmutex_deadline_thief, "C12", CFG.Faults(1,F_WAKE_C).Preempt(3), CFG.Faults(2,F_WAKE_C).Preempt(4))
{
  TM* m=new TM; int tk=choose(TK_N); mc::Flag* f=new mc::Flag; int n=1+choose(2); int64_t d=1000;
  int p=spawn([=]{ m->lock(); f->set(); for(int i=0;i<n;i++){ mc::sleep_ns(d/4); m->unlock(); m->lock(); } mc::sleep_ns(5*d); m->unlock(); });
  f->await(); int64_t t0=mc::mono_now(); bool r=tlock(*m,tk,d); int64_t el=mc::mono_now()-t0;
  if(r){ m->unlock(); MC_CHECK(el==d/4||el==d/2,"lock granted at %ld",(long)el); } else MC_CHECK(el==d,"timed lock (%s) disturbed by other owners returned after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
  join(p);
}
static bool lock_held(int tk,int64_t d){ TM* e=new TM; mc::Flag* f=new mc::Flag; spawn([=]{ e->lock(); f->set(); mc::sleep_ns(1000000); e->unlock(); }); f->await(); return tlock(*e,tk,d); }
SCENARIO(tmutex_clock_set, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { clock_set_during(lock_held,false); }
SCENARIO(tmutex_clock_set_exact, "C12", CFG, CFG) { clock_set_during(lock_held,true); }
SCENARIO(tmutex_clock_jump, "C12", CFG, CFG.Faults(1,F_WAKE_C))
{
  static const int64_t J[]={-700,-300,100,300,700};
  TM* e=new TM; int64_t d=1000; int64_t j=J[choose(5)]; int tk=choose(2)?TK_SYS:TK_TIMED_SYS; mc::Flag* f=new mc::Flag;
  spawn([=]{ e->lock(); f->set(); mc::sleep_ns(500); mc::jump_real(j); mc::sleep_ns(100000); e->unlock(); });
  f->await(); int64_t m=mc::mono_now(), dl=mc::real_now()+d; bool r=tlock(*e,tk,d); int64_t el=mc::mono_now()-m, ex=500+max0(500-j);
  MC_CHECK(!r,"lock granted although held");
  MC_CHECK(mc::real_now()>=dl,"timed lock (%s) gave up before its deadline after the clock was set by %ld ns",tkname(tk),(long)j);
  MC_CHECK(el==ex,"timed lock (%s) returned after %ld ns instead of %ld ns when the clock was set by %ld ns",tkname(tk),(long)el,(long)ex,(long)j);
}

// a timed lock is granted at once when the lock is released before its deadline
SCENARIO(tmutex_prompt, "C02", CFG.Faults(1,F_WAKE_C).Preempt(4), CFG.Faults(2,F_WAKE_C))
{
  TM* m=new TM; int at=choose(3)*5, tk=choose(TK_N), nw=1+choose(2); mc::Flag* f=new mc::Flag;
  spawn([=]{ m->lock(); f->set(); if(at) mc::sleep_ns(at); m->unlock(); }); f->await();
  for(int i=0;i<nw;i++){ auto w=[=]{ int64_t t0=mc::mono_now(); bool r=tlock(*m,tk,1000); int64_t el=mc::mono_now()-t0; MC_CHECK(r&&el<=at,"the lock was released after %d ns, but the timed lock (%s) returned %d after %ld ns",at,tkname(tk),r,(long)el); m->unlock(); }; if(i+1<nw) spawn(w); else w(); }
}
// all sequences of attempts, releases and other owners coming and going; afterwards the lock works as a new one
SCENARIO(tmutex_sequences, "C01,C02", CFG.Fixed(), CFG.Fixed())
{
  int tk=choose(TK_N), len=mc::thorough()?6:4, who=0, other=-1; mc::Flag* go=0; TM* m=new TM; static const int64_t D[]={-10,0,10};   // who: 0 free, 1 mine, 2 the other thread's
  auto let_go=[&]{ go->set(); join(other); who=0; };
  for(int i=0;i<len;i++){ int op=choose(7); int64_t t0=mc::mono_now(), ex=0;
    if(op==0){ if(who==1){ m->unlock(); who=0; } else if(who==2) let_go(); else continue; }
    else if(op==1){ if(who) continue; mc::Flag* f=go=new mc::Flag; other=spawn([=]{ m->lock(); f->await(); m->unlock(); }); quiesce(); who=2; }
    else if(who==1) continue;
    else { bool r=true; if(op==2) r=m->try_lock(); else if(op==3){ if(who) continue; m->lock(); } else { r=tlock(*m,tk,D[op-4]); if(who==2) ex=max0(D[op-4]); }
      if(who==2) MC_CHECK_P("C01",!r,"step %d: a held lock is acquired",i); else MC_CHECK_P("C02",r,"step %d: a free lock is refused",i); if(r) who=1; if(!mc::wanted("C02")) continue; MC_CHECK(mc::mono_now()-t0==ex,"step %d: the operation (%s) took %ld ns",i,tkname(tk),(long)(mc::mono_now()-t0)); } }
  if(who==1) m->unlock(); if(who==2) let_go();
  bool r=m->try_lock(); MC_CHECK_P("C02",r,"a free lock is refused"); if(!r) return; int order=choose(2); Counter* done=new Counter;
  for(int i=0;i<2;i++) spawn([=]{ bool r=true; if(i==order) m->lock(); else r=tlock(*m,tk,1000); MC_CHECK_P("C02",r,"a timed lock missed the release"); if(r){ done->add(1); m->unlock(); } });
  quiesce(); MC_CHECK_P("C01",done->get()==0,"a held lock is acquired"); m->unlock(); quiesce(); MC_CHECK_P("C02",done->get()==2,"2 threads wait for the lock, %d got it after it was released",(int)done->get()); delete m;
}
// any number of successful, failed and expired attempts leave no trace
template<class Mx> static void history(){
  static const int N[]={1,300,2100,66000}; int n=N[choose(4)], op=choose(Kinds<Mx>::n==3?4:2), tk=choose(2)?TK_SYS:TK_FOR; Mx* m=new Mx; mc::Flag* f=new mc::Flag; mc::Flag* g=new mc::Flag; Counter* got=new Counter;
  if(op==0||op==2) for(int i=0;i<n;i++,mc::yield()){ int k=op==2?K_TIMED:i%2; bool r=true; if(k==K_LOCK) m->lock(); else if(k==K_TRY) r=m->try_lock(); else r=tlock(*m,tk,i&2?10:-10); MC_CHECK_P("C02",r,"a free lock is refused (round %d)",i); m->unlock(); }
  else { int t=spawn([=]{ m->lock(); f->set(); g->await(); m->unlock(); }); f->await(); for(int i=0;i<n;i++,mc::yield()){ bool r=op==1?m->try_lock():tlock(*m,tk,i&2?10:-10); MC_CHECK_P("C01",!r,"a held lock is acquired (round %d)",i); } g->set(); join(t); }
  bool r=m->try_lock(); MC_CHECK_P("C02",r,"a free lock is refused after %d rounds",n);
  r=m->try_lock(); MC_CHECK_P("C01",!r,"a held lock is acquired after %d rounds",n); m->unlock();
  int t=spawn([=]{ m->lock(); got->add(1); m->unlock(); }); join(t); m->lock(); m->unlock(); delete m;
}
SCENARIO(mutex_long_history, "C01,C02", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000)) { history<M>(); }
SCENARIO(tmutex_long_history, "C01,C02", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000)) { history<TM>(); }
#ifdef SPINS
SCENARIO(spin_long_history, "C01,C02", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000)) { history<SM>(); }
SCENARIO(sspin_long_history, "C01,C02", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000)) { history<SSM>(); }
#endif
// many threads queue for the lock
SCENARIO(tmutex_crowd, "C02,C01", CFG.Fixed(), CFG.Preempt(0))
{
  int n=3+choose(5), mode=choose(3), tk=choose(2)?TK_SYS:TK_FOR, late=choose(2)*3; TM* m=new TM; Counter* in=new Counter; Counter* got=new Counter; m->lock();
  for(int i=0;i<n;i++) spawn([=]{ bool tm=mode==1||(mode==2&&i%2); bool r=true; if(tm) r=tlock(*m,tk,late?1+i:1000); else m->lock(); MC_CHECK_P("C02",r||(late&&i<late+1),"timed lock gave up although the lock was released in time"); if(!r) return; long k=in->add(1); MC_CHECK_P("C01",k==1,"two owners"); got->add(1); in->add(-1); m->unlock(); });
  if(late) mc::sleep_ns(late); else quiesce(); m->unlock(); quiesce(); for(int i=1;i<=n;i++) join(i);
  MC_CHECK_P("C02",got->get()>=n-(mode==0||!late?0:late+1),"%d threads wanted the lock, %d got it",n,(int)got->get()); delete m;
}
// ---------------------------------------------------------------- shared_spin_mutex
#ifdef SPINS
// many shared owners at once
SCENARIO(sspin_many_readers, "C03", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000))
{
  static const int N[]={1,2,127,128,255,256,257,32768,65535,65536,70000}; int n=N[choose(11)], how=choose(3); SSM* m=new SSM;
  for(int i=0;i<n;i++,mc::yield()){ if(how==0||(how==2&&i%2)) m->lock_shared(); else MC_CHECK(m->try_lock_shared(),"try_lock_shared fails with %d shared owners",i); if((i&(i+1))==0||i>n-3) MC_CHECK(!m->try_lock(),"exclusive lock granted with %d shared owners",i+1); }
  for(int i=n;i>0;i--,mc::yield()){ if((i&(i-1))==0||i<3||i>n-3) MC_CHECK(!m->try_lock(),"exclusive lock granted with %d shared owners",i); m->unlock_shared(); }
  MC_CHECK(m->try_lock(),"the lock is not free after all %d shared owners have left",n); MC_CHECK(!m->try_lock_shared(),"shared lock granted during exclusive ownership"); m->unlock(); delete m;
}
// Programs of shared and exclusive sections
static void rw(int nt,int no){
  struct S { SSM m; int data[2]; }; S* s=new S(); std::atomic<int>* st=0; (void)st; Counter* ex=new Counter; Counter* sh=new Counter; Counter* w=new Counter; mc::on_final(lock_final);
  programs(nt,no,4,[=](int k){
    static const int K[]={K_LOCK,K_TRY,K_LOCKS,K_TRYS}; k=K[k];
    if(k<=K_TRY){ if(!acquire(s->m,k)) return;
      long e0=ex->add(1); MC_CHECK_P("C03",e0==1&&sh->get()==0,"exclusive ownership together with another owner");
      s->data[0]++; mc::yield(); s->data[1]++; w->add(1);
      MC_CHECK_P("C03",ex->get()==1&&sh->get()==0,"exclusive ownership together with another owner"); ex->add(-1);
      release(s->m);
    } else { int o=mc::op_begin(0,k); bool r=true; if(k==K_LOCKS) s->m.lock_shared(); else r=s->m.try_lock_shared(); mc::op_end(o,r); if(!r) return;
      sh->add(1); MC_CHECK_P("C03",ex->get()==0,"shared ownership while exclusively owned"); int a=s->data[0]; mc::yield(); int b=s->data[1];
      MC_CHECK_P("C03",a==b,"a reader saw a half-done update"); MC_CHECK_P("C03",ex->get()==0,"shared ownership while exclusively owned"); sh->add(-1);
      o=mc::op_begin(0,K_UNLOCKS); s->m.unlock_shared(); mc::op_end(o,1); }
  });
  for(int t=1;t<=nt;t++) join(t);
  bool f=s->m.try_lock(); MC_CHECK(f,"the lock is not free after everybody has unlocked it"); MC_CHECK_P("C03",s->data[0]==w->get(),"a writer's update is lost"); s->m.unlock(); delete s;
}
SCENARIO(sspin_rw_2x2, "C02,C03", CFG.Faults(1,mc::F_CASWEAK).Preempt(3).Shards(4), CFG.Stale(1).Faults(1,F_WAKE_C).Shards(16)) { rw(2,2); }
SCENARIO(sspin_rw_3x1, "C02,C03", CFG.Stale(1).Faults(1,mc::F_CASWEAK).Preempt(2).Shards(4), CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(4).Shards(4)) { rw(3,1); }
SCENARIO_IF(MC_MAIN, sspin_rw_3x2, "C02,C03", CFG.Preempt(1).Shards(8), CFG.Preempt(2).Shards(16)) { rw(3,2); }
SCENARIO_IF(MC_MAIN, sspin_rw_4x1, "C02,C03", CFG.Preempt(2).Shards(4), CFG.Preempt(3).Shards(4)) { rw(4,1); }
// n readers hold the lock together; try_lock_shared never refuses because of other readers; a writer gets in when the last one leaves
static void readers(int n){
  SSM* m=new SSM; int mode=choose(1<<n); Counter* in=new Counter; mc::Flag* go=new mc::Flag; int* data=new int(0); int wk=choose(2);
  for(int i=0;i<n;i++) spawn([=]{ if(mode>>i&1){ bool r=m->try_lock_shared(); MC_CHECK(r,"try_lock_shared fails although nobody holds or wants the lock exclusively"); } else m->lock_shared();
    if(in->add(1)==n) go->set(); go->await(); int d=*data; MC_CHECK(d==0,"written under shared ownership"); in->add(-1); m->unlock_shared(); });
  go->await();     // all n hold it at once
  bool got; if(wk){ m->lock(); got=true; } else got=m->try_lock();
  if(got){ MC_CHECK_P("C03",in->get()==0,"exclusive lock granted while %d readers hold the lock",(int)in->get()); *data=1; m->unlock(); }
  for(int i=1;i<=n;i++) join(i);
  bool f=m->try_lock(); MC_CHECK(f,"lock not free after the last reader left"); m->unlock(); delete m;
}
SCENARIO(sspin_readers_2, "C02,C03", CFG.Stale(1).Faults(1,mc::F_CASWEAK), CFG.Stale(2).Faults(2,F_WAKE_C)) { readers(2); }
SCENARIO(sspin_readers_3, "C02,C03", CFG.Preempt(2), CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(4)) { readers(3); }
// a held shared lock: exclusive attempts fail, shared ones succeed; and conversely (sequential facts, all orders of 6 operations)
SCENARIO(sspin_sequential, "C03", CFG, CFG)
{
  SSM m; int ex=0, sh=0;
  for(int i=0;i<7;i++) switch(choose(5)){
    case 0: { bool r=m.try_lock(); MC_CHECK(r==(ex==0&&sh==0),"try_lock gives %d with %d exclusive and %d shared owners",r,ex,sh); ex+=r; break; }
    case 1: { bool r=m.try_lock_shared(); MC_CHECK(r==(ex==0),"try_lock_shared gives %d with %d exclusive and %d shared owners",r,ex,sh); sh+=r; break; }
    case 2: if(ex){ m.unlock(); ex=0; } else if(!sh){ m.lock(); ex=1; } break;
    case 3: if(sh){ m.unlock_shared(); sh--; } break;
    case 4: if(!ex){ m.lock_shared(); sh++; } break;
  }
  while(sh--) m.unlock_shared(); if(ex) m.unlock();
}
#endif
// ---------------------------------------------------------------- destruction (C20)
template<class Mx> static void destroy(){
  Mx* m=new Mx; int kind=choose(Kinds<Mx>::n); mc::Flag* f=new mc::Flag; int* left=new int(1);
  int p=spawn([=]{ m->lock(); f->set(); --*left; m->unlock(); });
  f->await(); int tk=kind==K_TIMED?choose(TK_N):0;
  if(kind==K_LOCK) m->lock(); else while(!(kind==K_TRY?m->try_lock():tlock(*m,tk,1000))); 
  MC_CHECK(*left==0,"lock acquired before its release"); m->unlock(); delete m; char* o=new char[64]; o[0]=1;
  join(p); MC_CHECK(mc::live_sync_objects()==0,"system objects leaked");
}
SCENARIO(mutex_destroy, "C20", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C)) { destroy<M>(); }
SCENARIO(tmutex_destroy, "C20", CFG.Stale(1).Faults(1,F_WAKE_C).Early(1), CFG.Stale(2).Faults(2,F_WAKE_C).Early(2)) { destroy<TM>(); }
#ifdef SPINS
SCENARIO(spin_destroy, "C20", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C)) { destroy<SM>(); }
SCENARIO(sspin_destroy, "C20", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C)) { destroy<SSM>(); }
SCENARIO(sspin_destroy_shared, "C20", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C))
{
  SSM* m=new SSM; mc::Flag* f=new mc::Flag; int who=choose(2);
  int p=spawn([=]{ if(who) m->lock(); else m->lock_shared(); f->set(); if(who) m->unlock(); else m->unlock_shared(); });
  f->await(); if(who){ m->lock_shared(); m->unlock_shared(); m->lock(); } else m->lock(); m->unlock(); delete m; join(p);
}
#endif
SCENARIO(tmutex_destroy_3, "C20", CFG.Faults(1,F_WAKE_C).Preempt(3), CFG.Stale(1).Faults(1,F_WAKE_C))
{ // the last of three owners destroys
  TM* m=new TM; int* n=new int(0); int k=choose(2);
  for(int i=0;i<2;i++) spawn([=]{ if(k) m->lock(); else while(!tlock(*m,TK_FOR,1000)); bool last=++*n==3; m->unlock(); if(last) delete m; });
  m->lock(); bool last=++*n==3; m->unlock(); if(last) delete m;
}
// construct / destroy leaves nothing behind
SCENARIO(mutex_lifecycle, "C20", CFG, CFG)
{
  long b=mc::live_sync_objects(), mem=mc::live_blocks();
  for(int i=0;i<3;i++){ int k=choose(4); switch(k){ case 0:{ M m; m.lock(); m.unlock(); break; } case 1:{ TM m; m.lock(); m.unlock(); tlock(m,TK_FOR,5); m.unlock(); break; } case 2:{ SM m; m.lock(); m.unlock(); break; } default:{ SSM m; m.lock_shared(); m.unlock_shared(); } }
    MC_CHECK(mc::live_sync_objects()==b&&mc::live_blocks()==mem,"a destroyed mutex leaves a system object or memory behind"); }
}
