// Scenarios for condition_variable and condition_variable_any.
#include "common.h"
#include <boost/sync/condition_variables.hpp>
#include <boost/sync/mutexes.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/exceptions.hpp>
#include <atomic>
typedef bs::condition_variable CV; typedef bs::condition_variable_any CVA;
typedef bs::mutex M; typedef bs::timed_mutex TM; typedef bs::spin_mutex SM; typedef bs::shared_spin_mutex SSM;

// a user-defined lock: only lock() and unlock(), checks its own use
struct UserLock {
  M* m; bool held; int throw_unlock, throw_lock; int locks, unlocks;
  explicit UserLock(M& mx):m(&mx),held(false),throw_unlock(0),throw_lock(0),locks(0),unlocks(0){ lock(); }
  void lock(){ if(throw_lock&&--throw_lock==0) throw std::runtime_error("lock"); MC_CHECK(!held,"a lock is locked twice"); m->lock(); held=true; locks++; }
  void unlock(){ if(throw_unlock&&--throw_unlock==0) throw std::runtime_error("unlock"); MC_CHECK(held,"a lock that is not held is unlocked"); held=false; unlocks++; m->unlock(); }
  bool owns_lock() const { return held; }
  ~UserLock(){ if(held) unlock(); }
};
// combinations of condition variable, mutex and lock under test
struct C_m   { typedef CV cv; typedef M mx; typedef bs::unique_lock<M> lk; static const char* p(){ return "C04"; } };
struct A_m   { typedef CVA cv; typedef M mx; typedef bs::unique_lock<M> lk; static const char* p(){ return "C05"; } };
struct A_s   { typedef CVA cv; typedef SM mx; typedef bs::unique_lock<SM> lk; static const char* p(){ return "C05"; } };
struct A_x   { typedef CVA cv; typedef SSM mx; typedef bs::unique_lock<SSM> lk; static const char* p(){ return "C05"; } };
struct A_t   { typedef CVA cv; typedef TM mx; typedef bs::unique_lock<TM> lk; static const char* p(){ return "C05"; } };
struct A_u   { typedef CVA cv; typedef M mx; typedef UserLock lk; static const char* p(){ return "C05"; } };
#if defined(BOOST_SYNC_DETAIL_PTHREAD_HAS_TIMEDLOCK)
struct C_t   { typedef CV cv; typedef TM mx; typedef bs::unique_lock<TM> lk; static const char* p(){ return "C04"; } };
#define HAVE_C_T
#endif

template<class CVx,class L> static bool timed(CVx& c,L& l,int tk,int64_t d){
  switch(tk){ case TK_FOR: return c.wait_for(l,ns(d))==bs::cv_status::no_timeout; case TK_TIMED: return c.timed_wait(l,ns(d)); case TK_SYS: return c.wait_until(l,sys_at(d))==bs::cv_status::no_timeout; case TK_STEADY: return c.wait_until(l,std_at(d))==bs::cv_status::no_timeout; case TK_TIMED_SYS: return c.timed_wait(l,sys_at(d)); case TK_TIMED_STEADY: return c.timed_wait(l,std_at(d)); case TK_OWN: return c.wait_until(l,own_at(d))==bs::cv_status::no_timeout; default: return c.timed_wait(l,own_at(d)); }
}
template<class CVx,class L,class P> static bool ptimed(CVx& c,L& l,int tk,int64_t d,P p){
  switch(tk){ case TK_FOR: return c.wait_for(l,ns(d),p); case TK_TIMED: return c.timed_wait(l,ns(d),p); case TK_SYS: return c.wait_until(l,sys_at(d),p); case TK_STEADY: return c.wait_until(l,std_at(d),p); case TK_TIMED_SYS: return c.timed_wait(l,sys_at(d),p); case TK_TIMED_STEADY: return c.timed_wait(l,std_at(d),p); case TK_OWN: return c.wait_until(l,own_at(d),p); default: return c.timed_wait(l,own_at(d),p); }
}
template<class X> struct Shared { typename X::mx m; typename X::cv cv; int waiting, owner, flag, data; Shared():waiting(0),owner(0),flag(0),data(0){} 
  void enter(){ MC_CHECK(owner==0,"two threads are inside the critical section: a wait returned without the lock"); owner=mc::self()+1; }
  void leave(){ MC_CHECK(owner==mc::self()+1,"the lock was not held over the whole critical section"); owner=0; } };

// n waiters (untimed or with a distant deadline), one notifier that takes the lock: everybody who waits by then is reached
template<class X> static void notify(int maxn,bool notifier2){
  int n=1+choose(maxn); int tm=choose(1<<n); int all=choose(2), inlock=choose(2); int tk=tm?choose(2)*TK_SYS:0;
  Shared<X>* s=new Shared<X>; Counter* back=new Counter; Counter* to=new Counter;
  for(int i=0;i<n;i++) spawn([=]{
    typename X::lk l(s->m); s->enter(); s->waiting++; s->leave();
    bool r=true; if(tm>>i&1) r=timed(s->cv,l,tk,1000000000); else s->cv.wait(l);
    MC_CHECK(l.owns_lock(),"a wait returned without the lock"); s->enter(); s->data++; if(!r) to->add(1); back->add(1); s->waiting--; s->leave(); });
  int t2=notifier2?spawn([=]{ typename X::lk l(s->m); s->cv.notify_one(); }):-1;
  int k; { typename X::lk l(s->m); s->enter(); k=s->waiting; s->leave(); if(inlock){ if(all) s->cv.notify_all(); else s->cv.notify_one(); } }
  if(!inlock){ if(all) s->cv.notify_all(); else s->cv.notify_one(); }
  if(t2>=0) join(t2);
  quiesce();
  int b=back->get(); int want=all?k:(k?1:0);
  MC_CHECK(to->get()==0,"a wait reports a timeout before its deadline");
  MC_CHECK(b>=want,"%d threads were waiting, notify_%s reached only %d of them",k,all?"all":"one",b);
  { typename X::lk l(s->m); s->enter(); s->leave(); }
  s->cv.notify_all(); mc::keep_stuck_ok(true);
}
#define NOTIFY(X) \
SCENARIO(notify_##X, "C04,C05", CFG.Preempt(2).Faults(1,mc::F_SPURIOUS), CFG.Preempt(4).Faults(1,F_WAKE)) { if(mc::wanted(X::p())) notify<X>(2,false); } \
SCENARIO_IF(MC_MAIN, notify3_##X, "C04,C05", CFG.Preempt(1), CFG.Preempt(2)) { if(mc::wanted(X::p())) notify<X>(3,false); }
NOTIFY(C_m)
NOTIFY(A_m)
NOTIFY(A_u)
#ifdef HAVE_C_T
NOTIFY(C_t)
#endif
NOTIFY(A_t)
#if !defined(BOOST_SYNC_USE_PTHREAD)
NOTIFY(A_s)
NOTIFY(A_x)
#endif
// every way to wait with a timeout, with and without a predicate (user clocks included): a notification ends the wait at once
template<class X> static void notify_kinds(int early){
  Shared<X>* s=new Shared<X>; Counter* back=new Counter; int tk=choose(TK_N), pred=choose(2), all=choose(2), inlock=choose(2), d=early?20:1000000000;
  int w=spawn([=]{ typename X::lk l(s->m); s->enter(); s->waiting++; s->leave(); bool r; auto p=[=]{ s->enter(); bool v=s->flag!=0; s->leave(); return v; };
    r=pred?ptimed(s->cv,l,tk,d,p):timed(s->cv,l,tk,d);
    MC_CHECK(l.owns_lock(),"a wait returned without the lock"); s->enter(); if(!early) MC_CHECK(r,"a wait reports a timeout before its deadline"); if(pred) MC_CHECK(r==(s->flag!=0),"the wait does not report what the predicate says"); s->waiting--; s->leave(); back->add(1); });
  if(early) mc::sleep_ns(choose(3)*10);
  int k; { typename X::lk l(s->m); s->enter(); s->flag=1; k=s->waiting; s->leave(); if(inlock){ if(all) s->cv.notify_all(); else s->cv.notify_one(); } }
  if(!inlock){ if(all) s->cv.notify_all(); else s->cv.notify_one(); }
  quiesce(); if(k) MC_CHECK(back->get()==1,"the thread was waiting, notify_%s did not end its wait",all?"all":"one"); else if(pred) MC_CHECK(back->get()==1,"the predicate was true before the wait, which still waits"); s->cv.notify_all(); quiesce(); MC_CHECK(back->get()==1,"a waiting thread was not notified"); join(w);
}
#define NKINDS(X) \
SCENARIO(notify_kinds_##X, "C04,C05", CFG.Faults(1,mc::F_SPURIOUS), CFG.Faults(2,F_WAKE)) { if(mc::wanted(X::p())) notify_kinds<X>(0); } \
SCENARIO(notify_kinds_near_##X, "C04,C05", CFG.Early(1), CFG.Early(2).Faults(1,F_WAKE)) { if(mc::wanted(X::p())) notify_kinds<X>(1); }
NKINDS(C_m)
NKINDS(A_m)
NKINDS(A_u)
#ifdef HAVE_C_T
NKINDS(C_t)
#endif
#if !defined(BOOST_SYNC_USE_PTHREAD)
NKINDS(A_x)
#endif
// two notifiers: two notify_one calls made after two threads started to wait reach both
template<class X> static void notify_two(){
  Shared<X>* s=new Shared<X>; Counter* back=new Counter; int tm=choose(2);
  for(int i=0;i<2;i++) spawn([=]{ typename X::lk l(s->m); s->waiting++; if(tm&&i) timed(s->cv,l,TK_FOR,1000000000); else s->cv.wait(l); back->add(1); });
  quiesce();
  { typename X::lk l(s->m); MC_CHECK(s->waiting==2||back->get(),"waiters do not wait"); }
  int a=spawn([=]{ s->cv.notify_one(); }); s->cv.notify_one(); join(a); quiesce();
  MC_CHECK(back->get()==2,"two threads were waiting, two notify_one calls woke %d of them",(int)back->get());
}
SCENARIO(notify_two_C, "C04", CFG.Preempt(3).Faults(1,mc::F_SPURIOUS), CFG.Faults(1,F_WAKE)) { notify_two<C_m>(); }
SCENARIO(notify_two_A, "C05", CFG.Preempt(3).Faults(1,mc::F_SPURIOUS), CFG.Faults(1,F_WAKE)) { notify_two<A_u>(); }

// a timed waiter that gives up must not swallow the notification another waiter needs
template<class X> static void timeout_vs_notify(){
  Shared<X>* s=new Shared<X>; Counter* notified=new Counter; Counter* inwait=new Counter; int tk=choose(TK_N); int all=choose(2);
  spawn([=]{ typename X::lk l(s->m); s->waiting++; s->cv.wait(l); notified->add(1); });
  spawn([=]{ typename X::lk l(s->m); s->waiting++; int64_t t0=mc::mono_now(); bool r=timed(s->cv,l,tk,10); MC_CHECK(l.owns_lock(),"a wait returned without the lock"); MC_CHECK(r||mc::mono_now()-t0>=10,"timeout before the deadline"); s->enter(); s->leave(); if(r) notified->add(1); s->waiting--; });
  quiesce(); int k;
  mc::sleep_ns(10);
  { typename X::lk l(s->m); k=s->waiting; if(all) s->cv.notify_all(); else s->cv.notify_one(); }
  quiesce();
  MC_CHECK(k==0||notified->get()>=1,"the notification got lost between a timeout and a notification"); (void)inwait;
  s->cv.notify_all(); quiesce(); MC_CHECK(s->waiting<=2,"?"); mc::keep_stuck_ok(true);
}
SCENARIO(timeout_vs_notify_C, "C04", CFG.Faults(1,mc::F_SPURIOUS).Early(1).Preempt(3), CFG.Faults(1,F_WAKE).Early(2)) { timeout_vs_notify<C_m>(); }
SCENARIO(timeout_vs_notify_A, "C05", CFG.Faults(1,mc::F_SPURIOUS).Early(1).Preempt(2), CFG.Faults(1,F_WAKE).Early(1).Preempt(4)) { timeout_vs_notify<A_u>(); }

// condition loop written by the user, state changed under the lock, notification with or without the lock: nobody sleeps forever
template<class X> static void loop(int nw,int np){
  Shared<X>* s=new Shared<X>; int all=choose(2), inlock=choose(2), kind=choose(3);
  for(int i=0;i<nw;i++) spawn([=]{ typename X::lk l(s->m);
    if(kind==0) while(s->flag==0) s->cv.wait(l); else if(kind==1) while(s->flag==0) timed(s->cv,l,TK_FOR,1000000000); else s->cv.wait(l,[=]{ return s->flag>0; });
    s->enter(); MC_CHECK(s->flag>0,"wait returned although the condition is false"); s->flag--; s->data++; s->leave(); });
  for(int i=0;i<np;i++){ auto f=[=]{ { typename X::lk l(s->m); s->enter(); s->flag+=all?nw:1; s->leave(); if(inlock){ if(all) s->cv.notify_all(); else s->cv.notify_one(); } } if(!inlock){ if(all) s->cv.notify_all(); else s->cv.notify_one(); } }; if(i) spawn(f); else f(); if(all) break; }
  if(kind==1){ quiesce(); typename X::lk l(s->m); MC_CHECK(s->data==nw,"a waiter missed the notification"); }
}
SCENARIO(loop_C, "C04", CFG.Preempt(3).Faults(1,mc::F_SPURIOUS), CFG.Faults(1,F_WAKE)) { loop<C_m>(2,2); }
SCENARIO(loop_A, "C05", CFG.Preempt(2).Faults(1,mc::F_SPURIOUS), CFG.Preempt(4).Faults(1,F_WAKE)) { loop<A_m>(2,2); }
#if !defined(BOOST_SYNC_USE_PTHREAD)
SCENARIO(loop_As, "C05", CFG.Preempt(2), CFG.Preempt(3).Faults(1,F_WAKE).Stale(1)) { loop<A_s>(2,2); }
#endif
SCENARIO(loop_Au, "C05", CFG.Preempt(2).Faults(1,mc::F_SPURIOUS), CFG.Preempt(4).Faults(1,F_WAKE)) { loop<A_u>(2,2); }
SCENARIO_IF(MC_MAIN, loop3_C, "C04", CFG.Preempt(2), CFG.Preempt(2).Faults(1,mc::F_SPURIOUS)) { loop<C_m>(3,3); }
// waiting with shared ownership of the lock
SCENARIO(loop_shared, "C05", CFG.Preempt(2), CFG.Preempt(4).Faults(1,F_WAKE))
{
  struct S { SSM m; CVA cv; int flag; S():flag(0){} }; S* s=new S; int n=1+choose(2), kind=choose(2);
  for(int i=0;i<n;i++) spawn([=]{ bs::shared_lock<SSM> l(s->m); if(kind) s->cv.wait(l,[=]{ return s->flag!=0; }); else while(s->flag==0) timed(s->cv,l,TK_FOR,1000000000); MC_CHECK(l.owns_lock(),"a wait returned without the lock"); bool w=s->m.try_lock(); MC_CHECK(!w,"shared ownership not restored"); });
  { bs::unique_lock<SSM> l(s->m); s->flag=1; if(choose(2)) s->cv.notify_all(); else { l.unlock(); s->cv.notify_all(); } }
}
// ping-pong: strict alternation over one condition variable
template<class X> static void pingpong(){
  Shared<X>* s=new Shared<X>; int kind=choose(2);
  auto f=[=](int me){ for(int i=0;i<2;i++){ typename X::lk l(s->m); if(kind) s->cv.wait(l,[=]{ return s->flag==me; }); else while(s->flag!=me) s->cv.wait(l); s->data=s->data*2+me; s->flag=!me; s->cv.notify_one(); } };
  int t=spawn([=]{ f(1); }); f(0); join(t); MC_CHECK(s->data==5,"wrong alternation %d",s->data);
}
SCENARIO(pingpong_C, "C04", CFG.Preempt(3).Faults(1,mc::F_SPURIOUS), CFG.Faults(2,F_WAKE)) { pingpong<C_m>(); }
SCENARIO(pingpong_A, "C05", CFG.Preempt(3).Faults(1,mc::F_SPURIOUS), CFG.Faults(1,F_WAKE).Preempt(5)) { pingpong<A_u>(); }

// locks that fail
SCENARIO(any_unlock_throws, "C05", CFG.Preempt(2), CFG)
{
  Shared<A_u>* s=new Shared<A_u>; int kind=choose(3); int tk=kind==1?choose(TK_N):0; 
  int p=spawn([=]{ UserLock l(s->m); s->flag=1; s->cv.notify_all(); });
  { UserLock l(s->m); l.throw_unlock=1; bool thrown=false;
    try { if(kind==0) s->cv.wait(l); else if(kind==1) timed(s->cv,l,tk,10); else s->cv.wait(l,[]{ return false; }); } catch(std::runtime_error&){ thrown=true; }
    MC_CHECK(thrown,"exception from unlock is swallowed"); MC_CHECK(l.owns_lock()&&l.locks==1,"the lock's state was changed although unlock failed"); s->enter(); s->leave(); }
  join(p); { UserLock l(s->m); MC_CHECK(s->flag==1,"?"); s->cv.notify_all(); }
  UserLock l(s->m); bool r=timed(s->cv,l,TK_FOR,10); MC_CHECK(!r,"notified by nobody"); // the internal mutex is free
}
SCENARIO(any_relock_throws, "C05", CFG.Preempt(2), CFG)
{
  Shared<A_u>* s=new Shared<A_u>; int kind=choose(3); int tk=kind==1?choose(TK_N):0; 
  int w=spawn([=]{ UserLock l(s->m); s->waiting=1; l.throw_lock=1; bool thrown=false;
    try { if(kind==0) s->cv.wait(l); else if(kind==1) timed(s->cv,l,tk,10); else s->cv.wait(l,[]{ return false; }); } catch(std::runtime_error&){ thrown=true; }
    MC_CHECK(thrown,"exception from lock is swallowed"); MC_CHECK(!l.owns_lock(),"?"); });
  quiesce(); { UserLock l(s->m); s->cv.notify_all(); } join(w);
  { UserLock l(s->m); s->cv.notify_all(); bool r=timed(s->cv,l,TK_FOR,10); MC_CHECK(!r&&l.owns_lock(),"notified by nobody"); } // still usable
}
// the notifier holds the user's lock while the waiter re-acquires it, and the user's lock nests another mutex also used around notify
SCENARIO(any_notify_with_user_lock, "C05", CFG.Preempt(3).Faults(1,mc::F_SPURIOUS), CFG.Faults(1,F_WAKE))
{
  Shared<A_u>* s=new Shared<A_u>; M* outer=new M; int timedw=choose(2);
  int w=spawn([=]{ bs::unique_lock<M> o(*outer,bs::defer_lock); UserLock l(s->m); while(!s->flag){ if(timedw) timed(s->cv,l,TK_FOR,5); else s->cv.wait(l); } });
  { UserLock l(s->m); outer->lock(); s->flag=1; s->cv.notify_one(); s->cv.notify_all(); outer->unlock(); }
  join(w);
}

// a lock type whose lock() itself notifies: works only if no internal lock is held while the caller's lock is re-acquired
struct NotifyingLock { M* m; CVA* cv; int kind; bool held; NotifyingLock(M& mx,CVA& c,int k):m(&mx),cv(&c),kind(k),held(true){ m->lock(); } void lock(){ if(kind==0) cv->notify_all(); else if(kind==1) cv->notify_one(); else { bs::unique_lock<bs::mutex> l2(*new bs::mutex); cv->timed_wait(l2,ns(0)); } m->lock(); held=true; } void unlock(){ held=false; m->unlock(); } bool owns_lock() const { return held; } ~NotifyingLock(){ if(held) m->unlock(); } };
SCENARIO(any_lock_uses_cv, "C05", CFG.Preempt(2), CFG)
{
  Shared<A_u>* s=new Shared<A_u>; int kind=choose(3), how=choose(4), tk=how==1?choose(TK_N):0;
  int w=spawn([=]{ NotifyingLock l(s->m,s->cv,kind); s->waiting=1; if(how==0) while(!s->flag) s->cv.wait(l); else if(how==1) timed(s->cv,l,tk,10); else if(how==2) s->cv.wait(l,[=]{ return s->flag!=0; }); else ptimed(s->cv,l,TK_FOR,10,[=]{ return s->flag!=0; }); MC_CHECK(l.owns_lock(),"a wait returned without the lock"); });
  quiesce(); { UserLock l(s->m); s->flag=1; s->cv.notify_all(); } join(w);
}
// many waiters: notify_all reaches all of them, k notify_one calls reach at least k
template<class X> static void crowd(){
  int n=3+choose(5), k=choose(n+1), mode=choose(3), inlock=choose(2); Shared<X>* s=new Shared<X>; Counter* back=new Counter; int tk=choose(2)?TK_SYS:TK_FOR;
  for(int i=0;i<n;i++) spawn([=]{ typename X::lk l(s->m); bool r=true; if(mode==1||(mode==2&&i%2)) r=timed(s->cv,l,tk,1000); else s->cv.wait(l); MC_CHECK(r,"timeout before the deadline"); s->enter(); s->leave(); back->add(1); });
  quiesce(); MC_CHECK(back->get()==0,"not notified but back");
  if(inlock){ typename X::lk l(s->m); if(k==0) s->cv.notify_all(); else for(int i=0;i<k;i++) s->cv.notify_one(); } else { if(k==0) s->cv.notify_all(); else for(int i=0;i<k;i++) s->cv.notify_one(); }
  quiesce(); MC_CHECK(back->get()>=(k?k:n),"%d threads were waiting, %d times notify_%s woke %d",n,k?k:1,k?"one":"all",(int)back->get());
  s->cv.notify_all(); quiesce(); MC_CHECK(back->get()==n,"%d threads were waiting, notify_all left %d of them",n,n-(int)back->get());
}
SCENARIO(crowd_C, "C04", CFG.Fixed(), CFG.Preempt(0)) { crowd<C_m>(); }
SCENARIO(crowd_A, "C05", CFG.Fixed(), CFG.Preempt(0)) { crowd<A_u>(); }
// any number of notifications that nobody waited for and of timed waits that expired leave no trace
template<class X> static void history(){
  static const int N[]={1,300,2100,66000}; int n=N[choose(4)], op=choose(4), tk=choose(2)?TK_SYS:TK_FOR; Shared<X>* s=new Shared<X>;
  { typename X::lk l(s->m); for(int i=0;i<n;i++,mc::yield()) switch(op){ case 0: s->cv.notify_one(); break; case 1: s->cv.notify_all(); break; case 2: MC_CHECK(!timed(s->cv,l,tk,10),"notified by nobody (round %d)",i); break; case 3: MC_CHECK(!timed(s->cv,l,tk,-10),"notified by nobody (round %d)",i); } }
  Counter* back=new Counter; for(int i=0;i<2;i++) spawn([=]{ typename X::lk l(s->m); if(i) s->cv.wait(l); else timed(s->cv,l,tk,1000); back->add(1); });
  quiesce(); MC_CHECK(back->get()==0,"an old notification is received"); s->cv.notify_one(); quiesce(); MC_CHECK(back->get()>=1,"notify_one is lost after %d rounds",n); s->cv.notify_all(); quiesce(); MC_CHECK(back->get()==2,"notify_all is lost after %d rounds",n);
}
SCENARIO(history_C, "C04", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000)) { history<C_m>(); }
SCENARIO(history_A, "C05", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000)) { history<A_u>(); }

// ---------------------------------------------------------------- predicate waits (C06)
template<class L> struct Pred { int* flag; int* evals; int* last; const L* lk; int thr; bool operator()() const { MC_CHECK(lk->owns_lock(),"the predicate is evaluated without the lock"); ++*evals; if(thr&&*evals==thr) throw std::runtime_error("predicate"); *last=*flag; return *flag!=0; } };
// every wait variant; the flag is set at time `at` (or never), with or without a notification; meanwhile the waiter is disturbed
template<class X> static void predicate(){
  struct S:Shared<X>{ int evals,last; S():evals(0),last(-1){} }; S* s=new S; int tk=choose(TK_N+1); int64_t d=1000; int at=choose(4); int noti=choose(2); int noise=choose(2);
  if(at==0&&noti) return; if(tk==TK_N&&(at==3||(!noti&&at))) return; // untimed waits need a notification
  if(at==0) s->flag=1;
  int p=-1,q=-1; static const int64_t AT[]={0,300,1000};
  if(at&&at<3) p=spawn([=]{ mc::sleep_ns(AT[at]); typename X::lk l(s->m); s->flag=1; if(noti) s->cv.notify_one(); });
  if(noise) q=spawn([=]{ for(int i=0;i<2;i++){ mc::sleep_ns(200); s->cv.notify_all(); } });
  { typename X::lk l(s->m); Pred<typename X::lk> pr={&s->flag,&s->evals,&s->last,&l,0}; int64_t t0=mc::mono_now(); bool r=true;
    if(tk==TK_N) s->cv.wait(l,pr); else r=ptimed(s->cv,l,tk,d,pr); int64_t el=mc::mono_now()-t0;
    MC_CHECK(l.owns_lock(),"predicate wait returned without the lock"); s->enter(); s->leave();
    MC_CHECK_P("C06",s->evals>0,"the predicate was never evaluated"); MC_CHECK_P("C06",(s->last!=0)==r,"predicate wait returned %d but the last evaluation gave %d",r,s->last);
    MC_CHECK_P("C06",r==(s->flag!=0),"predicate wait returned %d while the predicate is %d",r,s->flag);
    if(tk<TK_N){ MC_CHECK_P("C06",r||el>=d,"predicate wait (%s) gave up after %ld of %ld ns",tkname(tk),(long)el,(long)d); MC_CHECK_P("C06",el<=d,"predicate wait (%s) blocked for %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
      if(at==0) MC_CHECK_P("C06",el==0,"the predicate was true at the start but the wait blocked"); }
    if(noti&&at&&at<3) MC_CHECK_P("C06",el==AT[at],"notified at %ld ns, returned at %ld ns",(long)AT[at],(long)el); }
  if(p>=0) join(p); if(q>=0) join(q);
}
SCENARIO(predicate_C, "C06", CFG.Faults(1,mc::F_SPURIOUS).Preempt(3), CFG.Faults(2,F_WAKE)) { predicate<C_m>(); }
SCENARIO(predicate_A, "C06", CFG.Faults(1,mc::F_SPURIOUS).Preempt(2), CFG.Faults(2,F_WAKE).Preempt(4)) { predicate<A_u>(); }
#ifdef HAVE_C_T
SCENARIO(predicate_Ct, "C06", CFG.Faults(1,mc::F_SPURIOUS).Preempt(2), CFG.Faults(2,F_WAKE)) { predicate<C_t>(); }
#endif
// already expired or odd timeouts: the predicate decides
template<class X> static void predicate_expired(){
  static const int64_t D[]={-3000000000LL,-1,0,1,1000000001}; Shared<X>* s=new Shared<X>; int evals=0,last=-1; int tk=choose(TK_N); int64_t d=D[choose(5)]; int v=choose(2); s->flag=v;
  typename X::lk l(s->m); Pred<typename X::lk> pr={&s->flag,&evals,&last,&l,0}; int64_t t0=mc::mono_now(); bool r=ptimed(s->cv,l,tk,d,pr); int64_t el=mc::mono_now()-t0;
  MC_CHECK(r==(v!=0),"predicate wait (%s, %ld ns) returned %d, the predicate is %d",tkname(tk),(long)d,r,v); MC_CHECK(evals>0&&last==v,"predicate not evaluated"); MC_CHECK(el==(v?0:max0(d)),"predicate wait (%s, %ld ns) blocked for %ld ns",tkname(tk),(long)d,(long)el); MC_CHECK(l.owns_lock(),"lock lost");
}
SCENARIO(predicate_expired_C, "C06", CFG, CFG.Faults(1,F_WAKE)) { predicate_expired<C_m>(); }
SCENARIO(predicate_expired_A, "C06", CFG, CFG.Faults(1,F_WAKE)) { predicate_expired<A_u>(); }
// predicate throws at its k-th evaluation
template<class X> static void predicate_throws(){
  struct S:Shared<X>{ int evals,last; S():evals(0),last(-1){} }; S* s=new S; int tk=choose(TK_N+1); int thr=1+choose(3);
  int q=spawn([=]{ for(int i=0;i<3;i++){ mc::sleep_ns(100); typename X::lk l(s->m); s->cv.notify_all(); } });
  { typename X::lk l(s->m); Pred<typename X::lk> pr={&s->flag,&s->evals,&s->last,&l,thr}; bool t=false;
    try { if(tk==TK_N) s->cv.wait(l,pr); else ptimed(s->cv,l,tk,1000,pr); } catch(std::runtime_error&){ t=true; }
    MC_CHECK(t,"exception of the predicate swallowed"); MC_CHECK(l.owns_lock(),"exception of the predicate leaves without the lock"); s->enter(); s->leave(); }
  join(q);
}
SCENARIO(predicate_throws_C, "C06", CFG.Faults(1,mc::F_SPURIOUS).Preempt(2), CFG.Faults(1,F_WAKE)) { predicate_throws<C_m>(); }
SCENARIO(predicate_throws_A, "C06", CFG.Faults(1,mc::F_SPURIOUS).Preempt(2), CFG.Faults(1,F_WAKE).Preempt(4)) { predicate_throws<A_u>(); }

// ---------------------------------------------------------------- deadlines (C12)
template<class X> static void deadline(){
  static const int64_t D[]={-3000000000LL,-1,0,1,999,1000,999999999,1000000000,1000000001,2500000000LL};
  Shared<X>* s=new Shared<X>; int tk=choose(TK_N); int64_t d=D[choose(10)]; typename X::lk l(s->m);
  int64_t m=mc::mono_now(); bool r=timed(s->cv,l,tk,d); int64_t el=mc::mono_now()-m;
  MC_CHECK(l.owns_lock(),"lock lost"); if(r) return; // spurious wakeups are allowed
  MC_CHECK(el>=d,"timed wait (%s) gave up after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
  MC_CHECK(el==max0(d),"timed wait (%s) slept for %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
}
SCENARIO(deadline_C, "C12", CFG, CFG.Faults(1,F_WAKE)) { deadline<C_m>(); }
SCENARIO(deadline_A, "C12", CFG, CFG.Faults(1,F_WAKE)) { deadline<A_u>(); }
#ifdef HAVE_C_T
SCENARIO(deadline_Ct, "C12", CFG, CFG.Faults(1,F_WAKE)) { deadline<C_t>(); }
#endif
// predicate waits: notifications and spurious wakeups do not move the deadline
template<class X> static void deadline_noise(){
  Shared<X>* s=new Shared<X>; int tk=choose(TK_N); int64_t d=choose(2)?1000000001:1000; int n=1+choose(3);
  int q=spawn([=]{ for(int i=0;i<n;i++){ mc::sleep_ns(d/4); s->cv.notify_all(); } });
  { typename X::lk l(s->m); int64_t m=mc::mono_now(); bool r=ptimed(s->cv,l,tk,d,[]{ return false; }); int64_t el=mc::mono_now()-m;
    MC_CHECK(!r,"predicate wait returned true although the predicate is false"); MC_CHECK(el==d,"predicate wait (%s) disturbed by notifications returned after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d); }
  join(q);
}
SCENARIO(deadline_noise_C, "C12", CFG.Faults(1,mc::F_SPURIOUS).Preempt(3), CFG.Faults(2,F_WAKE)) { deadline_noise<C_m>(); }
SCENARIO(deadline_noise_A, "C12", CFG.Faults(1,mc::F_SPURIOUS).Preempt(3), CFG.Faults(2,F_WAKE)) { deadline_noise<A_u>(); }
template<class X> static void clock_jump(){
  static const int64_t J[]={-700,-300,100,300,700};
  Shared<X>* s=new Shared<X>; int64_t d=1000; int64_t j=J[choose(5)]; int tk=choose(2)?TK_SYS:TK_TIMED_SYS; int pr=choose(2);
  spawn([=]{ mc::sleep_ns(500); mc::jump_real(j); });
  typename X::lk l(s->m); int64_t m=mc::mono_now(), dl=mc::real_now()+d; bool r=pr?ptimed(s->cv,l,tk,d,[]{ return false; }):timed(s->cv,l,tk,d); int64_t el=mc::mono_now()-m, ex=500+max0(500-j);
  if(r) return;
  MC_CHECK(mc::real_now()>=dl,"timed wait (%s) gave up before its deadline after the clock was set by %ld ns",tkname(tk),(long)j);
  MC_CHECK(el==ex,"timed wait (%s) returned after %ld ns instead of %ld ns when the clock was set by %ld ns",tkname(tk),(long)el,(long)ex,(long)j);
}
SCENARIO(clock_jump_C, "C12", CFG, CFG.Faults(1,F_WAKE)) { clock_jump<C_m>(); }
template<class X> static bool idle_wait(int tk,int64_t d){ Shared<X>* s=new Shared<X>; typename X::lk l(s->m); return timed(s->cv,l,tk,d); }
template<class X> static bool idle_pwait(int tk,int64_t d){ Shared<X>* s=new Shared<X>; typename X::lk l(s->m); return ptimed(s->cv,l,tk,d,[]{ return false; }); }
SCENARIO(clock_set_C, "C12", CFG, CFG.Faults(1,F_WAKE)) { bool p=choose(2); clock_set_during([=](int tk,int64_t d){ return p?idle_pwait<C_m>(tk,d):idle_wait<C_m>(tk,d); },false); }
SCENARIO(clock_set_A, "C12", CFG, CFG.Faults(1,F_WAKE)) { bool p=choose(2); clock_set_during([=](int tk,int64_t d){ return p?idle_pwait<A_u>(tk,d):idle_wait<A_u>(tk,d); },false); }
SCENARIO(clock_set_C_exact, "C12", CFG, CFG) { bool p=choose(2); clock_set_during([=](int tk,int64_t d){ return p?idle_pwait<C_m>(tk,d):idle_wait<C_m>(tk,d); },true); }
SCENARIO(clock_set_A_exact, "C12", CFG, CFG) { bool p=choose(2); clock_set_during([=](int tk,int64_t d){ return p?idle_pwait<A_u>(tk,d):idle_wait<A_u>(tk,d); },true); }
SCENARIO(clock_jump_A, "C12", CFG, CFG.Faults(1,F_WAKE)) { clock_jump<A_u>(); }

// ---------------------------------------------------------------- destruction (C20)
template<class X> static void destroy(int nw){
  Shared<X>* s=new Shared<X>; int all=nw>1||choose(2), kind=choose(3); s->waiting=nw; int t[2];
  for(int i=0;i<nw;i++) t[i]=spawn([=]{ bool last; { typename X::lk l(s->m); if(kind==0) while(!s->flag) s->cv.wait(l); else if(kind==1) s->cv.wait(l,[=]{ return s->flag!=0; }); else while(!s->flag) timed(s->cv,l,TK_FOR,1000000000); last=--s->waiting==0; } if(last) delete s; });
  { typename X::lk l(s->m); s->flag=1; if(all) s->cv.notify_all(); else s->cv.notify_one(); }
  for(int i=0;i<nw;i++) join(t[i]); MC_CHECK(mc::live_sync_objects()==0,"system objects leaked");
}
SCENARIO(destroy_C, "C20", CFG.Faults(2,F_WAKE), CFG.Faults(3,F_WAKE)) { destroy<C_m>(1); }
SCENARIO(destroy_A, "C20", CFG.Faults(2,F_WAKE), CFG.Faults(3,F_WAKE)) { destroy<A_m>(1); }
SCENARIO(destroy2_C, "C20", CFG.Faults(1,mc::F_SPURIOUS).Preempt(3), CFG.Faults(1,F_WAKE)) { destroy<C_m>(2); }
SCENARIO(destroy2_A, "C20", CFG.Faults(1,mc::F_SPURIOUS).Preempt(2), CFG.Faults(1,F_WAKE).Preempt(4)) { destroy<A_m>(2); }
