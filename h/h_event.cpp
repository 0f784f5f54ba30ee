// Scenarios for auto_reset_event and manual_reset_event.
#include "common.h"
#include <boost/sync/events.hpp>
#include <atomic>
typedef bs::auto_reset_event ARE;
typedef bs::manual_reset_event MRE;

template<class E> static bool timed(E& e,int tk,int64_t d){ mc::MustReturn mr("a timed wait");
  switch(tk){ case TK_FOR: return e.wait_for(ns(d)); case TK_TIMED: return e.timed_wait(ns(d)); case TK_SYS: return e.wait_until(sys_at(d)); case TK_STEADY: return e.wait_until(std_at(d)); case TK_TIMED_SYS: return e.timed_wait(sys_at(d)); case TK_TIMED_STEADY: return e.timed_wait(std_at(d)); case TK_OWN: return e.wait_until(own_at(d)); default: return e.timed_wait(own_at(d)); }
}
enum { K_POST, K_WAIT, K_TRY, K_TIMED, K_RESET };
template<class E> struct Sig; template<> struct Sig<ARE>{ static void go(ARE& e){ e.post(); } }; template<> struct Sig<MRE>{ static void go(MRE& e){ e.set(); } };
template<class E> static void rec(E& e,int kind,int tk=TK_FOR,int64_t d=10){
  int o=mc::op_begin(0,kind); int r=1; mc::MustReturn mr(kind==K_WAIT?0:kind==K_POST?"a signalling call":kind==K_TRY?"try_wait":"a timed wait");
  switch(kind){ case K_POST: Sig<E>::go(e); break; case K_WAIT: e.wait(); break; case K_TRY: r=e.try_wait(); break; case K_TIMED: r=timed(e,tk,d); break; }
  mc::op_end(o,r);
}
static void rec_reset(MRE& e){ mc::MustReturn mr("reset"); int o=mc::op_begin(0,K_RESET); e.reset(); mc::op_end(o,1); }

// ---------------------------------------------------------------- auto_reset_event
// Sequential specification. State: number of posts that no wait has consumed yet. A post on a signalled event either has no effect or, if
// there are at least that many waits in progress, is kept for one of them.
static int are_spec(int64_t* s,const mc::HOp& o,int alt){
  switch(o.kind){
    case K_POST: if(*s==0){ if(alt>0) return -1; *s=1; return 1; } if(alt==0) return 1; if(alt==1){ if(mc::lin_pending(1u<<K_WAIT|1u<<K_TIMED)>=*s){ ++*s; return 1; } return 0; } return -1;
    case K_WAIT: if(alt>0) return -1; if(*s>0){ --*s; return 1; } return 0;
    default: if(alt>0) return -1; if(o.result){ if(*s>0){ --*s; return 1; } return 0; } return *s==0||mc::lin_pending(1u<<K_WAIT|1u<<K_TIMED)>=*s; // a post can already be on its way to a blocked wait
  }
}
static void are_final(){ MC_CHECK(mc::linearizable(0,are_spec,0,true),"no order of the operations explains their results: %s (0=post 1=wait 2=try_wait 3=timed_wait)",mc::history_str()); }
// with all threads idle, an event that is not signalled behaves like a new one
static void like_new(ARE& e,int tk){
  MC_CHECK(!e.try_wait(),"the event is still signalled");
  for(int i=0;i<3;i++) e.post();
  int left=0; if(tk>=0&&timed(e,tk,10)) left++; while(left<4&&e.try_wait()) left++;
  MC_CHECK(left==1,"three posts while all threads are idle: %d waits succeed",left);
}
static void are_programs(int nt,int no){
  ARE* e=new ARE; mc::on_final(are_final); mc::keep_stuck_ok(true); int tk=choose(2)?TK_SYS:TK_FOR;
  programs(nt,no,4,[=](int k){ rec(*e,k,tk); });
}
SCENARIO(are_programs_2x2, "C09", CFG.Shards(4), CFG.Stale(1).Faults(1,F_WAKE_C).Early(1).Preempt(3).Shards(16)) { are_programs(2,2); }
SCENARIO(are_programs_3x1, "C09", CFG.Stale(1).Faults(1,F_WAKE_C).Early(1).Preempt(2).Shards(4), CFG.Stale(1).Faults(1,F_WAKE_C).Early(1).Preempt(4).Shards(8)) { are_programs(3,1); }
SCENARIO(are_programs_4x1, "C09", CFG.Preempt(2).Shards(8), CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(3).Shards(16)) { are_programs(4,1); }
SCENARIO(are_programs_2x3, "C09", CFG.Preempt(3).Shards(8), CFG.Preempt(4).Shards(32)) { are_programs(2,3); }
SCENARIO(are_programs_3x2, "C09", CFG.Preempt(2).Shards(8), CFG.Preempt(2).Shards(32)) { are_programs(3,2); }

// n threads are blocked (each untimed or timed), then k posts arrive from k threads: exactly min(n,k) waits succeed, at most one post is left over
static void are_blocked(int maxn,int maxk){
  int n=1+choose(maxn), k=1+choose(maxk); int timedmask=choose(1<<n); int tk=choose(2)?TK_SYS:TK_FOR;
  ARE* e=new ARE; Counter* done=new Counter[4]; Counter* ok=new Counter[4];
  for(int i=0;i<n;i++) spawn([=]{ bool r=true; if(timedmask>>i&1) r=timed(*e,tk,1000); else e->wait(); if(r) ok[i].add(1); done[i].add(1); });
  quiesce();
  for(int i=0;i<n;i++) MC_CHECK(!done[i].get(),"a wait on an event that was never posted returned %d",(int)ok[i].get());
  for(int i=1;i<k;i++) spawn([=]{ e->post(); });
  e->post();
  quiesce();
  int rel=0; for(int i=0;i<n;i++) if(done[i].get()){ MC_CHECK(ok[i].get(),"a timed wait was satisfied by a post but reports a timeout"); rel++; }
  MC_CHECK(rel==(n<k?n:k),"%d threads were blocked, %d posts were made, %d threads were released",n,k,rel);
  int left=0; while(left<3&&e->try_wait()) left++;
  MC_CHECK(left==(k>n?1:0),"%d threads were blocked, %d posts were made, afterwards %d further waits succeed",n,k,left);
  if(k>=n) like_new(*e,tk);
  mc::keep_stuck_ok(true);
}
SCENARIO(are_blocked_waiters, "C09", CFG.Preempt(2), CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(3).Shards(1)) { are_blocked(2,2); }
SCENARIO(are_blocked_waiters_f, "C09", CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(1), CFG.Stale(1).Faults(2,F_WAKE_C).Preempt(2)) { are_blocked(2,2); }
SCENARIO(are_blocked_waiters_3, "C09", CFG.Preempt(1), CFG.Preempt(2)) { are_blocked(3,3); }

// n threads are blocked, k<=n posts arrive, and other threads poll at the same time: every post releases one blocked thread or satisfies one poll
static void are_thieves(int maxn,int pollers){
  int n=1+choose(maxn), k=1+choose(n), tm=choose(1<<n), tk=choose(2)?TK_SYS:TK_FOR, own=choose(2);
  ARE* e=new ARE; Counter* done=new Counter[4]; Counter* ok=new Counter[4]; Counter* got=new Counter;
  for(int i=0;i<n;i++) spawn([=]{ bool r=true; if(tm>>i&1) r=timed(*e,tk,1000); else e->wait(); if(r) ok[i].add(1); done[i].add(1); });
  quiesce();
  for(int i=0;i<pollers;i++) spawn([=]{ mc::MustReturn mr("try_wait"); if(e->try_wait()) got->add(1); });
  for(int i=0;i<k;i++) e->post();
  if(own&&e->try_wait()) got->add(1);
  quiesce();
  int rel=0; for(int i=0;i<n;i++) if(done[i].get()){ MC_CHECK(ok[i].get(),"a timed wait was satisfied by a post but reports a timeout"); rel++; }
  MC_CHECK(rel+got->get()==k,"%d threads were blocked, %d posts were made, %d threads were released and %d polls succeeded",n,k,rel,(int)got->get());
  MC_CHECK(!e->try_wait(),"%d threads were blocked, %d posts were made and consumed, but the event is still signalled",n,k);
  if(rel==n) like_new(*e,tk);
  mc::keep_stuck_ok(true);
}
SCENARIO(are_blocked_thief, "C09", CFG.Preempt(2), CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(2)) { are_thieves(2,1); }
SCENARIO(are_blocked_thieves, "C09", CFG.Preempt(1), CFG.Preempt(2)) { are_thieves(3,2); }

// a timed wait that expires while a post arrives: the post is either consumed by the wait or left in the event
SCENARIO(are_timeout_vs_post, "C09,C12", CFG.Stale(1).Faults(1,F_WAKE_C).Early(1), CFG.Stale(2).Faults(2,F_WAKE_C).Early(2))
{
  ARE* e=new ARE; int tk=choose(TK_N); int np=1+choose(2);
  int p=spawn([=]{ mc::sleep_ns(10); e->post(); if(np==2) e->post(); });
  int64_t t0=mc::mono_now(); bool r=timed(*e,tk,10); int64_t el=mc::mono_now()-t0;
  MC_CHECK_P("C12",r||el>=10,"timed wait (%s) gave up after %ld of 10 ns",tkname(tk),(long)el);
  join(p);
  int left=0; while(left<3&&e->try_wait()) left++;
  MC_CHECK_P("C09",left+r>=1,"the post is lost: the timed wait reports a timeout and the event is not signalled");
  MC_CHECK_P("C09",left<=1,"event signalled %d times after all threads are idle",left);
  MC_CHECK_P("C09",left+r<=np,"one post satisfied two waits");
  if(mc::wanted("C09")) like_new(*e,-1);
  delete e;
}
// a wait that fails or is in progress never eats or duplicates posts made around it
SCENARIO(are_failed_waits, "C09", CFG.Stale(1).Faults(1,mc::F_CASWEAK).Early(1).Preempt(3), CFG.Stale(1).Faults(1,F_WAKE_C).Early(1))
{
  ARE* e=new ARE; int kind=choose(2); int tk=choose(2)?TK_SYS:TK_FOR; int* got=new int(0);
  int w=spawn([=]{ *got=kind?timed(*e,tk,10):e->try_wait(); });
  int p=spawn([=]{ e->post(); });
  e->post();
  join(w); join(p);
  int left=0; while(left<3&&e->try_wait()) left++;
  MC_CHECK(left<=1,"event signalled %d times after all threads are idle",left);
  MC_CHECK(left+*got>=1,"posts lost");
  like_new(*e,-1); delete e; delete got;
}
// a signalled event satisfies every kind of wait, even one whose deadline has passed
SCENARIO(are_expired_deadline, "C09", CFG, CFG)
{
  static const int64_t D[]={-3000000000LL,-1,0,1,1000000001}; ARE e; int tk=choose(TK_N); int64_t d=D[choose(5)]; e.post(); int64_t t0=mc::mono_now();
  MC_CHECK(timed(e,tk,d),"timed wait (%s, %ld ns) fails although the event is signalled",tkname(tk),(long)d); MC_CHECK(mc::mono_now()==t0,"timed wait blocks although the event is signalled"); MC_CHECK(!e.try_wait(),"the event is still signalled"); like_new(e,tk);
}
// a timed wait is satisfied at once by a post that is made before its deadline, whenever it comes
template<class E> static void prompt(int nw){
  E* e=new E; int at=choose(3)*5, tk=choose(TK_N); int mix=nw>1?choose(2):0; Counter* ok=new Counter;
  spawn([=]{ if(at) mc::sleep_ns(at); for(int i=0;i<nw;i++) Sig<E>::go(*e); });
  for(int i=0;i<nw;i++){ auto w=[=]{ int64_t t0=mc::mono_now(); bool r=true; if(mix&&i) e->wait(); else r=timed(*e,tk,1000); int64_t el=mc::mono_now()-t0; if(el>=1000) MC_CHECK(nw>1,"the event was signalled after %d ns, but the timed wait (%s) stayed blocked until its deadline and returned %d",at,tkname(tk),r); MC_CHECK(el<=at||nw>1,"the event was signalled after %d ns, but the timed wait (%s) returned %d after %ld ns",at,tkname(tk),r,(long)el); if(r&&el<=at) ok->add(1); }; if(i+1<nw) spawn(w); else w(); }
  quiesce(); if(nw==1) MC_CHECK(ok->get()==1,"the wait missed the signal"); mc::keep_stuck_ok(true);
}
SCENARIO(are_prompt, "C09", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C)) { prompt<ARE>(1); }
SCENARIO(mre_prompt, "C10", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C)) { prompt<MRE>(1); }
// no thread stays blocked (timed or not) while the event is signalled: two waits, posts by two threads
SCENARIO(are_prompt_2, "C09", CFG.Preempt(3), CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(3))
{
  ARE* e=new ARE; int tm=choose(4), tk=choose(TK_N); Counter* done=new Counter; 
  for(int i=0;i<2;i++) spawn([=]{ bool r=true; if(tm>>i&1) r=timed(*e,tk,1000); else e->wait(); MC_CHECK(r,"?"); done->add(1); });
  spawn([=]{ e->post(); }); e->post();
  quiesce(); long d=done->get(); if(d<2) MC_CHECK(!e->try_wait(),"%d threads stay blocked although the event is signalled",2-(int)d);
  MC_CHECK(d>=1,"no thread was released by two posts"); if(d<2){ e->post(); quiesce(); MC_CHECK(done->get()==2,"a blocked thread is not released by a post"); } else { int left=0; while(left<4&&e->try_wait()) left++; MC_CHECK(left==0,"posts multiplied"); like_new(*e,tk); }
}
// publication -----------------------------------------------------------------------------------------------------------------
template<class E> static void publish(){
  E* e=new E; int* data=new int(0); int kind=K_WAIT+choose(3); int tk=kind==K_TIMED?choose(TK_N):0;
  spawn([=]{ *data=1; mc::sleep_ns(choose(2)*10); Sig<E>::go(*e); });
  bool r=true; if(kind==K_WAIT) e->wait(); else if(kind==K_TRY) r=e->try_wait(); else r=timed(*e,tk,10);
  if(r) MC_CHECK(*data==1,"a wait was satisfied but the poster's write is not visible");
}
SCENARIO(are_publish, "C11", CFG.Stale(2).Faults(1,F_WAKE_C).Early(1), CFG.Stale(3).Faults(2,F_WAKE_C).Early(2)) { publish<ARE>(); }
SCENARIO(mre_publish, "C11", CFG.Stale(2).Faults(1,F_WAKE_C).Early(1), CFG.Stale(3).Faults(2,F_WAKE_C).Early(2)) { publish<MRE>(); }
// chain: T1 -> event 1 -> T2 -> event 2 -> T3
template<class E> static void chain(){
  E* e=new E; E* f=new E; int* data=new int(0); int kind=choose(2);
  spawn([=]{ *data=1; Sig<E>::go(*e); });
  spawn([=]{ if(kind) e->wait(); else timed(*e,TK_FOR,1000000); ++*data; Sig<E>::go(*f); });
  f->wait(); MC_CHECK(*data==2,"transitive publication failed: %d",*data);
}
SCENARIO(are_chain, "C11", CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(3), CFG.Stale(2).Faults(2,F_WAKE_C)) { chain<ARE>(); }
SCENARIO(mre_chain, "C11", CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(3), CFG.Stale(2).Faults(2,F_WAKE_C)) { chain<MRE>(); }
// producers announce items with relaxed stores and post; the consumer re-checks all items after every wait. A post that coalesces with an earlier
// one must still make its item visible to the wait that consumes the event: otherwise the consumer sleeps forever on work that was announced.
static void are_coalesce(int producers){
  ARE* e=new ARE; std::atomic<int>* item=new std::atomic<int>[3]; for(int i=0;i<3;i++) item[i].store(0,std::memory_order_relaxed);
  int kind=choose(3);
  for(int i=0;i<producers;i++) spawn([=]{ item[i].store(1,std::memory_order_relaxed); e->post(); });
  for(;;){
    int n=0; for(int i=0;i<producers;i++) n+=item[i].load(std::memory_order_relaxed);
    if(n==producers) break;
    if(kind==0) e->wait(); else if(kind==1){ while(!timed(*e,TK_FOR,1000000000)) MC_CHECK(mc::mono_now()<20000LL*1000000000,"the consumer misses an item whose post was absorbed by an already signalled event"); }
    else if(!e->try_wait()) e->wait();
  }
}
SCENARIO(are_coalesced_posts, "C11", CFG.Stale(1).Preempt(3), CFG.Stale(2).Faults(1,mc::F_CASWEAK)) { are_coalesce(2); }
SCENARIO(are_coalesced_posts_3, "C11", CFG.Stale(1).Preempt(2), CFG.Stale(1).Preempt(3)) { are_coalesce(3); }
// the same with a manual-reset event that the consumer resets before it looks at the items
static void mre_coalesce(int producers){
  MRE* e=new MRE; std::atomic<int>* item=new std::atomic<int>[3]; for(int i=0;i<3;i++) item[i].store(0,std::memory_order_relaxed);
  int kind=choose(3);
  for(int i=0;i<producers;i++) spawn([=]{ item[i].store(1,std::memory_order_relaxed); e->set(); });
  for(;;){
    if(kind==0) e->wait(); else if(kind==1){ while(!timed(*e,TK_FOR,1000000000)) MC_CHECK(mc::mono_now()<20000LL*1000000000,"the consumer misses an item that was announced before it reset the event"); }
    else if(!e->try_wait()) e->wait();
    e->reset();
    int n=0; for(int i=0;i<producers;i++) n+=item[i].load(std::memory_order_relaxed);
    if(n==producers) break;
  }
}
SCENARIO(mre_coalesced_sets, "C11", CFG.Stale(1).Preempt(3), CFG.Stale(2)) { mre_coalesce(2); }
SCENARIO(mre_coalesced_sets_3, "C11", CFG.Stale(1).Preempt(2), CFG.Stale(1).Preempt(3)) { mre_coalesce(3); }
// destruction -----------------------------------------------------------------------------------------------------------------
template<class E> static void destroy(){
  E* e=new E; int kind=choose(3); int tk=kind==2?choose(TK_N):0;
  int p=spawn([=]{ Sig<E>::go(*e); });
  if(kind==0) e->wait(); else if(kind==1){ while(!e->try_wait()); } else while(!timed(*e,tk,1000));
  delete e; char* other=new char[64]; other[0]=1; (void)other;
  join(p);
  MC_CHECK(mc::live_sync_objects()==0,"system objects leaked");
}
SCENARIO(are_destroy, "C20", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C).Early(1)) { destroy<ARE>(); }
SCENARIO(mre_destroy, "C20", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C).Early(1)) { destroy<MRE>(); }
template<class E> static void destroy2(){   // two waiters; the second one released deletes
  E* e=new E; std::atomic<int>* n=new std::atomic<int>(0);
  for(int i=0;i<2;i++) spawn([=]{ e->wait(); if(n->fetch_add(1)==1) delete e; });
  Sig<E>::go(*e); 
}
SCENARIO(mre_destroy2, "C20", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C)) { destroy2<MRE>(); }
SCENARIO(are_destroy_timeout, "C20", CFG.Stale(1).Faults(1,F_WAKE_C).Early(1), CFG.Stale(2).Faults(2,F_WAKE_C).Early(2))
{ // the poster's own last operation: a timed wait that gave up, then the poster destroys
  ARE* e=new ARE; mc::Flag* left=new mc::Flag;
  spawn([=]{ timed(*e,TK_FOR,10); left->set(); });
  mc::sleep_ns(10); e->post(); left->await(); e->try_wait(); delete e;
}

// ---------------------------------------------------------------- manual_reset_event
static int mre_spec(int64_t* s,const mc::HOp& o,int alt){
  if(alt>0) return -1;
  switch(o.kind){ case K_POST: *s=1; return 1; case K_RESET: *s=0; return 1; case K_WAIT: return *s!=0; default: return (*s!=0)==(o.result!=0); }
}
static void mre_final(){ MC_CHECK(mc::linearizable(0,mre_spec,0,true),"no order of the operations explains their results: %s (0=set 1=wait 2=try_wait 3=timed_wait 4=reset)",mc::history_str()); }
static void mre_programs(int nt,int no){
  MRE* e=new MRE; mc::on_final(mre_final); mc::keep_stuck_ok(true); int tk=choose(2)?TK_SYS:TK_FOR;
  programs(nt,no,5,[=](int k){ if(k==K_RESET) rec_reset(*e); else rec(*e,k,tk); });
}
SCENARIO(mre_programs_2x2, "C10", CFG.Shards(4), CFG.Stale(1).Faults(1,F_WAKE_C).Early(1).Preempt(3).Shards(25)) { mre_programs(2,2); }
SCENARIO(mre_programs_3x1, "C10", CFG.Stale(1).Faults(1,F_WAKE_C).Early(1).Preempt(2).Shards(5), CFG.Stale(1).Faults(1,F_WAKE_C).Early(1).Preempt(4).Shards(5)) { mre_programs(3,1); }
SCENARIO(mre_programs_4x1, "C10", CFG.Preempt(2).Shards(5), CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(3).Shards(5)) { mre_programs(4,1); }
SCENARIO(mre_programs_2x3, "C10", CFG.Preempt(3).Shards(8), CFG.Preempt(4).Shards(40)) { mre_programs(2,3); }
SCENARIO(mre_programs_3x2, "C10", CFG.Preempt(1).Shards(8), CFG.Preempt(2).Shards(25)) { mre_programs(3,2); }
// while set, all blocked waiters are released and later waits pass; after reset waits block again
static void mre_gate(int n){
  MRE* e=new MRE; Counter* done=new Counter[4]; int tm=choose(1<<n); int tk=choose(2)?TK_SYS:TK_FOR; int pre=choose(3);
  for(int i=0;i<n;i++) spawn([=]{ bool r=true; if(tm>>i&1) r=timed(*e,tk,1000); else e->wait(); MC_CHECK(r,"timed wait reports a timeout although the event was set in time"); done[i].add(1); });
  if(pre==1) quiesce(); 
  if(pre==2){ e->set(); e->reset(); }
  int s2=spawn([=]{ e->set(); });
  e->set();
  join(s2); quiesce();
  for(int i=0;i<n;i++) MC_CHECK(done[i].get(),"a thread stays blocked while the event is set");
  e->wait(); MC_CHECK(e->try_wait()&&e->try_wait(),"event not set any more although nobody reset it"); MC_CHECK(timed(*e,tk,0)&&timed(*e,tk,-5),"wait with an expired deadline fails although the event is set");
  e->reset(); MC_CHECK(!e->try_wait(),"event still set after reset"); 
  Counter* late=new Counter; spawn([=]{ e->wait(); late->add(1); }); quiesce(); MC_CHECK(!late->get(),"wait passes after reset");
  int64_t t0=mc::mono_now(); MC_CHECK(!timed(*e,tk,10),"timed wait passes after reset"); MC_CHECK(mc::mono_now()-t0==10,"wrong timeout after reset");
  e->reset(); e->set(); quiesce(); MC_CHECK(late->get(),"a waiter blocked after reset is not released by the next set");
}
SCENARIO(mre_gate_2, "C10", CFG.Preempt(2).Faults(1,F_WAKE_C), CFG.Stale(1).Preempt(3).Faults(1,F_WAKE_C)) { mre_gate(2); }
SCENARIO(mre_gate_3, "C10", CFG.Preempt(1), CFG.Preempt(2)) { mre_gate(3); }
// set / reset pulses race with waiters; a final set releases everybody
static void mre_pulse(int n){
  MRE* e=new MRE; Counter* done=new Counter[4]; int ti=choose(2);
  for(int i=0;i<n;i++) spawn([=]{ if(i==0&&ti){ while(!timed(*e,TK_FOR,1000)); } else e->wait(); done[i].add(1); });
  int r=spawn([=]{ e->reset(); });
  e->set(); e->reset(); join(r); e->set();
  quiesce();
  for(int i=0;i<n;i++) MC_CHECK(done[i].get(),"a thread stays blocked while the event is set");
}
SCENARIO(mre_pulses, "C10", CFG.Stale(1).Preempt(3).Faults(1,F_WAKE_C), CFG.Stale(1).Faults(1,F_WAKE_C)) { mre_pulse(1); }
SCENARIO(mre_pulses_2, "C10", CFG.Preempt(2), CFG.Preempt(4).Faults(1,F_WAKE_C)) { mre_pulse(2); }
// timed wait races with set at the deadline
SCENARIO(mre_timeout_vs_set, "C10,C12", CFG.Stale(1).Faults(1,F_WAKE_C).Early(1), CFG.Stale(2).Faults(2,F_WAKE_C).Early(2))
{
  MRE* e=new MRE; int tk=choose(TK_N); int at=choose(3)*5;
  int p=spawn([=]{ mc::sleep_ns(at); e->set(); });
  int64_t t0=mc::mono_now(); bool r=timed(*e,tk,10); int64_t el=mc::mono_now()-t0;
  MC_CHECK_P("C12",r||el>=10,"timed wait (%s) gave up after %ld of 10 ns",tkname(tk),(long)el);
  join(p); bool tw=e->try_wait(); MC_CHECK_P("C10",tw,"event lost"); e->reset(); tw=e->try_wait(); MC_CHECK_P("C10",!tw,"event set after reset");
  Counter* d=new Counter; spawn([=]{ e->wait(); d->add(1); }); quiesce(); MC_CHECK_P("C10",!d->get(),"wait passed on a reset event"); e->set(); quiesce(); MC_CHECK_P("C10",d->get(),"waiter not released: a timed-out wait corrupted the event");
}

// ---------------------------------------------------------------- all sequences of operations of one thread, against a reference; afterwards waits block and are released as on a new event
template<class E,bool MANUAL> static void sequence(int len){
  E* e=new E; int tk=choose(TK_N); bool set=false; static const int64_t D[]={-10,0,10};
  for(int i=0;i<len;i++){ int op=choose(7); int64_t t0=mc::mono_now(), ex=0;
    if(op==0){ Sig<E>::go(*e); set=true; }
    else if(op==1){ if constexpr(MANUAL) e->reset(); else continue; set=false; }
    else if(op==2){ bool r=e->try_wait(); MC_CHECK(r==set,"step %d: try_wait gives %d, the event is %s",i,r,set?"signalled":"not signalled"); if(!MANUAL) set=false; }
    else if(op==3){ if(!set) continue; e->wait(); if(!MANUAL) set=false; }
    else { int64_t d=D[op-4]; bool r=timed(*e,tk,d); MC_CHECK(r==set,"step %d: timed wait (%s, %ld ns) gives %d, the event is %s",i,tkname(tk),(long)d,r,set?"signalled":"not signalled"); if(!set) ex=max0(d); if(!MANUAL) set=false; }
    MC_CHECK(mc::mono_now()-t0==ex,"step %d: the operation took %ld ns",i,(long)(mc::mono_now()-t0)); }
  if(set){ MC_CHECK(e->try_wait(),"the signal is lost"); if constexpr(MANUAL) e->reset(); } MC_CHECK(!e->try_wait(),"still signalled");
  int order=choose(2); Counter* done=new Counter; for(int i=0;i<2;i++) spawn([=]{ bool r=true; if(i==order) e->wait(); else r=timed(*e,tk,1000); MC_CHECK(r,"a timed wait missed the signal"); done->add(1); });
  quiesce(); MC_CHECK(done->get()==0,"a wait does not block"); Sig<E>::go(*e); quiesce(); MC_CHECK(done->get()==(MANUAL?2:1),"2 threads were blocked, one signal released %d",(int)done->get());
  if(!MANUAL){ Sig<E>::go(*e); quiesce(); MC_CHECK(done->get()==2,"the second signal released nobody"); MC_CHECK(!e->try_wait(),"still signalled"); } else MC_CHECK(e->try_wait(),"not set any more"); delete e;
}
SCENARIO(are_sequences, "C09", CFG.Fixed(), CFG.Fixed()) { sequence<ARE,false>(mc::thorough()?6:4); }
SCENARIO(mre_sequences, "C10", CFG.Fixed(), CFG.Fixed()) { sequence<MRE,true>(mc::thorough()?6:4); }

// ---------------------------------------------------------------- long histories
// any short cycle of operations can be repeated any number of times (beyond the range of 8, 10, 11 or 16 bit counters): the event behaves as new
SCENARIO(are_long_history, "C09", CFG.Steps(20000000).Fixed(), CFG.Steps(20000000).Fixed())
{
  static const int N[]={1,300,2100,66000}; ARE* e=new ARE; int n=N[choose(4)], op=choose(7), tk=choose(2)?TK_SYS:TK_FOR; mc::Flag* stop=0; (void)stop;
  if(op==6&&n>2100) return;
  for(int i=0;i<n;i++,mc::yield()) switch(op){
    case 0: MC_CHECK(!e->try_wait(),"try_wait succeeds on an event that is not signalled (round %d)",i); break;
    case 1: MC_CHECK(!timed(*e,tk,10),"timed wait succeeds on an event that is not signalled (round %d)",i); break;
    case 2: MC_CHECK(!timed(*e,tk,-10),"timed wait succeeds on an event that is not signalled (round %d)",i); break;
    case 3: e->post(); MC_CHECK(e->try_wait(),"the post is lost (round %d)",i); break;
    case 4: e->post(); break;
    case 5: e->post(); if(i&1) e->wait(); else MC_CHECK(timed(*e,tk,10),"the post is lost (round %d)",i); break;
    case 6: { Counter* c=new Counter; int t=i?2:spawn([=]{ for(int j=0;j<n;j++){ if(j&1) e->wait(); else MC_CHECK(timed(*e,tk,1000),"timed wait missed a post (round %d)",j); } }); (void)t; delete c; quiesce(); e->post(); break; }
  }
  if(op==6) join(1);
  if(op==4) MC_CHECK(e->try_wait(),"event not signalled after %d posts",n);
  MC_CHECK(!e->try_wait(),"event signalled twice after %d rounds",n);
  int64_t t0=mc::mono_now(); MC_CHECK(!timed(*e,tk,10)&&mc::mono_now()-t0==10,"timed wait does not wait until its deadline after %d rounds",n);
  Counter* done=new Counter; for(int i=0;i<2;i++) spawn([=]{ if(i) e->wait(); else timed(*e,tk,1000); done->add(1); });
  quiesce(); MC_CHECK(done->get()==0,"waits do not block after %d rounds",n); e->post(); quiesce(); MC_CHECK(done->get()==1,"one post released %d threads after %d rounds",(int)done->get(),n); e->post(); quiesce(); MC_CHECK(done->get()==2,"the second post released nobody after %d rounds",n);
  MC_CHECK(!e->try_wait(),"event signalled after all posts were consumed"); like_new(*e,tk); delete e;
}
SCENARIO(mre_long_history, "C10", CFG.Steps(20000000).Fixed(), CFG.Steps(20000000).Fixed())
{
  static const int N[]={1,300,2100,66000}; MRE* e=new MRE; int n=N[choose(4)], op=choose(6), tk=choose(2)?TK_SYS:TK_FOR;
  if(op==5&&n>2100) return;
  for(int i=0;i<n;i++,mc::yield()) switch(op){
    case 0: MC_CHECK(!e->try_wait(),"try_wait succeeds on an event that is not set (round %d)",i); break;
    case 1: MC_CHECK(!timed(*e,tk,10),"timed wait succeeds on an event that is not set (round %d)",i); break;
    case 2: e->set(); MC_CHECK(e->try_wait(),"set is lost (round %d)",i); e->reset(); MC_CHECK(!e->try_wait(),"reset is lost (round %d)",i); break;
    case 3: e->set(); e->set(); e->wait(); e->reset(); e->reset(); break;
    case 4: e->set(); MC_CHECK(timed(*e,tk,10),"set is lost (round %d)",i); break;
    case 5: if(!i) spawn([=]{ for(int j=0;j<n;j++){ if(j&1) e->wait(); else MC_CHECK(timed(*e,tk,1000),"timed wait missed a set (round %d)",j); e->reset(); } }); quiesce(); e->set(); break;
  }
  if(op==5) join(1);
  if(op==4){ MC_CHECK(e->try_wait(),"event not set any more"); e->reset(); }
  MC_CHECK(!e->try_wait(),"event set after %d rounds",n);
  int64_t t0=mc::mono_now(); MC_CHECK(!timed(*e,tk,10)&&mc::mono_now()-t0==10,"timed wait does not wait until its deadline after %d rounds",n);
  Counter* done=new Counter; for(int i=0;i<2;i++) spawn([=]{ if(i) e->wait(); else timed(*e,tk,1000); done->add(1); });
  quiesce(); MC_CHECK(done->get()==0,"waits do not block after %d rounds",n); e->set(); quiesce(); MC_CHECK(done->get()==2,"set released %d of 2 threads after %d rounds",(int)done->get(),n); delete e;
}
// many blocked threads
SCENARIO(are_crowd, "C09", CFG.Fixed(), CFG.Preempt(0))
{
  int n=3+choose(4), k=choose(n+2); int mode=choose(3); int tk=choose(2)?TK_SYS:TK_FOR; ARE* e=new ARE; Counter* done=new Counter;
  for(int i=0;i<n;i++) spawn([=]{ bool r=true; if(mode==1||(mode==2&&i%2)) r=timed(*e,tk,1000); else e->wait(); MC_CHECK(r,"timed wait satisfied by a post reports a timeout"); done->add(1); });
  quiesce(); for(int i=0;i<k;i++) e->post(); quiesce(); int ex=k<n?k:n; MC_CHECK(done->get()==ex,"%d threads were blocked, %d posts were made, %d were released",n,k,(int)done->get());
  int left=0; while(left<4&&e->try_wait()) left++; MC_CHECK(left==(k>n?1:0),"%d threads were blocked, %d posts were made, afterwards %d further waits succeed",n,k,left);
  for(int i=ex;i<n;i++){ e->post(); quiesce(); MC_CHECK(done->get()==i+1,"a post made while threads are blocked released %d instead of 1",(int)done->get()-i); }
}
SCENARIO(mre_crowd, "C10", CFG.Fixed(), CFG.Preempt(0))
{
  int n=3+choose(5); int mode=choose(3); int tk=choose(2)?TK_SYS:TK_FOR; int round=1+choose(2); MRE* e=new MRE; Counter* done=new Counter;
  for(int i=0;i<n;i++) spawn([=]{ for(int j=0;j<round;j++){ bool r=true; if(mode==1||(mode==2&&i%2)) r=timed(*e,tk,1000); else e->wait(); MC_CHECK(r,"timed wait reports a timeout although the event was set"); done->add(1); mc::sleep_ns(1); } });
  for(int j=0;j<round;j++){ quiesce(); MC_CHECK(done->get()==j*n,"waits pass although the event is not set"); e->set(); quiesce(); MC_CHECK(done->get()==(j+1)*n,"%d threads were blocked, set released %d",n,(int)done->get()-j*n); e->reset(); mc::sleep_ns(1); }
}
// ---------------------------------------------------------------- deadlines
// nobody posts (or another thread takes the post): the wait returns exactly at its deadline, whatever wakes it up in between
template<class E> static void deadline(bool disturb){
  static const int64_t D[]={-3000000000LL,-1,0,1,999,1000,999999999,1000000000,1000000001,2500000000LL};
  E* e=new E; int tk=choose(TK_N); int64_t d=disturb?(choose(2)?1000000001:1000):D[choose(10)];
  int64_t m=mc::mono_now();
  if(disturb){ spawn([=]{ mc::sleep_ns(d/4); }); spawn([=]{ mc::sleep_ns(d/2); }); }
  bool r=timed(*e,tk,d); int64_t el=mc::mono_now()-m;
  MC_CHECK(!r,"timed wait (%s, %ld ns) succeeds although nobody posted",tkname(tk),(long)d);
  MC_CHECK(el>=d,"timed wait (%s) gave up after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
  MC_CHECK(el==max0(d),"timed wait (%s) slept for %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
}
SCENARIO(are_deadline, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { deadline<ARE>(false); }
SCENARIO(mre_deadline, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { deadline<MRE>(false); }
SCENARIO(are_deadline_disturbed, "C12", CFG.Faults(1,F_WAKE_C), CFG.Faults(3,F_WAKE_C)) { deadline<ARE>(true); }
SCENARIO(mre_deadline_disturbed, "C12", CFG.Faults(1,F_WAKE_C), CFG.Faults(3,F_WAKE_C)) { deadline<MRE>(true); }
SCENARIO(are_deadline_thief, "C12", CFG.Faults(1,F_WAKE_C).Preempt(3), CFG.Faults(1,F_WAKE_C).Stale(1))
{
  ARE* e=new ARE; int tk=choose(TK_N); int64_t d=1000; int n=1+choose(2); int* stolen=new int(0);
  int p=spawn([=]{ for(int i=0;i<n;i++){ mc::sleep_ns(d/4); e->post(); *stolen+=e->try_wait(); } });
  int64_t m=mc::mono_now(); bool r=timed(*e,tk,d); int64_t el=mc::mono_now()-m; join(p);
  if(r) MC_CHECK(el==d/4||el==d/2,"wait satisfied at %ld ns",(long)el); else { MC_CHECK(*stolen==n,"a post vanished"); MC_CHECK(el==d,"timed wait (%s) whose wakeups were consumed by another thread returned after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d); }
}
SCENARIO(mre_deadline_pulse, "C12", CFG.Faults(1,F_WAKE_C).Preempt(3), CFG.Faults(1,F_WAKE_C).Stale(1))
{
  MRE* e=new MRE; int tk=choose(TK_N); int64_t d=1000; int n=1+choose(2);
  int p=spawn([=]{ for(int i=0;i<n;i++){ mc::sleep_ns(d/4); e->set(); e->reset(); } });
  int64_t m=mc::mono_now(); bool r=timed(*e,tk,d); int64_t el=mc::mono_now()-m; join(p);
  if(r) MC_CHECK(el==d/4||el==d/2,"wait satisfied at %ld ns",(long)el); else MC_CHECK(el==d,"timed wait (%s) disturbed by set/reset pulses returned after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
}
// absolute deadlines on the system clock follow adjustments of that clock
template<class E> static void clock_jump(){
  static const int64_t J[]={-700,-300,100,300,700};
  E* e=new E; int64_t d=1000; int64_t j=J[choose(5)]; int tk=choose(2)?TK_SYS:TK_TIMED_SYS;
  spawn([=]{ mc::sleep_ns(500); mc::jump_real(j); });
  int64_t m=mc::mono_now(), dl=mc::real_now()+d; bool r=timed(*e,tk,d); int64_t el=mc::mono_now()-m, ex=500+max0(500-j);
  MC_CHECK(!r,"wait satisfied without a post");
  MC_CHECK(mc::real_now()>=dl,"timed wait (%s) gave up before its deadline after the clock was set by %ld ns",tkname(tk),(long)j);
  MC_CHECK(el==ex,"timed wait (%s) returned after %ld ns instead of %ld ns when the clock was set by %ld ns",tkname(tk),(long)el,(long)ex,(long)j);
}
SCENARIO(are_clock_set, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { ARE* e=new ARE; clock_set_during([=](int tk,int64_t d){ return timed(*e,tk,d); },false); }
SCENARIO(mre_clock_set, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { MRE* e=new MRE; clock_set_during([=](int tk,int64_t d){ return timed(*e,tk,d); },false); }
SCENARIO(are_clock_set_exact, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { ARE* e=new ARE; clock_set_during([=](int tk,int64_t d){ return timed(*e,tk,d); },true); }
SCENARIO(mre_clock_set_exact, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { MRE* e=new MRE; clock_set_during([=](int tk,int64_t d){ return timed(*e,tk,d); },true); }
SCENARIO(are_clock_jump, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { clock_jump<ARE>(); }
SCENARIO(mre_clock_jump, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { clock_jump<MRE>(); }
// the clock fails when a blocked thread has been woken: the signal that woke it is not lost, and no more than one stays behind
SCENARIO(clock_fail_posts, "C09,C19", CFG.Faults(1,mc::F_SPURIOUS), CFG.Faults(2,mc::F_SPURIOUS|mc::F_EINTR))
{ bs::auto_reset_event* e=new bs::auto_reset_event; int how=choose(2), posts=choose(4); ThrowClock::left()=1<<30; ThrowClock::time_point tp=ThrowClock::now()+std::chrono::nanoseconds(40); ThrowClock::left()=choose(6); bool* r=new bool(false); bool* thrown=new bool(false);
  int a=spawn([=]{ try { *r=how?e->timed_wait(tp):e->wait_until(tp); } catch(ThrowClock::failure&){ *thrown=true; } });
  if(choose(2)) quiesce(); for(int i=0;i<posts;i++) e->post(); join(a); int left=0; while(left<3&&e->try_wait()) left++;
  MC_CHECK(left<=1,"%d signals are left behind",left); MC_CHECK(left+*r<=posts,"%d posts satisfied %d waits",posts,left+(int)*r); if(posts) MC_CHECK(left+*r>=1,"the posts are lost"); if(!posts) MC_CHECK(!*r,"a wait succeeded without a post"); delete e; }
