// Scenarios for semaphore.
#include "common.h"
#include <boost/sync/semaphore.hpp>
#include <atomic>
#include <limits.h>
typedef bs::semaphore SEM;
#if defined(MC_V_gcd)   // there the constructor posts that many times
enum { MAXC=5 };
#else
enum { MAXC=6 };
#endif
static bool timed(SEM& e,int tk,int64_t d){ mc::MustReturn mr("a timed wait");
  switch(tk){ case TK_FOR: return e.wait_for(ns(d)); case TK_TIMED: return e.timed_wait(ns(d)); case TK_SYS: return e.wait_until(sys_at(d)); case TK_STEADY: return e.wait_until(std_at(d)); case TK_TIMED_SYS: return e.timed_wait(sys_at(d)); case TK_TIMED_STEADY: return e.timed_wait(std_at(d)); case TK_OWN: return e.wait_until(own_at(d)); default: return e.timed_wait(own_at(d)); }
}
enum { K_POST, K_WAIT, K_TRY, K_TIMED };
static bool rec(SEM& e,int kind,int tk=TK_FOR,int64_t d=10){
  int o=mc::op_begin(0,kind); int r=1; mc::MustReturn mr(kind==K_WAIT?0:kind==K_POST?"a signalling call":kind==K_TRY?"try_wait":"a timed wait");
  switch(kind){ case K_POST: e.post(); break; case K_WAIT: e.wait(); break; case K_TRY: r=e.try_wait(); break; default: r=timed(e,tk,d); }
  mc::op_end(o,r); return r;
}
static int64_t init_count;
static int sem_spec(int64_t* s,const mc::HOp& o,int alt){
  if(alt>0) return -1;
  switch(o.kind){ case K_POST: ++*s; return 1; case K_WAIT: if(*s>0){ --*s; return 1; } return 0; default: if(o.result){ if(*s>0){ --*s; return 1; } return 0; } return *s==0; }
}
static void sem_final(){ MC_CHECK(mc::linearizable(0,sem_spec,init_count,true),"no order of the operations explains their results: initial count %d, %s (0=post 1=wait 2=try_wait 3=timed_wait)",(int)init_count,mc::history_str()); }
static void sem_programs(int nt,int no,int maxinit){
  int n=choose(maxinit+1); init_count=n; SEM* e=new SEM(n); mc::on_final(sem_final); mc::keep_stuck_ok(true); int tk=choose(2)?TK_SYS:TK_FOR;
  programs(nt,no,4,[=](int k){ rec(*e,k,tk); });
}
SCENARIO(sem_programs_2x2, "C08", CFG.Faults(1,F_WAKE_C).Early(1).Preempt(3).Shards(4), CFG.Faults(2,F_WAKE_C).Early(1).Shards(16)) { sem_programs(2,2,1); }
SCENARIO(sem_programs_3x1, "C08", CFG.Faults(1,F_WAKE_C).Early(1).Preempt(3), CFG.Faults(2,F_WAKE_C).Early(1).Shards(4)) { sem_programs(3,1,1); }
SCENARIO(sem_programs_3x2, "C08", CFG.Preempt(2).Shards(8), CFG.Preempt(2).Shards(16)) { sem_programs(3,2,1); }
SCENARIO(sem_programs_2x3, "C08", CFG.Preempt(3).Shards(8), CFG.Faults(1,F_WAKE_C).Preempt(3).Shards(32)) { sem_programs(2,3,2); }
SCENARIO(sem_programs_4x1, "C08", CFG.Preempt(3).Shards(4), CFG.Faults(1,F_WAKE_C).Preempt(4).Shards(4)) { sem_programs(4,1,1); }

// n blocked threads, k posts: exactly min(n,k) are released, the rest of the count is left
static void sem_blocked(int maxn,int maxk){
  int n=1+choose(maxn), k=1+choose(maxk); int tm=choose(1<<n); int tk=choose(2)?TK_SYS:TK_FOR;
  SEM* e=new SEM; Counter* done=new Counter; Counter* ok=new Counter;
  for(int i=0;i<n;i++) spawn([=]{ bool r=true; if(tm>>i&1) r=timed(*e,tk,1000); else e->wait(); if(r) ok->add(1); done->add(1); });
  quiesce();
  MC_CHECK(!done->get(),"a wait on a semaphore with count 0 returned");
  for(int i=1;i<k;i++) spawn([=]{ e->post(); });
  e->post(); quiesce();
  MC_CHECK(ok->get()==(n<k?n:k)&&done->get()==ok->get(),"%d threads were blocked, %d posts were made, %d waits returned, %d of them successfully",n,k,(int)done->get(),(int)ok->get());
  int left=0; while(left<4&&e->try_wait()) left++;
  MC_CHECK(left==(k>n?k-n:0),"%d threads were blocked, %d posts were made, afterwards %d further waits succeed",n,k,left);
  mc::keep_stuck_ok(true);
}
SCENARIO(sem_blocked_waiters, "C08", CFG.Faults(1,F_WAKE_C).Preempt(2), CFG.Faults(2,F_WAKE_C).Preempt(4)) { sem_blocked(2,2); }
SCENARIO(sem_blocked_waiters_3, "C08", CFG.Preempt(2), CFG.Preempt(3)) { sem_blocked(3,3); }
// timed wait expiring while a post arrives
SCENARIO(sem_timeout_vs_post, "C08,C12", CFG.Faults(1,F_WAKE_C).Early(1), CFG.Faults(3,F_WAKE_C).Early(2))
{
  SEM* e=new SEM; int tk=choose(TK_N); int np=1+choose(2); int at=5*choose(3);
  int p=spawn([=]{ if(at) mc::sleep_ns(at); e->post(); if(np==2) e->post(); });
  int64_t t0=mc::mono_now(); bool r=timed(*e,tk,10); int64_t el=mc::mono_now()-t0;
  MC_CHECK_P("C12",r||el>=10,"timed wait (%s) gave up after %ld of 10 ns",tkname(tk),(long)el);
  join(p); int left=0; while(left<4&&e->try_wait()) left++;
  MC_CHECK_P("C08",left+r==np,"%d posts, but %d waits succeeded",np,left+r);
  delete e;
}
// two timed waiters, a thief and posts at the deadline: the units add up
SCENARIO(sem_conserve, "C08", CFG.Faults(1,F_WAKE_C).Early(1).Preempt(2), CFG.Faults(1,F_WAKE_C).Early(1).Preempt(4))
{
  SEM* e=new SEM(choose(2)); int init=0; init=e->try_wait(); if(init) e->post(); int tk=choose(2)?TK_SYS:TK_FOR; Counter* got=new Counter;
  int w1=spawn([=]{ if(timed(*e,tk,10)) got->add(1); }), w2=spawn([=]{ if(choose(2)?timed(*e,tk,10):e->try_wait()) got->add(1); });
  mc::sleep_ns(10); e->post();
  join(w1); join(w2); int left=0; while(left<4&&e->try_wait()) left++;
  MC_CHECK(left+got->get()==1+init,"%d units, but %d waits succeeded",1+init,(int)(left+got->get()));
  delete e;
}
// all sequential programs of length 6, initial counts at the borders
SCENARIO(sem_sequential, "C08", CFG.Faults(1,mc::F_EINTR), CFG.Faults(2,mc::F_EINTR))
{
  static const unsigned C[]={0,1,2,INT_MAX-1u}; unsigned c=C[choose(MAXC-2)]; SEM e(c); long n=c;
  for(int i=0;i<4;i++) switch(choose(4)){
    case 0: if(n<INT_MAX){ e.post(); n++; } break;
    case 1: { bool r=e.try_wait(); MC_CHECK(r==(n>0),"try_wait gives %d with count %ld",r,n); n-=r; break; }
    case 2: if(n>0){ e.wait(); n--; } break;
    case 3: { int64_t t0=mc::mono_now(); bool r=timed(e,TK_FOR,7); MC_CHECK(r==(n>0),"timed wait gives %d with count %ld",r,n); MC_CHECK(mc::mono_now()-t0==(r?0:7),"wrong blocking time"); n-=r; }
  }
  if(n<10){ for(;n>0;n--) MC_CHECK(e.try_wait(),"units lost"); MC_CHECK(!e.try_wait(),"units created"); }
}
// a unit in the semaphore satisfies every kind of wait, even with an expired deadline
SCENARIO(sem_expired_deadline, "C08", CFG, CFG)
{
  static const int64_t D[]={-3000000000LL,-1,0,1,1000000001}; SEM e(1); int tk=choose(TK_N); int64_t d=D[choose(5)];
  MC_CHECK(timed(e,tk,d),"timed wait (%s, %ld ns) fails although the count was 1",tkname(tk),(long)d); MC_CHECK(!e.try_wait(),"unit not consumed");
}
SCENARIO(sem_prompt, "C08", CFG.Faults(1,F_WAKE_C), CFG.Faults(2,F_WAKE_C))
{ // a timed wait is satisfied at once by a post that is made before its deadline
  SEM* e=new SEM; int at=choose(3)*5, tk=choose(TK_N), nw=1+choose(2); Counter* ok=new Counter;
  spawn([=]{ if(at) mc::sleep_ns(at); for(int i=0;i<nw;i++) e->post(); });
  for(int i=0;i<nw;i++){ auto w=[=]{ int64_t t0=mc::mono_now(); bool r=timed(*e,tk,1000); int64_t el=mc::mono_now()-t0; MC_CHECK(r&&el<=at,"the semaphore was posted after %d ns, but the timed wait (%s) returned %d after %ld ns",at,tkname(tk),r,(long)el); ok->add(1); }; if(i+1<nw) spawn(w); else w(); }
  for(int i=1;i<=nw;i++) join(i); MC_CHECK(!e->try_wait(),"units created"); delete e;
}
// all sequences of operations of one thread, against a counter; afterwards waits block and are released as on a new semaphore
SCENARIO(sem_sequences, "C08", CFG.Fixed(), CFG.Fixed())
{
  int n=choose(3), tk=choose(TK_N), len=mc::thorough()?6:4; SEM* e=new SEM(n); static const int64_t D[]={-10,0,10};
  for(int i=0;i<len;i++){ int op=choose(6); int64_t t0=mc::mono_now(), ex=0;
    if(op==0){ e->post(); n++; }
    else if(op==1){ bool r=e->try_wait(); MC_CHECK(r==(n>0),"step %d: try_wait gives %d, the count is %d",i,r,n); n-=r; }
    else if(op==2){ if(!n) continue; e->wait(); n--; }
    else { int64_t d=D[op-3]; bool r=timed(*e,tk,d); MC_CHECK(r==(n>0),"step %d: timed wait (%s, %ld ns) gives %d, the count is %d",i,tkname(tk),(long)d,r,n); if(!n) ex=max0(d); n-=r; }
    MC_CHECK(mc::mono_now()-t0==ex,"step %d: the operation took %ld ns",i,(long)(mc::mono_now()-t0)); }
  for(;n>0;n--) MC_CHECK(e->try_wait(),"units are lost"); MC_CHECK(!e->try_wait(),"units are created");
  int order=choose(2); Counter* done=new Counter; for(int i=0;i<2;i++) spawn([=]{ bool r=true; if(i==order) e->wait(); else r=timed(*e,tk,1000); MC_CHECK(r,"a timed wait missed the post"); done->add(1); });
  quiesce(); MC_CHECK(done->get()==0,"a wait does not block"); e->post(); quiesce(); MC_CHECK(done->get()==1,"2 threads were blocked, one post released %d",(int)done->get()); e->post(); quiesce(); MC_CHECK(done->get()==2,"the second post released nobody"); MC_CHECK(!e->try_wait(),"units are created"); delete e;
}
// large counts, long histories
SCENARIO(sem_long_history, "C08", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000))
{
  static const int N[]={1,300,2100,66000}; static const unsigned C[]={0,1,255,65535,70000,INT_MAX-70000u}; int n=N[choose(4)], op=choose(6), tk=choose(2)?TK_SYS:TK_FOR; unsigned init=C[choose(MAXC)]; SEM* e=new SEM(init); long c=init;
  if((op==0||op==1)&&init>70000) return;
  if(op<2&&init) for(;c>0;c--){ MC_CHECK(e->try_wait(),"units are missing: initial count %u, %ld left",init,c); mc::yield(); }
  for(int i=0;i<n;i++,mc::yield()) switch(op){
    case 0: MC_CHECK(!e->try_wait(),"try_wait succeeds with count 0 (round %d)",i); break;
    case 1: MC_CHECK(!timed(*e,tk,i&1?10:-10),"timed wait succeeds with count 0 (round %d)",i); break;
    case 2: e->post(); c++; break;
    case 3: e->post(); MC_CHECK(e->try_wait(),"unit lost (round %d)",i); break;
    case 4: e->post(); if(i&1) e->wait(); else MC_CHECK(timed(*e,tk,10),"unit lost (round %d)",i); break;
    case 5: if(c>0){ if(i&1) e->wait(); else MC_CHECK(e->try_wait(),"unit lost (round %d)",i); c--; } break;
  }
  if(c<=140000){ for(;c>0;c--){ MC_CHECK(e->try_wait(),"units lost, %ld should be left",c); mc::yield(); } MC_CHECK(!e->try_wait(),"units created"); 
    Counter* done=new Counter; for(int i=0;i<2;i++) spawn([=]{ if(i) e->wait(); else timed(*e,tk,1000); done->add(1); });
    quiesce(); MC_CHECK(done->get()==0,"waits do not block"); e->post(); quiesce(); MC_CHECK(done->get()==1,"one post released %d threads",(int)done->get()); e->post(); quiesce(); MC_CHECK(done->get()==2,"the second post released nobody"); MC_CHECK(!e->try_wait(),"units created"); }
  delete e;
}
SCENARIO(sem_crowd, "C08", CFG.Fixed(), CFG.Preempt(0))
{
  int n=3+choose(5), k=choose(n+3), mode=choose(3), tk=choose(2)?TK_SYS:TK_FOR; SEM* e=new SEM; Counter* done=new Counter;
  for(int i=0;i<n;i++) spawn([=]{ bool r=true; if(mode==1||(mode==2&&i%2)) r=timed(*e,tk,1000); else e->wait(); MC_CHECK(r,"timed wait satisfied by a post reports a timeout"); done->add(1); });
  quiesce(); for(int i=0;i<k;i++) e->post(); quiesce(); int ex=k<n?k:n; MC_CHECK(done->get()==ex,"%d threads were blocked, %d posts were made, %d were released",n,k,(int)done->get());
  int left=0; while(left<9&&e->try_wait()) left++; MC_CHECK(left==k-ex,"%d threads were blocked, %d posts were made, afterwards %d further waits succeed",n,k,left);
  for(int i=ex;i<n;i++){ e->post(); quiesce(); MC_CHECK(done->get()==i+1,"a post made while threads are blocked released %d instead of 1",(int)done->get()-i); }
}
// publication
SCENARIO(sem_publish, "C11", CFG.Stale(2).Faults(1,F_WAKE_C).Early(1), CFG.Stale(3).Faults(2,F_WAKE_C).Early(2))
{
  SEM* e=new SEM; int* data=new int(0); int kind=K_WAIT+choose(3); int tk=kind==K_TIMED?choose(TK_N):0; int d=choose(2)*10;
  spawn([=]{ *data=1; if(d) mc::sleep_ns(d); e->post(); });
  bool r=true; if(kind==K_WAIT) e->wait(); else if(kind==K_TRY) r=e->try_wait(); else r=timed(*e,tk,10);
  if(r) MC_CHECK(*data==1,"a wait was satisfied but the poster's write is not visible");
}
SCENARIO(sem_chain, "C11", CFG.Stale(1).Faults(1,F_WAKE_C).Preempt(3), CFG.Stale(2).Faults(2,F_WAKE_C))
{
  SEM* e=new SEM; SEM* f=new SEM; int* data=new int(0); int kind=choose(2);
  spawn([=]{ *data=1; e->post(); });
  spawn([=]{ if(kind) e->wait(); else timed(*e,TK_FOR,1000000); ++*data; f->post(); });
  f->wait(); MC_CHECK(*data==2,"transitive publication failed: %d",*data);
}
// a bounded buffer: the classic use of two semaphores; slots are plain memory
SCENARIO(sem_buffer, "C11,C08", CFG.Faults(1,F_WAKE_C).Preempt(2), CFG.Faults(1,F_WAKE_C).Preempt(4))
{
  struct B { SEM items, space; int slot[2]; B():items(0),space(2){ slot[0]=slot[1]=0; } }; B* b=new B; int k=choose(2);
  int p=spawn([=]{ for(int i=0;i<3;i++){ b->space.wait(); b->slot[i&1]=i+1; b->items.post(); } });
  for(int i=0;i<3;i++){ if(k) b->items.wait(); else while(!timed(b->items,TK_FOR,1000000)); MC_CHECK(b->slot[i&1]==i+1,"item %d lost",i); b->space.post(); }
  join(p); delete b;
}
// destruction
SCENARIO(sem_destroy, "C20", CFG.Stale(1).Faults(1,F_WAKE_C), CFG.Stale(2).Faults(2,F_WAKE_C).Early(1))
{
  SEM* e=new SEM; int kind=choose(3); int tk=kind==2?choose(TK_N):0;
  int p=spawn([=]{ e->post(); });
  if(kind==0) e->wait(); else if(kind==1){ while(!e->try_wait()); } else while(!timed(*e,tk,1000));
  delete e; char* o=new char[64]; o[0]=1;
  join(p); MC_CHECK(mc::live_sync_objects()==0,"system objects leaked");
}
SCENARIO(sem_destroy_2, "C20", CFG.Faults(1,F_WAKE_C).Preempt(3), CFG.Stale(1).Faults(1,F_WAKE_C))
{ // two posters, the waiter destroys after two waits
  SEM* e=new SEM; int k=choose(2);
  for(int i=0;i<2;i++) spawn([=]{ e->post(); });
  for(int i=0;i<2;i++) if(k) e->wait(); else while(!timed(*e,TK_FOR,1000));
  delete e;
}
// deadlines
static void deadline(bool disturb){
  static const int64_t D[]={-3000000000LL,-1,0,1,999,1000,999999999,1000000000,1000000001,2500000000LL};
  SEM* e=new SEM; int tk=choose(TK_N); int64_t d=disturb?(choose(2)?1000000001:1000):D[choose(10)];
  int64_t m=mc::mono_now(); if(disturb){ spawn([=]{ mc::sleep_ns(d/4); }); spawn([=]{ mc::sleep_ns(d/2); }); }
  bool r=timed(*e,tk,d); int64_t el=mc::mono_now()-m;
  MC_CHECK(!r,"timed wait (%s, %ld ns) succeeds although nobody posted",tkname(tk),(long)d);
  MC_CHECK(el>=d,"timed wait (%s) gave up after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
  MC_CHECK(el==max0(d),"timed wait (%s) slept for %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d);
}
SCENARIO(sem_deadline, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { deadline(false); }
SCENARIO(sem_deadline_disturbed, "C12", CFG.Faults(1,F_WAKE_C), CFG.Faults(3,F_WAKE_C)) { deadline(true); }
SCENARIO(sem_deadline_thief, "C12", CFG.Faults(1,F_WAKE_C).Preempt(3), CFG.Faults(2,F_WAKE_C))
{
  SEM* e=new SEM; int tk=choose(TK_N); int64_t d=1000; int n=1+choose(2); int* stolen=new int(0);
  int p=spawn([=]{ for(int i=0;i<n;i++){ mc::sleep_ns(d/4); e->post(); *stolen+=e->try_wait(); } });
  int64_t m=mc::mono_now(); bool r=timed(*e,tk,d); int64_t el=mc::mono_now()-m; join(p);
  if(r) MC_CHECK(el==d/4||el==d/2,"wait satisfied at %ld ns",(long)el); else { MC_CHECK(*stolen==n,"a post vanished"); MC_CHECK(el==d,"timed wait (%s) whose wakeups were consumed by another thread returned after %ld ns, the timeout was %ld ns",tkname(tk),(long)el,(long)d); }
}
SCENARIO(sem_clock_set, "C12", CFG, CFG.Faults(1,F_WAKE_C)) { SEM* e=new SEM; clock_set_during([=](int tk,int64_t d){ return timed(*e,tk,d); },false); }
SCENARIO(sem_clock_set_exact, "C12", CFG, CFG) { SEM* e=new SEM; clock_set_during([=](int tk,int64_t d){ return timed(*e,tk,d); },true); }
SCENARIO(sem_clock_jump, "C12", CFG, CFG.Faults(1,F_WAKE_C))
{
  static const int64_t J[]={-700,-300,100,300,700};
  SEM* e=new SEM; int64_t d=1000; int64_t j=J[choose(5)]; int tk=choose(2)?TK_SYS:TK_TIMED_SYS;
  spawn([=]{ mc::sleep_ns(500); mc::jump_real(j); });
  int64_t m=mc::mono_now(), dl=mc::real_now()+d; bool r=timed(*e,tk,d); int64_t el=mc::mono_now()-m, ex=500+max0(500-j);
  MC_CHECK(!r,"wait satisfied without a post");
  MC_CHECK(mc::real_now()>=dl,"timed wait (%s) gave up before its deadline after the clock was set by %ld ns",tkname(tk),(long)j);
  MC_CHECK(el==ex,"timed wait (%s) returned after %ld ns instead of %ld ns when the clock was set by %ld ns",tkname(tk),(long)el,(long)ex,(long)j);
}
SCENARIO(clock_fail_sem, "C08,C19", CFG.Faults(1,mc::F_SPURIOUS|mc::F_EINTR), CFG.Faults(2,mc::F_SPURIOUS|mc::F_EINTR))
{ bs::semaphore* e=new bs::semaphore; int how=choose(2), posts=choose(4); ThrowClock::left()=1<<30; ThrowClock::time_point tp=ThrowClock::now()+std::chrono::nanoseconds(40); ThrowClock::left()=choose(6); bool* r=new bool(false);
  int a=spawn([=]{ try { *r=how?e->timed_wait(tp):e->wait_until(tp); } catch(ThrowClock::failure&){} });
  if(choose(2)) quiesce(); for(int i=0;i<posts;i++) e->post(); join(a); int left=0; while(left<5&&e->try_wait()) left++; MC_CHECK(left+*r==posts,"%d posts satisfied %d waits",posts,left+(int)*r); delete e; }
