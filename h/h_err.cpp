// Failures of the operating system, injected at every call in turn.
#include "common.h"
#include <boost/sync/semaphore.hpp>
#include <boost/sync/events.hpp>
#include <boost/sync/mutexes.hpp>
#include <boost/sync/locks.hpp>
#include <boost/sync/condition_variables.hpp>
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/sync/exceptions/wait_error.hpp>
#include <boost/sync/exceptions/resource_error.hpp>
#include <boost/sync/exceptions/overflow_error.hpp>
#include <errno.h>
enum Kind { NONE, LOCK_E, WAIT_E, RES_E, OVER_E, NOMEM_E, OTHER_E };
static const char* kn(int k){ static const char* n[]={"nothing","lock_error","wait_error","resource_error","overflow_error","bad_alloc","something else"}; return n[k]; }
struct Out { int kind, code; };
// the error of an exception, which has several ways to be asked for
#if defined(BOOST_SYNC_USE_STD_SYSTEM_ERROR)
static const std::error_category& syscat(){ return std::system_category(); } typedef std::system_error SysErr;
#else
static const boost::system::error_category& syscat(){ return boost::system::system_category(); } typedef boost::system::system_error SysErr;
#endif
template<class E> int code_of(E const& e){
  const bs::runtime_exception& r=e; const SysErr& s=e; int c=e.code().value(); MC_CHECK(r.native_error()==c&&s.code()==e.code(),"native_error() gives %d, code() gives %d",r.native_error(),c); MC_CHECK(e.code().category()==syscat(),"an error of the system in another category"); return c; }
template<class F> Out attempt(F f){
  Out o={NONE,0};
  try { f(); }
  catch(bs::lock_error& e){ o.kind=LOCK_E; o.code=code_of(e); } catch(bs::wait_error& e){ o.kind=WAIT_E; o.code=code_of(e); } catch(bs::resource_error& e){ o.kind=RES_E; o.code=code_of(e); }
  catch(bs::overflow_error& e){ o.kind=OVER_E; o.code=code_of(e); } catch(std::bad_alloc&){ o.kind=NOMEM_E; o.code=ENOMEM; } catch(...){ o.kind=OTHER_E; }
  return o;
}
// runs f with failures of call c possible; the outcome has to match what was injected
template<class F> bool faulty(const char* what,mc::Call c,int err,int kind,F f){
  mc::injected(); mc::inject(c,err); Out o=attempt(f); mc::inject_clear(); int n=mc::injected();
  if(n) MC_CHECK(o.kind==kind&&o.code==err,"%s: a system call failed with error %d, which was reported as %s (error %d) instead of %s",what,err,kn(o.kind),o.code,kn(kind));
  else MC_CHECK(o.kind==NONE,"%s: threw %s (error %d) although nothing failed",what,kn(o.kind),o.code);
  return n!=0;
}
template<class F> bool starved(const char* what,F f){
  mc::injected(); mc::nomem(true); Out o=attempt(f); mc::nomem(false); int n=mc::injected();
  if(n) MC_CHECK(o.kind==NOMEM_E,"%s: an allocation failed, which was reported as %s (error %d) instead of bad_alloc",what,kn(o.kind),o.code);
  else MC_CHECK(o.kind==NONE,"%s: threw %s (error %d) although nothing failed",what,kn(o.kind),o.code);
  return n!=0;
}
struct Leak { long b,s; Leak():b(mc::live_blocks()),s(mc::live_sync_objects()){} void check(const char* what){ long b2=mc::live_blocks(),s2=mc::live_sync_objects(); MC_CHECK(b2==b,"%s: %ld memory blocks leaked",what,b2-b); MC_CHECK(s2==s,"%s: %ld system objects leaked",what,s2-s); } };
#define FA Faults(1,mc::F_ERR|mc::F_NOMEM)

// ---- constructors ----
template<class T> void construct(const char* what){
  static const mc::Call c[]={mc::CALL_MUTEX_INIT,mc::CALL_COND_INIT,mc::CALL_SEM_INIT}; static const int e[]={ENOMEM,EAGAIN,EINVAL,ENOSPC,EPERM};
  int k=choose(4), err=k<3?e[choose(5)]:0; Leak l;
  bool failed = k<3 ? faulty(what,c[k],err,RES_E,[]{ T x; (void)x; }) : starved(what,[]{ T x; (void)x; });
  l.check(what); (void)failed;
}
SCENARIO(exceptions, "C19", CFG, CFG)
{
  int c=choose(4);
  for(int e=0;e<140;e++){ Out o=attempt([=]{ switch(c){ case 0: throw bs::lock_error(e,"x"); case 1: throw bs::wait_error(e,"x"); case 2: throw bs::resource_error(e,"x"); default: throw bs::overflow_error(e,"x"); } }); MC_CHECK(o.kind==LOCK_E+c&&o.code==e,"an exception made with error %d is %s with error %d",e,kn(o.kind),o.code); }
}
SCENARIO(construct_fails, "C19,C20", CFG.FA, CFG.FA)
{ switch(choose(7)){ case 0: construct<bs::mutex>("mutex constructor"); break; case 1: construct<bs::timed_mutex>("timed_mutex constructor"); break; case 2: construct<bs::semaphore>("semaphore constructor"); break; case 3: construct<bs::auto_reset_event>("auto_reset_event constructor"); break; case 4: construct<bs::manual_reset_event>("manual_reset_event constructor"); break; case 5: construct<bs::condition_variable>("condition_variable constructor"); break; default: construct<bs::condition_variable_any>("condition_variable_any constructor"); } }

// ---- locking ----
enum { L_LOCK, L_TRY, L_FOR, L_UNTIL, L_STEADY, L_TIMED, L_NT };
template<class M> struct Ops { static bool go(M& m,int op){ if(op==L_LOCK){ m.lock(); return true; } return m.try_lock(); } enum { n=2 }; };
template<> struct Ops<bs::timed_mutex> { typedef bs::timed_mutex M; static bool go(M& m,int op){ switch(op){ case L_LOCK: m.lock(); return true; case L_TRY: return m.try_lock(); case L_FOR: return m.try_lock_for(ns(10)); case L_UNTIL: return m.try_lock_until(sys_at(10)); case L_STEADY: return m.try_lock_until(std_at(10)); default: return m.timed_lock(ns(10)); } } enum { n=6 }; };
template<class M> struct Ops<bs::unique_lock<M> > { typedef bs::unique_lock<M> L; static bool go(L& l,int op){ return Ops<M>::n>2?timed(l,op):(op==L_LOCK?(l.lock(),true):l.try_lock()); } template<class LL> static bool timed(LL& l,int op){ switch(op){ case L_LOCK: l.lock(); return true; default: return l.try_lock(); } } enum { n=2 }; };
template<class M> bool is_free(M* m){ bool r=false; join(spawn([&]{ r=m->try_lock(); if(r) m->unlock(); })); return r; }
// err: only codes that POSIX allows the call to fail with. held: another thread owns the mutex
template<class M,bool VIA_LOCK> void locking(const char* what){
  M* m=new M; int op=choose(Ops<M>::n); bool held=choose(2); static const mc::Call c[]={mc::CALL_MUTEX_LOCK,mc::CALL_MUTEX_TRYLOCK,mc::CALL_MUTEX_TIMEDLOCK,mc::CALL_COND_TIMEDWAIT}; static const int e[]={EINVAL,EAGAIN,EDEADLK,EOWNERDEAD};
  mc::Call k=c[choose(4)]; int err=e[choose(4)];
#if defined(MC_NO_POSIX_EXT)
  if(sizeof(M)!=sizeof(bs::mutex)&&k!=mc::CALL_COND_TIMEDWAIT) return;   // the emulated timed_mutex relies on its own mutex
#endif
  if(held&&op==L_LOCK) return;
  mc::Flag* go=new mc::Flag; mc::Flag* got=new mc::Flag; int h=-1; if(held){ h=spawn([=]{ m->lock(); got->set(); go->await(); m->unlock(); }); got->await(); }
  bool r=false, failed, owns=false;
  if(VIA_LOCK){ bs::unique_lock<M> l(*m,bs::defer_lock); failed=faulty(what,k,err,LOCK_E,[&]{ r=op==L_LOCK?(l.lock(),true):l.try_lock(); }); owns=l.owns_lock(); if(failed) MC_CHECK(!owns,"%s: the lock object claims to own the mutex after the failure",what); if(owns) l.unlock(); }
  else { failed=faulty(what,k,err,LOCK_E,[&]{ r=Ops<M>::go(*m,op); }); owns=r; if(owns) m->unlock(); }
  if(!failed) MC_CHECK(r==!held,"%s: wrong result %d",what,r); else MC_CHECK(!r,"%s: a failure was reported as success",what);
  if(held){ MC_CHECK(!is_free(m),"%s: the failure released the mutex of another thread",what); go->set(); join(h); }
  MC_CHECK(is_free(m),"%s: the mutex stays locked after the failure",what); delete m;
}
SCENARIO(lock_fails, "C19,C02", CFG.FA, CFG.FA) { switch(choose(4)){ case 0: locking<bs::mutex,false>("mutex"); break; case 1: locking<bs::timed_mutex,false>("timed_mutex"); break; case 2: locking<bs::mutex,true>("unique_lock<mutex>"); break; default: locking<bs::timed_mutex,true>("unique_lock<timed_mutex>"); } }
SCENARIO(guard_fails, "C19,C18", CFG.FA, CFG.FA)
{ bs::mutex m; int err=choose(2)?EDEADLK:EAGAIN; bool entered=false; bool f;
  if(choose(2)) f=faulty("lock_guard",mc::CALL_MUTEX_LOCK,err,LOCK_E,[&]{ bs::lock_guard<bs::mutex> g(m); entered=true; });
  else f=faulty("unique_lock constructor",mc::CALL_MUTEX_LOCK,err,LOCK_E,[&]{ bs::unique_lock<bs::mutex> g(m); entered=true; });
  MC_CHECK(entered==!f,"the guarded scope was %s",entered?"entered without the lock":"not entered"); MC_CHECK(is_free(&m),"the mutex stays locked"); }

// ---- condition variables ----
static bool pred_false(){ return false; }
enum { W_WAIT, W_FOR, W_UNTIL, W_STEADY, W_TIMED, W_PRED, W_PRED_FOR, W_PRED_STEADY, W_N };
template<class CV,class L> void cv_go(CV& c,L& l,int op){
  switch(op){ case W_WAIT: c.wait(l); break; case W_FOR: c.wait_for(l,ns(10)); break; case W_UNTIL: c.wait_until(l,sys_at(10)); break; case W_STEADY: c.wait_until(l,std_at(10)); break; case W_TIMED: c.timed_wait(l,ns(10)); break; case W_PRED: { int n=0; c.wait(l,[&]{ return n++>0; }); break; } case W_PRED_FOR: c.wait_for(l,ns(10),pred_false); break; default: c.wait_until(l,std_at(10),pred_false); } }
template<class CV,class M> void cv_fails(const char* what,bool any){
  CV* c=new CV; M* m=new M; int op=choose(W_N); static const mc::Call k[]={mc::CALL_COND_WAIT,mc::CALL_COND_TIMEDWAIT,mc::CALL_MUTEX_LOCK}; static const int e[]={EINVAL,EPERM,EAGAIN}; int kk=choose(any?3:2), err=e[choose(3)];
  int n=op==W_WAIT||op==W_PRED? spawn([=]{ mc::sleep_ns(5); bs::lock_guard<M> g(*m); mc::inject_clear(); c->notify_all(); }) : -1;
  { bs::unique_lock<M> l(*m); bool f=faulty(what,k[kk],err,kk==2?LOCK_E:WAIT_E,[&]{ cv_go(*c,l,op); });
    MC_CHECK(l.owns_lock(),"%s: the lock was lost by a failing wait",what); MC_CHECK(!is_free(m),"%s: a wait returned without the mutex locked (%d)",what,(int)f); }
  if(n>=0) join(n);
  MC_CHECK(is_free(m),"%s: the mutex stays locked",what);
  // still usable
  int w=spawn([=]{ bs::unique_lock<M> l(*m); bool r=c->wait_for(l,ns(1000))==bs::cv_status::no_timeout; MC_CHECK(r,"%s: not usable after the failure",what); });
  mc::sleep_ns(10); { bs::lock_guard<M> g(*m); c->notify_one(); } join(w); Leak(); delete c; delete m;
}
SCENARIO(cv_wait_fails, "C19,C04", CFG.FA, CFG.FA) { cv_fails<bs::condition_variable,bs::mutex>("condition_variable",false); }
SCENARIO(cv_any_wait_fails, "C19,C05", CFG.FA, CFG.FA) { cv_fails<bs::condition_variable_any,bs::spin_mutex>("condition_variable_any",true); }
SCENARIO(cv_any_notify_fails, "C19", CFG.FA, CFG.FA)
{ bs::condition_variable_any* c=new bs::condition_variable_any; bs::spin_mutex* m=new bs::spin_mutex; int w=spawn([=]{ bs::unique_lock<bs::spin_mutex> l(*m); c->wait(l); }); quiesce();
  bool all=choose(2); bool f=faulty("condition_variable_any notification",mc::CALL_MUTEX_LOCK,EAGAIN,LOCK_E,[&]{ if(all) c->notify_all(); else c->notify_one(); });
  if(f) c->notify_all(); join(w); delete c; delete m; }

// ---- semaphores and events ----
SCENARIO(sem_overflow, "C19,C08", CFG.SemMax(3).FA, CFG.SemMax(3).FA)
{
#if !defined(MC_NO_POSIX_EXT)
  unsigned i=choose(5); bs::semaphore* s=0; Leak l; Out o=attempt([&]{ s=new bs::semaphore(i); });
  if(i>3){ MC_CHECK(o.kind==RES_E&&o.code==EINVAL,"a semaphore with too large a count gives %s (error %d)",kn(o.kind),o.code); l.check("semaphore constructor"); return; }
  MC_CHECK(o.kind==NONE,"a semaphore with count %u gives %s",i,kn(o.kind));
  for(int k=0;k<5;k++){ if(choose(2)){ Out p=attempt([&]{ s->post(); }); if(i<3){ MC_CHECK(p.kind==NONE,"post with count %u gives %s",i,kn(p.kind)); i++; } else MC_CHECK(p.kind==OVER_E&&p.code==EOVERFLOW,"a post that exceeds the maximal count gives %s (error %d)",kn(p.kind),p.code); }
    else { bool r=s->try_wait(); MC_CHECK(r==(i>0),"try_wait gives %d with count %u",r,i); i-=r; } }
  for(;i>0;i--) MC_CHECK(s->try_wait(),"units lost"); MC_CHECK(!s->try_wait(),"units created"); delete s; l.check("semaphore");
#endif
}
// a failing post leaves the count unchanged while others wait and post
SCENARIO(sem_post_fails, "C19,C08", CFG.FA, CFG.FA)
{
#if !defined(MC_NO_POSIX_EXT)
  bs::semaphore* s=new bs::semaphore; bool r1=false,r2=false; int a=spawn([&]{ bool f=faulty("post",mc::CALL_SEM_POST,EOVERFLOW,OVER_E,[=]{ s->post(); }); r1=!f; }); int b=spawn([&]{ r2=s->wait_for(ns(100)); }); join(a); join(b);
  int left=s->try_wait(); MC_CHECK(left+r2==r1,"%d posts succeeded, %d waits did",(int)r1,left+r2); delete s;
#endif
}
#if defined(MC_NO_POSIX_EXT)
// emulated primitives: the mutex or the wait on the condition variable fails
template<class E> struct EOps { static void post(E& e){ e.post(); } };
template<> struct EOps<bs::manual_reset_event> { static void post(bs::manual_reset_event& e){ e.set(); } };
template<class E> void emulated(const char* what,bool consumes){
  E* e=new E; int op=choose(5); bool set=choose(2); if(set) EOps<E>::post(*e); if(op==1&&!set) return; static const mc::Call k[]={mc::CALL_MUTEX_LOCK,mc::CALL_COND_WAIT,mc::CALL_COND_TIMEDWAIT}; int kk=choose(3); bool r=false;
  bool f=faulty(what,k[kk],EAGAIN,kk==0?LOCK_E:WAIT_E,[&]{ switch(op){ case 0: EOps<E>::post(*e); break; case 1: e->wait(); r=true; break; case 2: r=e->try_wait(); break; case 3: r=e->wait_for(ns(10)); break; default: r=e->wait_until(std_at(10)); } });
  MC_CHECK(!f||!r,"%s: a failure was reported as success",what); bool now=set; if(!f){ if(op==0) now=true; else { MC_CHECK(r==set,"%s: wrong result",what); if(r&&consumes) now=false; } }
  bool t=e->try_wait(); MC_CHECK(t==now,"%s: after operation %d (failed: %d) the state is %d instead of %d",what,op,(int)f,(int)t,(int)now);
  // and with a blocked thread
  if(!t||consumes){ while(e->try_wait()){} int w=spawn([=]{ MC_CHECK(e->wait_for(ns(100)),"%s: not usable after the failure",what); }); quiesce(); EOps<E>::post(*e); join(w); } delete e;
}
SCENARIO(emulated_fails, "C19", CFG.FA, CFG.FA) { switch(choose(3)){ case 0: emulated<bs::semaphore>("semaphore",true); break; case 1: emulated<bs::auto_reset_event>("auto_reset_event",true); break; default: emulated<bs::manual_reset_event>("manual_reset_event",false); } }
// a wait fails while another thread waits and posts arrive: no post is lost
SCENARIO(emulated_are_wait_fails, "C19,C09", CFG.FA.Preempt(3), CFG.FA)
{ bs::auto_reset_event* e=new bs::auto_reset_event; Counter* got=new Counter; int a=spawn([=]{ mc::inject(mc::CALL_COND_WAIT,EAGAIN); try { e->wait(); got->add(1); } catch(bs::wait_error&){} mc::inject_clear(); }); int b=spawn([=]{ if(e->wait_for(ns(1000))) got->add(1); });
  quiesce(); e->post(); quiesce(); e->post(); join(a); join(b); int left=0; while(left<3&&e->try_wait()) left++; int total=left+(int)got->get(); MC_CHECK(total==2,"2 posts, one at a time: %d waits succeeded, %d signals are left",(int)got->get(),left); delete e; }
#endif

// ---- thread-specific storage and exit functions ----
static Counter *cleaned[4]; static Counter *called[4];
struct V { int id; };
static void clean(V* v){ cleaned[v->id]->add(1); delete v; }
struct Fn { int id; Counter* copies; Fn(int i,Counter* c):id(i),copies(c){ copies->add(1); } Fn(Fn const& o):id(o.id),copies(o.copies){ copies->add(1); } ~Fn(){ copies->add(-1); } void operator()(){ called[id]->add(1); } };
struct Boom {};
struct BadCopy { bool bad; BadCopy(bool b):bad(b){} BadCopy(BadCopy const& o):bad(o.bad){ if(bad) throw Boom(); } void operator()(){ called[3]->add(1); } };
static void tss_globals(){ for(int i=0;i<4;i++){ cleaned[i]=new Counter; called[i]=new Counter; } }
template<class F> bool tss_faulty(const char* what,F f){ return choose(2)? faulty(what,mc::CALL_SETSPECIFIC,ENOMEM,RES_E,f) : starved(what,f); }
SCENARIO(tss_store_fails, "C19,C14", CFG.FA, CFG.Faults(2,mc::F_ERR|mc::F_NOMEM))
{
  tss_globals(); bs::thread_specific_ptr<V>* p=new bs::thread_specific_ptr<V>(&clean); bs::thread_specific_ptr<V>* q=new bs::thread_specific_ptr<V>(&clean);
  int first=choose(3);   // what the thread has stored before
  Counter* warm=new Counter; join(spawn([=]{ warm->add(1); })); long blocks=mc::live_blocks();
  int t=spawn([=]{
    V* a=0; if(first==1){ a=new V{0}; p->reset(a); } if(first==2){ a=new V{0}; q->reset(a); }
    V* b=new V{1}; bool f=tss_faulty("reset",[&]{ (first==2?p:q)->reset(b); });
    MC_CHECK((first==2?p:q)->get()==(f?0:b),"after reset (failed: %d) the value is wrong",(int)f); if(a) MC_CHECK((first==2?q:p)->get()==a,"another value changed");
    MC_CHECK(cleaned[0]->get()==0&&cleaned[1]->get()==0,"a value was cleaned up by a failed store"); if(f){ delete b; cleaned[1]->add(1); } });
  join(t); MC_CHECK(cleaned[0]->get()==(first?1:0)&&cleaned[1]->get()==1,"values cleaned up %d and %d times",(int)cleaned[0]->get(),(int)cleaned[1]->get()); MC_CHECK(mc::live_blocks()==blocks,"%ld memory blocks are left behind by an exited thread",mc::live_blocks()-blocks); delete p; delete q;
}
SCENARIO(tss_replace_fails, "C19,C14", CFG.FA, CFG.Faults(2,mc::F_ERR|mc::F_NOMEM))
{
  tss_globals(); bs::thread_specific_ptr<V>* p=new bs::thread_specific_ptr<V>(&clean);
  join(spawn([=]{ V* a=new V{0}; p->reset(a); V* b=new V{1}; int how=choose(3); bool f=tss_faulty("replacing a value",[&]{ if(how==0) p->reset(b); else if(how==1) p->reset(); else p->release(); });
    MC_CHECK(!f,"replacing a value needs no resources, but failed"); MC_CHECK(p->get()==(how==0?b:0),"wrong value"); MC_CHECK(cleaned[0]->get()==(how<2),"wrong number of cleanups"); if(how) delete b; if(how==2) delete a; }));
  delete p;
}
SCENARIO(tss_create_fails, "C19,C14", CFG.FA, CFG.FA)
{
  tss_globals(); bs::thread_specific_ptr<V>* k=new bs::thread_specific_ptr<V>(&clean); int n=choose(3); bs::thread_specific_ptr<V>* more[3]; for(int i=0;i<n;i++) more[i]=new bs::thread_specific_ptr<V>(&clean);
  k->reset(new V{0}); bs::thread_specific_ptr<V>* q=0; bool f=starved("thread_specific_ptr constructor",[&]{ q=new bs::thread_specific_ptr<V>(&clean); });
  MC_CHECK(k->get()&&k->get()->id==0,"another pointer lost its value"); if(!f){ MC_CHECK(!q->get(),"a new pointer has a value"); q->reset(new V{1}); }
  bs::thread_specific_ptr<V>* q2=new bs::thread_specific_ptr<V>(&clean); MC_CHECK(!q2->get(),"a new pointer has a value"); q2->reset(new V{2}); MC_CHECK(k->get()->id==0&&(f||q->get()->id==1)&&q2->get()->id==2,"values are mixed up");
  delete k; delete q; delete q2; for(int i=0;i<n;i++) delete more[i]; MC_CHECK(cleaned[0]->get()==1&&cleaned[1]->get()==!f&&cleaned[2]->get()==1,"wrong cleanups");
}
// destroying a pointer or ending a thread needs no resources: the values are cleaned up even when memory is short
SCENARIO(tss_destroy_starved, "C19,C14", CFG.FA.Preempt(0), CFG.Faults(3,mc::F_ERR|mc::F_NOMEM).Preempt(0))
{
  tss_globals(); static const int N[]={1,2,5,40}; int n=N[choose(4)], own=choose(2), dead=choose(2); bs::thread_specific_ptr<V>* p=new bs::thread_specific_ptr<V>(&clean); mc::Flag* go=new mc::Flag;
  for(int i=0;i<n&&n<6;i++) spawn([=]{ p->reset(new V{1}); if(dead&&i==0) return; go->await(); });
  bs::thread_specific_ptr<V>* more[40]; if(n>6) for(int i=0;i<n;i++){ more[i]=new bs::thread_specific_ptr<V>(&clean); more[i]->reset(new V{1}); }
  if(own) p->reset(new V{0}); quiesce(); int gone=n<6&&dead; MC_CHECK(cleaned[1]->get()==gone,"wrong cleanups");
  mc::injected(); mc::nomem(true); if(n>6) for(int i=0;i<n;i++) delete more[i]; delete p; mc::nomem(false);
  MC_CHECK(cleaned[0]->get()==own&&cleaned[1]->get()==n,"%d threads had a value when the object was destroyed, %d were cleaned up (memory was short: %d)",n+own-gone,(int)(cleaned[0]->get()+cleaned[1]->get()-gone),mc::injected());
  go->set(); p=new bs::thread_specific_ptr<V>(&clean); MC_CHECK(!p->get(),"a new pointer has a value"); p->reset(new V{2}); delete p; MC_CHECK(cleaned[2]->get()==1,"wrong cleanups");
}
SCENARIO(thread_exit_starved, "C19,C14,C16,C07", CFG.FA.Preempt(0), CFG.FA)
{
  tss_globals(); bs::thread_specific_ptr<V>* p=new bs::thread_specific_ptr<V>(&clean); int n=choose(4), note=choose(2); bs::mutex* m=new bs::mutex; bs::condition_variable* c=new bs::condition_variable; bool* done=new bool(false); mc::Flag* go=new mc::Flag; mc::Flag* in=new mc::Flag;
  int t=spawn([=]{ p->reset(new V{1}); for(int i=0;i<n;i++) bs::at_thread_exit([=]{ called[0]->add(1); MC_CHECK(p->get(),"a value is not readable in an exit callback"); }); if(note){ bs::unique_lock<bs::mutex> l(*m); *done=true; bs::notify_all_at_thread_exit(*c,boost::move(l)); } in->set(); go->await(); });
  in->await(); mc::injected(); mc::nomem(true); go->set(); if(note){ bs::unique_lock<bs::mutex> l(*m); while(!*done) c->wait(l); MC_CHECK(cleaned[1]->get()==1&&called[0]->get()==n,"the waiter was released before the thread had finished"); } join(t); mc::nomem(false);
  MC_CHECK(cleaned[1]->get()==1&&called[0]->get()==n,"memory was short (%d): %d of %d exit functions ran, a value was cleaned up %d times",mc::injected(),(int)called[0]->get(),n,(int)cleaned[1]->get()); delete p; delete c; delete m;
}
SCENARIO(exit_register_fails, "C19,C16", CFG.FA, CFG.Faults(2,mc::F_ERR|mc::F_NOMEM))
{
  tss_globals(); bs::at_thread_exit([]{}); Counter* copies=new Counter; int before=choose(3), after=choose(2); bool* failed=new bool(false);
  join(spawn([=]{ for(int i=0;i<before;i++) bs::at_thread_exit(Fn(0,copies)); *failed=tss_faulty("at_thread_exit",[&]{ bs::at_thread_exit(Fn(1,copies)); }); if(after) bs::at_thread_exit(Fn(2,copies)); MC_CHECK(copies->get()==before+!*failed+after,"%d functions are registered, %d copies exist",before+!*failed+after,(int)copies->get()); }));
  MC_CHECK(called[0]->get()==before&&called[1]->get()==!*failed&&called[2]->get()==after,"exit functions were called %d, %d (registration failed: %d) and %d times",(int)called[0]->get(),(int)called[1]->get(),(int)*failed,(int)called[2]->get()); MC_CHECK(copies->get()==0,"%d function objects leaked",(int)copies->get());
}
SCENARIO(exit_copy_throws, "C16", CFG, CFG)
{ tss_globals(); Counter* copies=new Counter; int k=choose(2); join(spawn([=]{ if(k) bs::at_thread_exit(Fn(0,copies)); long b=mc::live_blocks(); bool t=false; { BadCopy bc(true); try { bs::at_thread_exit(bc); } catch(Boom&){ t=true; } } MC_CHECK(t,"the exception of the copy constructor was lost"); MC_CHECK(mc::live_blocks()==b,"memory leaked"); }));
  MC_CHECK(called[3]->get()==0&&called[0]->get()==k,"wrong functions were called"); }
SCENARIO(notify_register_fails, "C19,C07", CFG.FA, CFG.Faults(2,mc::F_ERR|mc::F_NOMEM))
{
  tss_globals(); bs::at_thread_exit([]{}); bs::mutex* m=new bs::mutex; bs::condition_variable* c=new bs::condition_variable; bool* failed=new bool(false); bool* flag=new bool(false); mc::Flag* lkd=new mc::Flag;
  int w=spawn([=]{ bs::unique_lock<bs::mutex> l(*m); while(!*flag) c->wait(l); });
  join(spawn([=]{ { bs::unique_lock<bs::mutex> l(*m); *flag=true; *failed=tss_faulty("notify_all_at_thread_exit",[&]{ bs::notify_all_at_thread_exit(*c,boost::move(l)); }); if(!*failed) MC_CHECK(!l.owns_lock(),"the lock was not taken over"); } int lk=spawn([=]{ { bs::lock_guard<bs::mutex> g(*m); } lkd->set(); }); quiesce(); bool fr=mc::finished(lk); MC_CHECK(fr==*failed,"the mutex is %s (registration failed: %d)",fr?"free":"locked",(int)*failed); if(*failed){ bs::lock_guard<bs::mutex> g(*m); c->notify_all(); } }));
  join(w); lkd->await(); MC_CHECK(is_free(m),"the mutex stays locked"); delete c; delete m;
}

// ---- interruptions are not failures ----
#if defined(BOOST_SYNC_HAS_PTHREAD_EINTR_BUG)
static const unsigned F_INT=mc::F_EINTR|mc::F_SPURIOUS|mc::F_PTHREAD_EINTR;
#else
static const unsigned F_INT=mc::F_EINTR|mc::F_SPURIOUS;
#endif
// ---- what errno happened to be before a call has no influence ----
static const int STALE[]={0,EINTR,EAGAIN,ETIMEDOUT,EINVAL,EBUSY,EDEADLK,ENOMEM,EOVERFLOW,EPERM,ENOSYS};
template<class E> void stale_errno(const char* what,bool consumes,void (*post)(E&)){
  E* e=new E; int err=STALE[choose(11)], op=choose(6), when=choose(3); if(op<2&&when==2&&op==0) when=1; if(op==1&&when==1) when=2;   // signalled before, during, never
  if(when==0) post(*e); int64_t t0=mc::mono_now();
  int w=spawn([=]{ bool r=true; errno=err; Out o=attempt([&]{ switch(op){ case 0: e->wait(); break; case 1: r=e->try_wait(); break; case 2: r=e->wait_for(ns(100)); break; case 3: r=e->wait_until(sys_at(100)); break; case 4: r=e->wait_until(std_at(100)); break; default: r=e->timed_wait(ns(100)); } });
    MC_CHECK(o.kind==NONE,"%s: operation %d with errno %d threw %s (error %d)",what,op,err,kn(o.kind),o.code); MC_CHECK(r==(when!=2),"%s: operation %d started with errno %d gives %d",what,op,err,(int)r); int64_t el=mc::mono_now()-t0; MC_CHECK(el==(when==0||op==1?0:when==1?10:100),"%s: operation %d started with errno %d took %ld ns",what,op,err,(long)el); });
  if(when==1){ quiesce(); mc::sleep_ns(10); errno=err; Out o=attempt([&]{ post(*e); }); MC_CHECK(o.kind==NONE,"%s: a post with errno %d threw %s",what,err,kn(o.kind)); } join(w);
  errno=err; bool t=e->try_wait(); MC_CHECK(t==(when!=2&&!consumes),"%s: wrong state afterwards",what); delete e; }
SCENARIO(stale_errno_sem, "C19,C08", CFG.Faults(1,F_INT), CFG.Faults(2,F_INT)) { stale_errno<bs::semaphore>("semaphore",true,[](bs::semaphore& s){ s.post(); }); }
SCENARIO(stale_errno_are, "C19,C09", CFG.Faults(1,F_INT), CFG.Faults(2,F_INT)) { stale_errno<bs::auto_reset_event>("auto_reset_event",true,[](bs::auto_reset_event& s){ s.post(); }); }
SCENARIO(stale_errno_mre, "C19,C10", CFG.Faults(1,F_INT), CFG.Faults(2,F_INT)) { stale_errno<bs::manual_reset_event>("manual_reset_event",false,[](bs::manual_reset_event& s){ s.set(); }); }
SCENARIO(stale_errno_mutex, "C19,C02", CFG.Faults(1,F_INT), CFG.Faults(2,F_INT))
{ bs::timed_mutex* m=new bs::timed_mutex; int err=STALE[choose(11)], op=choose(L_NT), when=choose(3); if(op==L_LOCK&&when==2) return; if(op==L_TRY&&when==1) return; if(when) m->lock(); int64_t t0=mc::mono_now();
  int w=spawn([=]{ bool r=true; errno=err; static const int64_t D=10; Out o=attempt([&]{ r=Ops<bs::timed_mutex>::go(*m,op); }); MC_CHECK(o.kind==NONE,"timed_mutex: operation %d with errno %d threw %s (error %d)",op,err,kn(o.kind),o.code); MC_CHECK(r==(when!=2),"timed_mutex: operation %d started with errno %d gives %d",op,err,(int)r); int64_t el=mc::mono_now()-t0; MC_CHECK(el==(when==0||op==L_TRY?0:when==1?5:D),"timed_mutex: operation %d started with errno %d took %ld ns",op,err,(long)el); if(r) m->unlock(); });
  if(when==1){ quiesce(); mc::sleep_ns(5); errno=err; m->unlock(); } join(w); if(when==2) m->unlock(); MC_CHECK(is_free(m),"the mutex is not free"); delete m; }
SCENARIO(interrupted, "C19", CFG.Faults(2,F_INT), CFG.Faults(4,F_INT))
{
  int what=choose(7), tm=choose(4); int64_t t0=mc::mono_now(); Out o=attempt([&]{ bool r=false;
    switch(what){
      case 0: { bs::semaphore s(choose(2)); bool has=s.try_wait(); if(has) s.post(); if(tm==0){ if(has) s.wait(); r=has; } else r=tm==1?s.wait_for(ns(9)):tm==2?s.wait_until(sys_at(9)):s.wait_until(std_at(9)); MC_CHECK(r==has,"semaphore: an interrupted wait gives %d",r); break; }
      case 1: { bs::auto_reset_event s; bool has=choose(2); if(has) s.post(); if(tm==0){ if(has) s.wait(); r=has; } else r=tm==1?s.wait_for(ns(9)):tm==2?s.wait_until(sys_at(9)):s.wait_until(std_at(9)); MC_CHECK(r==has,"auto_reset_event: an interrupted wait gives %d",r); break; }
      case 2: { bs::manual_reset_event s; bool has=choose(2); if(has) s.set(); if(tm==0){ if(has) s.wait(); r=has; } else r=tm==1?s.wait_for(ns(9)):tm==2?s.wait_until(sys_at(9)):s.wait_until(std_at(9)); MC_CHECK(r==has,"manual_reset_event: an interrupted wait gives %d",r); break; }
      case 3: { bs::mutex m; if(tm) MC_CHECK(m.try_lock(),"mutex: try_lock failed on a free mutex"); else m.lock(); m.unlock(); r=true; break; }
      case 4: { bs::timed_mutex m; bool has=choose(2); if(!has) m.lock(); r=tm==0?m.try_lock():tm==1?m.try_lock_for(ns(9)):tm==2?m.try_lock_until(sys_at(9)):m.try_lock_until(std_at(9)); MC_CHECK(r==has,"timed_mutex: an interrupted lock gives %d",r); m.unlock(); break; }
      case 5: { bs::mutex m; bs::condition_variable c; bs::unique_lock<bs::mutex> l(m); r=tm==1?c.wait_for(l,ns(9),pred_false):tm==2?c.wait_until(l,sys_at(9),pred_false):c.wait_until(l,std_at(9),pred_false); MC_CHECK(!r,"condition_variable: an interrupted wait succeeds"); MC_CHECK(l.owns_lock(),"lock lost"); break; }
      default: { bs::mutex m; bs::condition_variable_any c; bs::unique_lock<bs::mutex> l(m); r=tm==1?c.wait_for(l,ns(9),pred_false):tm==2?c.wait_until(l,sys_at(9),pred_false):c.wait_until(l,std_at(9),pred_false); MC_CHECK(!r,"condition_variable_any: an interrupted wait succeeds"); MC_CHECK(l.owns_lock(),"lock lost"); }
    }
    int64_t el=mc::mono_now()-t0; bool waits=!r&&!(what<3&&tm==0)&&!(what==4&&tm==0); MC_CHECK(el==(waits?9:0),"an interrupted operation took %ld ns",(long)el); });
  MC_CHECK(o.kind==NONE,"an interruption by a signal was reported as %s (error %d)",kn(o.kind),o.code);
}
