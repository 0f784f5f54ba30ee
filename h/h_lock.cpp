// Lock objects and scope guards over a recording mutex: all reachable states of small worlds of lock objects, to a fixpoint
// (operation sequences of any length), and all guard programs.
#include "common.h"
#include <boost/sync/locks.hpp>
#include <boost/sync/exceptions/lock_error.hpp>
#include <boost/move/utility.hpp>
#include <string.h>
#include <errno.h>

struct Boom {};
enum Call { LOCK, TRY, TIMED, FOR, UNTIL, UNLOCK, SLOCK, STRY, STIMED, SFOR, SUNTIL, SUNLOCK, GLOCK, GTRY, GTIMED, GFOR, GUNTIL, GUNLOCK,
  U2S, U2G, G2U, G2S, TG2U, TS2U, DS2U, TS2G, DS2G, NCALL };
static const char* cname(int c){ static const char* n[]={"lock","try_lock","timed_lock","try_lock_for","try_lock_until","unlock","lock_shared","try_lock_shared","timed_lock_shared","try_lock_shared_for","try_lock_shared_until","unlock_shared","lock_upgrade","try_lock_upgrade","timed_lock_upgrade","try_lock_upgrade_for","try_lock_upgrade_until","unlock_upgrade","unlock_and_lock_shared","unlock_and_lock_upgrade","unlock_upgrade_and_lock","unlock_upgrade_and_lock_shared","try_unlock_upgrade_and_lock","try_unlock_shared_and_lock","timed_unlock_shared_and_lock","try_unlock_shared_and_lock_upgrade","timed_unlock_shared_and_lock_upgrade"}; return n[c]; }
// what the world allows the next call to do
enum Out { O_OK, O_FAIL, O_THROW };
static int out;            // outcome of the next acquiring call
static int ncalls; static int calls[8]; static const void* callm[8]; static int64_t calltime[8];
static bool direct;        // calls made by the scenario itself
struct M {
  int ex, sh, up;          // who holds it, according to the calls it received
  M():ex(0),sh(0),up(0){}
  void rec(int c,int64_t t=0){ if(direct) return; if(ncalls<8){ calls[ncalls]=c; callm[ncalls]=this; calltime[ncalls]=t; } ncalls++; }
  bool free_for(char k) const { return k=='u'?!ex&&!sh&&!up : k=='g'?!ex&&!up : !ex; }
  int& cnt(char k){ return k=='u'?ex:k=='g'?up:sh; }
  bool acq(int c,char k,bool can_fail,int64_t t=0){ rec(c,t); if(out==O_THROW) throw Boom(); if(can_fail&&out==O_FAIL) return false; MC_CHECK(free_for(k),"%s is called on a mutex that the caller already holds in a conflicting mode",cname(c)); cnt(k)++; return true; }
  void rel(int c,char k){ rec(c); if(out==O_THROW) throw Boom(); MC_CHECK(cnt(k)>0,"%s is called on a mutex that is not held in that mode",cname(c)); cnt(k)--; }
  bool conv(int c,char from,char to,bool can_fail,int64_t t=0){ rec(c,t); if(out==O_THROW) throw Boom(); if(can_fail&&out==O_FAIL) return false; MC_CHECK(cnt(from)>0,"%s is called on a mutex that is not held in that mode",cname(c)); cnt(from)--; MC_CHECK(free_for(to),"%s while others hold the mutex",cname(c)); cnt(to)++; return true; }
  template<class T> static int64_t tv(T const& t){ return tval(t); }
  static int64_t tval(ns const& d){ return d.count(); } static int64_t tval(sysclk::time_point const& t){ return 1000000000000LL+t.time_since_epoch().count(); } static int64_t tval(stdclk::time_point const& t){ return 2000000000000LL+t.time_since_epoch().count(); }
  void lock(){ acq(LOCK,'u',false); } bool try_lock(){ return acq(TRY,'u',true); } void unlock(){ rel(UNLOCK,'u'); }
  template<class T> bool timed_lock(T const& t){ return acq(TIMED,'u',true,tv(t)); } template<class T> bool try_lock_for(T const& t){ return acq(FOR,'u',true,tv(t)); } template<class T> bool try_lock_until(T const& t){ return acq(UNTIL,'u',true,tv(t)); }
  void lock_shared(){ acq(SLOCK,'s',false); } bool try_lock_shared(){ return acq(STRY,'s',true); } void unlock_shared(){ rel(SUNLOCK,'s'); }
  template<class T> bool timed_lock_shared(T const& t){ return acq(STIMED,'s',true,tv(t)); } template<class T> bool try_lock_shared_for(T const& t){ return acq(SFOR,'s',true,tv(t)); } template<class T> bool try_lock_shared_until(T const& t){ return acq(SUNTIL,'s',true,tv(t)); }
  void lock_upgrade(){ acq(GLOCK,'g',false); } bool try_lock_upgrade(){ return acq(GTRY,'g',true); } void unlock_upgrade(){ rel(GUNLOCK,'g'); }
  template<class T> bool timed_lock_upgrade(T const& t){ return acq(GTIMED,'g',true,tv(t)); } template<class T> bool try_lock_upgrade_for(T const& t){ return acq(GFOR,'g',true,tv(t)); } template<class T> bool try_lock_upgrade_until(T const& t){ return acq(GUNTIL,'g',true,tv(t)); }
  void unlock_and_lock_shared(){ conv(U2S,'u','s',false); } void unlock_and_lock_upgrade(){ conv(U2G,'u','g',false); } void unlock_upgrade_and_lock(){ conv(G2U,'g','u',false); } void unlock_upgrade_and_lock_shared(){ conv(G2S,'g','s',false); }
  bool try_unlock_upgrade_and_lock(){ return conv(TG2U,'g','u',true); } bool try_unlock_shared_and_lock(){ return conv(TS2U,'s','u',true); } bool try_unlock_shared_and_lock_upgrade(){ return conv(TS2G,'s','g',true); }
  template<class T> bool timed_unlock_shared_and_lock(T const& t){ return conv(DS2U,'s','u',true,tv(t)); } template<class T> bool timed_unlock_shared_and_lock_upgrade(T const& t){ return conv(DS2G,'s','g',true,tv(t)); }
  void drop(char k){ direct=true; int o=out; out=O_OK; if(k=='u') unlock(); else if(k=='s') unlock_shared(); else unlock_upgrade(); out=o; direct=false; }
  void take(char k){ direct=true; int o=out; out=O_OK; if(k=='u') lock(); else if(k=='s') lock_shared(); else lock_upgrade(); out=o; direct=false; }
};
typedef bs::unique_lock<M> UL; typedef bs::shared_lock<M> SL; typedef bs::upgrade_lock<M> GL;
template<class L> struct Kind; template<> struct Kind<UL>{ enum{k='u',base=LOCK}; }; template<> struct Kind<SL>{ enum{k='s',base=SLOCK}; }; template<> struct Kind<GL>{ enum{k='g',base=GLOCK}; };
static const ns DUR(12345); static sysclk::time_point STP(){ return sysclk::time_point(sysclk::duration(777)); } static stdclk::time_point MTP(){ return stdclk::time_point(stdclk::duration(888)); }
enum { T_DUR, T_SYS, T_STEADY };
static int64_t texp(int k){ return k==T_DUR?12345:k==T_SYS?1000000000777LL:2000000000888LL; }

struct Ex { int m; bool own; };   // expected: mutex (-1: none) and ownership
static M* mx;                     // the mutexes
static const int NM=2;
struct Slot { char kind; Ex e; void* obj; };
static Slot* sl; static int nsl;
template<class L> L& as(int i){ return *static_cast<L*>(sl[i].obj); }

static void reset_calls(int o){ ncalls=0; out=o; }
static void expect_calls(int n,int c0=-1,int m0=-1,int64_t t0=0,int c1=-1,int m1=-1){
  if(n==1) MC_CHECK(ncalls==1&&calls[0]==c0&&callm[0]==&mx[m0]&&(calltime[0]==t0),"expected exactly one call of %s on mutex %d, got %d call(s), first %s%s",cname(c0),m0,ncalls,ncalls?cname(calls[0]):"none",ncalls==1&&calls[0]==c0&&callm[0]==&mx[m0]?" with a different time argument":"");
  else if(n==0) MC_CHECK(ncalls==0,"unexpected call of %s",cname(calls[0]));
  else MC_CHECK(ncalls==2&&calls[0]==c0&&callm[0]==&mx[m0]&&calls[1]==c1&&callm[1]==&mx[m1],"expected calls %s, %s; got %d call(s)",cname(c0),cname(c1),ncalls);
}
static int relcall(char k){ return k=='u'?UNLOCK:k=='s'?SUNLOCK:GUNLOCK; }
template<class L> void look(int i){
  L& l=as<L>(i); L const& c=l; Ex& e=sl[i].e; MC_CHECK(c.mutex()==(e.m<0?(M*)0:&mx[e.m]),"mutex() of the %c lock is wrong: %d, expected %d",sl[i].kind,(int)(c.mutex()?c.mutex()-mx:-1),e.m); MC_CHECK(c.owns_lock()==e.own,"owns_lock() is %d, but the lock %s",(int)c.owns_lock(),e.own?"owns its mutex":"owns nothing");
  MC_CHECK(!c==!e.own,"operator! disagrees with the ownership"); MC_CHECK((c?true:false)==e.own,"operator bool disagrees with the ownership");
}
static void look_all(){
  for(int i=0;i<nsl;i++) switch(sl[i].kind){ case 'u': look<UL>(i); break; case 's': look<SL>(i); break; default: look<GL>(i); }
  for(int m=0;m<NM;m++){ int n[3]={0,0,0}; for(int i=0;i<nsl;i++) if(sl[i].e.own&&sl[i].e.m==m) n[sl[i].kind=='u'?0:sl[i].kind=='s'?1:2]++; MC_CHECK(mx[m].ex==n[0]&&mx[m].sh==n[1]&&mx[m].up==n[2],"mutex %d is locked %d/%d/%d times (exclusive/shared/upgrade), but the lock objects own %d/%d/%d",m,mx[m].ex,mx[m].sh,mx[m].up,n[0],n[1],n[2]); }
}
// destroys the object in slot i: it must release what it owns, and nothing else
template<class L> void destroy(int i){ reset_calls(O_OK); as<L>(i).~L(); if(sl[i].e.own) expect_calls(1,relcall(sl[i].kind),sl[i].e.m); else expect_calls(0); memset(sl[i].obj,0,sizeof(L)); sl[i].e.m=-1; sl[i].e.own=false; }
template<class L> void fresh(int i){ reset_calls(O_OK); new(sl[i].obj) L(); expect_calls(0); sl[i].e.m=-1; sl[i].e.own=false; }
template<class L> bool can(int m){ return mx[m].free_for((char)Kind<L>::k); }
// outcome of an acquiring call: success only if the mutex is available
static int outcome(bool avail,bool may_fail){ if(avail) return may_fail?choose(3):choose(2)*2; return may_fail?1+choose(2):-1; }
template<class L> bool timed(L& l,int how,int& c){ int b=Kind<L>::base; switch(how){ case 0: c=b+2; return l.timed_lock(DUR); case 1: c=b+2; return l.timed_lock(STP()); case 2: c=b+2; return l.timed_lock(MTP()); case 3: c=b+3; return l.try_lock_for(DUR); case 4: c=b+4; return l.try_lock_until(STP()); default: c=b+4; return l.try_lock_until(MTP()); } }
static int timek(int how){ return how==0||how==3?T_DUR:how==1||how==4?T_SYS:T_STEADY; }

template<class L> void own_op(int i){
  L& l=as<L>(i); Ex& e=sl[i].e; int b=Kind<L>::base; char k=(char)Kind<L>::k;
  switch(choose(13)){
    case 0: destroy<L>(i); fresh<L>(i); break;
    case 1: { int m=choose(NM); destroy<L>(i); int o=outcome(can<L>(m),false); if(o<0){ fresh<L>(i); break; } reset_calls(o); bool ok=false; try { new(sl[i].obj) L(mx[m]); ok=true; } catch(Boom&){} MC_CHECK(ok==(o==O_OK),"the constructor swallowed or invented an exception"); expect_calls(1,b,m); if(!ok){ memset(sl[i].obj,0,sizeof(L)); fresh<L>(i); } else { e.m=m; e.own=true; } break; }
    case 2: { int m=choose(NM); destroy<L>(i); if(!can<L>(m)){ fresh<L>(i); break; } mx[m].take(k); reset_calls(O_OK); new(sl[i].obj) L(mx[m],bs::adopt_lock); expect_calls(0); e.m=m; e.own=true; break; }
    case 3: { int m=choose(NM); destroy<L>(i); reset_calls(O_OK); new(sl[i].obj) L(mx[m],bs::defer_lock); expect_calls(0); e.m=m; e.own=false; break; }
    case 4: { int m=choose(NM); destroy<L>(i); int o=outcome(can<L>(m),true); reset_calls(o); bool ok=false; try { new(sl[i].obj) L(mx[m],bs::try_to_lock); ok=true; } catch(Boom&){} MC_CHECK(ok==(o!=O_THROW),"the constructor swallowed or invented an exception"); expect_calls(1,b+1,m); if(!ok){ memset(sl[i].obj,0,sizeof(L)); fresh<L>(i); } else { e.m=m; e.own=o==O_OK; } break; }
    case 5: { int m=choose(NM); destroy<L>(i); int o=outcome(can<L>(m),true); int t=choose(3); reset_calls(o); bool ok=false; try { if(t==0) new(sl[i].obj) L(mx[m],DUR); else if(t==1) new(sl[i].obj) L(mx[m],STP()); else new(sl[i].obj) L(mx[m],MTP()); ok=true; } catch(Boom&){} MC_CHECK(ok==(o!=O_THROW),"the constructor swallowed or invented an exception"); expect_calls(1,b+2,m,texp(t)); if(!ok){ memset(sl[i].obj,0,sizeof(L)); fresh<L>(i); } else { e.m=m; e.own=o==O_OK; } break; }
    case 6: case 7: case 8: {   // lock, try_lock, timed
      int op=choose(3), how=op==2?choose(6):0; bool legal=e.m>=0&&!e.own; int o=O_OK; if(legal){ o=outcome(can<L>(e.m),op!=0); if(o<0) return; } reset_calls(o); int code=0; bool boom=false, r=true; int c=b+op;
      try { if(op==0) l.lock(); else if(op==1) r=l.try_lock(); else r=timed(l,how,c); } catch(bs::lock_error& x){ code=x.code().value(); MC_CHECK(code!=0,"lock_error without an error code"); } catch(Boom&){ boom=true; }
      if(!legal){ MC_CHECK(code==(e.m<0?EPERM:EDEADLK),"%s on a lock that %s: error code %d",op==0?"lock":op==1?"try_lock":"timed lock",e.m<0?"has no mutex":"already owns it",code); expect_calls(0); }
      else { MC_CHECK(code==0,"lock_error from a legal operation"); MC_CHECK(boom==(o==O_THROW),"exception of the mutex swallowed or invented"); expect_calls(1,c,e.m,op==2?texp(timek(how)):0); if(!boom){ MC_CHECK(r==(o==O_OK),"the result of the attempt is wrong"); e.own=o==O_OK; } }
      break; }
    case 9: { bool legal=e.m>=0&&e.own; int o=legal&&choose(2)?O_THROW:O_OK; reset_calls(o); int code=0; bool boom=false; try { l.unlock(); } catch(bs::lock_error& x){ code=x.code().value(); } catch(Boom&){ boom=true; }
      if(!legal){ MC_CHECK(code==EPERM,"unlock of a lock that owns nothing: error code %d",code); expect_calls(0); } else { MC_CHECK(code==0&&boom==(o==O_THROW),"unlock failed"); expect_calls(1,relcall(k),e.m); if(!boom) e.own=false; } break; }
    case 10: { reset_calls(O_OK); M* p=l.release(); expect_calls(0); MC_CHECK(p==(e.m<0?(M*)0:&mx[e.m]),"release() returns the wrong mutex"); bool o=e.own; int m=e.m; e.m=-1; e.own=false; if(o) mx[m].drop(k); break; }
    case 11: { reset_calls(O_OK); l.swap(l); expect_calls(0); break; }
    case 12: { reset_calls(O_OK); L& r=l; l=boost::move(r); // self assignment: whatever it does, the bookkeeping has to agree with the mutex
      if(ncalls){ expect_calls(1,relcall(k),e.m); e.own=false; } if(!l.mutex()) e.m=-1; if(e.own) MC_CHECK(l.owns_lock(),"ownership lost in a self assignment"); break; }
  }
}
// operations of two objects of the same kind
template<class L> void same_op(int i,int j){
  L& l=as<L>(i); L& r=as<L>(j); Ex &a=sl[i].e,&b=sl[j].e; char k=(char)Kind<L>::k;
  switch(choose(4)){
    case 0: { destroy<L>(i); reset_calls(O_OK); new(sl[i].obj) L(boost::move(r)); expect_calls(0); a=b; b.m=-1; b.own=false; break; }
    case 1: { reset_calls(O_OK); l=boost::move(r); Ex oa=a; a=b;   // the target has what the source had; what it had itself is either released or handed over
      if(ncalls){ expect_calls(1,relcall(k),oa.m); MC_CHECK(oa.own,"released what it did not own"); b.own=false; b.m=-1; } else if(oa.own){ b=oa; } else { b.own=false; b.m=r.mutex()?oa.m:-1; } break; }
    case 2: { reset_calls(O_OK); l.swap(r); expect_calls(0); Ex t=a; a=b; b=t; break; }
    case 3: { reset_calls(O_OK); using boost::sync::swap; swap(l,r); expect_calls(0); Ex t=a; a=b; b=t; break; }
  }
}
// conversions: how 0 = constructor, 1 = assignment (call: the converting call of the mutex)
template<class T,class F> void convert(int i,int j,int call,bool assign){
  F& f=as<F>(j); Ex& b=sl[j].e; Ex& a=sl[i].e; bool willcall=b.own;
  if(assign&&a.own&&b.own&&a.m==b.m&&false) return;
  // the target's own lock is released before (constructor: destroyed) or after (assignment) the conversion
  if(!assign) destroy<T>(i);
  bool avail=true; if(willcall){ M& m=mx[b.m]; M t=m; t.cnt(sl[j].kind)--; avail=t.free_for(sl[i].kind); }
  int o=O_OK; if(willcall){ if(!avail){ if(!assign) fresh<T>(i); return; } o=choose(2)?O_THROW:O_OK; }
  reset_calls(o); if(o==O_THROW){ } bool boom=false; Ex oa=a;
  try { if(assign) as<T>(i)=boost::move(f); else new(sl[i].obj) T(boost::move(f)); } catch(Boom&){ boom=true; }
  MC_CHECK(boom==(willcall&&o==O_THROW),"exception of the mutex swallowed or invented");
  if(boom){ expect_calls(1,call,b.m); if(!assign){ memset(sl[i].obj,0,sizeof(T)); fresh<T>(i); } return; }  // nothing changes
  if(assign&&oa.own){ if(willcall) expect_calls(2,call,b.m,0,relcall(sl[i].kind),oa.m); else expect_calls(1,relcall(sl[i].kind),oa.m); }
  else if(willcall) expect_calls(1,call,b.m); else expect_calls(0);
  a=b; b.m=-1; b.own=false;
}
// conversions that can fail: how 0 = try, 1..3 = timed
template<class T,class F> void make_timed(void* p,F& f,int how);
template<class T,class F> void tryconv(int i,int j,int call,int dcall){
  F& f=as<F>(j); Ex& b=sl[j].e; Ex& a=sl[i].e; bool willcall=b.own; destroy<T>(i); int how=dcall>=0?choose(4):0;
  bool avail=true; if(willcall){ M t=mx[b.m]; t.cnt(sl[j].kind)--; avail=t.free_for(sl[i].kind); }
  int o=O_OK; if(willcall) o=outcome(avail,true); reset_calls(o); bool boom=false;
  try { if(how==0) new(sl[i].obj) T(boost::move(f),bs::try_to_lock); else make_timed<T>(sl[i].obj,f,how); } catch(Boom&){ boom=true; }
  MC_CHECK(boom==(willcall&&o==O_THROW),"exception of the mutex swallowed or invented");
  if(willcall) expect_calls(1,how?dcall:call,b.m,how?texp(how-1):0); else expect_calls(0);
  if(boom){ memset(sl[i].obj,0,sizeof(T)); fresh<T>(i); return; }
  if(!willcall||o==O_OK){ a=b; b.m=-1; b.own=false; } else { a.m=-1; a.own=false; }   // a failed attempt leaves the source alone
}
template<class T,class F> void make_timed(void* p,F& f,int how){ if(how==1) new(p) T(boost::move(f),DUR); else if(how==2) new(p) T(boost::move(f),STP()); else new(p) T(boost::move(f),MTP()); }
template<> void make_timed<UL,GL>(void*,GL&,int){ }

static void op_self(int i){ switch(sl[i].kind){ case 'u': own_op<UL>(i); break; case 's': own_op<SL>(i); break; default: own_op<GL>(i); } }
static void op_two(int i,int j){
  char a=sl[i].kind,b=sl[j].kind;
  if(a==b){ if(a=='u') same_op<UL>(i,j); else if(a=='s') same_op<SL>(i,j); else same_op<GL>(i,j); return; }
  if(a=='u'&&b=='g'){ int h=choose(3); if(h<2) convert<UL,GL>(i,j,G2U,h==1); else tryconv<UL,GL>(i,j,TG2U,-1); }
  else if(a=='u'&&b=='s') tryconv<UL,SL>(i,j,TS2U,DS2U);
  else if(a=='g'&&b=='u') convert<GL,UL>(i,j,U2G,choose(2)!=0);
  else if(a=='g'&&b=='s') tryconv<GL,SL>(i,j,TS2G,DS2G);
  else if(a=='s'&&b=='u') convert<SL,UL>(i,j,U2S,choose(2)!=0);
  else if(a=='s'&&b=='g') convert<SL,GL>(i,j,G2S,choose(2)!=0);
}
static size_t lsize(char k){ return k=='u'?sizeof(UL):k=='s'?sizeof(SL):sizeof(GL); }
// explores all states that lock objects of the given kinds can reach; the raw bytes of the objects are part of the state
static void world(const char* kinds){
  nsl=(int)strlen(kinds); mx=new M[NM]; sl=new Slot[nsl]; size_t tot=0; for(int i=0;i<nsl;i++) tot+=(lsize(kinds[i])+15)&~15ul;
  char* mem=static_cast<char*>(operator new(tot)); memset(mem,0,tot); size_t off=0; for(int i=0;i<nsl;i++){ sl[i].kind=kinds[i]; sl[i].obj=mem+off; off+=(lsize(kinds[i])+15)&~15ul; switch(kinds[i]){ case 'u': fresh<UL>(i); break; case 's': fresh<SL>(i); break; default: fresh<GL>(i); } }
  direct=false; look_all();
  size_t kn=tot+16*(size_t)nsl+32; char* key=static_cast<char*>(operator new(kn));
  for(;;){
    memset(key,0,kn); memcpy(key,mem,tot); for(int i=0;i<nsl;i++){ key[tot+16*i]=(char)(sl[i].e.m+1); key[tot+16*i+1]=sl[i].e.own; }
    mc::checkpoint(key,kn);
    int i=choose(nsl); int j=choose(nsl);
    if(i==j) op_self(i); else op_two(i,j);
    look_all();
  }
}
SCENARIO(lock_unique_unique, "C17", CFG, CFG) { world("uu"); }
SCENARIO(lock_shared_shared, "C17", CFG, CFG) { world("ss"); }
SCENARIO(lock_upgrade_upgrade, "C17", CFG, CFG) { world("gg"); }
SCENARIO(lock_unique_shared, "C17", CFG, CFG) { world("us"); }
SCENARIO(lock_unique_upgrade, "C17", CFG, CFG) { world("ug"); }
SCENARIO(lock_shared_upgrade, "C17", CFG, CFG) { world("sg"); }
SCENARIO(lock_all_kinds, "C17", CFG, CFG) { world("usg"); }
SCENARIO_T(lock_all_kinds_5, "C17", CFG) { world("uussg"); }
// ---------------------------------------------------------------- C18: scope guards
// minimal lockables: a guard needs nothing else
struct MinX { int n; MinX():n(0){} void lock(){ n++; } void unlock(){ n--; } };
struct MinS { int n; MinS():n(0){} void lock_shared(){ n++; } void unlock_shared(){ n--; } };
struct Leave { int depth; };
// All programs of nested guards up to a depth: every kind of guard that is legal at that point, every way to leave each scope,
// and an exception from each acquiring operation.
static int maxdepth;
static int body(int m,int depth);
// leaves the scope of a guard: 0 falls off the end, 1 returns from within, 2 throws
static int inner(int m,int depth,bool nest){ int r=0; if(nest) r=body(m,depth+1); int how=choose(3); if(how==2){ Leave l={depth}; reset_calls(O_OK); throw l; } reset_calls(O_OK); return how==1?100+r:r; }
static void force(M&){ }
template<class L> void force(L& l){ M* p=l.release(); l.~L(); new(&l) L(*p,bs::adopt_lock); }
template<class G,class L> void plain_guard(L& l,int m,int depth,bool nest,bool dboom,int ctor,bool& entered,int& r){ G g(l); entered=true; expect_calls(1,ctor,m); reset_calls(O_OK); r=inner(m,depth,nest); reset_calls(dboom?O_THROW:O_OK); }
template<class G,class L> struct Adopt { static void run(L& l,int m,int depth,bool nest,bool dboom,bool& entered,int& r){ G g(l,bs::adopt_lock); entered=true; expect_calls(0); r=inner(m,depth,nest); reset_calls(dboom?O_THROW:O_OK); } };
template<class X,class L> struct Adopt<bs::unlock_guard<X>,L> { static void run(L&,int,int,bool,bool,bool&,int&){ } };
template<class G,class L> void adopt_guard(L& l,int m,int depth,bool nest,bool dboom,bool& entered,int& r){ Adopt<G,L>::run(l,m,depth,nest,dboom,entered,r); }
template<class G,class L> int guarded(L& l,int m,int depth,bool adopt,int ctor,int dtor,int adepth){
  // choices are made up front so that the log of calls around construction and destruction is exact
  bool boom=!adopt&&ctor>=0&&(ctor!=UNLOCK&&ctor!=SUNLOCK&&ctor!=GUNLOCK)&&choose(2)==1; bool nest=depth<maxdepth&&choose(2)==1; bool dboom=(dtor==LOCK||dtor==SLOCK||dtor==GLOCK)&&choose(2)==1; (void)adepth;
  int r=0; bool entered=false, threw=false; long before=mx[m].ex*100+mx[m].sh*10+mx[m].up;
  try {
    reset_calls(boom?O_THROW:O_OK);
    if(adopt){ adopt_guard<G,L>(l,m,depth,nest,dboom,entered,r); } else plain_guard<G,L>(l,m,depth,nest,dboom,ctor,entered,r);
  } catch(Boom&){ threw=true; }
  catch(Leave& x){ MC_CHECK(entered,"exception from nowhere"); expect_calls(1,dtor,m); MC_CHECK(x.depth==depth,"wrong exception"); (void)before; return -1; }
  if(!entered){ MC_CHECK(boom&&threw,"the guard's constructor lost an exception"); expect_calls(1,ctor,m); MC_CHECK(mx[m].ex*100+mx[m].sh*10+mx[m].up==before,"a guard whose acquiring operation threw changed the lock"); return 0; }
  MC_CHECK(!boom,"the exception of the acquiring operation was swallowed"); expect_calls(1,dtor,m); MC_CHECK(threw==dboom,"an exception of the relock was swallowed or invented");
  if(dboom){ if(dtor==LOCK) mx[m].take('u'); else if(dtor==SLOCK) mx[m].take('s'); else mx[m].take('g'); force(l); }
  return r;
}
static UL* gul; static SL* gsl; static GL* ggl;
static int body(int m,int depth){
  M& x=mx[m];
  if(x.ex){ if(gul&&gul->owns_lock()&&choose(2)) return guarded<bs::unlock_guard<UL> >(*gul,m,depth,false,UNLOCK,LOCK,depth); if(gul&&gul->owns_lock()) return 0; return guarded<bs::unlock_guard<M> >(x,m,depth,false,UNLOCK,LOCK,depth); }
  if(ggl&&ggl->owns_lock()) return guarded<bs::unlock_guard<GL> >(*ggl,m,depth,false,GUNLOCK,GLOCK,depth);
  if(x.sh){ if(gsl&&gsl->owns_lock()&&choose(2)) return guarded<bs::unlock_guard<SL> >(*gsl,m,depth,false,SUNLOCK,SLOCK,depth); return guarded<bs::shared_lock_guard<M> >(x,m,depth,false,SLOCK,SUNLOCK,depth); }
  switch(choose(4)){
    case 0: return guarded<bs::lock_guard<M> >(x,m,depth,false,LOCK,UNLOCK,depth);
    case 1: x.take('u'); return guarded<bs::lock_guard<M> >(x,m,depth,true,-1,UNLOCK,depth);
    case 2: return guarded<bs::shared_lock_guard<M> >(x,m,depth,false,SLOCK,SUNLOCK,depth);
    default: x.take('s'); return guarded<bs::shared_lock_guard<M> >(x,m,depth,true,-1,SUNLOCK,depth);
  }
}
static void guard_programs(int d){
  mx=new M[NM]; sl=0; nsl=0; direct=false; maxdepth=d; gul=0; gsl=0; ggl=0;
  int outer=choose(4);   // the whole program may run under a lock object that unlock_guards act on
  reset_calls(O_OK); if(outer==1) gul=new UL(mx[0]); if(outer==2) gsl=new SL(mx[0]); if(outer==3) ggl=new GL(mx[0]);
  body(0,0);
  MC_CHECK(mx[0].ex==(outer==1)&&mx[0].sh==(outer==2)&&mx[0].up==(outer==3),"after all scopes the mutex is locked %d/%d/%d times",mx[0].ex,mx[0].sh,mx[0].up);
  if(gul) MC_CHECK(gul->owns_lock(),"the lock object lost its ownership"); if(gsl) MC_CHECK(gsl->owns_lock(),"the lock object lost its ownership"); if(ggl) MC_CHECK(ggl->owns_lock(),"the lock object lost its ownership");
}
SCENARIO(guard_programs_3, "C18", CFG, CFG) { guard_programs(2); }
SCENARIO_T(guard_programs_5, "C18", CFG) { guard_programs(4); }
SCENARIO(guard_minimal, "C18", CFG, CFG)
{
  MinX a; MinS b; int k=choose(5); bool thrown=false;
  try { switch(k){ case 0: { bs::lock_guard<MinX> g(a); MC_CHECK(a.n==1,"not locked"); throw 1; } case 1: { a.n=1; bs::lock_guard<MinX> g(a,bs::adopt_lock); MC_CHECK(a.n==1,"adopt"); throw 1; } case 2: { bs::shared_lock_guard<MinS> g(b); MC_CHECK(b.n==1,"not locked"); throw 1; } case 3: { b.n=1; bs::shared_lock_guard<MinS> g(b,bs::adopt_lock); MC_CHECK(b.n==1,"adopt"); throw 1; } default: { a.n=1; { bs::unlock_guard<MinX> g(a); MC_CHECK(a.n==0,"not unlocked"); } MC_CHECK(a.n==1,"not locked again"); a.n=0; throw 1; } } } catch(int){ thrown=true; }
  MC_CHECK(thrown&&a.n==0&&b.n==0,"unbalanced");
}
// the real mutexes under guards and lock objects, several threads
#include <boost/sync/mutexes.hpp>
struct D { int x; };
template<class Mx> void real_guards(){
  Mx* m=new Mx; D* d=new D(); int k0=choose(3),k1=k0+choose(3-k0);
  for(int t=0;t<2;t++){ int k=t?k1:k0; spawn([=]{ try { if(k==0){ bs::lock_guard<Mx> g(*m); d->x++; throw 1; } else if(k==1){ bs::unique_lock<Mx> l(*m); d->x++; { bs::unlock_guard<bs::unique_lock<Mx> > u(l); MC_CHECK(!l.owns_lock(),"still owned inside an unlock_guard"); } MC_CHECK(l.owns_lock(),"not owned after an unlock_guard"); d->x++; throw 2; } else { m->lock(); { bs::unlock_guard<Mx> u(*m); } bs::lock_guard<Mx> g(*m,bs::adopt_lock); d->x++; throw 3; } } catch(int){} }); }
  join(1); join(2); bool f=m->try_lock(); MC_CHECK(f,"the mutex is not free after all guards are gone"); MC_CHECK(d->x==2+(k0==1)+(k1==1),"lost updates"); m->unlock(); delete m;
}
SCENARIO(guard_mutex, "C18", CFG.Preempt(3), CFG) { real_guards<bs::mutex>(); }
SCENARIO(guard_timed_mutex, "C18", CFG.Preempt(3), CFG) { real_guards<bs::timed_mutex>(); }
SCENARIO(guard_spin_mutex, "C18", CFG.Preempt(3).Stale(1), CFG.Stale(1)) { real_guards<bs::spin_mutex>(); }
SCENARIO(guard_shared_spin_mutex, "C18", CFG.Preempt(3).Stale(1), CFG.Stale(1)) { real_guards<bs::shared_spin_mutex>(); }
SCENARIO(guard_shared_real, "C18,C17", CFG.Preempt(3).Stale(1), CFG.Stale(1))
{
  typedef bs::shared_spin_mutex X; X* m=new X; D* d=new D(); int k=choose(3);
  spawn([=]{ bs::lock_guard<X> g(*m); d->x=1; });
  spawn([=]{ try { if(k==0){ bs::shared_lock_guard<X> g(*m); int v=d->x; (void)v; throw 1; } else if(k==1){ bs::shared_lock<X> l(*m); int v=d->x; { bs::unlock_guard<bs::shared_lock<X> > u(l); } v=d->x; (void)v; throw 1; } else { bs::shared_lock<X> l(*m,bs::try_to_lock); if(l){ int v=d->x; (void)v; } bs::shared_lock<X> n; n=boost::move(l); throw 1; } } catch(int){} });
  join(1); join(2); bool f=m->try_lock(); MC_CHECK(f,"the mutex is not free after all guards are gone"); m->unlock(); delete m;
}
SCENARIO(lock_timed_real, "C17", CFG.Preempt(3).Early(1), CFG.Early(1))
{ // lock objects over the real timed mutex report exactly the ownership they got
  typedef bs::timed_mutex X; X* m=new X; Counter* in=new Counter; int k=choose(6);
  for(int t=0;t<2;t++) spawn([=]{ bs::unique_lock<X> l(*m,bs::defer_lock); bool r=false; switch(k){ case 0: r=l.try_lock(); break; case 1: r=l.try_lock_for(ns(1000)); break; case 2: r=l.try_lock_until(sys_at(1000)); break; case 3: r=l.timed_lock(ns(1000)); break; case 4: r=l.try_lock_until(std_at(1000)); break; default: l.lock(); r=true; }
    MC_CHECK(r==l.owns_lock(),"result and ownership differ"); if(r){ MC_CHECK(in->add(1)==0||true,"x"); MC_CHECK(in->get()==1,"two owners"); mc::yield(); in->add(-1); } });
  join(1); join(2); bool f=m->try_lock(); MC_CHECK(f,"not free at the end"); m->unlock(); delete m;
}
