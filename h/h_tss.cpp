// Scenarios for thread_specific_ptr, at_thread_exit and notify_all_at_thread_exit.
#include "common.h"
#include <boost/sync/thread_specific/thread_specific_ptr.hpp>
#include <boost/sync/thread_specific/at_thread_exit.hpp>
#include <boost/sync/condition_variables/notify_all_at_thread_exit.hpp>
#include <boost/sync/condition_variables/condition_variable.hpp>
#include <boost/sync/mutexes/mutex.hpp>
#include <boost/sync/locks.hpp>
#include <atomic>

enum { NV=16 };
static Counter* dead;      // number of destructor calls per value
static Counter* custom;    // number of calls of the custom cleanup function per value
static Counter* where;     // 1 + thread that ran the cleanup
struct V { int id; int data; explicit V(int i):id(i),data(100+i){} ~V(){ MC_CHECK(data==100+id,"cleanup of a corrupt or already destroyed value"); data=0; dead[id].add(1); long w=where[id].get(); where[id].add(mc::self()+1-w); } };
static void del(V* v){ custom[v->id].add(1); delete v; }
typedef bs::thread_specific_ptr<V> P;
enum { CL_CUSTOM, CL_DEFAULT, CL_NONE };
static P* make(int cl){ return cl==CL_CUSTOM?new P(&del):cl==CL_DEFAULT?new P():new P(static_cast<void(*)(V*)>(0)); }
static void setup(){ dead=new Counter[NV]; custom=new Counter[NV]; where=new Counter[NV]; }

// All operation sequences of one thread over two pointers, followed by the exit of the thread; compared with a map as a model
static void sequences(int len,bool second){
  setup(); int cl0=choose(3), cl1=second?choose(3):CL_CUSTOM;
  int t=spawn([=]{
    P* p[2]={make(cl0),make(cl1)}; int cl[2]={cl0,cl1}; int val[2]={-1,-1}; int next=0; bool stored[NV]; int how[NV]; int rel[NV]; for(int i=0;i<NV;i++){ stored[i]=false; rel[i]=0; how[i]=-1; } V* obj[NV];
    int expect[NV]; for(int i=0;i<NV;i++) expect[i]=0;
    for(int s=0;s<len;s++){
      int k=second?choose(2):0;
      switch(choose(5)){
        case 0: { int id=next++; obj[id]=new V(id); stored[id]=true; how[id]=cl[k]; p[k]->reset(obj[id]); if(val[k]>=0&&cl[k]!=CL_NONE) expect[val[k]]=1; val[k]=id; break; }
        case 1: p[k]->reset(); if(val[k]>=0&&cl[k]!=CL_NONE) expect[val[k]]=1; val[k]=-1; break;
        case 2: { V* v=p[k]->release(); MC_CHECK(v==(val[k]<0?0:obj[val[k]]),"release() returns the wrong value"); if(val[k]>=0) rel[val[k]]=1; val[k]=-1; break; }
        case 3: if(val[k]>=0) p[k]->reset(obj[val[k]]); break;                       // the value it already has
        case 4: { delete p[k]; if(val[k]>=0&&cl[k]!=CL_NONE) expect[val[k]]=1; val[k]=-1; cl[k]=second?cl[k]:(cl[k]+1)%3; p[k]=make(cl[k]); break; }  // the storage may be reused
      }
      for(int j=0;j<2;j++){ V* v=p[j]->get(); MC_CHECK(v==(val[j]<0?0:obj[val[j]]),"get() returns the wrong value"); MC_CHECK(!*p[j]==(val[j]<0),"operator! is wrong"); MC_CHECK((*p[j]?true:false)==(val[j]>=0),"operator bool is wrong"); MC_CHECK(bs::get_pointer(*p[j])==v,"get_pointer is wrong"); if(v){ MC_CHECK((*p[j])->id==val[j]&&(**p[j]).id==val[j],"dereferencing gives the wrong value"); } }
      for(int i=0;i<next;i++){ MC_CHECK(dead[i].get()==expect[i],"value %d was cleaned up %d times, expected %d",i,(int)dead[i].get(),expect[i]); MC_CHECK(custom[i].get()==(how[i]==CL_CUSTOM?expect[i]:0),"value %d: wrong cleanup function",i); }
    }
    int mode=choose(2);   // the pointers die before or after the thread
    if(mode){ for(int k=0;k<2;k++){ delete p[k]; if(val[k]>=0&&cl[k]!=CL_NONE) expect[val[k]]=1; val[k]=-1; }
      for(int i=0;i<next;i++) MC_CHECK(dead[i].get()==expect[i],"value %d was cleaned up %d times, expected %d",i,(int)dead[i].get(),expect[i]); }
    for(int k=0;k<2;k++) if(val[k]>=0&&cl[k]!=CL_NONE) expect[val[k]]=1;
    int* e=new int[NV]; for(int i=0;i<NV;i++) e[i]=i<next?expect[i]:-1;
    int self=mc::self();
    static int* out; static int* h2; out=e; h2=new int[NV]; for(int i=0;i<NV;i++) h2[i]=how[i]; static int me; me=self;
    mc::on_final([]{ for(int i=0;i<NV&&out[i]>=0;i++){ MC_CHECK(dead[i].v==out[i],"after the thread's exit value %d was cleaned up %d times, expected %d",i,(int)dead[i].v,out[i]); MC_CHECK(custom[i].v==(h2[i]==CL_CUSTOM?out[i]:0),"value %d: wrong cleanup function",i); if(out[i]) MC_CHECK(where[i].v==me+1,"value %d was cleaned up by another thread",i); } });
    (void)rel; (void)stored;
  });
  join(t);
}
SCENARIO(tss_seq_1ptr, "C14", CFG, CFG) { sequences(5,false); }
SCENARIO(tss_seq_2ptr, "C14", CFG, CFG) { sequences(4,true); }
SCENARIO_T(tss_seq_1ptr_7, "C14", CFG) { sequences(7,false); }
SCENARIO_T(tss_seq_2ptr_5, "C14", CFG) { sequences(5,true); }

// Two threads with values in the same pointers: all orders of the operations of both (hand-over of a token), independence of their values
static void two_threads(int len){
  setup(); int cl=choose(2)?CL_DEFAULT:CL_CUSTOM; P* p=make(cl); P* q=make(cl);
  struct Sh { int next; int val[2][2]; V* obj[NV]; int expect[NV]; } *s=new Sh; s->next=0; for(int a=0;a<2;a++) for(int b=0;b<2;b++) s->val[a][b]=-1; for(int i=0;i<NV;i++) s->expect[i]=0;
  auto step=[=](int t,bool exiting){ (void)exiting; int k=choose(2); P* x=k?q:p; int& v=s->val[t][k];
    switch(choose(3)){ case 0: { int id=s->next++; s->obj[id]=new V(id); x->reset(s->obj[id]); if(v>=0) s->expect[v]=1; v=id; break; } case 1: x->reset(); if(v>=0) s->expect[v]=1; v=-1; break; case 2: { V* r=x->release(); MC_CHECK(r==(v<0?0:s->obj[v]),"release() returns the wrong value"); v=-1; } }
    for(int j=0;j<2;j++){ V* g=(j?q:p)->get(); int w=s->val[t][j]; MC_CHECK(g==(w<0?0:s->obj[w]),"a thread reads a value it did not store last"); }
    for(int i=0;i<s->next;i++) MC_CHECK(dead[i].get()==s->expect[i],"value %d was cleaned up %d times, expected %d",i,(int)dead[i].get(),s->expect[i]); };
  struct Tok { std::atomic<int> turn; } *tok=new Tok; tok->turn=0; mc::Flag* go=new mc::Flag[2*len+2]; (void)tok;
  int t=spawn([=]{ for(int i=0;i<len;i++){ go[2*i].await(); step(1,false); go[2*i+1].set(); } go[2*len].await(); });
  for(int i=0;i<len;i++){ step(0,false); go[2*i].set(); go[2*i+1].await(); }
  int how=choose(3);
  if(how==0){ go[2*len].set(); join(t); for(int j=0;j<2;j++){ int w=s->val[1][j]; if(w>=0) s->expect[w]=1; } }   // thread exits first
  if(how==1){ delete p; for(int a=0;a<2;a++){ int w=s->val[a][0]; if(w>=0) s->expect[w]=1; s->val[a][0]=-1; }      // one pointer dies first
    for(int i=0;i<s->next;i++) MC_CHECK(dead[i].get()==s->expect[i],"after the destruction of the pointer value %d was cleaned up %d times, expected %d",i,(int)dead[i].get(),s->expect[i]);
    P* n=make(cl); MC_CHECK(n->get()==0,"a new pointer has a value"); go[2*len].set(); join(t); int w=s->val[1][1]; if(w>=0) s->expect[w]=1; s->val[1][1]=-1; delete n; }
  if(how==2){ go[2*len].set(); join(t); for(int j=0;j<2;j++){ int w=s->val[1][j]; if(w>=0) s->expect[w]=1; } delete q; int w=s->val[0][1]; if(w>=0) s->expect[w]=1; }
  for(int i=0;i<s->next;i++) MC_CHECK(dead[i].get()==s->expect[i],"at the end value %d was cleaned up %d times, expected %d",i,(int)dead[i].get(),s->expect[i]);
}
SCENARIO(tss_two_threads, "C14", CFG.Preempt(0), CFG.Preempt(1)) { two_threads(2); }
SCENARIO(tss_two_threads_3, "C14", CFG.Preempt(0), CFG.Preempt(0)) { two_threads(3); }
// many pointers: growth and reuse of the storage
SCENARIO(tss_many, "C14", CFG, CFG)
{
  setup(); int n=6; int order=choose(3); int victim=choose(6);
  int t=spawn([=]{ P* p[6]; for(int i=0;i<n;i++) p[i]=make(CL_CUSTOM); for(int j=0;j<n;j++){ int i=order==0?j:order==1?n-1-j:(j*5+2)%6; MC_CHECK(!p[i]->get(),"unset pointer has a value"); p[i]->reset(new V(i)); for(int a=0;a<n;a++){ V* v=p[a]->get(); if(v) MC_CHECK(v->id==a,"value of another pointer"); } }
    for(int a=0;a<n;a++) MC_CHECK(p[a]->get()&&p[a]->get()->id==a,"value lost"); delete p[victim]; MC_CHECK(dead[victim].get()==1,"value not cleaned up with its pointer"); p[victim]=make(CL_CUSTOM); MC_CHECK(!p[victim]->get(),"new pointer has a value"); for(int a=0;a<n;a++) if(a!=victim) MC_CHECK(p[a]->get()&&p[a]->get()->id==a,"value lost"); });
  join(t); for(int i=0;i<n;i++) MC_CHECK(dead[i].get()==1,"value %d was cleaned up %d times",i,(int)dead[i].get());
}
// large numbers of pointers, threads with sparse values
struct W { int id; }; static Counter* wdead; static void wdel(W* w){ wdead[w->id].add(1); delete w; }
SCENARIO(tss_large, "C14", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000))
{
  typedef bs::thread_specific_ptr<W> Q; static const int N[]={17,33,65,130,300,1100}; int n=N[choose(6)], pat=choose(4), die=choose(3); wdead=new Counter[2*n]; Q** p=new Q*[n]; for(int i=0;i<n;i++) p[i]=new Q(&wdel);
  auto in=[=](int i){ return pat==0?true:pat==1?i%7==3:pat==2?i>n/2:i==n-1||i==0; };
  for(int t=0;t<2;t++){ spawn([=]{ 
    for(int j=0;j<n;j++){ int i=pat&1?n-1-j:j; MC_CHECK(!p[i]->get(),"unset pointer has a value"); if(in(i)){ W* w=new W; w->id=t*n+i; p[i]->reset(w); } }
    for(int i=0;i<n;i++){ W* w=p[i]->get(); MC_CHECK(in(i)?w&&w->id==t*n+i:!w,"pointer %d of %d has the wrong value",i,n); }
    if(die==0){ for(int i=0;i<n;i++) if(i%3==0&&in(i)){ W* w=p[i]->release(); MC_CHECK(w&&w->id==t*n+i,"release gives the wrong value"); wdel(w); } } }); if(die!=1) join(t+1); }
  if(die==1){ quiesce(); join(1); join(2); }
  for(int i=0;i<n;i++) for(int t=0;t<2;t++) MC_CHECK(wdead[t*n+i].get()==(in(i)?1:0),"value of pointer %d of %d was cleaned up %d times",i,n,(int)wdead[t*n+i].get());
  // the destroyed pointers' storage is reused by new ones
  if(die==2){ for(int i=0;i<n;i++) if(in(i)){ W* w=new W; w->id=i; p[i]->reset(w); } for(int i=0;i<n;i+=2) delete p[i]; for(int i=0;i<n;i++) MC_CHECK(wdead[i].get()==(in(i)?(i%2==0?2:1):0),"destroying pointer %d: %d cleanups",i,(int)wdead[i].get());
    for(int i=0;i<n;i+=2){ p[i]=new Q(&wdel); MC_CHECK(!p[i]->get(),"a new pointer has a value"); } for(int i=1;i<n;i+=2) MC_CHECK(in(i)?p[i]->get()&&p[i]->get()->id==i:!p[i]->get(),"value lost"); }
}
// creating and destroying pointers again and again
SCENARIO(tss_long_history, "C14", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000))
{
  static const int N[]={1,300,2100,20000}; setup(); int n=N[choose(4)], op=choose(4); P* keep=make(CL_CUSTOM); keep->reset(new V(0)); Counter* c=new Counter; (void)c;
  for(int i=0;i<n;i++,mc::yield()){ switch(op){ case 0: { P* q=make(CL_DEFAULT); MC_CHECK(!q->get(),"a new pointer has a value (round %d)",i); q->reset(new V(1)); delete q; MC_CHECK(dead[1].get()==i+1,"value cleaned up %d times in %d rounds",(int)dead[1].get(),i+1); break; }
      case 1: { P* q=make(CL_CUSTOM); P* r=make(CL_NONE); MC_CHECK(!q->get()&&!r->get(),"a new pointer has a value (round %d)",i); q->reset(new V(1)); delete q; delete r; MC_CHECK(custom[1].get()==i+1,"wrong cleanups"); break; }
      case 2: keep->reset(new V(1)); MC_CHECK(dead[0].get()==1&&dead[1].get()==i,"wrong cleanups (round %d)",i); break;
      case 3: { V* v=keep->release(); MC_CHECK(v&&v->id==0,"wrong value (round %d)",i); keep->reset(v); MC_CHECK(dead[0].get()==0,"wrong cleanups (round %d)",i); } }
    V* v=keep->get(); MC_CHECK(v&&v->id==(op==2?1:0),"value lost in round %d",i); }
}
// a cleanup function that stores a new value (in the same or another pointer): that one is cleaned up as well
static P* gp0; static P* gp1; static int gdepth;
static void reviver(V* v){ int id=v->id; del(v); if(id<gdepth){ gp0->reset(new V(id+1)); V* g=gp0->get(); MC_CHECK(g&&g->id==id+1,"a value stored during cleanup cannot be read back"); } }
static void other(V* v){ int id=v->id; del(v); if(id<gdepth) gp1->reset(new V(id+1)); }
static void other2(V* v){ int id=v->id; del(v); if(id<gdepth) gp0->reset(new V(id+1)); }
SCENARIO(tss_set_in_cleanup, "C14", CFG, CFG)
{ // how: the same pointer, the next one (a ping-pong in 3), the previous one; to a depth that any number of rounds must reach
  setup(); int how=choose(4); gdepth=how==1||how==2?2:2+choose(13); gp0=how==0?new P(&reviver):how==1||how==3?new P(&other):make(CL_CUSTOM); gp1=how==2||how==3?new P(&other2):make(CL_CUSTOM);
  int t=spawn([=]{ (how==2?gp1:gp0)->reset(new V(1)); }); join(t);
  for(int i=1;i<=gdepth;i++) MC_CHECK(dead[i].get()==1,"value %d, stored by a cleanup function of the exiting thread, was cleaned up %d times",i,(int)dead[i].get());
}
// a cleanup function that uses the pointer whose value is being replaced
static int gact, ghow; static V* gother;
SCENARIO(tss_reset_in_cleanup, "C14", CFG, CFG)
{
  setup(); gact=choose(5); ghow=choose(3); 
  gp0=new P(static_cast<void(*)(V*)>([](V* v){ int id=v->id; if(id) { del(v); return; } MC_CHECK(gp0->get()!=v,"the value that is being cleaned up is still stored"); MC_CHECK(gp0->get()==(ghow==0?gother:0),"wrong value in a cleanup function");
    del(v); if(gact==1) gp0->reset(); else if(gact==2) gp0->reset(new V(2)); else if(gact==3){ V* r=gp0->release(); MC_CHECK(r==(ghow==0?gother:0),"release() in a cleanup function gives the wrong value"); } else if(gact==4){ gp0->reset(gp0->get()); } }));
  int t=spawn([=]{ gp0->reset(new V(0)); gother=new V(1); if(ghow==0) gp0->reset(gother); else if(ghow==1) gp0->reset();
    if(ghow<2){ V* e=gact==2?gp0->get():gact==1||gact==3||ghow==1?0:gother; MC_CHECK(gp0->get()==e&&(gact!=2||(e&&e->id==2)),"get() returns the wrong value after a cleanup function used the pointer"); MC_CHECK(dead[0].get()==1,"the replaced value was cleaned up %d times",(int)dead[0].get()); } });
  join(t); MC_CHECK(dead[0].get()==1,"the replaced value was cleaned up %d times",(int)dead[0].get()); MC_CHECK(dead[1].get()==(ghow==0&&gact!=3),"the new value was cleaned up %d times",(int)dead[1].get()); MC_CHECK(dead[2].get()==(gact==2),"the value stored by the cleanup function was cleaned up %d times",(int)dead[2].get());
}
// ---------------------------------------------------------------- C15: concurrency
// first use of the facility by several threads at once
SCENARIO(tss_first_use, "C15", CFG.Stale(1).Preempt(3), CFG.Stale(1))
{
  setup(); int k=choose(3);
  for(int i=0;i<2;i++) spawn([=]{ if(k==0||(k==1&&i)){ P* p=make(CL_CUSTOM); p->reset(new V(i)); MC_CHECK(p->get()&&p->get()->id==i,"value lost"); delete p; MC_CHECK(dead[i].get()==1,"not cleaned up"); } else bs::at_thread_exit([=]{ dead[i].add(1); }); });
  join(1); join(2); for(int i=0;i<2;i++) MC_CHECK(dead[i].get()==1,"cleanup or callback %d ran %d times",i,(int)dead[i].get());
}
// threads use one pointer while others create, use and destroy other pointers
static void churn(int nt){
  setup(); P* p=make(CL_CUSTOM); int kind=choose(3);
  for(int i=0;i<nt;i++) spawn([=]{
    if(i==0||kind==0){ p->reset(new V(i)); P* q=make(CL_DEFAULT); q->reset(new V(i+4)); MC_CHECK(p->get()->id==i&&q->get()->id==i+4,"value of another thread or pointer"); if(kind!=2){ delete q; MC_CHECK(p->get()->id==i,"value lost"); } }
    else if(kind==1){ P* q=make(CL_CUSTOM); MC_CHECK(!q->get(),"a new pointer has a value"); q->reset(new V(i+4)); delete q; P* r=make(CL_DEFAULT); MC_CHECK(!r->get(),"a new pointer has a value"); delete r; }
    else { p->reset(new V(i)); }
  });
  for(int i=1;i<=nt;i++) join(i);
  MC_CHECK(dead[0].get()==1&&dead[4].get()==1,"values were cleaned up %d and %d times",(int)dead[0].get(),(int)dead[4].get());
  for(int i=1;i<nt;i++){ if(kind!=1) MC_CHECK(dead[i].get()==1,"value %d was cleaned up %d times",i,(int)dead[i].get()); if(kind!=2) MC_CHECK(dead[i+4].get()==1,"value %d was cleaned up %d times",i+4,(int)dead[i+4].get()); }
  MC_CHECK(p->get()==0,"a value leaks to another thread");
}
SCENARIO(tss_churn_2, "C15", CFG.Preempt(3), CFG.Stale(1)) { churn(2); }
SCENARIO(tss_churn_3, "C15", CFG.Preempt(1), CFG.Preempt(2)) { churn(3); }
// a pointer is destroyed while other threads store values in other pointers (their storage may grow), exit, or register callbacks
static void destroy_vs(int what){
  setup(); P* a=make(CL_CUSTOM); P* b=make(CL_CUSTOM); P* c=make(CL_DEFAULT); mc::Flag* has=new mc::Flag; mc::Flag* gone=new mc::Flag; int holds=choose(2);
  int t=spawn([=]{ if(holds) a->reset(new V(0)); has->set();       // stops using a
    if(what==0){ b->reset(new V(1)); c->reset(new V(2)); MC_CHECK(b->get()&&b->get()->id==1&&c->get()&&c->get()->id==2,"value lost while another pointer was destroyed"); }
    else if(what==1){ b->reset(new V(1)); }
    else if(what==2) bs::at_thread_exit([=]{ dead[5].add(1); V* v=b->get(); MC_CHECK(!v,"value of nowhere"); });
    else { b->reset(new V(1)); b->release(); b->reset(); } });
  has->await(); delete a; gone->set();
  P* d=choose(2)?make(CL_DEFAULT):0; if(d){ MC_CHECK(!d->get(),"a new pointer has a value"); d->reset(new V(7)); }
  join(t);
  if(holds) MC_CHECK(dead[0].get()==1,"the value stored in the destroyed pointer was cleaned up %d times",(int)dead[0].get());
  if(holds) MC_CHECK(custom[0].get()==1,"the value stored in the destroyed pointer was cleaned up by the wrong function");
  if(what<=1) MC_CHECK(dead[1].get()==1&&custom[1].get()==1,"value 1 was cleaned up %d times",(int)dead[1].get());
  if(what==0) MC_CHECK(dead[2].get()==1&&custom[2].get()==0,"value 2 was cleaned up %d times",(int)dead[2].get());
  if(what==2) MC_CHECK(dead[5].get()==1,"callback ran %d times",(int)dead[5].get());
  if(d){ MC_CHECK(d->get()&&d->get()->id==7,"value lost"); MC_CHECK(dead[7].get()==0,"value cleaned up early"); delete d; MC_CHECK(dead[7].get()==1&&custom[7].get()==0,"wrong cleanup"); }
}
SCENARIO(tss_destroy_vs_set, "C15", CFG.Preempt(3), CFG.Stale(1)) { destroy_vs(0); }
SCENARIO(tss_destroy_vs_exit, "C15", CFG.Preempt(3), CFG.Stale(1)) { destroy_vs(1); }
SCENARIO(tss_destroy_vs_atexit, "C15", CFG.Preempt(3), CFG.Stale(1)) { destroy_vs(2); }
SCENARIO(tss_destroy_vs_release, "C15", CFG.Preempt(3), CFG.Stale(1)) { destroy_vs(3); }
// a pointer that many threads have a value in is destroyed while some of them exit and another one creates and uses pointers
SCENARIO(tss_destroy_many, "C14,C15", CFG.Preempt(1), CFG.Preempt(3))
{
  setup(); P* a=make(CL_CUSTOM); P* b=make(CL_DEFAULT); int n=5+choose(2), live=choose(2), busy=choose(3); mc::Flag* go=new mc::Flag; mc::Flag* end=new mc::Flag[6];
  for(int i=0;i<n;i++) { spawn([=]{ a->reset(new V(i)); (i<live||i>=n-live?go:&end[i])->await(); }); quiesce(); }
  int t=busy?spawn([=]{ go->await(); if(busy==1){ b->reset(new V(10)); return; } P* d=make(CL_DEFAULT); MC_CHECK(!d->get(),"a new pointer has a value"); d->reset(new V(11)); MC_CHECK(d->get()&&d->get()->id==11,"value lost"); delete d; MC_CHECK(dead[11].get()==1,"not cleaned up"); }):-1;
  go->set(); delete a; for(int i=live;i<n-live;i++) MC_CHECK(dead[i].get()==1,"%d threads had values, after the pointer was destroyed value %d has been cleaned up %d times",n,i,(int)dead[i].get());
  P* c=make(CL_NONE); MC_CHECK(!c->get(),"a new pointer has a value"); if(t>=0) join(t); for(int i=0;i<n;i++){ end[i].set(); join(i+1); } delete c; delete b;
  for(int i=0;i<n;i++){ MC_CHECK(dead[i].get()==1,"value %d was cleaned up %d times",i,(int)dead[i].get()); MC_CHECK(custom[i].get()==1,"a value was cleaned up by the wrong function"); } if(busy) MC_CHECK(dead[9+busy].get()==1&&custom[9+busy].get()==0,"wrong cleanup of another pointer's value");
}
// two threads exit at once, with values and callbacks, while a third one creates a pointer
SCENARIO(tss_exit_exit_create, "C15", CFG.Preempt(2), CFG.Preempt(4))
{
  setup(); P* a=make(CL_CUSTOM); P* b=make(CL_DEFAULT);
  for(int i=0;i<2;i++) spawn([=]{ a->reset(new V(i)); if(i) b->reset(new V(2)); else bs::at_thread_exit([=]{ dead[6].add(1); }); });
  P* c=make(CL_CUSTOM); c->reset(new V(3)); P* e=make(CL_DEFAULT); MC_CHECK(!e->get(),"a new pointer has a value"); delete c;
  join(1); join(2); MC_CHECK(dead[0].get()==1&&dead[1].get()==1&&dead[2].get()==1&&dead[3].get()==1&&dead[6].get()==1,"cleanups ran %d %d %d %d %d times",(int)dead[0].get(),(int)dead[1].get(),(int)dead[2].get(),(int)dead[3].get(),(int)dead[6].get());
  MC_CHECK(custom[2].get()==0&&custom[0].get()==1&&custom[1].get()==1&&custom[3].get()==1,"wrong cleanup function");
}
// cleanup functions that use the facility themselves (create and destroy pointers, register callbacks) do not deadlock
SCENARIO(tss_reentrant_cleanup, "C15,C14", CFG.Preempt(2), CFG.Preempt(4))
{
  setup(); static int act; act=choose(4);
  struct F { static void f(V* v){ del(v); if(act==0){ P* q=make(CL_CUSTOM); q->reset(new V(8)); delete q; } else if(act==1){ P* q=make(CL_CUSTOM); q->reset(new V(8)); } else if(act==2) bs::at_thread_exit([]{ dead[8].add(1); }); else { gp1->reset(new V(8)); } } };
  gp0=new P(&F::f); gp1=make(CL_CUSTOM); int how=choose(3);
  int o=spawn([=]{ P* z=make(CL_DEFAULT); z->reset(new V(9)); delete z; });
  int t=spawn([=]{ gp0->reset(new V(0)); if(how==0) gp0->reset(); else if(how==1){ delete gp0; gp0=0; } });
  join(t); join(o); MC_CHECK(dead[0].get()==1,"value was cleaned up %d times",(int)dead[0].get()); MC_CHECK(dead[8].get()==1,"what the cleanup function stored was cleaned up %d times",(int)dead[8].get());
}
// ---------------------------------------------------------------- C16: at_thread_exit
struct Ord { int n; int id[16]; int tid; };
static void exit_order(int len){
  setup(); Ord* o=new Ord(); int k=1+choose(len); 
  int t=spawn([=]{ o->tid=mc::self(); for(int i=0;i<k;i++) bs::at_thread_exit([=]{ MC_CHECK(mc::self()==o->tid,"callback runs on another thread"); o->id[o->n++]=i; }); MC_CHECK(o->n==0,"callback ran before the exit"); });
  join(t); MC_CHECK(o->n==k,"%d callbacks registered, %d ran",k,o->n); for(int i=0;i<k;i++) MC_CHECK(o->id[i]==k-1-i,"callbacks did not run in reverse order of registration");
}
SCENARIO(atexit_order, "C16", CFG, CFG) { exit_order(6); }
// values are readable (and writable) in callbacks; callbacks run before cleanups
SCENARIO(atexit_values, "C16", CFG.Preempt(1), CFG.Preempt(3))
{
  setup(); P* p=make(choose(2)?CL_DEFAULT:CL_CUSTOM); P* q=make(CL_CUSTOM); int act=choose(4); int first=choose(2); Counter* ran=new Counter;
  int t=spawn([=]{ if(first) p->reset(new V(0));
    bs::at_thread_exit([=]{ ran->add(1); V* v=p->get(); MC_CHECK(v&&v->id==0,"a thread-specific value is not readable in an exit callback"); MC_CHECK(dead[0].get()==0,"values were destroyed before the callbacks ran");
      if(act==1){ p->reset(new V(1)); MC_CHECK(dead[0].get()==1&&p->get()->id==1,"replacing a value in a callback"); } if(act==2){ V* r=p->release(); MC_CHECK(r==v,"release in a callback"); delete r; } if(act==3){ q->reset(new V(2)); MC_CHECK(q->get()->id==2,"value stored in a callback cannot be read back"); } });
    if(!first) p->reset(new V(0)); });
  join(t); MC_CHECK(ran->get()==1,"callback ran %d times",(int)ran->get()); MC_CHECK(dead[0].get()==1,"value was cleaned up %d times",(int)dead[0].get()); if(act==1) MC_CHECK(dead[1].get()==1,"value stored in a callback was cleaned up %d times",(int)dead[1].get()); if(act==3) MC_CHECK(dead[2].get()==1,"value stored in a callback was cleaned up %d times",(int)dead[2].get());
}
// nested registrations: from callbacks (to a depth) and from cleanup functions
struct Nest { int depth; Counter* ran; int tid; void operator()() const { ran->add(1); MC_CHECK(mc::self()==tid,"callback runs on another thread"); if(depth>0){ Nest n={depth-1,ran,tid}; bs::at_thread_exit(n); } } };
SCENARIO(atexit_nested, "C16", CFG, CFG)
{
  setup(); Counter* ran=new Counter; int n=1+choose(3), depth=choose(6), val=choose(2); P* p=make(CL_CUSTOM); long b=mc::live_blocks(); (void)b;
  int t=spawn([=]{ Nest x={depth,ran,mc::self()}; for(int i=0;i<n;i++) bs::at_thread_exit(x); if(val) p->reset(new V(0)); });
  join(t); MC_CHECK(ran->get()==n*(depth+1),"%d callbacks were registered (including nested ones), %d ran",n*(depth+1),(int)ran->get()); if(val) MC_CHECK(dead[0].get()==1,"value was cleaned up %d times",(int)dead[0].get());
}
static Counter* cran; static int cdepth;
static void reg_cleanup(V* v){ int id=v->id; del(v); bs::at_thread_exit([=]{ cran->add(1); if(id<cdepth){ gp0->reset(new V(id+1)); } }); }
SCENARIO(atexit_from_cleanup, "C16,C14", CFG, CFG)
{ // a cleanup registers a callback which stores a value whose cleanup registers a callback ...
  setup(); cran=new Counter; cdepth=choose(13); gp0=new P(&reg_cleanup);
  int t=spawn([=]{ gp0->reset(new V(0)); }); join(t);
  MC_CHECK_P("C16",cran->get()==cdepth+1,"%d callbacks were registered by cleanup functions, %d ran",cdepth+1,(int)cran->get()); for(int i=0;i<=cdepth;i++) MC_CHECK_P("C14",dead[i].get()==1,"value %d was cleaned up %d times",i,(int)dead[i].get());
}
// several threads register concurrently
SCENARIO(atexit_threads, "C16", CFG.Preempt(3), CFG.Stale(1))
{
  Counter* ran=new Counter[4];
  for(int i=0;i<2;i++) spawn([=]{ int me=mc::self(); for(int j=0;j<2;j++) bs::at_thread_exit([=]{ MC_CHECK(mc::self()==me,"callback runs on another thread"); MC_CHECK(ran[2*i].get()==(j?0:1)&&ran[2*i+1].get()==(j?0:1)-(j?0:1)+(j?0:ran[2*i+1].get()),"order"); ran[2*i+(j?0:1)].add(1); }); });
  join(1); join(2); for(int i=0;i<4;i++) MC_CHECK(ran[i].get()==1,"callback ran %d times",(int)ran[i].get());
}
SCENARIO(atexit_many, "C16", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000))
{
  static const int N[]={7,33,65,300,5000}; int n=N[choose(5)], depth=choose(2)*200; int* seq=new int[n]; int* k=new int(0); Counter* ran=new Counter;
  int t=spawn([=]{ int me=mc::self(); for(int i=0;i<n;i++,mc::yield()) bs::at_thread_exit([=]{ MC_CHECK(mc::self()==me,"callback runs on another thread"); seq[(*k)++]=i; }); if(depth){ Nest x={depth,ran,me}; bs::at_thread_exit(x); } });
  join(t); MC_CHECK(*k==n,"%d callbacks registered, %d ran",n,*k); for(int i=0;i<n;i++) MC_CHECK(seq[i]==n-1-i,"callbacks did not run in reverse order of registration"); if(depth) MC_CHECK(ran->get()==depth+1,"%d nested callbacks were registered, %d ran",depth+1,(int)ran->get());
}
// nothing is left behind by threads that exit (the facility itself is initialised first)
SCENARIO(tss_no_leak, "C16,C14", CFG, CFG)
{
  setup(); P* p=make(CL_CUSTOM); P* q=make(CL_DEFAULT); int k=choose(3); Counter* ran=new Counter; (void)ran;
  auto body=[=](int i){ if(k!=1) bs::at_thread_exit([=]{ ran->add(1); }); if(k!=0){ p->reset(new V(i)); q->reset(new V(i+1)); } };
  int t=spawn([=]{ body(0); }); join(t); long b=mc::live_blocks();
  int u=spawn([=]{ body(2); }); join(u); MC_CHECK(mc::live_blocks()==b,"%ld memory blocks are left behind by an exited thread",mc::live_blocks()-b);
}
// creating and destroying pointers again and again does not use up memory
SCENARIO(tss_no_growth, "C20,C14", CFG.Fixed().Steps(20000000), CFG.Fixed().Steps(20000000))
{
  setup(); int n=1+choose(3); bool use=choose(2); bool lifo=choose(2); int t=spawn([=]{ P* p[3]; P* keep=make(CL_CUSTOM); keep->reset(new V(0)); long b=0; enum { N=1000 };
    for(int c=0;c<N;c++,mc::yield()){ for(int i=0;i<n;i++){ p[i]=make(CL_CUSTOM); MC_CHECK(!p[i]->get(),"a new pointer has a value"); if(use) p[i]->reset(new V(1+i)); } for(int i=0;i<n;i++) delete p[lifo?n-1-i:i]; if(c==N/10) b=mc::live_bytes(); }
    long d=mc::live_bytes()-b; MC_CHECK(d<4096,"%d pointers were created and destroyed %d times: %ld bytes are left behind",n,N-N/10,d); MC_CHECK(keep->get()&&keep->get()->id==0,"a value was lost"); delete keep; });
  join(t); MC_CHECK(dead[0].get()==1,"wrong number of cleanups"); if(use) for(int i=0;i<n;i++) MC_CHECK(dead[1+i].get()==1000,"wrong number of cleanups");
}
// the keys behind the pointers: with cleanup_at_delete == false the values stay until their threads exit, and a new key does not see them
static int raw_val[4]; static void raw_clean(void* v){ dead[(int*)v-raw_val].add(1); }
SCENARIO(tss_raw_keys, "C14", CFG.Preempt(1), CFG.Preempt(3))
{
  setup(); namespace sd = boost::sync::detail; bool at_delete=choose(2), other=choose(2), again=choose(2); sd::thread_specific_key k=sd::new_thread_specific_key(&raw_clean,at_delete); mc::Flag* go=new mc::Flag; 
  int t=spawn([=]{ sd::set_thread_specific(k,&raw_val[0]); MC_CHECK(sd::get_thread_specific(k)==&raw_val[0],"wrong value"); go->await(); }); int u=spawn([=]{ if(other) sd::set_thread_specific(k,&raw_val[1]); go->await(); });
  quiesce(); MC_CHECK(!sd::get_thread_specific(k),"a thread sees the value of another one"); sd::delete_thread_specific_key(k); MC_CHECK(dead[0].get()==at_delete&&dead[1].get()==(at_delete&&other),"deleting the key ran %d and %d cleanups",(int)dead[0].get(),(int)dead[1].get());
  mc::Flag* go2=new mc::Flag; sd::thread_specific_key k2=sd::new_thread_specific_key(&raw_clean,again); int w=spawn([=]{ MC_CHECK(!sd::get_thread_specific(k2),"a new key has a value"); sd::set_thread_specific(k2,&raw_val[2]); MC_CHECK(sd::get_thread_specific(k2)==&raw_val[2],"wrong value"); go2->await(); });
  int x=spawn([=]{ sd::set_thread_specific(k2,&raw_val[3]); }); join(x); MC_CHECK(dead[3].get()==1,"value of an exited thread was cleaned up %d times",(int)dead[3].get());
  quiesce(); sd::delete_thread_specific_key(k2); MC_CHECK(dead[2].get()==again,"deleting the second key ran %d cleanups",(int)dead[2].get());
  go->set(); go2->set(); join(t); join(u); join(w); MC_CHECK(dead[0].get()==1&&dead[1].get()==other&&dead[2].get()==1&&dead[3].get()==1,"values were cleaned up %d, %d, %d and %d times",(int)dead[0].get(),(int)dead[1].get(),(int)dead[2].get(),(int)dead[3].get());
}
// ---------------------------------------------------------------- C07: notify_all_at_thread_exit
struct N { bs::mutex m; bs::condition_variable cv; int flag, data, owner; N():flag(0),data(0),owner(0){} };
// waiters are woken after the thread has run its callbacks and cleanups; they see everything; the last one may destroy the object
static void at_exit_notify(int nw,bool destroy){
  setup(); N* s=new N; P* p=make(CL_CUSTOM); int val=choose(2), cb=choose(2), kind=choose(3); s->owner=nw; Counter* ran=new Counter; struct D { int cleanup; }; int* late=new int(0);
  spawn([=]{ if(val) p->reset(new V(0)); if(cb) bs::at_thread_exit([=]{ *late+=1; ran->add(1); });
    { bs::unique_lock<bs::mutex> l(s->m); s->flag=1; bs::notify_all_at_thread_exit(s->cv,std::move(l)); MC_CHECK(!l.owns_lock(),"the lock is still owned by the caller"); }
    bool f=s->m.try_lock(); MC_CHECK(!f,"the lock is released before the thread exits"); *late+=10; });
  for(int i=0;i<nw;i++){ auto w=[=]{ bool last; { bs::unique_lock<bs::mutex> l(s->m); if(kind==0) while(!s->flag) s->cv.wait(l); else if(kind==1) s->cv.wait(l,[=]{ return s->flag!=0; }); else while(!s->flag) s->cv.wait_for(l,ns(1000000000));
      MC_CHECK(*late==10+cb,"a waiter was released before the exiting thread had finished (%d)",*late); if(cb) MC_CHECK(ran->get()==1,"callback not yet run"); if(val) MC_CHECK(dead[0].get()==1,"thread-specific values not yet destroyed"); last=--s->owner==0; }
      if(last&&destroy) delete s; }; if(i+1<nw) spawn(w); else w(); }
}
SCENARIO(exit_notify, "C07", CFG.Preempt(3).Faults(1,mc::F_SPURIOUS), CFG.Faults(1,F_WAKE).Stale(1)) { at_exit_notify(1,false); }
SCENARIO(exit_notify_2, "C07", CFG.Preempt(2), CFG.Preempt(4).Faults(1,F_WAKE)) { at_exit_notify(2,false); }
SCENARIO(exit_notify_destroy, "C07", CFG.Preempt(3).Faults(1,mc::F_SPURIOUS), CFG.Faults(1,F_WAKE).Stale(1)) { at_exit_notify(1,true); }
SCENARIO(exit_notify_destroy_2, "C07", CFG.Preempt(2), CFG.Preempt(4).Faults(1,F_WAKE)) { at_exit_notify(2,true); }
// every waiter that is blocked (no condition loop) is woken exactly when the thread is gone: all of them, once
SCENARIO(exit_notify_all_woken, "C07", CFG.Preempt(2), CFG.Preempt(4))
{
  N* s=new N; Counter* back=new Counter; mc::Flag* go=new mc::Flag; int n=1+choose(2);
  for(int i=0;i<n;i++) spawn([=]{ bs::unique_lock<bs::mutex> l(s->m); s->cv.wait(l); back->add(1); });
  quiesce();
  int t=spawn([=]{ bs::unique_lock<bs::mutex> l(s->m); bs::notify_all_at_thread_exit(s->cv,std::move(l)); go->await(); });
  quiesce(); MC_CHECK(back->get()==0,"waiters are notified before the thread exits"); bool f=s->m.try_lock(); MC_CHECK(!f,"the lock is released before the thread exits");
  go->set(); join(t); quiesce(); MC_CHECK(back->get()==n,"%d threads were waiting, %d were woken",n,(int)back->get());
  f=s->m.try_lock(); MC_CHECK(f,"the lock is not released at thread exit"); s->m.unlock();
  // exactly once: a later waiter is not notified again
  int w=spawn([=]{ bs::unique_lock<bs::mutex> l(s->m); s->cv.wait(l); back->add(1); }); (void)w; quiesce(); MC_CHECK(back->get()==n,"notified twice"); s->cv.notify_all();
}
SCENARIO(exit_notify_crowd, "C07", CFG.Fixed(), CFG.Preempt(0))
{ // many condition variables and many waiters
  int n=1+choose(5), w=1+choose(4); N* s=new N[n]; Counter* back=new Counter; mc::Flag* go=new mc::Flag;
  for(int i=0;i<w;i++) spawn([=]{ N& x=s[i%n]; bs::unique_lock<bs::mutex> l(x.m); if(i&1) while(!x.flag) x.cv.wait(l); else x.cv.wait(l,[&]{ return x.flag!=0; }); back->add(1); });
  quiesce(); int t=spawn([=]{ for(int i=0;i<n;i++){ bs::unique_lock<bs::mutex> l(s[i].m); s[i].flag=1; bs::notify_all_at_thread_exit(s[i].cv,std::move(l)); } go->await(); });
  quiesce(); MC_CHECK(back->get()==0,"notified before the exit"); go->set(); join(t); quiesce(); MC_CHECK(back->get()==w,"%d of %d waiters were notified",(int)back->get(),w); for(int i=0;i<n;i++){ bool f=s[i].m.try_lock(); MC_CHECK(f,"lock %d is not released",i); s[i].m.unlock(); }
}
// several scheduled notifications, from the thread, from callbacks and from cleanups
static N* gn[3];
SCENARIO(exit_notify_many, "C07", CFG.Preempt(2), CFG.Preempt(3))
{
  setup(); for(int i=0;i<3;i++) gn[i]=new N; int from=choose(3); Counter* step=new Counter; P* p=new P(static_cast<void(*)(V*)>([](V* v){ del(v); bs::unique_lock<bs::mutex> l(gn[2]->m); gn[2]->flag=1; bs::notify_all_at_thread_exit(gn[2]->cv,std::move(l)); }));
  int t=spawn([=]{ for(int i=0;i<2;i++){ bs::unique_lock<bs::mutex> l(gn[i]->m); gn[i]->flag=1; bs::notify_all_at_thread_exit(gn[i]->cv,std::move(l)); }
    if(from==1) bs::at_thread_exit([=]{ bs::unique_lock<bs::mutex> l(gn[2]->m); gn[2]->flag=1; bs::notify_all_at_thread_exit(gn[2]->cv,std::move(l)); }); if(from==2) p->reset(new V(0)); bs::at_thread_exit([=]{ step->add(1); }); });
  for(int i=0;i<(from?3:2);i++){ bs::unique_lock<bs::mutex> l(gn[i]->m); while(!gn[i]->flag) gn[i]->cv.wait(l); MC_CHECK(step->get()==1,"notified before the callbacks ran"); if(from==2) MC_CHECK(dead[0].get()==1,"notified before the cleanups ran"); }
  join(t); for(int i=0;i<3;i++){ bool f=gn[i]->m.try_lock(); MC_CHECK(f,"the lock of notification %d is not released",i); gn[i]->m.unlock(); }
}
