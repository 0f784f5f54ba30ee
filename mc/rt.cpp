// Stateless model checker runtime: executes the real, -fsanitize=thread instrumented code of Boost.Sync on
// cooperative fibers, enumerates every schedule / environment choice within the scenario's bounds (DFS with
// state fingerprints), and implements a view-based C++11 memory model, a happens-before race detector,
// heap/object lifetime checks, and models of pthread, semaphore, futex and clock services.
// Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <setjmp.h>
#include <time.h>
#include <unistd.h>
#include <link.h>
#include <elf.h>
#include <limits.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <linux/futex.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <algorithm>
#include <vector>
#include <string>
#include "mc.h"

extern "C" void mc_thread_end() __attribute__((weak));   // what the system calls in a thread that ends, before its thread specific data is cleaned up (Windows)
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_memalign(size_t, size_t);

typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;

#ifdef MC_BIG
// runtime for scenarios with very many threads (fixed schedules only): plain accesses are checked for use of freed memory, not for races
#define MAXT 33100
#define MAXR 1
#define VCN 1
#define WBUF static __attribute__((section("rtdata")))
struct VCArr { u32& operator[](int) const { static u32 dummy; return dummy=0x7fffffff; } };   // everything is ordered
typedef u16 tid_t_;
#else
#define MAXT 10
#define MAXR MAXT
#define VCN MAXT
#define WBUF
typedef u32 VCArr[MAXT];
typedef u8 tid_t_;
#endif
#define RTD __attribute__((section("rtdata")))
#define MAXLOC 48
#ifdef MC_BIG
static const size_t STK = 56*1024;
#else
static const size_t STK = 256*1024;
#endif
static const size_t ARENA = 64u<<20;
static const i64 NOTIME = INT64_MAX;

static inline u64 mix(u64 a, u64 b){ a ^= b + 0x9e3779b97f4a7c15ULL + (a<<6) + (a>>2); a *= 0xff51afd7ed558ccdULL; a ^= a>>32; a *= 0xc4ceb9fe1a85ec53ULL; a ^= a>>29; return a; }

struct View {
  VCArr vc; u16 ts[MAXLOC];
  void clear(){ memset(this,0,sizeof *this); }
  void join(const View& o){ for(int i=0;i<MAXT&&MAXR>1;i++) if(o.vc[i]>vc[i]) vc[i]=o.vc[i]; for(int i=0;i<MAXLOC;i++) if(o.ts[i]>ts[i]) ts[i]=o.ts[i]; }
  void join_ts(const View& o){ for(int i=0;i<MAXLOC;i++) if(o.ts[i]>ts[i]) ts[i]=o.ts[i]; }
  bool covers(const View& o) const { for(int i=0;i<MAXT&&MAXR>1;i++) if(o.vc[i]>vc[i]) return false; for(int i=0;i<MAXLOC;i++) if(o.ts[i]>ts[i]) return false; return true; }
};
struct Msg { u64 val; View rel; u64 id; tid_t_ tid; };
struct Loc { int idx; uintptr_t addr; u32 gen; int size; u32 base; std::vector<Msg> msgs; u32 scts; VCArr aw, ar; u64 hash; bool dirty; u32 chg; };

enum OpK { OP_NONE, OP_START, OP_ATOMIC, OP_FENCE, OP_LOCK, OP_TRYLOCK, OP_UNLOCK, OP_CONDREL, OP_WAITING, OP_SIGNAL, OP_SEMWAIT, OP_SEMTRY, OP_SEMPOST,
  OP_FUTEXWAIT, OP_FUTEXWAKE, OP_JOIN, OP_QUIESCE, OP_ONCE, OP_FLAGWAIT, OP_SLEEP, OP_CLOCK, OP_YIELD, OP_OBJ, OP_SPINNING };
static const char* opname[]={"none","start","atomic","fence","mutex_lock","mutex_trylock","mutex_unlock","cond_wait","blocked-wait","cond_signal","sem_wait","sem_trywait","sem_post","futex_wait","futex_wake","join","quiesce","once","flag_wait","sleep","clock","yield","obj","spin"};

enum OT { T_NONE, T_MUTEX, T_COND, T_SEM, T_ONCE, T_FLAG, T_KEY };
static const char* otname[]={"none","mutex","cond","sem","once","flag","key"};
struct Obj { OT type; uintptr_t addr; bool dead; int owner; int rec; int mtype; int clk; i64 value; View rel; u64 hash; int state; u32 chg; };

struct Pend { OpK k; uintptr_t addr; int obj; i64 deadline; int clock; /* CLOCK_REALTIME or MONOTONIC for deadline */ int wkind; bool spur, eintr; int target; u32 bits; };
struct SpinRec { uintptr_t pc; int loc; u64 id; };
struct Fiber {
  void* sp; char* stk; int tid; bool used, done; void(*fn)(void*); void* arg;
  View cur, acq, relf; u64 th; Pend p; bool woken; int variant;
  int err; u64 eh[2]; char tls[1024];
  void* keys[64]; 
  std::vector<std::pair<void(*)(void*),void*> > atexit_;
  std::vector<SpinRec> spin; bool spinning; std::vector<std::pair<int,u32> > watch; int idle_spins, qsp;
  mc::LastWait lw; const char* mustret; int steps; u64 ur[8]; int phase; std::vector<mc::HOp> hist;
};
struct Choice { int n, c; u8 kind; };

struct Cell { u32 gen; u32 wclk; tid_t_ wtid; u8 fl; u16 aloc; u8 wmask; u8 rmask[MAXR]; u32 r[MAXR]; uintptr_t a; };  // per 4-byte granule
enum { CF_FREED=1, CF_WROTE=2 };
struct Chunk { uintptr_t key; Cell c[16]; };

struct Inj { bool on; int err; };

struct G {
  bool active;       // inside an execution
  int in_rt;
  Fiber f[MAXT]; int nf; int cur;
  void* main_sp;
  mc::Config cfg; int stale, faults, early; int preempts;
  std::vector<Choice> ch; size_t depth, replay_len;
  std::vector<Obj> objs;
  std::vector<Loc*> locs; int nloc; 
  std::vector<int> lochash; // addr hash -> loc index+1
  std::vector<u32> lochgen;
  std::vector<Chunk*> chunks; size_t nchunks;
  u32 gen; std::vector<Cell*> touched; char *stklo,*stkhi; bool histfp;
  View sc;
  i64 mono, realoff; i64 spin_adv;
  u64 ghash; // commutative hash over objects and locations
  char* arena; size_t apos; long live, liveb; long nalloc;
  int end_reason; // 0 done 1 pruned 2 violation 3 stuck-ok
  std::string vmsg; bool violated;
  long step; 
  // statistics
  u64 states, transitions, execs, pruned, maxdepth, replays; u64 stuck_ok; u64 choices;
  // visited
  std::vector<u64> vis; std::vector<u8> visp; size_t nvis;
  bool logging; std::string log; 
  void(*final_fn)(); bool(*stuck_fn)(); bool stuck_allowed;
  Inj inj[mc::CALL_N]; int inj_count, inj_err; bool nomem_on;
  struct { bool used; void(*d)(void*); } key[64];
  bool noexplore; // forced replay only
  u64 max_states; double max_secs; double t0; bool truncated;
  std::vector<std::string> samples; long notes;
  volatile long watchdog_step; volatile long watchdog_exec; volatile int watchdog_hits;
  int sigjmp_ok;
  const char* scen; int shard,nshards;
  bool wd_in;
};
static G* g;
extern "C" { u64 mc_dummyregs[8] __attribute__((section("rtdata"))); u64* mc_curregs __attribute__((section("rtdata")))=mc_dummyregs; u64 mc_active __attribute__((section("rtdata")))=0; }
static char exe_lo_hi_init;
static uintptr_t exe_lo, exe_hi; // text range of the executable
struct Seg { char* lo; size_t len; char* save; };

// Runtime state kept out of the snapshot: everything that is not in *g lives in this section.
static std::vector<mc::Scenario>* scen_list RTD = 0;
static Seg segs[8] RTD; static int nsegs RTD = 0;
static char* tls_base RTD = 0; static size_t tls_size RTD = 0;

static double now_s(){ struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec+t.tv_nsec*1e-9; }

extern "C" long syscall(long n, ...) noexcept;
static long raw_syscall6(long n,long a,long b,long c,long d,long e,long f){
  long ret; register long r10 __asm__("r10")=d; register long r8 __asm__("r8")=e; register long r9 __asm__("r9")=f;
  __asm__ volatile("syscall":"=a"(ret):"a"(n),"D"(a),"S"(b),"d"(c),"r"(r10),"r"(r8),"r"(r9):"rcx","r11","memory");
  return ret;
}

static inline bool inmodel(){ return g && g->active && g->cur>=0 && !g->in_rt; }
struct RT { RT(){ g->in_rt++; } ~RT(){ g->in_rt--; } };
static inline bool from_exe(void* ra){ uintptr_t a=(uintptr_t)ra; return a>=exe_lo && a<exe_hi; }

// ---------------------------------------------------------------- context switch
extern "C" void mc_switch(void** save, void* to);
__asm__(
".text\n.globl mc_switch\n.type mc_switch,@function\nmc_switch:\n"
" pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
" movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
" popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n.size mc_switch,.-mc_switch\n");

static u64* ehg(){ return (u64*)abi::__cxa_get_globals(); }
static void save_ctx(Fiber& f){ f.err=errno; u64* e=ehg(); f.eh[0]=e[0]; f.eh[1]=e[1]; if(tls_size) memcpy(f.tls,tls_base,tls_size); }
static void load_ctx(Fiber& f){ errno=f.err; u64* e=ehg(); e[0]=f.eh[0]; e[1]=f.eh[1]; if(tls_size) memcpy(tls_base,f.tls,tls_size); }
static void switch_to(int t){
  int o=g->cur; if(o==t) return;
  Fiber& a=g->f[o]; Fiber& b=g->f[t];
  save_ctx(a); g->cur=t; load_ctx(b); mc_curregs=b.ur;
  mc_switch(&a.sp, b.sp);
}
static void __attribute__((noreturn)) end_exec(int reason){
  g->end_reason=reason; void* dummy; 
  mc_switch(&dummy, g->main_sp); __builtin_unreachable();
}

// ---------------------------------------------------------------- logging / violations
static void logf_(const char* fmt, ...){
  if(!g->logging) return; char b[512]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  g->log+=b; g->log+="\n";
}
#define LOG(...) do{ if(g->logging) logf_(__VA_ARGS__); }while(0)
static void __attribute__((noreturn)) violation(const char* fmt, ...){
  char b[1024]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); g->in_rt++;
  g->vmsg=b; g->violated=true; LOG("VIOLATION: %s",b);
  end_exec(2);
}
static const char* tname(int t){ static char b[MAXT][16]; snprintf(b[t],16,"T%d",t); return b[t]; }

// ---------------------------------------------------------------- shadow memory
static Chunk* chunk_get(uintptr_t key){
  size_t m=g->chunks.size()-1; size_t i=(key*0x9e3779b97f4a7c15ULL>>32)&m;
  for(;;){ Chunk* c=g->chunks[i]; if(!c){
      if(g->nchunks*2>g->chunks.size()){ std::vector<Chunk*> n(g->chunks.size()*2,(Chunk*)0); size_t mm=n.size()-1;
        for(size_t j=0;j<g->chunks.size();j++) if(g->chunks[j]){ size_t k=(g->chunks[j]->key*0x9e3779b97f4a7c15ULL>>32)&mm; while(n[k]) k=(k+1)&mm; n[k]=g->chunks[j]; }
        g->chunks.swap(n); return chunk_get(key); }
      c=(Chunk*)calloc(1,sizeof(Chunk)); c->key=key; g->chunks[i]=c; g->nchunks++; return c; }
    if(c->key==key) return c; i=(i+1)&m; }
}
static inline Cell* cell(uintptr_t a){
  static uintptr_t lk RTD=~0ul; static Chunk* lc RTD=0;
  uintptr_t k=a>>6; if(k!=lk){ lc=chunk_get(k); lk=k; }
  Cell* c=&lc->c[(a&63)>>2]; if(c->gen!=g->gen){ memset((void*)c,0,sizeof *c); c->gen=g->gen; c->a=a&~3ul; if(!((char*)a>=g->stklo && (char*)a<g->stkhi)) g->touched.push_back(c); } return c;
}
static const char* where(uintptr_t a){
  static char b[96] RTD;
  if((char*)a>=g->arena && (char*)a<g->arena+ARENA) snprintf(b,sizeof b,"heap+0x%lx",(long)((char*)a-g->arena));
  else { for(int i=0;i<g->nf;i++) if((char*)a>=g->f[i].stk && (char*)a<g->f[i].stk+STK){ snprintf(b,sizeof b,"stack of T%d",i); return b; } snprintf(b,sizeof b,"global 0x%lx",(long)(a-exe_lo)); }
  return b;
}
static void race(const char* k1, uintptr_t a, int t, int u, const char* k2, void* pc){
  violation("data race: %s by T%d on %s is not ordered with earlier %s by T%d [pc=0x%lx]",k1,t,where(a),k2,u,(long)((uintptr_t)pc-exe_lo));
}
static inline u8 gmask(uintptr_t a,uintptr_t lo,uintptr_t hi){ u8 m=0; for(int b=0;b<4;b++) if(a+b>=lo&&a+b<hi) m|=1<<b; return m; }
static uintptr_t errno_at;
static void plain(uintptr_t a, size_t n, bool w, void* pc){
  if((char*)a>=tls_base && (char*)a<tls_base+tls_size) return;   // thread-local variables (same address in all fibers)
  if(a==errno_at) return;   // so is errno (saved and restored with the fiber)
  int t=g->cur; Fiber& f=g->f[t]; u32 clk=f.cur.vc[t];
  for(uintptr_t p=a&~3ul;p<a+n;p+=4){
    Cell* c=cell(p); u8 m=gmask(p,a,a+n);
    if(c->fl&CF_FREED) violation("use of freed memory: %s by T%d on %s (freed by T%d) [pc=0x%lx]",w?"write":"read",t,where(p),c->wtid,(long)((uintptr_t)pc-exe_lo));
    if((c->fl&CF_WROTE) && c->wtid!=t && (c->wmask&m) && c->wclk>f.cur.vc[c->wtid]) race(w?"write":"read",p,t,c->wtid,"write",pc);
    if(w){
      if(MAXR>1) for(int u=0;u<g->nf;u++) if(u!=t && (c->rmask[u]&m) && c->r[u]>f.cur.vc[u]) race("write",p,t,u,"read",pc);
      if(c->aloc){ Loc* l=g->locs[c->aloc-1]; if(l->gen==g->gen && (gmask(p,l->addr,l->addr+l->size)&m)){ for(int u=0;u<g->nf&&MAXR>1;u++) if(u!=t){ if(l->aw[u]>f.cur.vc[u]) race("write",p,t,u,"atomic write",pc); if(l->ar[u]>f.cur.vc[u]) race("write",p,t,u,"atomic read",pc); } l->dirty=true; } }
      if((c->fl&CF_WROTE)&&c->wtid==t&&c->wclk==clk) c->wmask|=m; else { c->fl|=CF_WROTE; c->wtid=t; c->wclk=clk; c->wmask=m; }
    } else {
      if(c->aloc){ Loc* l=g->locs[c->aloc-1]; if(l->gen==g->gen && (gmask(p,l->addr,l->addr+l->size)&m)) for(int u=0;u<g->nf&&MAXR>1;u++) if(u!=t && l->aw[u]>f.cur.vc[u]) race("read",p,t,u,"atomic write",pc); }
      if(MAXR==1); else if(c->r[t]==clk) c->rmask[t]|=m; else { c->r[t]=clk; c->rmask[t]=m; }
    }
  }
}
// access of a model object (mutex, semaphore, futex word...): conflicts with unordered plain writes (init, destroy, free)
static void touch(uintptr_t a, const char* what){
  int t=g->cur; Fiber& f=g->f[t]; Cell* c=cell(a);
  if(c->fl&CF_FREED) violation("use of freed memory: %s by T%d on %s (freed by T%d)",what,t,where(a),c->wtid);
  if((c->fl&CF_WROTE) && c->wtid!=t && c->wclk>f.cur.vc[c->wtid]) violation("data race: %s by T%d on %s is not ordered with its initialisation or destruction by T%d",what,t,where(a),c->wtid);
  if(MAXR>1){ c->r[t]=f.cur.vc[t]; c->rmask[t]=15; }
}

// ---------------------------------------------------------------- scheduling
static inline Fiber& me(){ return g->f[g->cur]; }
static inline void thmix(u64 x){ Fiber& f=me(); f.th=mix(f.th,x); }
static u32 last_ts_(Loc* l){ return l->base+l->msgs.size()-1; }
static void obj_rehash(Obj& o, u64 h){ o.chg++; g->ghash-=mix(o.addr,o.hash); o.hash=h; g->ghash+=mix(o.addr,o.hash); }
static void loc_rehash(Loc& l, u64 h){ g->ghash-=mix(l.addr,l.hash); l.hash=h; g->ghash+=mix(l.addr,l.hash); }

extern std::vector<Choice> forced_; extern bool forcing_;
static int choice(int n, u8 kind){
  if(n<=1) return 0;
  if(forcing_){ int c= g->depth<forced_.size()? forced_[g->depth].c : 0; g->depth++; if(c>=n){ fprintf(stderr,"mc: replay does not fit this build\n"); _exit(3); } return c; }
  if(g->depth<g->replay_len){ Choice& c=g->ch[g->depth]; 
    if(c.n!=n||c.kind!=kind){ fprintf(stderr,"mc: nondeterministic replay in %s at depth %zu: n=%d kind=%d, recorded n=%d kind=%d\n",g->scen,g->depth,n,kind,c.n,c.kind); fprintf(stderr,"%s\n",g->log.c_str()); _exit(3); }
    g->depth++; return c.c; }
  if(g->noexplore){ return 0; }
  g->ch.push_back(Choice{n,0,kind}); if(kind!=1) g->states++; g->depth++; g->replay_len=g->depth; g->choices++; return 0;
}
// which of n waiting threads is woken; with a fixed schedule only the first and the last one are tried
// what a spinning thread polls: an atomic location or (from SPOBJ on) a mutex or semaphore
enum { SPOBJ=1<<24 };
static u32 sp_chg(int loc){ return loc>=SPOBJ? g->objs[loc-SPOBJ].chg : g->locs[loc]->chg; }
static uintptr_t sp_addr(int loc){ return loc>=SPOBJ? g->objs[loc-SPOBJ].addr+1 : g->locs[loc]->addr; }
static int wake_choice(int n){ if(MAXT>64) return 0; if(g->cfg.fixed&&n>2) return choice(2,6)?n-1:0; return choice(n,6); }
static i64 clk_now(int clock){ return clock==CLOCK_REALTIME? g->mono+g->realoff : g->mono; }
static i64 dl_mono(const Pend& p){ if(p.deadline==NOTIME) return NOTIME; return p.clock==CLOCK_REALTIME? p.deadline-g->realoff : p.deadline; }
static bool expired(const Pend& p){ return p.deadline!=NOTIME && clk_now(p.clock)>=p.deadline; }
static bool other_active(int self);
static bool enabled(int t){
  Fiber& f=g->f[t]; if(!f.used||f.done) return false;
  if(f.spinning){ for(auto& w: f.watch) if(sp_chg(w.first)!=w.second) { f.spinning=false; break; } if(f.spinning) return false; }
  switch(f.p.k){
    case OP_LOCK: { Obj& o=g->objs[f.p.obj]; return o.owner<0 || (o.owner==t && o.mtype!=PTHREAD_MUTEX_NORMAL) || expired(f.p) || o.dead; }
    case OP_WAITING: return f.woken || expired(f.p);
    case OP_SEMWAIT: { Obj& o=g->objs[f.p.obj]; return o.value>0 || expired(f.p) || o.dead; }
    case OP_JOIN: return g->f[f.p.target].done;
    case OP_QUIESCE: return false; // handled separately
    case OP_ONCE: return g->objs[f.p.obj].state!=1;
    case OP_FLAGWAIT: return g->objs[f.p.obj].state!=0;
    case OP_SLEEP: return expired(f.p);
    default: return true;
  }
}
static std::string stuck_desc(){
  std::string s; for(int i=0;i<g->nf;i++){ Fiber& f=g->f[i]; if(f.used&&!f.done){ char b[160]; snprintf(b,sizeof b,"%sT%d blocked in %s%s",s.empty()?"":", ",i,f.spinning?"a spin loop":opname[f.p.k],f.p.deadline!=NOTIME?" (timed)":""); s+=b; } } return s;
}
static u64 hist_fingerprint(){
  u64 h=g->ghash; for(int i=0;i<g->nf;i++){ Fiber& f=g->f[i]; h+=mix(f.th+f.done+2*f.woken, i+1000); }
  h=mix(h,g->mono); h=mix(h,g->realoff); h=mix(h,g->stale*10000+g->faults*100+g->early); h=mix(h,g->nf); h=mix(h,g->inj_count); 
  return h;
}
// hash of the complete concrete state, with clocks and timestamps replaced by ranks (so that it does not depend on history)
struct HS { u64 h; void add(u64 x){ h=(h^x)*0x9fb21c651e98df25ULL; h^=h>>29; } void mem(const void* p,size_t n){ const u64* q=(const u64*)p; size_t k=n/8; u64 a=h; for(size_t i=0;i<k;i++){ a=(a^q[i])*0xd6e8feb86659fd93ULL; a^=a>>32; } if(n&7){ u64 x=0; memcpy(&x,(const char*)p+k*8,n&7); a=(a^x)*0xd6e8feb86659fd93ULL; a^=a>>32; } h=a; } };
struct Ranks { u64 bits[VCN][64]; u16 pre[VCN][65]; u32 maxv[VCN];
  void set(int t,u32 v){ if(v<4096) bits[t][v>>6]|=1ull<<(v&63); }
  int rank(int t,u32 v){ if(v>=4096) return 4096+v; return pre[t][v>>6]+__builtin_popcountll(bits[t][v>>6]&((v&63)==63?~0ull:((1ull<<((v&63)+1))-1))); } };
static Ranks RK RTD;
static std::vector<Seg>* snap RTD=0;
static u64 state_fingerprint(){
  if(MAXR==1) return mix(g->execs,g->step);
  int nf=g->nf; u32 words[VCN];
  for(int t=0;t<nf;t++){ words[t]=std::min<u32>(63,(g->f[t].cur.vc[t]>>6)); memset(RK.bits[t],0,(words[t]+1)*8); }
  for(Cell* c: g->touched){ if(c->fl&CF_WROTE) RK.set(c->wtid,c->wclk); for(int t=0;t<nf;t++) if(c->r[t]) RK.set(t,c->r[t]); }
  for(int i=0;i<g->nloc;i++){ Loc* l=g->locs[i]; for(int t=0;t<nf;t++){ if(l->aw[t]) RK.set(t,l->aw[t]); if(l->ar[t]) RK.set(t,l->ar[t]); } }
  for(int t=0;t<nf;t++) for(auto& h: g->f[t].hist) if(h.done) RK.set(t,h.endclk);
  for(int t=0;t<nf;t++){ int a=0; for(u32 w=0;w<=words[t];w++){ RK.pre[t][w]=a; a+=__builtin_popcountll(RK.bits[t][w]); } }
  HS s; s.h=0x1234567;
  static int ord[1024] RTD; for(int i=0;i<g->nloc;i++) ord[i]=i; std::sort(ord,ord+g->nloc,[](int a,int b){ return g->locs[a]->addr<g->locs[b]->addr; });
  auto view=[&](const View& v){ u64 a=0; for(int t=0;t<nf;t++){ a=a*131+RK.rank(t,v.vc[t]); } s.add(a); if(g->cfg.stale) for(int q=0;q<g->nloc;q++){ int i=ord[q]; if(i>=MAXLOC) continue; Loc* l=g->locs[i]; if(l->dirty) continue; u32 last=l->base+l->msgs.size()-1; s.add(v.ts[i]>=l->base? last-v.ts[i] : last-l->base+1); } };
  { u64 sum=0; for(Cell* c: g->touched){ HS q; q.h=c->a; q.add(c->fl|(c->fl&CF_WROTE?(u64)c->wtid<<8|(u64)c->wmask<<16|(u64)RK.rank(c->wtid,c->wclk)<<24:0)); u64 b=0; for(int t=0;t<nf;t++) b=b*4099+(c->r[t]?RK.rank(t,c->r[t])*16+c->rmask[t]:0); q.add(b); sum+=mix(q.h,c->a); } s.add(sum); }
  // heap and globals
  s.mem(g->arena+64,(g->apos-64+7)&~7ul);
  for(auto& q: *snap) s.mem(q.lo,q.len);
  for(int t=0;t<nf;t++){ Fiber& f=g->f[t]; s.add(f.done|f.woken<<1|f.used<<2|f.spinning<<3|f.phase<<8|(u64)f.qsp<<20); view(f.cur); if(f.done) continue;
    view(f.acq); view(f.relf); s.add(f.p.k|(u64)f.p.wkind<<8|(u64)f.p.clock<<16|(u64)(f.p.k==OP_JOIN||f.p.k==OP_WAITING?f.p.target:0)<<32); s.add(f.p.k==OP_WAITING?f.p.bits:0); s.add(f.p.addr); s.add(f.p.deadline); s.add(f.err); s.add(f.eh[0]); s.add(f.eh[1]);
    for(int k=1;k<8;k++) s.add((u64)f.keys[k]); s.add(f.atexit_.size()); for(auto& e: f.atexit_){ s.add((u64)e.first); s.add((u64)e.second); }
    if(f.p.k==OP_START){ s.add((u64)f.fn); s.add((u64)f.arg); } else { for(int k=0;k<7;k++) s.add(f.ur[k]); char* sp=(char*)f.ur[6]; if(sp>=f.stk&&sp<f.stk+STK) s.mem(sp,f.stk+STK-sp); }
    if(tls_size) s.mem(t==g->cur?tls_base:f.tls,tls_size);
    for(auto& r: f.spin) { int cur=0; u32 chg=sp_chg(r.loc); for(u64 k: {0,3,5,7}) if(r.id==mix(chg,k)) cur=k+1; if(cur){ s.add(r.pc); s.add(sp_addr(r.loc)); s.add(cur); } }
    if(f.spinning) for(auto& w: f.watch) s.add(sp_addr(w.first)*2+(sp_chg(w.first)==w.second));
    s.add(f.lw.kind|(u64)f.lw.clock<<8|(u64)f.lw.abs<<16|(u64)f.lw.has_timeout<<17); s.add(f.lw.sec); s.add(f.lw.nsec);
  }
  { HS keep=s; u64 sum=0; for(auto& o: g->objs){ if(o.dead||o.type==T_NONE) continue; s.h=o.addr; s.add(o.type|o.owner<<8|(u64)o.rec<<16|(u64)o.state<<24|(u64)o.clk<<32|(u64)o.mtype<<40); s.add(o.value); view(o.rel); sum+=mix(s.h,o.addr); } s=keep; s.add(sum); }
  for(int q=0;q<g->nloc;q++){ int i=ord[q]; Loc* l=g->locs[i]; s.add(l->addr*2+l->dirty); { u64 b=0; for(int t=0;t<nf;t++) b=b*4099+RK.rank(t,l->aw[t])*64+RK.rank(t,l->ar[t]); s.add(b); } if(l->dirty) continue;
    int n=l->msgs.size(); int lo=n-1; if(g->stale>0&&i<MAXLOC){ for(int t=0;t<nf;t++) if(!g->f[t].done){ u32 ts=g->f[t].cur.ts[i]; int k=ts>l->base?(int)(ts-l->base):0; if(k<lo) lo=k; } if(n-1-lo>4) lo=n-5; }
    s.add(n-lo); for(int k=lo;k<n;k++){ s.add(l->msgs[k].val); view(l->msgs[k].rel); } s.add(l->scts?last_ts_(l)-l->scts:~0u); }
  if(g->stale) view(g->sc);
  for(int t=0;t<nf;t++){ s.add(g->f[t].hist.size()); for(auto& h: g->f[t].hist){ s.add(h.kind|(u64)h.obj<<8|(u64)h.arg<<16|(u64)h.done<<60); if(h.done){ s.add(h.result); s.add(RK.rank(t,h.endclk)); }
    u64 m=0; for(int u=0;u<nf;u++) for(auto& q: g->f[u].hist) m=m*2+mc::hb(q,h); s.add(m); } }
  s.add(g->mono); s.add(g->realoff); s.add(g->stale*10000+g->faults*100+g->early); s.add(nf); s.add(g->inj_count|(u64)g->inj_err<<16|(u64)g->nomem_on<<40|(u64)g->stuck_allowed<<41); s.add((u64)g->final_fn); s.add((u64)g->stuck_fn);
  for(int k=0;k<mc::CALL_N;k++) s.add(g->inj[k].on?g->inj[k].err+1:0); for(int k=1;k<8;k++) s.add(g->key[k].used?(u64)g->key[k].d:0);
  return s.h;
}
static u64 fingerprint(){
  u64 h=g->histfp? hist_fingerprint() : state_fingerprint();
  if(g->cfg.preempt>=0) h=mix(h,g->cur);
  return h?h:1;
}
static bool vis_prune(u64 h, u8 used){
  if((g->nvis+1)*2>g->vis.size()){ size_t n=g->vis.size()*2; std::vector<u64> v(n,0); std::vector<u8> p(n,0); for(size_t i=0;i<g->vis.size();i++) if(g->vis[i]){ size_t k=g->vis[i]&(n-1); while(v[k]) k=(k+1)&(n-1); v[k]=g->vis[i]; p[k]=g->visp[i]; } g->vis.swap(v); g->visp.swap(p); }
  size_t m=g->vis.size()-1,k=h&m; while(g->vis[k]&&g->vis[k]!=h) k=(k+1)&m;
  if(g->vis[k]==h){ if(g->visp[k]<=used) return true; g->visp[k]=used; return false; }
  g->vis[k]=h; g->visp[k]=used; g->nvis++; g->states++; return false;
}
enum { V_RUN=0, V_SPUR=1, V_EINTR=2, V_CLOCK=3, V_IDLECLOCK=4 };
static bool call_stuck(){ bool r=false; g->active=false; int c=g->cur; try { r=g->stuck_fn(); } catch(int){} g->active=true; g->cur=c; return r; }
// Picks the next thread to run. Called on the stack of the current fiber; returns when the current fiber is granted.
static void pick(){
  g->in_rt++;
  int self=g->cur;
  for(;;){
    struct Alt{ int t,v; } alts[3*(MAXR==1?4:MAXT)+64]; int n=0;
    bool selfen=enabled(self);
    if(selfen) alts[n++]=Alt{self,V_RUN};
    for(int t=0;t<g->nf;t++){ if(MAXR==1&&n) break; if(t!=self && enabled(t)) alts[n++]=Alt{t,V_RUN}; }
    int nrun=n;
    if(n==0){
      // quiescent: quiesce waiters, then time, then spinners, then stuck
      int q=-1; for(int t=0;t<g->nf;t++) if(g->f[t].used&&!g->f[t].done&&g->f[t].p.k==OP_QUIESCE){ q=t; break; }
      int qs=-1; for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done&&f.spinning&&f.qsp<3){ qs=t; break; } }
      if(qs>=0){ g->f[qs].qsp++; g->f[qs].spinning=false; g->f[qs].spin.clear(); alts[n++]=Alt{(int)qs,V_RUN}; }
      else if(q>=0){ alts[n++]=Alt{(int)q,V_RUN}; }
      else {
        i64 best=NOTIME; for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done){ i64 d=dl_mono(f.p); if(d!=NOTIME && d>g->mono && d<best) best=d; } }
        if(best!=NOTIME){ alts[n++]=Alt{0,V_IDLECLOCK}; goto have; }
        int s=-1; for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done&&f.spinning&&f.idle_spins<300){ s=t; break; } }
        if(s>=0){ g->f[s].idle_spins++; g->f[s].spinning=false; g->f[s].spin.clear(); 
          // fall through: schedule it alone
          alts[n++]=Alt{(int)s,V_RUN}; }
        else {
          bool all=true; for(int t=0;t<g->nf;t++) if(g->f[t].used&&!g->f[t].done) all=false;
          if(all) end_exec(0);
          for(int t=0;t<g->nf;t++) if(g->f[t].used&&!g->f[t].done&&g->f[t].mustret) violation("%s does not return: %s",g->f[t].mustret,stuck_desc().c_str());
          if(g->stuck_allowed || (g->stuck_fn && call_stuck())) { g->stuck_ok++; LOG("-- stuck (allowed): %s",stuck_desc().c_str()); end_exec(3); }
          if(g->violated) end_exec(2);
          violation("no thread can make progress: %s",stuck_desc().c_str());
        }
      }
    } else {
      if(g->cfg.fixed || (g->cfg.preempt>=0 && selfen && g->preempts>=g->cfg.preempt)) n=1;
    }
    have:
    // environment alternatives
    if(g->faults>0 && (g->cfg.fmask&(mc::F_SPURIOUS|mc::F_EINTR)) && n<40) for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(!f.used||f.done) continue;
        if(f.p.k==OP_WAITING && !f.woken && !expired(f.p)){ if(f.p.spur&&(g->cfg.fmask&mc::F_SPURIOUS)) alts[n++]=Alt{(int)t,V_SPUR}; if(f.p.eintr&&(g->cfg.fmask&mc::F_EINTR)) alts[n++]=Alt{(int)t,V_EINTR}; }
        if(f.p.k==OP_SEMWAIT && !enabled(t) && (g->cfg.fmask&mc::F_EINTR)) alts[n++]=Alt{(int)t,V_EINTR}; }
    if(nrun>0 && g->early>0){ for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done){ i64 d=dl_mono(f.p); if(d!=NOTIME && d>g->mono){ alts[n++]=Alt{0,V_CLOCK}; break; } } } }
    int c=0;
    if(n>1){
      if(g->depth>=g->replay_len && !g->noexplore){ if(vis_prune(fingerprint(),(u8)std::min(g->preempts,255))) { g->pruned++; end_exec(1); } }
      c=choice(n,1);
    }
    Alt a=alts[c];
    if(a.v==V_CLOCK||a.v==V_IDLECLOCK){ i64 best=NOTIME; for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done){ i64 d=dl_mono(f.p); if(d!=NOTIME && d>g->mono && d<best) best=d; } }
      if(a.v==V_CLOCK) g->early--; g->mono=best; LOG("-- time advances to mono=%ld.%09ld",(long)(g->mono/1000000000),(long)(g->mono%1000000000)); g->transitions++; continue; }
    Fiber& f=g->f[a.t]; f.variant=a.v;
    if(a.v==V_SPUR||a.v==V_EINTR) g->faults--;
    if(selfen && a.t!=self) g->preempts++;
    g->step++; if(g->step>g->cfg.steps){ violation("execution does not terminate within %d steps (livelock): %s",g->cfg.steps,stuck_desc().c_str()); }
    if(g->depth>=g->replay_len) g->transitions++;
    if(a.t!=self){ g->in_rt--; switch_to(a.t); return; }
    break;
  }
  g->in_rt--;
}
static void point(OpK k, uintptr_t addr=0, int obj=-1, i64 deadline=NOTIME, int clock=CLOCK_MONOTONIC){
  Fiber& f=me(); f.p.k=k; f.p.addr=addr; f.p.obj=obj; f.p.deadline=deadline; f.p.clock=clock; f.p.spur=f.p.eintr=false; f.variant=V_RUN;
  if(f.spinning && (k==OP_LOCK||k==OP_WAITING||k==OP_SEMWAIT||k==OP_JOIN||k==OP_QUIESCE||k==OP_ONCE||k==OP_FLAGWAIT||k==OP_SLEEP)){ f.spinning=false; f.spin.clear(); f.watch.clear(); } // it polls no longer
  pick();
  f.p.k=OP_NONE; f.p.deadline=NOTIME; 
}
static void bump(){ Fiber& f=me(); f.cur.vc[f.tid]++; }
static void progress(){ Fiber& f=me(); f.qsp=0; f.spin.clear(); f.spinning=false; f.watch.clear(); }
static void spin_read(void* pc, int loc, u64 id){
  Fiber& f=me(); 
  for(auto& r: f.spin) if(r.pc==(uintptr_t)pc && r.loc==loc && r.id==id){
    f.spinning=true; f.watch.clear(); for(auto& q: f.spin) f.watch.push_back(std::make_pair(q.loc,sp_chg(q.loc))); f.spin.clear(); return; }
  f.spin.push_back(SpinRec{(uintptr_t)pc,loc,id});
}

// ---------------------------------------------------------------- atomics
static Loc* loc_get(uintptr_t a, int size){
  size_t m=g->lochash.size()-1,k=(a*0x9e3779b97f4a7c15ULL>>40)&m;
  while(g->lochgen[k]==g->gen){ Loc* l=g->locs[g->lochash[k]]; if(l->addr==a){ 
      if(l->size!=size) l->dirty=true; l->size=size; 
      if(l->dirty){ u32 nb=l->base+l->msgs.size(); l->base=nb; l->msgs.clear(); goto fill; } return l; 
      fill: { u64 v=0; memcpy(&v,(void*)a,size); Msg mm; memset(&mm,0,sizeof mm); mm.val=v; mm.id=mix(a,v+77+l->base); mm.tid=255; l->msgs.push_back(mm); l->dirty=false; l->chg++; loc_rehash(*l,mix(mm.id,1)); return l; } }
    k=(k+1)&m; }
  int idx=g->nloc++; if((size_t)g->nloc*2>g->lochash.size()) violation("internal: too many atomic locations");
  if(idx>=(int)g->locs.size()) g->locs.push_back(new Loc());
  Loc* l=g->locs[idx]; g->lochash[k]=idx; g->lochgen[k]=g->gen;
  l->addr=a; l->gen=g->gen; l->size=size; l->base=1; l->msgs.clear(); l->scts=0; memset((void*)&l->aw,0,sizeof l->aw); memset((void*)&l->ar,0,sizeof l->ar); l->hash=0; l->dirty=false; l->chg=0;
  u64 v=0; memcpy(&v,(void*)a,size); Msg mm; memset(&mm,0,sizeof mm); mm.val=v; mm.id=mix(a,v+77); mm.tid=255; l->msgs.push_back(mm); g->ghash+=mix(l->addr,l->hash); loc_rehash(*l,mm.id);
  for(uintptr_t p=a&~3ul;p<a+size;p+=4) cell(p)->aloc=idx+1;
  l->idx=idx; return l;
}
static inline int lidx(Loc* l){ return l->idx; }
static inline bool acq(int mo){ return mo==__ATOMIC_ACQUIRE||mo==__ATOMIC_CONSUME||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static inline bool rel(int mo){ return mo==__ATOMIC_RELEASE||mo==__ATOMIC_ACQ_REL||mo==__ATOMIC_SEQ_CST; }
static const char* moname(int mo){ static const char* n[]={"relaxed","consume","acquire","release","acq_rel","seq_cst"}; return mo>=0&&mo<6?n[mo]:"?"; }
static void arace(uintptr_t a,int size,bool w,void* pc){
  int t=g->cur; Fiber& f=me();
  for(uintptr_t p=a&~3ul;p<a+size;p+=4){ Cell* c=cell(p); u8 m=gmask(p,a,a+size);
    if(c->fl&CF_FREED) violation("use of freed memory: atomic %s by T%d on %s (freed by T%d) [pc=0x%lx]",w?"write":"read",t,where(a),c->wtid,(long)((uintptr_t)pc-exe_lo));
    if((c->fl&CF_WROTE)&&c->wtid!=t&&(c->wmask&m)&&c->wclk>f.cur.vc[c->wtid]) race(w?"atomic write":"atomic read",a,t,c->wtid,"write",pc);
    if(w&&MAXR>1) for(int u=0;u<g->nf;u++) if(u!=t&&(c->rmask[u]&m)&&c->r[u]>f.cur.vc[u]) race("atomic write",a,t,u,"read",pc); }
}
static u32 last_ts(Loc* l){ return l->base+l->msgs.size()-1; }
static void read_msg(Loc* l,int i,int mo){
  Fiber& f=me(); int ix=lidx(l); Msg& m=l->msgs[i]; u32 ts=l->base+i;
  if(ix<MAXLOC && f.cur.ts[ix]<ts) f.cur.ts[ix]=ts;
  if(acq(mo)) f.cur.join(m.rel); else f.acq.join(m.rel);
  l->ar[f.tid]=f.cur.vc[f.tid]; thmix(m.id);
}
static void write_msg(Loc* l,u64 val,int mo,const View* carry,bool rmw){
  Fiber& f=me(); int ix=lidx(l); u64 oldv=l->msgs.back().val;
  Msg m; m.val=val; m.tid=f.tid; m.rel.clear(); u32 ts=last_ts(l)+1; 
  if(ix<MAXLOC) f.cur.ts[ix]=ts;
  if(rel(mo)) m.rel=f.cur; else { m.rel=f.relf; }
  if(ix<MAXLOC) m.rel.ts[ix]=ts;
  if(carry) m.rel.join(*carry);
  thmix(mix(l->addr,val)); m.id=mix(f.th,val); 
  l->msgs.push_back(m); l->aw[f.tid]=f.cur.vc[f.tid];
  if(mo==__ATOMIC_SEQ_CST){ l->scts=ts; if(ix<MAXLOC) g->sc.ts[ix]=ts; }
  loc_rehash(*l,mix(l->hash,m.id)); 
  if(oldv!=val||!rmw) l->chg++;
  memcpy((void*)l->addr,&val,l->size);
  if(rel(mo)) bump();
}
static u64 a_load(uintptr_t a,int size,int mo,void* pc){
  point(OP_ATOMIC,a); RT rt; arace(a,size,false,pc); Loc* l=loc_get(a,size); Fiber& f=me(); int ix=lidx(l);
  int n=l->msgs.size(); int lo=n-1;
  if(g->stale>0 && ix<MAXLOC){ u32 mn=f.cur.ts[ix]; if(mo==__ATOMIC_SEQ_CST && l->scts>mn) mn=l->scts; int i0= mn>l->base? (int)(mn-l->base):0; if(i0<lo) lo=i0; if(n-1-lo>3) lo=n-4; }
  int c=choice(n-lo,2); if(c) g->stale--;
  int i=n-1-c; LOG("[T%d] load%d %s %s -> 0x%lx%s",f.tid,size*8,where(a),moname(mo),(long)l->msgs[i].val,c?" (stale)":"");
  u64 v=l->msgs[i].val; read_msg(l,i,mo); 
  if(c) progress(); else spin_read(pc,ix,mix(l->chg,0)); 
  return v;
}
static void a_store(uintptr_t a,int size,u64 v,int mo,void* pc){
  point(OP_ATOMIC,a); RT rt; arace(a,size,true,pc); Loc* l=loc_get(a,size);
  LOG("[T%d] store%d %s %s 0x%lx",g->cur,size*8,where(a),moname(mo),(long)v);
  write_msg(l,v,mo,0,false); progress();
}
template<class F> static u64 a_rmw(uintptr_t a,int size,int mo,void* pc,const char* nm,F fn){
  point(OP_ATOMIC,a); RT rt; arace(a,size,true,pc); Loc* l=loc_get(a,size); int i=l->msgs.size()-1; u64 old=l->msgs[i].val; u64 mask=size==8?~0ULL:((1ULL<<(8*size))-1); u64 nv=fn(old)&mask;
  LOG("[T%d] %s%d %s %s 0x%lx -> 0x%lx",g->cur,nm,size*8,where(a),moname(mo),(long)old,(long)nv);
  View carry=l->msgs[i].rel; read_msg(l,i,mo);
  if(nv==old){ if(rel(mo)){ if(!carry.covers(me().cur)) write_msg(l,nv,mo,&carry,true); } l->aw[g->cur]=me().cur.vc[g->cur]; spin_read(pc,lidx(l),mix(l->chg,3)); }
  else { write_msg(l,nv,mo,&carry,true); progress(); }
  if(mo==__ATOMIC_SEQ_CST) l->scts=last_ts(l);
  return old;
}
static bool a_cas(uintptr_t a,int size,u64* exp,u64 des,int mo,int fmo,bool weak,void* pc){
  point(OP_ATOMIC,a); RT rt; arace(a,size,true,pc); Loc* l=loc_get(a,size); int i=l->msgs.size()-1; u64 old=l->msgs[i].val;
  if(old==*exp){
    if(weak && g->faults>0 && (g->cfg.fmask&mc::F_CASWEAK)){ if(choice(2,3)){ g->faults--; LOG("[T%d] cas_weak%d %s spurious failure",g->cur,size*8,where(a)); read_msg(l,i,fmo); thmix(99); progress(); return false; } }
    LOG("[T%d] cas%d %s %s 0x%lx -> 0x%lx ok",g->cur,size*8,where(a),moname(mo),(long)old,(long)des);
    View carry=l->msgs[i].rel; read_msg(l,i,mo); 
    if(des==old && !(rel(mo) && !carry.covers(me().cur))){ l->aw[g->cur]=me().cur.vc[g->cur]; thmix(98); }
    else write_msg(l,des,mo,&carry,true);
    progress(); if(mo==__ATOMIC_SEQ_CST) l->scts=last_ts(l); return true; }
  LOG("[T%d] cas%d %s expected 0x%lx, is 0x%lx: fails",g->cur,size*8,where(a),(long)*exp,(long)old);
  *exp=old; read_msg(l,i,fmo); spin_read(pc,lidx(l),mix(l->chg,5)); return false;
}
static void a_fence(int mo){
  point(OP_FENCE); RT rt; Fiber& f=me(); LOG("[T%d] fence %s",f.tid,moname(mo));
  if(acq(mo)) f.cur.join(f.acq);
  if(mo==__ATOMIC_SEQ_CST){ f.cur.join_ts(g->sc); g->sc.join_ts(f.cur); g->ghash+=mix(f.th,4242); }
  if(rel(mo)){ f.relf=f.cur; bump(); }
  thmix(mo+500);
}
extern "C" { extern u64 mc_ra; }
#define PC ((void*)mc_ra)
extern "C" {
#define ATOMICS(B,T) \
T I__tsan_atomic##B##_load(const volatile T* a,int mo){ if(!inmodel()) return *a; return (T)a_load((uintptr_t)a,sizeof(T),mo,PC); } \
void I__tsan_atomic##B##_store(volatile T* a,T v,int mo){ if(!inmodel()){ *a=v; return; } a_store((uintptr_t)a,sizeof(T),v,mo,PC); } \
T I__tsan_atomic##B##_exchange(volatile T* a,T v,int mo){ if(!inmodel()){ T o=*a; *a=v; return o; } return (T)a_rmw((uintptr_t)a,sizeof(T),mo,PC,"xchg",[=](u64){return (u64)v;}); } \
T I__tsan_atomic##B##_fetch_add(volatile T* a,T v,int mo){ if(!inmodel()){ T o=*a; *a=o+v; return o; } return (T)a_rmw((uintptr_t)a,sizeof(T),mo,PC,"add",[=](u64 o){return o+(u64)v;}); } \
T I__tsan_atomic##B##_fetch_sub(volatile T* a,T v,int mo){ if(!inmodel()){ T o=*a; *a=o-v; return o; } return (T)a_rmw((uintptr_t)a,sizeof(T),mo,PC,"sub",[=](u64 o){return o-(u64)v;}); } \
T I__tsan_atomic##B##_fetch_and(volatile T* a,T v,int mo){ if(!inmodel()){ T o=*a; *a=o&v; return o; } return (T)a_rmw((uintptr_t)a,sizeof(T),mo,PC,"and",[=](u64 o){return o&(u64)v;}); } \
T I__tsan_atomic##B##_fetch_or(volatile T* a,T v,int mo){ if(!inmodel()){ T o=*a; *a=o|v; return o; } return (T)a_rmw((uintptr_t)a,sizeof(T),mo,PC,"or",[=](u64 o){return o|(u64)v;}); } \
T I__tsan_atomic##B##_fetch_xor(volatile T* a,T v,int mo){ if(!inmodel()){ T o=*a; *a=o^v; return o; } return (T)a_rmw((uintptr_t)a,sizeof(T),mo,PC,"xor",[=](u64 o){return o^(u64)v;}); } \
T I__tsan_atomic##B##_fetch_nand(volatile T* a,T v,int mo){ if(!inmodel()){ T o=*a; *a=~(o&v); return o; } return (T)a_rmw((uintptr_t)a,sizeof(T),mo,PC,"nand",[=](u64 o){return ~(o&(u64)v);}); } \
int I__tsan_atomic##B##_compare_exchange_strong(volatile T* a,T* e,T d,int mo,int fmo){ if(!inmodel()){ if(*a==*e){*a=d;return 1;} *e=*a; return 0; } u64 x=*e; bool r=a_cas((uintptr_t)a,sizeof(T),&x,d,mo,fmo,false,PC); if(!r) *e=(T)x; return r; } \
int I__tsan_atomic##B##_compare_exchange_weak(volatile T* a,T* e,T d,int mo,int fmo){ if(!inmodel()){ if(*a==*e){*a=d;return 1;} *e=*a; return 0; } u64 x=*e; bool r=a_cas((uintptr_t)a,sizeof(T),&x,d,mo,fmo,true,PC); if(!r) *e=(T)x; return r; } \
T I__tsan_atomic##B##_compare_exchange_val(volatile T* a,T e,T d,int mo,int fmo){ if(!inmodel()){ T o=*a; if(o==e)*a=d; return o; } u64 x=e; a_cas((uintptr_t)a,sizeof(T),&x,d,mo,fmo,false,PC); return (T)x; }
ATOMICS(8,u8) ATOMICS(16,u16) ATOMICS(32,u32) ATOMICS(64,u64)
void I__tsan_atomic_thread_fence(int mo){ if(!inmodel()) return; a_fence(mo); }
void __tsan_atomic_signal_fence(int){}
void __tsan_init(){} void __tsan_func_entry(void*){} void __tsan_func_exit(){}
#define RW(n) \
void I__tsan_read##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,false,PC);} } \
void I__tsan_write##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,true,PC);} } \
void I__tsan_unaligned_read##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,false,PC);} } \
void I__tsan_unaligned_write##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,true,PC);} } \
void I__tsan_volatile_read##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,false,PC);} } \
void I__tsan_volatile_write##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,true,PC);} } \
void I__tsan_unaligned_volatile_read##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,false,PC);} } \
void I__tsan_unaligned_volatile_write##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,true,PC);} } \
void I__tsan_read_write##n(void* a){ if(inmodel()){ RT rt; plain((uintptr_t)a,n,false,PC); plain((uintptr_t)a,n,true,PC);} }
RW(1) RW(2) RW(4) RW(8) RW(16)
void I__tsan_read_range(void* a,size_t n){ if(inmodel()&&n){ RT rt; plain((uintptr_t)a,n,false,PC);} }
void I__tsan_write_range(void* a,size_t n){ if(inmodel()&&n){ RT rt; plain((uintptr_t)a,n,true,PC);} }
void I__tsan_vptr_update(void** a,void* v){ if(inmodel()&&*a!=v){ RT rt; plain((uintptr_t)a,8,true,PC);} }
void I__tsan_vptr_read(void** a){ if(inmodel()){ RT rt; plain((uintptr_t)a,8,false,PC);} }
// bulk memory functions called by the instrumented objects (renamed with objcopy)
void* Imc_memcpy(void* d,const void* s,size_t n){ if(inmodel()&&n){ RT rt; plain((uintptr_t)s,n,false,PC); plain((uintptr_t)d,n,true,PC);} return memcpy(d,s,n); }
void* Imc_memmove(void* d,const void* s,size_t n){ if(inmodel()&&n){ RT rt; plain((uintptr_t)s,n,false,PC); plain((uintptr_t)d,n,true,PC);} return memmove(d,s,n); }
void* Imc_memset(void* d,int c,size_t n){ if(inmodel()&&n){ RT rt; plain((uintptr_t)d,n,true,PC);} return memset(d,c,n); }
}

// ---------------------------------------------------------------- model objects
static const u32 LIVE=0x4c560000, DEADM=0xDEAD5AFE;
// object handle stored in the first 4 bytes of the user's object: 0 = statically initialised, LIVE|index, DEADM
static int obj_new(OT type, uintptr_t a){
  Obj o; memset((void*)&o,0,sizeof o); o.type=type; o.addr=a; o.owner=-1; o.mtype=PTHREAD_MUTEX_NORMAL; o.clk=CLOCK_REALTIME;
  g->objs.push_back(o); int i=g->objs.size()-1; g->ghash+=mix(a,0); *(u32*)a=LIVE|i; return i;
}
static int obj_get(OT type, uintptr_t a, const char* what){
  touch(a,what);
  u32 w=*(u32*)a;
  if(w==DEADM) violation("%s by T%d on a destroyed %s (%s)",what,g->cur,otname[type],where(a));
  if((w&0xffff0000)==LIVE && (w&0xffff)<g->objs.size() && g->objs[w&0xffff].addr==a && g->objs[w&0xffff].type==type) return w&0xffff;
  if(w==0) return obj_new(type,a);
  if(w!=0xCDCDCDCDu&&(type==T_MUTEX||type==T_COND)){ return obj_new(type,a); } // non-zero static initialiser (kind bits) or copied object
  violation("%s by T%d on an uninitialised or overwritten %s (%s)",what,g->cur,otname[type],where(a));
}
static void obj_acq(Obj& o){ me().cur.join(o.rel); thmix(mix(o.addr,o.hash)); }
static void obj_rel(Obj& o, bool accumulate){ Fiber& f=me(); thmix(mix(o.addr,o.hash)+1); if(accumulate) o.rel.join(f.cur); else o.rel=f.cur; obj_rehash(o, accumulate? mix(o.hash,f.th):f.th); bump(); }
static void obj_init(OT type, uintptr_t a, size_t size){ (void)size; plain(a,4,true,PC); u32 w=*(u32*)a;
  if((w&0xffff0000)==LIVE && (w&0xffff)<g->objs.size() && g->objs[w&0xffff].addr==a && !g->objs[w&0xffff].dead && g->objs[w&0xffff].type==type && (g->objs[w&0xffff].owner>=0)) violation("T%d initialises a %s that is in use",g->cur,otname[type]);
  if((w&0xffff0000)==LIVE && (w&0xffff)<g->objs.size() && g->objs[w&0xffff].addr==a) g->objs[w&0xffff].dead=true;
  memset((void*)a,0,4); obj_new(type,a); }
static bool inject_err(mc::Call c,int& err){
  if(g->faults>0 && (g->cfg.fmask&mc::F_ERR) && g->inj[c].on){ if(choice(2,4)){ g->faults--; g->inj_count++; g->inj_err=err=g->inj[c].err; thmix(err+900); LOG("[T%d] injected failure of call %d: error %d",g->cur,(int)c,err); return true; } thmix(901); }
  return false;
}
static i64 ts2ns(const struct timespec* t,bool* bad){ if(t->tv_nsec<0||t->tv_nsec>=1000000000L){ *bad=true; return 0; } *bad=false;
  __int128 v=(__int128)t->tv_sec*1000000000+t->tv_nsec; if(v>(__int128)INT64_MAX/2) return INT64_MAX/2; if(v<(__int128)INT64_MIN/2) return INT64_MIN/2; return (i64)v; }
static void record_wait(int kind,const struct timespec* t,int clock,bool abs){ mc::LastWait& w=me().lw; w.kind=kind; w.has_timeout=t!=0; w.sec=t?t->tv_sec:0; w.nsec=t?t->tv_nsec:0; w.clock=clock; w.abs=abs; w.count++; }

static bool eintr_now(const char* what){ if(g->faults>0&&(g->cfg.fmask&mc::F_PTHREAD_EINTR)&&choice(2,5)){ g->faults--; thmix(910); LOG("[T%d] %s: EINTR",g->cur,what); return true; } return false; }
// mutex ---------------------------------------------------------
static int m_lock(pthread_mutex_t* m, i64 deadline, int clock, const char* what){
  int e; int i; { RT rt; i=obj_get(T_MUTEX,(uintptr_t)m,what); 
    if(g->faults>0&&(g->cfg.fmask&mc::F_PTHREAD_EINTR)&&choice(2,5)){ g->faults--; thmix(910); LOG("[T%d] %s: EINTR",g->cur,what); return EINTR; }
    if(inject_err(deadline==NOTIME? mc::CALL_MUTEX_LOCK:mc::CALL_MUTEX_TIMEDLOCK,e)) return e; }
  { Fiber& f=me(); (void)f; point(OP_LOCK,(uintptr_t)m,i,deadline,clock); }
  RT rt; 
  if(*(u32*)m!=(LIVE|(u32)i)) violation("T%d was blocked in %s on a mutex that was destroyed",g->cur,what);
  touch((uintptr_t)m,what);
  Obj& o=g->objs[i]; 
  if(o.owner<0){ o.owner=g->cur; o.rec=1; obj_acq(o); obj_rehash(o,mix(o.hash,g->cur+7)); progress(); LOG("[T%d] %s %s",g->cur,what,where((uintptr_t)m)); return 0; }
  if(o.owner==g->cur){ if(o.mtype==PTHREAD_MUTEX_RECURSIVE){ o.rec++; thmix(920); return 0; } if(o.mtype==PTHREAD_MUTEX_ERRORCHECK){ thmix(921); return EDEADLK; } }
  thmix(922); LOG("[T%d] %s %s times out",g->cur,what,where((uintptr_t)m)); progress(); return ETIMEDOUT;
}
static int m_unlock(pthread_mutex_t* m,const char* what,bool sched){
  int i; { RT rt; i=obj_get(T_MUTEX,(uintptr_t)m,what); int e; if(sched&&inject_err(mc::CALL_MUTEX_UNLOCK,e)) return e; }
  if(sched) point(OP_UNLOCK,(uintptr_t)m,i);
  RT rt; Obj& o=g->objs[i]; if(o.owner!=g->cur) violation("T%d unlocks a mutex it does not own (%s, owner %d)",g->cur,where((uintptr_t)m),o.owner);
  if(--o.rec>0){ thmix(923); return 0; }
  o.owner=-1; obj_rel(o,false); progress(); LOG("[T%d] %s %s",g->cur,what,where((uintptr_t)m)); return 0;
}
#define LIBCALL (!inmodel() || !from_exe(PC))
extern "C" {
int Ipthread_mutex_init(pthread_mutex_t* m,const pthread_mutexattr_t* at) noexcept { if(LIBCALL){ memset(m,0,sizeof *m); return 0; } RT rt; int e; if(inject_err(mc::CALL_MUTEX_INIT,e)) return e; obj_init(T_MUTEX,(uintptr_t)m,sizeof *m); if(at) g->objs.back().mtype=*(int*)at&3; thmix(930); return 0; }
int Ipthread_mutex_destroy(pthread_mutex_t* m) noexcept { if(LIBCALL) return 0; RT rt; int i=obj_get(T_MUTEX,(uintptr_t)m,"pthread_mutex_destroy"); if(eintr_now("pthread_mutex_destroy")) return EINTR; Obj& o=g->objs[i]; if(o.owner>=0) violation("T%d destroys a locked mutex (%s, owner T%d)",g->cur,where((uintptr_t)m),o.owner);
  for(int t=0;t<g->nf;t++) if(g->f[t].used&&!g->f[t].done&&g->f[t].p.k==OP_LOCK&&g->f[t].p.obj==i) violation("T%d destroys a mutex that T%d is blocked on",g->cur,t);
  plain((uintptr_t)m,8,true,PC); o.dead=true; *(u32*)m=DEADM; thmix(931); return 0; }
int Ipthread_mutex_lock(pthread_mutex_t* m) noexcept { if(LIBCALL) return 0; return m_lock(m,NOTIME,CLOCK_MONOTONIC,"mutex_lock"); }
int Ipthread_mutex_trylock(pthread_mutex_t* m) noexcept { if(LIBCALL) return 0; int i; { RT rt; i=obj_get(T_MUTEX,(uintptr_t)m,"mutex_trylock"); int e; if(inject_err(mc::CALL_MUTEX_TRYLOCK,e)) return e; if(g->faults>0&&(g->cfg.fmask&mc::F_PTHREAD_EINTR)&&choice(2,5)){ g->faults--; thmix(910); return EINTR; } }
  point(OP_TRYLOCK,(uintptr_t)m,i); RT rt; touch((uintptr_t)m,"mutex_trylock"); Obj& o=g->objs[i];
  if(o.owner<0){ progress(); o.owner=g->cur; o.rec=1; obj_acq(o); obj_rehash(o,mix(o.hash,g->cur+7)); LOG("[T%d] mutex_trylock %s ok",g->cur,where((uintptr_t)m)); return 0; }
  if(o.owner==g->cur&&o.mtype==PTHREAD_MUTEX_RECURSIVE){ o.rec++; progress(); return 0; }
  thmix(mix(o.addr,o.hash)); spin_read(PC,SPOBJ+i,mix(o.chg,0)); LOG("[T%d] mutex_trylock %s busy",g->cur,where((uintptr_t)m)); return EBUSY; }
static int m_timed(pthread_mutex_t* m,int clock,const struct timespec* t){ bool bad; i64 d; { RT rt; record_wait(1,t,clock,true); d=ts2ns(t,&bad); if(bad){ int i=obj_get(T_MUTEX,(uintptr_t)m,"mutex_timedlock"); if(g->objs[i].owner>=0){ thmix(932); return EINVAL; } } } return m_lock(m,d,clock,"mutex_timedlock"); }
int Ipthread_mutex_timedlock(pthread_mutex_t* m,const struct timespec* t) noexcept { if(LIBCALL) return 0; return m_timed(m,CLOCK_REALTIME,t); }
int Ipthread_mutex_clocklock(pthread_mutex_t* m,clockid_t c,const struct timespec* t) noexcept { if(LIBCALL) return 0; return m_timed(m,c==CLOCK_REALTIME?CLOCK_REALTIME:CLOCK_MONOTONIC,t); }
int Ipthread_mutex_unlock(pthread_mutex_t* m) noexcept { if(LIBCALL) return 0; return m_unlock(m,"mutex_unlock",true); }
int Ipthread_mutexattr_init(pthread_mutexattr_t* a) noexcept { if(inmodel()&&from_exe(PC)){ RT rt; int e; if(inject_err(mc::CALL_ATTR,e)) return e; } memset(a,0,sizeof *a); return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a,int k) noexcept { *(int*)a=k; return 0; }
int pthread_mutexattr_gettype(const pthread_mutexattr_t* a,int* k) noexcept { *k=*(const int*)a; return 0; }
// condition variables ------------------------------------------
int Ipthread_condattr_init(pthread_condattr_t* a) noexcept { if(inmodel()&&from_exe(PC)){ RT rt; int e; if(inject_err(mc::CALL_ATTR,e)) return e; } memset(a,0,sizeof *a); return 0; }
int pthread_condattr_destroy(pthread_condattr_t*) noexcept { return 0; }
int pthread_condattr_setclock(pthread_condattr_t* a,clockid_t c) noexcept { *(int*)a=c; return 0; }
int Ipthread_cond_init(pthread_cond_t* c,const pthread_condattr_t* at) noexcept { if(LIBCALL){ memset(c,0,sizeof *c); return 0; } RT rt; int e; if(inject_err(mc::CALL_COND_INIT,e)) return e; obj_init(T_COND,(uintptr_t)c,sizeof *c); if(at&&*(const int*)at==CLOCK_MONOTONIC) g->objs.back().clk=CLOCK_MONOTONIC; thmix(940); return 0; }
int Ipthread_cond_destroy(pthread_cond_t* c) noexcept { if(LIBCALL) return 0; RT rt; int i=obj_get(T_COND,(uintptr_t)c,"pthread_cond_destroy"); if(eintr_now("pthread_cond_destroy")) return EINTR;
  for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done&&f.p.k==OP_WAITING&&f.p.wkind==T_COND&&f.p.obj==i&&!f.woken) violation("T%d destroys a condition variable T%d is waiting on",g->cur,t); }
  plain((uintptr_t)c,8,true,PC); g->objs[i].dead=true; *(u32*)c=DEADM; thmix(941); return 0; }
static int c_wait(pthread_cond_t* c,pthread_mutex_t* m,i64 deadline,int clock,const char* what){
  int i; { RT rt; i=obj_get(T_COND,(uintptr_t)c,what); int e; 
    if(g->faults>0&&(g->cfg.fmask&mc::F_PTHREAD_EINTR)&&choice(2,5)){ g->faults--; thmix(910); LOG("[T%d] %s: EINTR",g->cur,what); return EINTR; }
    if(inject_err(deadline==NOTIME?mc::CALL_COND_WAIT:mc::CALL_COND_TIMEDWAIT,e)) return e;
    int mi=obj_get(T_MUTEX,(uintptr_t)m,what); if(g->objs[mi].owner!=g->cur) violation("T%d waits on a condition variable with a mutex it does not own",g->cur); }
  point(OP_CONDREL,(uintptr_t)c,i);
  int rec; { RT rt; int mi=obj_get(T_MUTEX,(uintptr_t)m,what); rec=g->objs[mi].rec; g->objs[mi].rec=1; }
  m_unlock(m,what,false);
  Fiber& f=me(); f.woken=false; f.p.k=OP_WAITING; f.p.addr=(uintptr_t)c; f.p.obj=i; f.p.wkind=T_COND; f.p.deadline=deadline; f.p.clock=clock; f.p.spur=true; f.p.eintr=false; f.variant=V_RUN;
  { RT rt; thmix(942); }
  pick();
  int r=0; { RT rt; if(f.variant==V_SPUR){ thmix(943); LOG("[T%d] %s: spurious wakeup",f.tid,what); } else if(f.woken&&deadline!=NOTIME&&clk_now(clock)>=deadline&&g->faults>0&&(g->cfg.fmask&mc::F_SIGEAT)&&choice(2,5)){ g->faults--; r=ETIMEDOUT; thmix(947); LOG("[T%d] %s: times out and consumes a signal",f.tid,what); } else if(f.woken){ thmix(944); LOG("[T%d] %s: notified",f.tid,what);} else { r=ETIMEDOUT; thmix(945); LOG("[T%d] %s: timed out",f.tid,what); }
    f.woken=false; f.p.k=OP_NONE; f.p.deadline=NOTIME; f.phase=10+r; }
  int i2; { RT rt; i2=obj_get(T_MUTEX,(uintptr_t)m,"mutex re-lock in cond_wait"); }
  point(OP_LOCK,(uintptr_t)m,i2); { RT rt; touch((uintptr_t)m,"mutex re-lock in cond_wait"); Obj& o=g->objs[i2]; if(o.dead) violation("T%d re-locks a destroyed mutex in %s",g->cur,what); o.owner=g->cur; o.rec=rec; obj_acq(o); obj_rehash(o,mix(o.hash,g->cur+7)); LOG("[T%d] %s: mutex re-locked",f.tid,what); progress(); f.phase=0; }
  return r;
}
static int c_timed(pthread_cond_t* c,pthread_mutex_t* m,int clock,const struct timespec* t){ bool bad; i64 d; { RT rt; int i=obj_get(T_COND,(uintptr_t)c,"cond_timedwait"); if(clock<0) clock=g->objs[i].clk; record_wait(2,t,clock,true); d=ts2ns(t,&bad); if(bad||t->tv_sec<0&&0){ thmix(946); return EINVAL; } } return c_wait(c,m,d,clock,"cond_timedwait"); }
int Ipthread_cond_wait(pthread_cond_t* c,pthread_mutex_t* m){ if(LIBCALL) return 0; return c_wait(c,m,NOTIME,CLOCK_MONOTONIC,"cond_wait"); }
int Ipthread_cond_timedwait(pthread_cond_t* c,pthread_mutex_t* m,const struct timespec* t){ if(LIBCALL) return 0; return c_timed(c,m,-1,t); }
int Ipthread_cond_clockwait(pthread_cond_t* c,pthread_mutex_t* m,clockid_t k,const struct timespec* t){ if(LIBCALL) return 0; return c_timed(c,m,k==CLOCK_REALTIME?CLOCK_REALTIME:CLOCK_MONOTONIC,t); }
static int c_signal(pthread_cond_t* c,bool all){
  int i; { RT rt; i=obj_get(T_COND,(uintptr_t)c,"cond_signal"); int e; if(inject_err(mc::CALL_COND_SIGNAL,e)) return e; }
  point(OP_SIGNAL,(uintptr_t)c,i); RT rt; touch((uintptr_t)c,"cond_signal"); if(g->objs[i].dead) violation("T%d notifies a destroyed condition variable",g->cur);
  WBUF int w[MAXT]; int n=0; for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done&&f.p.k==OP_WAITING&&f.p.wkind==T_COND&&f.p.obj==i&&!f.woken) w[n++]=t; }
  // broadcast orders the notifier before the woken threads as far as destruction of the condition variable is concerned
  progress(); thmix(950+n);
  if(n==0){ LOG("[T%d] cond_%s %s: nobody waits",g->cur,all?"broadcast":"signal",where((uintptr_t)c)); return 0; }
  int a=0,b=n; if(!all){ a=wake_choice(n); b=a+1; thmix(a); }
  Cell* cc=cell((uintptr_t)c); (void)cc;
  for(int k=a;k<b;k++){ Fiber& f=g->f[w[k]]; f.woken=true; f.th=mix(f.th,951); LOG("[T%d] cond_%s %s wakes T%d",g->cur,all?"broadcast":"signal",where((uintptr_t)c),w[k]); }
  return 0;
}
int Ipthread_cond_signal(pthread_cond_t* c) noexcept { if(LIBCALL) return 0; return c_signal(c,false); }
int Ipthread_cond_broadcast(pthread_cond_t* c) noexcept { if(LIBCALL) return 0; return c_signal(c,true); }
// semaphores ---------------------------------------------------
int Isem_init(sem_t* s,int,unsigned v) noexcept { if(LIBCALL) return 0; RT rt; int e; if(inject_err(mc::CALL_SEM_INIT,e)){ errno=e; return -1; } if(v>(unsigned)g->cfg.sem_max){ errno=EINVAL; return -1; } obj_init(T_SEM,(uintptr_t)s,sizeof *s); g->objs.back().value=v; obj_rehash(g->objs.back(),v); obj_rel(g->objs.back(),true); return 0; }
int Isem_destroy(sem_t* s) noexcept { if(LIBCALL) return 0; RT rt; int i=obj_get(T_SEM,(uintptr_t)s,"sem_destroy"); for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done&&f.p.k==OP_SEMWAIT&&f.p.obj==i) violation("T%d destroys a semaphore T%d is waiting on",g->cur,t); } plain((uintptr_t)s,8,true,PC); g->objs[i].dead=true; *(u32*)s=DEADM; thmix(960); return 0; }
static int s_wait(sem_t* s,i64 deadline,int clock,const char* what){
  int i; { RT rt; i=obj_get(T_SEM,(uintptr_t)s,what); int e; if(inject_err(deadline==NOTIME?mc::CALL_SEM_WAIT:mc::CALL_SEM_TIMEDWAIT,e)){ errno=e; return -1; } }
  { Fiber& f=me(); f.p.eintr=true; } point(OP_SEMWAIT,(uintptr_t)s,i,deadline,clock); RT rt; Fiber& f=me(); progress();
  if(f.variant==V_EINTR){ thmix(961); LOG("[T%d] %s: EINTR",f.tid,what); errno=EINTR; return -1; }
  touch((uintptr_t)s,what); Obj& o=g->objs[i]; if(o.dead) violation("T%d was blocked on a semaphore that was destroyed",g->cur);
  if(o.value>0){ o.value--; obj_acq(o); obj_rehash(o,mix(o.hash,962)); LOG("[T%d] %s %s -> count %ld",f.tid,what,where((uintptr_t)s),(long)o.value); return 0; }
  thmix(963); LOG("[T%d] %s: timed out",f.tid,what); errno=ETIMEDOUT; return -1;
}
int Isem_wait(sem_t* s){ if(LIBCALL) return 0; return s_wait(s,NOTIME,CLOCK_MONOTONIC,"sem_wait"); }
static int s_timed(sem_t* s,int clock,const struct timespec* t){ bool bad; i64 d; { RT rt; record_wait(3,t,clock,true); d=ts2ns(t,&bad); int i=obj_get(T_SEM,(uintptr_t)s,"sem_timedwait"); if(bad&&g->objs[i].value==0){ thmix(964); errno=EINVAL; return -1; } } return s_wait(s,d,clock,"sem_timedwait"); }
int Isem_timedwait(sem_t* s,const struct timespec* t){ if(LIBCALL) return 0; return s_timed(s,CLOCK_REALTIME,t); }
int Isem_clockwait(sem_t* s,clockid_t c,const struct timespec* t){ if(LIBCALL) return 0; return s_timed(s,c==CLOCK_REALTIME?CLOCK_REALTIME:CLOCK_MONOTONIC,t); }
int Isem_trywait(sem_t* s) noexcept { if(LIBCALL) return 0; int i; { RT rt; i=obj_get(T_SEM,(uintptr_t)s,"sem_trywait"); int e; if(inject_err(mc::CALL_SEM_TRYWAIT,e)){ errno=e; return -1; }
    if(g->faults>0&&(g->cfg.fmask&mc::F_EINTR)&&choice(2,5)){ g->faults--; thmix(911); LOG("[T%d] sem_trywait: EINTR",g->cur); errno=EINTR; return -1; } }
  point(OP_SEMTRY,(uintptr_t)s,i); RT rt; touch((uintptr_t)s,"sem_trywait"); Obj& o=g->objs[i];
  if(o.value>0){ o.value--; obj_acq(o); obj_rehash(o,mix(o.hash,962)); progress(); LOG("[T%d] sem_trywait %s ok",g->cur,where((uintptr_t)s)); return 0; }
  thmix(mix(o.addr,o.hash)); spin_read(PC,SPOBJ+i,mix(o.chg,0)); LOG("[T%d] sem_trywait %s fails",g->cur,where((uintptr_t)s)); errno=EAGAIN; return -1; }
int Isem_post(sem_t* s) noexcept { if(LIBCALL) return 0; int i; { RT rt; i=obj_get(T_SEM,(uintptr_t)s,"sem_post"); int e; if(inject_err(mc::CALL_SEM_POST,e)){ errno=e; return -1; } }
  point(OP_SEMPOST,(uintptr_t)s,i); RT rt; touch((uintptr_t)s,"sem_post"); Obj& o=g->objs[i]; if(o.dead) violation("T%d posts a destroyed semaphore",g->cur);
  if(o.value>=g->cfg.sem_max){ thmix(965); errno=EOVERFLOW; return -1; }
  o.value++; obj_rel(o,true); progress(); LOG("[T%d] sem_post %s -> count %ld",g->cur,where((uintptr_t)s),(long)o.value); return 0; }
// Kernel objects with direct hand-off (Windows): a signal satisfies threads that already wait at once, only what is left stays in the object.
// A handle is only a name: the object is found whoever made it, without ordering.
static int k_get(uint32_t* h,const char* what){ if(cell((uintptr_t)h)->fl&CF_FREED||*h==DEADM) violation("%s by T%d on a closed handle (%s)",what,g->cur,where((uintptr_t)h)); u32 w=*h; if((w&0xffff0000)!=LIVE||(w&0xffff)>=g->objs.size()) violation("%s by T%d on an invalid handle (%s)",what,g->cur,where((uintptr_t)h)); return w&0xffff; }
// state: 0 counting, 1 reset by the wait it satisfies, 2 stays set
extern "C" void Imc_k_init(uint32_t* h,int kind,long v){ RT rt; obj_init(T_SEM,(uintptr_t)h,4); Obj& o=g->objs.back(); o.state=kind; o.value=v; obj_rehash(o,mix(v,kind+970)); obj_rel(o,true); }
extern "C" void Imc_k_close(uint32_t* h){ RT rt; int i=k_get(h,"CloseHandle"); for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done&&f.p.k==OP_WAITING&&f.p.wkind==7&&f.p.obj==i&&!f.woken) violation("T%d closes the handle of an object T%d is waiting for",g->cur,t); } g->objs[i].dead=true; *(u32*)h=DEADM; thmix(971); }
// 0 satisfied, 1 timed out, 2 failed (errno)
extern "C" int Imc_k_wait(uint32_t* h,int64_t deadline,int clock){
  int i; { RT rt; i=k_get(h,"WaitForSingleObject"); int e; if(inject_err(mc::CALL_SEM_WAIT,e)){ errno=e; return 2; } }
  point(OP_SEMTRY,(uintptr_t)h,i);
  { RT rt; k_get(h,"WaitForSingleObject"); Obj& o=g->objs[i];
    if(o.value>0){ if(o.state!=2) o.value--; obj_acq(o); obj_rehash(o,mix(o.hash,972)); progress(); LOG("[T%d] wait for %s: satisfied",g->cur,where((uintptr_t)h)); return 0; }
    Fiber& f=me(); f.p.deadline=deadline; f.p.clock=clock; if(expired(f.p)){ f.p.deadline=NOTIME; thmix(mix(o.addr,o.hash)); spin_read(PC,SPOBJ+i,mix(o.chg,0)); LOG("[T%d] wait for %s: not signalled",g->cur,where((uintptr_t)h)); return 1; }
    thmix(mix(o.addr,o.hash)); LOG("[T%d] wait for %s: blocks",g->cur,where((uintptr_t)h));
    f.woken=false; f.p.k=OP_WAITING; f.p.addr=(uintptr_t)h; f.p.obj=i; f.p.wkind=7; f.p.spur=f.p.eintr=false; f.variant=V_RUN; if(f.spinning){ f.spinning=false; f.spin.clear(); f.watch.clear(); } progress(); }
  pick();
  RT rt; Fiber& f=me(); bool wk=f.woken; f.woken=false; f.p.k=OP_NONE; f.p.deadline=NOTIME; f.p.obj=-1;
  if(wk){ thmix(973); obj_acq(g->objs[i]); LOG("[T%d] wait: satisfied",f.tid); return 0; }
  thmix(974); LOG("[T%d] wait: timed out",f.tid); return 1;
}
// n>0: release that many units (or set an event), n==0: reset the event. False: more units than the limit allows
extern "C" bool Imc_k_signal(uint32_t* h,long n,long limit){
  int i; { RT rt; i=k_get(h,n?"SetEvent or ReleaseSemaphore":"ResetEvent"); int e; if(inject_err(mc::CALL_SEM_POST,e)){ errno=e; return false; } }
  point(OP_SEMPOST,(uintptr_t)h,i); RT rt; k_get(h,n?"SetEvent or ReleaseSemaphore":"ResetEvent"); Obj& o=g->objs[i]; progress();
  if(!n){ o.value=0; thmix(mix(o.addr,o.hash)); obj_rehash(o,mix(o.hash,975)); LOG("[T%d] reset %s",g->cur,where((uintptr_t)h)); return true; }
  if(o.state==0&&o.value+n>limit){ errno=298; thmix(976); return false; }
  obj_rel(o,true); if(o.state==1&&o.value) n=0;
  WBUF int w[MAXT]; int k=0; for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done&&f.p.k==OP_WAITING&&f.p.wkind==7&&f.p.obj==i&&!f.woken) w[k++]=t; }
  long left=n; for(;k>0&&(left>0||o.state==2);left--){ int c=o.state==2||left>=k?0:wake_choice(k); thmix(c); g->f[w[c]].woken=true; g->f[w[c]].th=mix(g->f[w[c]].th,977); LOG("[T%d] signal %s satisfies T%d",g->cur,where((uintptr_t)h),w[c]); for(int j=c;j+1<k;j++) w[j]=w[j+1]; k--; }
  if(o.state==0) o.value+=left; else if(o.state==2||left>0) o.value=1; LOG("[T%d] signal %s -> %ld",g->cur,where((uintptr_t)h),(long)o.value); return true;
}
int Isem_getvalue(sem_t* s,int* v) noexcept { if(LIBCALL){ *v=0; return 0; } int i; { RT rt; i=obj_get(T_SEM,(uintptr_t)s,"sem_getvalue"); } point(OP_SEMTRY,(uintptr_t)s,i); RT rt; *v=(int)g->objs[i].value; thmix(mix(g->objs[i].hash,966)); return 0; }
// once, guards -------------------------------------------------
int Ipthread_once(pthread_once_t* o,void(*fn)()){
  if(LIBCALL){ if(*(int*)o!=2){ *(int*)o=2; fn(); } return 0; }
  { RT rt; if(*(int*)o==2){ thmix(970); return 0; } }
  int i; { RT rt; i=obj_get(T_ONCE,(uintptr_t)o,"pthread_once"); }
  point(OP_ONCE,(uintptr_t)o,i); 
  { RT rt; Obj& b=g->objs[i]; if(b.state==2){ obj_acq(b); return 0; } b.state=1; thmix(971); }
  struct Und{ int i; bool ok; ~Und(){ if(!ok&&g->active){ g->objs[i].state=0; } } } und={i,false};
  fn();
  und.ok=true;
  { RT rt; Obj& b=g->objs[i]; b.state=2; obj_rel(b,false); }
  return 0;
}
int I__cxa_guard_acquire(u64* gd){
  if(!inmodel()) { if(*(char*)gd) return 0; return 1; }
  int i; { RT rt; u32* p=(u32*)gd+1; i=obj_get(T_ONCE,(uintptr_t)p,"static guard"); }
  point(OP_ONCE,(uintptr_t)gd,i); RT rt; Obj& b=g->objs[i]; if(b.state==2){ obj_acq(b); return 0; } b.state=1; thmix(972); return 1;
}
void I__cxa_guard_release(u64* gd){
  if(!inmodel()){ *(char*)gd=1; return; }
  a_store((uintptr_t)gd,1,1,__ATOMIC_RELEASE,PC);
  RT rt; u32* p=(u32*)gd+1; int i=obj_get(T_ONCE,(uintptr_t)p,"static guard"); g->objs[i].state=2; obj_rel(g->objs[i],false);
}
void __cxa_guard_abort(u64* gd){ if(!inmodel()) return; RT rt; u32* p=(u32*)gd+1; int i=obj_get(T_ONCE,(uintptr_t)p,"static guard"); g->objs[i].state=0; thmix(973); }
// keys ---------------------------------------------------------
int Ipthread_key_create(pthread_key_t* k,void(*d)(void*)) noexcept {
  if(inmodel()&&from_exe(PC)){ RT rt; int e; if(inject_err(mc::CALL_KEY_CREATE,e)) return e; thmix(980); }
  for(int i=1;i<64;i++) if(!g->key[i].used){ g->key[i].used=true; g->key[i].d=d; for(int t=0;t<MAXT;t++) g->f[t].keys[i]=0; *k=i; return 0; } return EAGAIN; }
int pthread_key_delete(pthread_key_t k) noexcept { if(k<64) g->key[k].used=false; return 0; }
void* pthread_getspecific(pthread_key_t k) noexcept { if(!g||k>=64) return 0; if(g->active&&!g->key[k].used) violation("pthread_getspecific with an invalid key"); return g->f[g->cur<0?0:g->cur].keys[k]; }
int Ipthread_setspecific(pthread_key_t k,const void* v) noexcept { if(k>=64) return EINVAL; if(inmodel()&&from_exe(PC)){ RT rt; int e; if(inject_err(mc::CALL_SETSPECIFIC,e)) return e; if(!g->key[k].used) violation("pthread_setspecific with an invalid key"); } g->f[g->cur<0?0:g->cur].keys[k]=(void*)v; return 0; }
pthread_t pthread_self() noexcept { if(g&&g->active&&g->cur>=0) return (pthread_t)(g->cur+1); return (pthread_t)1; }
int pthread_equal(pthread_t a,pthread_t b) noexcept { return a==b; }
int __cxa_thread_atexit(void(*d)(void*),void* o,void*) noexcept { if(g&&g->active&&g->cur>=0){ RT rt; me().atexit_.push_back(std::make_pair(d,o)); } return 0; }
int __cxa_thread_atexit_impl(void(*d)(void*),void* o,void* x) noexcept { return __cxa_thread_atexit(d,o,x); }
// time ---------------------------------------------------------
int Iclock_gettime(clockid_t c,struct timespec* t) noexcept {
  if(!inmodel()) return raw_syscall6(SYS_clock_gettime,c,(long)t,0,0,0,0);
  if(g->early>0) point(OP_CLOCK); RT rt;
  i64 n=clk_now(c==CLOCK_REALTIME||c==CLOCK_REALTIME_COARSE?CLOCK_REALTIME:CLOCK_MONOTONIC); i64 s=n/1000000000,ns=n%1000000000; if(ns<0){ ns+=1000000000; s--; } t->tv_sec=s; t->tv_nsec=ns; thmix(n); return 0; }
int Igettimeofday(struct timeval* __restrict tv,void* __restrict) noexcept { struct timespec t; Iclock_gettime(CLOCK_REALTIME,&t); tv->tv_sec=t.tv_sec; tv->tv_usec=t.tv_nsec/1000; return 0; }
time_t Itime(time_t* p) noexcept { struct timespec t; Iclock_gettime(CLOCK_REALTIME,&t); if(p) *p=t.tv_sec; return t.tv_sec; }
int sched_yield() noexcept { return 0; }
static int do_sleep(i64 ns){ i64 d=g->mono+(ns<0?0:ns); point(OP_SLEEP,0,-1,d,CLOCK_MONOTONIC); RT rt; thmix(990); progress(); return 0; }
int Inanosleep(const struct timespec* t,struct timespec*){ if(!inmodel()) return 0; bool bad; return do_sleep(ts2ns(t,&bad)); }
int Iusleep(useconds_t u){ if(!inmodel()) return 0; return do_sleep((i64)u*1000); }
int Iclock_nanosleep(clockid_t c,int fl,const struct timespec* t,struct timespec*){ if(!inmodel()) return 0; bool bad; i64 n=ts2ns(t,&bad); if(fl&TIMER_ABSTIME) n-=clk_now(c==CLOCK_REALTIME?CLOCK_REALTIME:CLOCK_MONOTONIC); return do_sleep(n); }
// futex --------------------------------------------------------
static long f_wait(int* a,int val,i64 deadline,int clock,u32 bits,int priv){
  point(OP_FUTEXWAIT,(uintptr_t)a);
  { RT rt; Cell* c=cell((uintptr_t)a); if(c->fl&CF_FREED) violation("use of freed memory: futex wait by T%d on %s",g->cur,where((uintptr_t)a)); 
    Loc* l=loc_get((uintptr_t)a,4); thmix(mix(l->hash,1000)); 
    if((int)l->msgs.back().val!=val){ LOG("[T%d] futex_wait %s: value 0x%x is not 0x%x",g->cur,where((uintptr_t)a),(int)l->msgs.back().val,val); thmix(1001); spin_read(PC,lidx(l),mix(l->chg,7)); errno=EWOULDBLOCK; return -1; }
    LOG("[T%d] futex_wait %s blocks on 0x%x",g->cur,where((uintptr_t)a),val); 
    Fiber& f=me(); f.woken=false; f.p.k=OP_WAITING; f.p.addr=(uintptr_t)a; f.p.obj=-1; f.p.wkind=0; f.p.target=priv; f.p.bits=bits; thmix(mix(bits,priv)); f.p.deadline=deadline; f.p.clock=clock; f.p.spur=f.p.eintr=true; f.variant=V_RUN; progress(); }
  pick();
  RT rt; Fiber& f=me(); bool wk=f.woken; f.woken=false; f.p.k=OP_NONE; f.p.deadline=NOTIME;
  if(f.variant==V_SPUR){ thmix(1002); LOG("[T%d] futex_wait: spurious return",f.tid); return 0; }
  if(f.variant==V_EINTR){ thmix(1003); LOG("[T%d] futex_wait: EINTR",f.tid); errno=EINTR; return -1; }
  if(wk){ thmix(1004); LOG("[T%d] futex_wait: woken",f.tid); return 0; }
  thmix(1005); LOG("[T%d] futex_wait: timed out",f.tid); errno=ETIMEDOUT; return -1;
}
static long f_wake(int* a,int n,u32 bits,int priv){
  if(n<1) n=1; // the kernel wakes at least one thread
  point(OP_FUTEXWAKE,(uintptr_t)a); RT rt; WBUF int w[MAXT]; int k=0; for(int t=0;t<g->nf;t++){ Fiber& f=g->f[t]; if(f.used&&!f.done&&f.p.k==OP_WAITING&&f.p.wkind==0&&f.p.addr==(uintptr_t)a&&f.p.target==priv&&(f.p.bits&bits)&&!f.woken) w[k++]=t; }
  int cnt=0; thmix(1010+k); progress();
  if(n>=k){ for(int i=0;i<k;i++){ g->f[w[i]].woken=true; g->f[w[i]].th=mix(g->f[w[i]].th,1011); LOG("[T%d] futex_wake %s wakes T%d",g->cur,where((uintptr_t)a),w[i]); cnt++; } }
  else for(int r=0;r<n&&k>0;r++){ int c=wake_choice(k); thmix(c); g->f[w[c]].woken=true; g->f[w[c]].th=mix(g->f[w[c]].th,1011); LOG("[T%d] futex_wake %s wakes T%d",g->cur,where((uintptr_t)a),w[c]); cnt++; for(int i=c;i+1<k;i++) w[i]=w[i+1]; k--; }
  if(!cnt) LOG("[T%d] futex_wake %s: nobody waits",g->cur,where((uintptr_t)a));
  return cnt;
}
long Isyscall(long n, ...) noexcept {
  va_list ap; va_start(ap,n); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long),d=va_arg(ap,long),e=va_arg(ap,long),f=va_arg(ap,long); va_end(ap);
  if(inmodel() && n==SYS_futex){
    int op=(int)b & ~(FUTEX_PRIVATE_FLAG|FUTEX_CLOCK_REALTIME);
    const struct timespec* t=(const struct timespec*)d; i64 dl=NOTIME; int clk=CLOCK_MONOTONIC;
    if(op==FUTEX_WAIT||op==FUTEX_WAIT_BITSET){
      { RT rt; bool abs=op==FUTEX_WAIT_BITSET; if(abs&&((int)b&FUTEX_CLOCK_REALTIME)) clk=CLOCK_REALTIME; record_wait(4,t,clk,abs);
        if(t){ bool bad; i64 x=ts2ns(t,&bad); if(bad||t->tv_sec<0){ errno=EINVAL; thmix(1020); return -1; } dl= abs? x : (x>INT64_MAX/4? INT64_MAX/4+g->mono : g->mono+x); } }
      u32 bits=op==FUTEX_WAIT_BITSET?(u32)f:~0u; if(!bits){ RT rt; errno=EINVAL; thmix(1020); return -1; }
      return f_wait((int*)a,(int)c,dl,clk,bits,((int)b&FUTEX_PRIVATE_FLAG)!=0);
    }
    if(op==FUTEX_WAKE||op==FUTEX_WAKE_BITSET){ u32 bits=op==FUTEX_WAKE_BITSET?(u32)f:~0u; if(!bits){ RT rt; errno=EINVAL; thmix(1020); return -1; } return f_wake((int*)a,(int)c,bits,((int)b&FUTEX_PRIVATE_FLAG)!=0); }
    errno=ENOSYS; return -1;
  }
  if(inmodel() && n==SYS_gettid) return g->cur+1;
  long r=raw_syscall6(n,a,b,c,d,e,f); if(r<0&&r>-4096){ errno=-r; return -1; } return r;
}
int poll_never_used_; 
// memory -------------------------------------------------------
struct Hdr { u64 size; u32 magic; u32 tid; };
static void* arena_alloc(size_t n,size_t al){
  if(al<16) al=16; size_t p=g->apos+sizeof(Hdr); p=(p+al-1)&~(al-1); if(p+n+64>ARENA) violation("internal: arena exhausted");
  char* r=g->arena+p; Hdr* h=(Hdr*)(r-sizeof(Hdr)); h->size=n; h->magic=0xA110C8ED; h->tid=g->cur; g->apos=p+n+16; memset(r,0xCD,n); g->live++; g->liveb+=n; g->nalloc++; return r;
}
static bool in_arena(void* p){ return g&&g->arena&&(char*)p>=g->arena&&(char*)p<g->arena+ARENA; }
static bool model_mem(){ return g && g->active && g->cur>=0 && !g->in_rt; }
void* malloc(size_t n) { if(!model_mem()) return __libc_malloc(n); RT rt; return arena_alloc(n,16); }
void free(void* p) { if(!p) return; if(!in_arena(p)){ if(model_mem()) return; __libc_free(p); return; } if(!g->active) return;
  RT rt; Hdr* h=(Hdr*)((char*)p-sizeof(Hdr)); if(h->magic==0xF4EED000) violation("double free by T%d",g->cur); if(h->magic!=0xA110C8ED) violation("free of an invalid pointer by T%d",g->cur);
  g->live--; g->liveb-=h->size; h->magic=0xF4EED000; h->tid=0; size_t n=h->size; if(n>4096) n=4096;
  if(n) plain((uintptr_t)p,n,true,__builtin_return_address(0));
  for(uintptr_t q=(uintptr_t)p&~3ul;q<(uintptr_t)p+n;q+=4) cell(q)->fl|=CF_FREED; 
  memset(p,0xDD,h->size); }
void* calloc(size_t a,size_t b) { if(!model_mem()) return __libc_calloc(a,b); RT rt; void* p=arena_alloc(a*b,16); memset(p,0,a*b); return p; }
void* realloc(void* p,size_t n) { if(!model_mem()&&!in_arena(p)) return __libc_realloc(p,n); if(!p) return malloc(n); void* q=malloc(n); if(in_arena(p)){ Hdr* h=(Hdr*)((char*)p-sizeof(Hdr)); memcpy(q,p,std::min((size_t)h->size,n)); } else memcpy(q,p,n); free(p); return q; }
void* memalign(size_t al,size_t n) { if(!model_mem()) return __libc_memalign(al,n); RT rt; return arena_alloc(n,al); }
void* aligned_alloc(size_t al,size_t n) { return memalign(al,n); }
int posix_memalign(void** p,size_t al,size_t n) { *p=memalign(al,n); return 0; }
void __assert_fail(const char* e,const char* file,unsigned line,const char*) noexcept { if(g&&g->active&&g->cur>=0){ const char* b=strrchr(file,'/'); violation("assertion failed: %s (%s:%u)",e,b?b+1:file,line); } fprintf(stderr,"assert %s %s:%u\n",e,file,line); _exit(4); }
void abort() noexcept { if(g&&g->active&&g->cur>=0) violation("abort() called by T%d",g->cur); _exit(5); }
}
static bool nomem_hit(){ if(model_mem() && g->nomem_on && g->faults>0 && (g->cfg.fmask&mc::F_NOMEM)){ RT rt; if(choice(2,7)){ g->faults--; g->inj_count++; g->inj_err=ENOMEM; thmix(1100); LOG("[T%d] allocation failure",g->cur); return true; } thmix(1101); } return false; }
void* operator new(size_t n){ if(nomem_hit()) throw std::bad_alloc(); void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void* operator new(size_t n,const std::nothrow_t&) noexcept { if(nomem_hit()) return 0; return malloc(n?n:1); }
void* operator new[](size_t n,const std::nothrow_t&) noexcept { if(nomem_hit()) return 0; return malloc(n?n:1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p,size_t) noexcept { free(p); }
void operator delete[](void* p,size_t) noexcept { free(p); }

// ---------------------------------------------------------------- fibers
static void run_thread_exit(Fiber& f){
  while(!f.atexit_.empty()){ std::pair<void(*)(void*),void*> e; { RT rt; e=f.atexit_.back(); f.atexit_.pop_back(); } e.first(e.second); }
  if(mc_thread_end) mc_thread_end();
  for(int round=0;round<4;round++){ bool any=false; for(int k=1;k<64;k++) if(g->key[k].used && g->key[k].d && f.keys[k]){ void* v=f.keys[k]; f.keys[k]=0; any=true; g->key[k].d(v); } if(!any) break; }
}
static void fiber_main(){
  Fiber& f=me();
  { RT rt; thmix(1199); f.p.k=OP_NONE; }
  try { f.fn(f.arg); if(f.tid!=0) run_thread_exit(f); }
  catch(std::exception& e){ int st; const char* nm=abi::__cxa_demangle(typeid(e).name(),0,0,&st); violation("exception %s escaped T%d: %s",nm?nm:"?",f.tid,e.what()); }
  catch(...){ violation("unknown exception escaped T%d",f.tid); }
  { RT rt; f.done=true; f.p.k=OP_NONE; f.p.deadline=NOTIME; thmix(1200); LOG("[T%d] exits",f.tid); 
    // publish for join
    f.cur.vc[f.tid]++; }
  pick(); // never returns to this fiber
  violation("internal: finished fiber resumed");
}
static void fiber_entry(){ fiber_main(); }
static void fiber_make(Fiber& f,void(*fn)(void*),void* arg){
  int t=&f-g->f; if(!f.stk){ f.stk=g->stklo+t*(STK+8192); if(MAXR>1) mprotect(f.stk,4096,PROT_NONE); f.stk+=4096; }
  f.tid=t; f.used=true; f.done=false; f.mustret=0; f.fn=fn; f.arg=arg; f.cur.clear(); f.acq.clear(); f.relf.clear(); f.th=mix(777,t); memset(&f.p,0,sizeof f.p); f.p.k=OP_START; f.p.deadline=NOTIME; f.p.obj=-1; f.woken=false; f.variant=0; f.err=ETIMEDOUT /* left over from something earlier */; f.eh[0]=f.eh[1]=0; memset(f.keys,0,sizeof f.keys); f.atexit_.clear(); f.spin.clear(); f.spinning=false; f.watch.clear(); f.idle_spins=0; f.qsp=0; f.phase=0; memset(f.ur,0,sizeof f.ur); memset(&f.lw,0,sizeof f.lw);
  memset(f.tls,0,sizeof f.tls); if(tls_size) memcpy(f.tls,(char*)g->arena+ARENA,tls_size);
  u64* sp=(u64*)(f.stk+STK-64); *--sp=0; *--sp=(u64)fiber_entry; for(int i=0;i<6;i++) *--sp=0; f.sp=sp; f.cur.vc[t]=1;
}

namespace mc {
Reg::Reg(const Scenario& s){ if(!scen_list) scen_list=new std::vector<Scenario>(); scen_list->push_back(s); }
int spawn_raw(void(*fn)(void*),void* arg){ RT rt; if(g->nf>=MAXT) violation("internal: too many threads"); int t=g->nf++; Fiber& f=g->f[t]; fiber_make(f,fn,arg); f.cur.join(me().cur); f.cur.vc[t]=1; f.th=mix(f.th,me().th); bump(); thmix(1300); LOG("[T%d] spawns T%d",g->cur,t); return t; }
extern "C" void Imc_join(int t){ me().p.target=t; point(OP_JOIN); RT rt; me().cur.join(g->f[t].cur); thmix(g->f[t].th); progress(); LOG("[T%d] joined T%d",g->cur,t); }
extern "C" void Imc_quiesce(){ point(OP_QUIESCE); RT rt; for(int t=0;t<g->nf;t++){ if(t==g->cur) continue; Fiber& f=g->f[t]; f.cur.vc[t]++; me().cur.join(f.cur); thmix(f.th);} for(int i=0;i<g->nloc&&i<MAXLOC;i++) if(g->locs[i]->gen==g->gen&&!g->locs[i]->dirty) me().cur.ts[i]=std::max<u32>(me().cur.ts[i],last_ts(g->locs[i])); bump(); progress(); LOG("[T%d] all other threads are idle or done",g->cur); }
bool finished(int t){ return g->f[t].done; }
bool blocked(int t){ return g->f[t].used&&!g->f[t].done; }
int self(){ return g->cur; }
const char* must_return(const char* what){ const char* o=me().mustret; me().mustret=what; return o; }
void keep_stuck_ok(bool b){ g->stuck_allowed=b; }
extern "C" void Imc_yield(){ point(OP_YIELD); RT rt; thmix(1301); progress(); }
int choose(int n){ RT rt; int c=choice(n,8); thmix(1400+c); LOG("[T%d] choose(%d) = %d",g->cur,n,c); return c; }
void checkpoint(const void* p,size_t n){ RT rt; if(forcing_||g->noexplore||g->depth<g->replay_len) return; HS s; s.h=0x7777; s.mem(p,n); g->transitions++; if(vis_prune(mix(s.h,0x5151)|1,0)){ g->pruned++; end_exec(1); } }
int choose_shard(int n){ int k=g->shard,m=g->nshards; int cnt=(n-k+m-1)/m; if(cnt<=0) end_exec(1); return k+m*choose(cnt); }
void fail(const char* fmt, ...){ char b[900]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  if(g->cur<0||!g->active){ if(!g->violated){ g->vmsg=b; g->violated=true; } throw 1; }
  g->in_rt++; violation("%s",b); }
void note(const char* fmt, ...){ if(!g->logging) return; char b[400]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); RT rt; logf_("[T%d] # %s",g->cur,b); }
extern "C" void Imc_flag_set(Flag* self){ int i; { RT rt; if(!(u32)self->id){ i=obj_new(T_FLAG,(uintptr_t)&self->id); } else i=(u32)self->id&0xffff; } point(OP_OBJ,(uintptr_t)self,i); RT rt; Obj& o=g->objs[i]; o.state=1; obj_rel(o,true); progress(); }
extern "C" bool Imc_flag_get(Flag* self){ int i; { RT rt; if(!(u32)self->id){ i=obj_new(T_FLAG,(uintptr_t)&self->id); } else i=(u32)self->id&0xffff; } point(OP_OBJ,(uintptr_t)self,i); RT rt; Obj& o=g->objs[i]; if(o.state) obj_acq(o); thmix(1500+o.state); return o.state; }
extern "C" void Imc_flag_await(Flag* self){ int i; { RT rt; if(!(u32)self->id){ i=obj_new(T_FLAG,(uintptr_t)&self->id); } else i=(u32)self->id&0xffff; } point(OP_FLAGWAIT,(uintptr_t)self,i); RT rt; obj_acq(g->objs[i]); progress(); }
extern "C" long Imc_counter_add(Counter* self,long d){ point(OP_OBJ,(uintptr_t)self); RT rt; self->v+=d; thmix(mix((uintptr_t)self,self->v)); g->ghash+=mix((uintptr_t)self,self->v+5000)-mix((uintptr_t)self,self->v-d+5000); return self->v; }
extern "C" long Imc_counter_get(Counter* self){ point(OP_OBJ,(uintptr_t)self); RT rt; thmix(mix((uintptr_t)self,self->v)); return self->v; }
int64_t real_now(){ return g->mono+g->realoff; }
int64_t mono_now(){ return g->mono; }
extern "C" void Imc_sleep_ns(int64_t ns){ do_sleep(ns); }
extern "C" void Imc_jump_real(int64_t d){ point(OP_OBJ); RT rt; g->realoff+=d; thmix(d); LOG("[T%d] system clock jumps by %ld ns",g->cur,(long)d); }
LastWait last_wait(){ return me().lw; }
void clear_last_wait(){ memset(&me().lw,0,sizeof(LastWait)); }
long live_blocks(){ return g->live; }
long live_bytes(){ return g->liveb; }
long live_sync_objects(){ long n=0; for(auto& o: g->objs) if(!o.dead&&(o.type==T_MUTEX||o.type==T_COND||o.type==T_SEM)&&*(u32*)o.addr!=0) n++; return n; }
int op_begin(int obj,int kind,int arg){ RT rt; progress(); HOp h; memset(&h,0,sizeof h); h.tid=g->cur; h.obj=obj; h.kind=kind; h.arg=arg; for(int i=0;i<MAXT&&i<12;i++) h.beg[i]=me().cur.vc[i]; me().hist.push_back(h); return g->cur*256+me().hist.size()-1; }
void op_end(int id,int r){ RT rt; HOp& h=g->f[id>>8].hist[id&255]; h.done=true; h.result=r; bump(); h.endclk=me().cur.vc[g->cur]; thmix(1600+r); LOG("[T%d] op kind=%d arg=%d returned %d",h.tid,h.kind,h.arg,r); }
static std::vector<HOp> all_hist RTD;
int history(const HOp** o){ g->in_rt++; all_hist.clear(); for(int i=0;i<g->nf;i++) all_hist.insert(all_hist.end(),g->f[i].hist.begin(),g->f[i].hist.end()); g->in_rt--; *o=all_hist.empty()?0:&all_hist[0]; return all_hist.size(); }
bool hb(const HOp& a,const HOp& b){ return a.done && b.beg[a.tid]>=a.endclk; }
struct LinCtx { std::vector<const HOp*> ops; std::vector<u32> pred; Spec spec; bool pmb; std::vector<std::pair<u32,i64> > seen; };
static int lin_avail(LinCtx& c,u32 mask,size_t self,u32 kinds){ int n=0; for(size_t i=0;i<c.ops.size();i++) if(i!=self&&!(mask>>i&1)&&(c.pred[i]&~mask)==0&&(kinds>>c.ops[i]->kind&1)) n++; return n; }
static LinCtx* lin_c RTD; static u32 lin_mask RTD; static size_t lin_self RTD;
int lin_pending(unsigned kinds){ return lin_avail(*lin_c,lin_mask,lin_self,kinds); }
static bool lin_rec(LinCtx& c,u32 mask,i64 st){
  for(auto& s: c.seen) if(s.first==mask&&s.second==st) return false;
  c.seen.push_back(std::make_pair(mask,st));
  bool alldone=true; for(size_t i=0;i<c.ops.size();i++) if(!(mask>>i&1)&&c.ops[i]->done) alldone=false;
  if(alldone){ bool ok=true; if(c.pmb) for(size_t i=0;i<c.ops.size();i++) if(!(mask>>i&1)){ lin_mask=mask; lin_self=i; i64 s2=st; if(c.spec(&s2,*c.ops[i],0)>0) ok=false; } if(ok) return true; }
  for(size_t i=0;i<c.ops.size();i++) if(!(mask>>i&1) && (c.pred[i]&~mask)==0){ for(int alt=0;alt<4;alt++){ lin_mask=mask; lin_self=i; i64 s2=st; int r=c.spec(&s2,*c.ops[i],alt); if(r<0) break; if(r>0 && lin_rec(c,mask|1u<<i,s2)) return true; } }
  return false;
}
bool linearizable(int obj,Spec spec,int64_t init,bool pmb){ g->in_rt++; LinCtx c; c.spec=spec; c.pmb=pmb; for(int i=0;i<g->nf;i++) for(auto& h: g->f[i].hist) if(h.obj==obj) c.ops.push_back(&h);
  lin_c=&c; c.pred.resize(c.ops.size()); for(size_t i=0;i<c.ops.size();i++){ c.pred[i]=0; for(size_t j=0;j<c.ops.size();j++) if(i!=j&&(hb(*c.ops[j],*c.ops[i]))) c.pred[i]|=1u<<j; }
  bool r=lin_rec(c,0,init); g->in_rt--; return r; }
std::string hist_str(){ std::string s; for(int i=0;i<g->nf;i++) for(auto& h: g->f[i].hist){ char b[80]; snprintf(b,sizeof b,"%sT%d:%d(%d)=%s",s.empty()?"":" ",h.tid,h.kind,h.arg,h.done?(h.result?"1":"0"):"pending"); s+=b; } return s; }
const char* history_str(){ static char b[800] RTD; g->in_rt++; { std::string s=hist_str(); snprintf(b,sizeof b,"%s",s.c_str()); } g->in_rt--; return b; }
void on_final(void(*f)()){ g->final_fn=f; }
void on_stuck(bool(*f)()){ g->stuck_fn=f; }
void inject(Call c,int err){ g->inj[c].on=true; g->inj[c].err=err; }
void inject_clear(){ memset(g->inj,0,sizeof g->inj); g->nomem_on=false; }
int injected(){ int n=g->inj_count; g->inj_count=0; return n; }
int injected_err(){ return g->inj_err; }
void nomem(bool on){ g->nomem_on=on; }
int real_threads(){ return g->nf; }
}


// ---------------------------------------------------------------- entry points
// Every entry records the caller's callee-saved registers and stack pointer (they are part of the state), and clears the
// stack below the caller on return, so that no residue of the runtime becomes part of the program's state.
#define ENTRY(n) __asm__(".text\n.globl " #n "\n.type " #n ",@function\n" #n ":\n" \
 " movq mc_curregs(%rip),%r11\n movq %rbx,(%r11)\n movq %rbp,8(%r11)\n movq %r12,16(%r11)\n movq %r13,24(%r11)\n movq %r14,32(%r11)\n movq %r15,40(%r11)\n movq %rsp,48(%r11)\n" \
 " movq (%rsp),%rax\n movq %rax,mc_ra(%rip)\n subq $8,%rsp\n call I" #n "\n addq $8,%rsp\n cmpq $0,mc_active(%rip)\n je 1f\n movq %rax,%r11\n leaq -MCCLR(%rsp),%rdi\n movl $(MCCLR/8),%ecx\n xorl %eax,%eax\n rep stosq\n movq %r11,%rax\n1: ret\n.size " #n ",.-" #n "\n");
#define ENTRYJ(n) __asm__(".text\n.globl " #n "\n.type " #n ",@function\n" #n ":\n" \
 " movq mc_curregs(%rip),%r11\n movq %rbx,(%r11)\n movq %rbp,8(%r11)\n movq %r12,16(%r11)\n movq %r13,24(%r11)\n movq %r14,32(%r11)\n movq %r15,40(%r11)\n movq %rsp,48(%r11)\n" \
 " movq (%rsp),%r10\n movq %r10,mc_ra(%rip)\n jmp I" #n "\n.size " #n ",.-" #n "\n");
__asm__(".set MCCLR,768\n");
extern "C" { u64 mc_ra RTD=0; }
ENTRY(__tsan_atomic8_load)
ENTRY(__tsan_atomic8_store)
ENTRY(__tsan_atomic8_exchange)
ENTRY(__tsan_atomic8_fetch_add)
ENTRY(__tsan_atomic8_fetch_sub)
ENTRY(__tsan_atomic8_fetch_and)
ENTRY(__tsan_atomic8_fetch_or)
ENTRY(__tsan_atomic8_fetch_xor)
ENTRY(__tsan_atomic8_fetch_nand)
ENTRY(__tsan_atomic8_compare_exchange_strong)
ENTRY(__tsan_atomic8_compare_exchange_weak)
ENTRY(__tsan_atomic8_compare_exchange_val)
ENTRY(__tsan_atomic16_load)
ENTRY(__tsan_atomic16_store)
ENTRY(__tsan_atomic16_exchange)
ENTRY(__tsan_atomic16_fetch_add)
ENTRY(__tsan_atomic16_fetch_sub)
ENTRY(__tsan_atomic16_fetch_and)
ENTRY(__tsan_atomic16_fetch_or)
ENTRY(__tsan_atomic16_fetch_xor)
ENTRY(__tsan_atomic16_fetch_nand)
ENTRY(__tsan_atomic16_compare_exchange_strong)
ENTRY(__tsan_atomic16_compare_exchange_weak)
ENTRY(__tsan_atomic16_compare_exchange_val)
ENTRY(__tsan_atomic32_load)
ENTRY(__tsan_atomic32_store)
ENTRY(__tsan_atomic32_exchange)
ENTRY(__tsan_atomic32_fetch_add)
ENTRY(__tsan_atomic32_fetch_sub)
ENTRY(__tsan_atomic32_fetch_and)
ENTRY(__tsan_atomic32_fetch_or)
ENTRY(__tsan_atomic32_fetch_xor)
ENTRY(__tsan_atomic32_fetch_nand)
ENTRY(__tsan_atomic32_compare_exchange_strong)
ENTRY(__tsan_atomic32_compare_exchange_weak)
ENTRY(__tsan_atomic32_compare_exchange_val)
ENTRY(__tsan_atomic64_load)
ENTRY(__tsan_atomic64_store)
ENTRY(__tsan_atomic64_exchange)
ENTRY(__tsan_atomic64_fetch_add)
ENTRY(__tsan_atomic64_fetch_sub)
ENTRY(__tsan_atomic64_fetch_and)
ENTRY(__tsan_atomic64_fetch_or)
ENTRY(__tsan_atomic64_fetch_xor)
ENTRY(__tsan_atomic64_fetch_nand)
ENTRY(__tsan_atomic64_compare_exchange_strong)
ENTRY(__tsan_atomic64_compare_exchange_weak)
ENTRY(__tsan_atomic64_compare_exchange_val)
ENTRY(__tsan_atomic_thread_fence)
ENTRY(__tsan_read1)
ENTRY(__tsan_write1)
ENTRY(__tsan_unaligned_read1)
ENTRY(__tsan_unaligned_write1)
ENTRY(__tsan_volatile_read1)
ENTRY(__tsan_volatile_write1)
ENTRY(__tsan_unaligned_volatile_read1)
ENTRY(__tsan_unaligned_volatile_write1)
ENTRY(__tsan_read_write1)
ENTRY(__tsan_read2)
ENTRY(__tsan_write2)
ENTRY(__tsan_unaligned_read2)
ENTRY(__tsan_unaligned_write2)
ENTRY(__tsan_volatile_read2)
ENTRY(__tsan_volatile_write2)
ENTRY(__tsan_unaligned_volatile_read2)
ENTRY(__tsan_unaligned_volatile_write2)
ENTRY(__tsan_read_write2)
ENTRY(__tsan_read4)
ENTRY(__tsan_write4)
ENTRY(__tsan_unaligned_read4)
ENTRY(__tsan_unaligned_write4)
ENTRY(__tsan_volatile_read4)
ENTRY(__tsan_volatile_write4)
ENTRY(__tsan_unaligned_volatile_read4)
ENTRY(__tsan_unaligned_volatile_write4)
ENTRY(__tsan_read_write4)
ENTRY(__tsan_read8)
ENTRY(__tsan_write8)
ENTRY(__tsan_unaligned_read8)
ENTRY(__tsan_unaligned_write8)
ENTRY(__tsan_volatile_read8)
ENTRY(__tsan_volatile_write8)
ENTRY(__tsan_unaligned_volatile_read8)
ENTRY(__tsan_unaligned_volatile_write8)
ENTRY(__tsan_read_write8)
ENTRY(__tsan_read16)
ENTRY(__tsan_write16)
ENTRY(__tsan_unaligned_read16)
ENTRY(__tsan_unaligned_write16)
ENTRY(__tsan_volatile_read16)
ENTRY(__tsan_volatile_write16)
ENTRY(__tsan_unaligned_volatile_read16)
ENTRY(__tsan_unaligned_volatile_write16)
ENTRY(__tsan_read_write16)
ENTRY(__tsan_read_range)
ENTRY(__tsan_write_range)
ENTRY(__tsan_vptr_update)
ENTRY(__tsan_vptr_read)
ENTRY(mc_memcpy)
ENTRY(mc_memmove)
ENTRY(mc_memset)
ENTRY(pthread_mutex_init)
ENTRY(pthread_mutex_destroy)
ENTRY(pthread_mutexattr_init)
ENTRY(pthread_condattr_init)
ENTRY(pthread_cond_init)
ENTRY(pthread_cond_destroy)
ENTRY(sem_init)
ENTRY(sem_destroy)
ENTRY(pthread_key_create)
ENTRY(pthread_setspecific)
ENTRY(pthread_mutex_lock)
ENTRY(pthread_mutex_trylock)
ENTRY(pthread_mutex_timedlock)
ENTRY(pthread_mutex_clocklock)
ENTRY(pthread_mutex_unlock)
ENTRY(pthread_cond_wait)
ENTRY(pthread_cond_timedwait)
ENTRY(pthread_cond_clockwait)
ENTRY(pthread_cond_signal)
ENTRY(pthread_cond_broadcast)
ENTRY(sem_wait)
ENTRY(sem_timedwait)
ENTRY(sem_clockwait)
ENTRY(sem_trywait)
ENTRY(sem_post)
ENTRY(sem_getvalue)
ENTRY(mc_k_init)
ENTRY(mc_k_close)
ENTRY(mc_k_wait)
ENTRY(mc_k_signal)
ENTRY(__cxa_guard_acquire)
ENTRY(__cxa_guard_release)
ENTRY(clock_gettime)
ENTRY(gettimeofday)
ENTRY(nanosleep)
ENTRY(usleep)
ENTRY(clock_nanosleep)
ENTRY(time)
ENTRY(mc_join)
ENTRY(mc_quiesce)
ENTRY(mc_yield)
ENTRY(mc_sleep_ns)
ENTRY(mc_jump_real)
ENTRY(mc_flag_set)
ENTRY(mc_flag_get)
ENTRY(mc_flag_await)
ENTRY(mc_counter_add)
ENTRY(mc_counter_get)
ENTRYJ(pthread_once)
ENTRYJ(syscall)
// ---------------------------------------------------------------- exploration driver
static void crash_handler(int sig,siginfo_t* si,void*){
  if(g&&g->active&&g->cur>=0){
    if(sig==SIGALRM){ if(g->watchdog_exec==(long)g->execs && g->watchdog_step==g->step){ if(++g->watchdog_hits<8) return; } else { g->watchdog_exec=g->execs; g->watchdog_step=g->step; g->watchdog_hits=0; return; } }
    char b[160]; if(sig==SIGALRM) snprintf(b,sizeof b,"T%d loops without making progress",g->cur); else snprintf(b,sizeof b,"T%d crashed with signal %d (address %p)",g->cur,sig,si->si_addr);
    g->vmsg=b; g->violated=true; g->in_rt=1;
    sigset_t s; sigemptyset(&s); sigaddset(&s,sig); sigprocmask(SIG_UNBLOCK,&s,0);
    end_exec(2);
  }
  if(sig==SIGALRM) return;
  fprintf(stderr,"mc: crash signal %d outside of the model at %p\n",sig,si->si_addr); _exit(6);
}
static int phdr_cb(struct dl_phdr_info* i,size_t,void*){
  for(int k=0;k<i->dlpi_phnum;k++){ const ElfW(Phdr)& p=i->dlpi_phdr[k];
    if(p.p_type==PT_LOAD){ uintptr_t lo=i->dlpi_addr+p.p_vaddr,hi=lo+p.p_memsz; if(!exe_lo||lo<exe_lo) exe_lo=lo; if(hi>exe_hi) exe_hi=hi;
      if(p.p_flags&PF_W){ segs[nsegs].lo=(char*)lo; segs[nsegs].len=p.p_memsz; nsegs++; } }
    if(p.p_type==PT_TLS){ tls_size=p.p_memsz; size_t al=p.p_align?p.p_align:1; uintptr_t fs; __asm__("movq %%fs:0,%0":"=r"(fs)); tls_base=(char*)((fs-p.p_memsz)&~(al-1)); tls_size=fs-(uintptr_t)tls_base; if(tls_size>1024){ fprintf(stderr,"mc: TLS too large\n"); _exit(6);} memcpy(g->arena+ARENA,tls_base,tls_size); } }
  return 1; // only the executable
}
extern char __start_rtdata[], __stop_rtdata[];
extern "C" char mc_relro_start __attribute__((weak));
static void snapshot_init(){
  // writable parts of the executable's data, without rtdata, without read-only-after-relocation pages
  snap=new std::vector<Seg>();
  FILE* f=fopen("/proc/self/maps","r"); char line[512]; std::vector<std::pair<uintptr_t,uintptr_t> > wr; while(fgets(line,sizeof line,f)){ unsigned long lo,hi; char pr[8]; if(sscanf(line,"%lx-%lx %7s",&lo,&hi,pr)==3&&pr[1]=='w') wr.push_back(std::make_pair(lo,hi)); } fclose(f);
  for(int i=0;i<nsegs;i++) for(auto& w: wr){ uintptr_t lo=std::max((uintptr_t)segs[i].lo,w.first),hi=std::min((uintptr_t)segs[i].lo+segs[i].len,w.second); if(lo>=hi) continue;
    uintptr_t a=(uintptr_t)__start_rtdata,b=(uintptr_t)__stop_rtdata;
    auto add=[&](uintptr_t l,uintptr_t h){ if(l<h){ Seg s; s.lo=(char*)l; s.len=h-l; s.save=(char*)malloc(s.len); snap->push_back(s); } };
    if(b<=lo||a>=hi) add(lo,hi); else { add(lo,std::max(lo,a)); add(std::min(hi,b),hi); } }
}
static void snapshot_take(){ for(auto& s: *snap) memcpy(s.save,s.lo,s.len); }
static void snapshot_restore(){ for(auto& s: *snap) memcpy(s.lo,s.save,s.len); }

static void run_once(const mc::Scenario& s){
  snapshot_restore();
  g->gen++; g->touched.clear(); g->nf=1; g->cur=-1; g->objs.clear(); g->nloc=0; g->sc.clear(); g->mono=g->cfg.mono0; g->realoff=g->cfg.real0-g->cfg.mono0; g->ghash=0; g->apos=64; g->live=0; g->liveb=0; g->nalloc=0;
  g->stale=g->cfg.stale; g->faults=g->cfg.faults; g->early=g->cfg.early; g->preempts=0; g->depth=0; g->step=0; g->violated=false; g->vmsg.clear(); for(int i=0;i<MAXT;i++) g->f[i].hist.clear(); g->final_fn=0; g->stuck_fn=0; g->stuck_allowed=false; memset(g->inj,0,sizeof g->inj); g->inj_count=0; g->inj_err=0; g->nomem_on=false; memset(g->key,0,sizeof g->key);
  for(int i=0;i<MAXT;i++){ g->f[i].used=false; g->f[i].done=false; memset(g->f[i].keys,0,sizeof g->f[i].keys); }
  g->in_rt=0; 
  struct L{ static void go(void* p){ ((mc::Scenario*)p)->fn(); } };
  fiber_make(g->f[0],&L::go,(void*)&s);
  u64 eh0=ehg()[0],eh1=ehg()[1]; char tlss[1024]; if(tls_size) memcpy(tlss,tls_base,tls_size);
  g->active=true; mc_active=1; g->cur=0; mc_curregs=g->f[0].ur; load_ctx(g->f[0]); g->step=0; g->f[0].p.k=OP_NONE;
  mc_switch(&g->main_sp,g->f[0].sp);
  g->active=false; mc_active=0; mc_curregs=mc_dummyregs; g->in_rt=0; ehg()[0]=eh0; ehg()[1]=eh1; if(tls_size) memcpy(tls_base,tlss,tls_size);
  g->cur=-1;
  if(!g->violated && (g->end_reason==0||g->end_reason==3) && g->final_fn){ try { g->final_fn(); } catch(int){} }
  if(g->depth>g->maxdepth) g->maxdepth=g->depth;
}
static std::string jstr(const std::string& s){ std::string o="\""; for(char c: s){ if(c=='"'||c=='\\'){ o+='\\'; o+=c; } else if(c=='\n') o+="\\n"; else if((unsigned char)c<32) o+=' '; else o+=c; } return o+"\""; }
static std::string chstr(){ std::string s; char b[16]; for(auto& c: g->ch){ snprintf(b,sizeof b,"%s%d",s.empty()?"":",",c.c); s+=b; } return s; }

static void reset_search(){ g->ch.clear(); g->replay_len=0; g->states=g->transitions=g->execs=g->pruned=g->maxdepth=g->stuck_ok=g->choices=0; g->truncated=false; std::fill(g->vis.begin(),g->vis.end(),0); g->nvis=0; g->samples.clear(); g->noexplore=false; }

static bool explore(const mc::Scenario& s,const mc::Config& cfg,double secs,bool verbose){
  g->cfg=cfg; g->scen=s.name; reset_search(); g->t0=now_s();
  bool bad=false;
  for(;;){
    bool sample = g->execs==0; g->logging=sample; g->log.clear();
    run_once(s); g->execs++;
    if(sample && g->samples.empty()) g->samples.push_back(g->log);
    g->logging=false;
    if(g->violated){ bad=true; break; }
    while(!g->ch.empty() && g->ch.back().c+1>=g->ch.back().n) g->ch.pop_back();
    if(g->ch.empty()) break;
    g->ch.back().c++; g->replay_len=g->ch.size();
    if((g->execs&15)==0 && now_s()-g->t0>secs){ g->truncated=true; break; }
  }
  double el=now_s()-g->t0;
  std::string choices,msg,log; bool confirmed=false;
  if(bad){ choices=chstr(); msg=g->vmsg; 
    g->noexplore=true; std::vector<Choice> keep=g->ch; confirmed=true;
    for(int i=0;i<2;i++){ g->ch=keep; g->replay_len=keep.size(); g->logging=true; g->log.clear(); run_once(s); if(!g->violated) confirmed=false; log=g->log; }
    g->logging=false; }
  printf("{\"scenario\":%s,\"props\":%s,\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"pruned\":%lu,\"maxdepth\":%lu,\"stuck_ok\":%lu,\"complete\":%s,\"secs\":%.2f,\"cfg\":{\"stale\":%d,\"faults\":%d,\"early\":%d,\"preempt\":%d,\"fixed_order\":%d},\"sample\":%s",
    jstr(s.name).c_str(),jstr(s.props).c_str(),(unsigned long)g->states,(unsigned long)g->transitions,(unsigned long)g->execs,(unsigned long)g->pruned,(unsigned long)g->maxdepth,(unsigned long)g->stuck_ok,g->truncated||bad?"false":"true",el,cfg.stale,cfg.faults,cfg.early,cfg.preempt,cfg.fixed,jstr(g->samples.empty()?"":g->samples[0].substr(0,1500)).c_str());
  if(bad) printf(",\"violation\":%s,\"confirmed\":%s,\"choices\":\"%s\",\"log\":%s",jstr(msg).c_str(),confirmed?"true":"false",choices.c_str(),jstr(log).c_str());
  printf("}\n"); fflush(stdout);
  (void)verbose; return bad;
}
static const char* want_prop RTD=0;
static bool thorough RTD=false;
bool mc::thorough(){ return ::thorough; }
bool mc::wanted(const char* p){ return !want_prop||!strcmp(p,want_prop); }
int main(int argc,char** argv){
  bool list=false; double secs=20; std::string only,replay; bool dorep=false; g->shard=0; g->nshards=1; bool ov=false; int os=0,of=0,oe=0,op=-1;
  for(int i=1;i<argc;i++){ std::string a=argv[i]; if(a=="--thorough") thorough=true; else if(a=="--hist") g->histfp=true; else if(a=="--list") list=true; else if(a=="--secs") secs=atof(argv[++i]); else if(a=="--scenario") only=argv[++i]; else if(a=="--replay"){ dorep=true; replay=argv[++i]; } else if(a=="--cfg"){ ov=true; sscanf(argv[++i],"%d,%d,%d,%d",&os,&of,&oe,&op); } else if(a=="--shard"){ sscanf(argv[++i],"%d/%d",&g->shard,&g->nshards); } else if(a=="--prop") want_prop=argv[++i]; }
  if(list){ for(auto& s: *scen_list) printf("%s %s %d %d %d\n",s.name,s.props,s.in_quick?1:0,s.quick.shards,s.thorough.shards); return 0; }
  g->max_secs=secs;
  stack_t ss; ss.ss_sp=mmap(0,65536,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); ss.ss_size=65536; ss.ss_flags=0; sigaltstack(&ss,0);
  errno_at=(uintptr_t)&errno;
  struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=crash_handler; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; for(int s: {SIGSEGV,SIGBUS,SIGILL,SIGFPE,SIGALRM}) sigaction(s,&sa,0);
  struct itimerval it; it.it_interval.tv_sec=0; it.it_interval.tv_usec=500000; it.it_value=it.it_interval; setitimer(ITIMER_REAL,&it,0);
  snapshot_init(); snapshot_take();
  bool bad=false;
  std::vector<mc::Scenario> list_copy=*scen_list;
  for(auto& s: list_copy){ if(!only.empty()&&only!=s.name) continue; if(only.empty()&&!thorough&&!s.in_quick) continue; 
    mc::Config c=thorough?s.thorough:s.quick; if(ov){ c.stale=os; c.faults=of; c.early=oe; c.preempt=op; }
    if(dorep){ g->cfg=c; g->scen=s.name; reset_search(); g->noexplore=true; const char* p=replay.c_str(); 
      // choices only: n is unknown, so re-derive by accepting any n
      while(*p){ Choice k; k.c=strtol(p,(char**)&p,10); k.n=-1; k.kind=0; g->ch.push_back(k); if(*p==',') p++; }
      g->replay_len=0; // handled below
      forced_=g->ch; g->ch.clear(); forcing_=true;
      g->logging=true; g->log.clear(); run_once(s); printf("%s",g->log.c_str()); printf("%s\n",g->violated?("VIOLATED: "+g->vmsg).c_str():"held"); return g->violated?1:0; }
    bad|=explore(s,c,secs,false); }
  return bad?1:0;
}
std::vector<Choice> forced_ RTD; bool forcing_ RTD=false;
static void __attribute__((constructor(101))) mc_init(){
  g=(G*)__libc_calloc(1,sizeof(G)); new(g) G(); g->cur=-1; g->active=false; g->in_rt=0; g->nf=0; g->gen=1;
  g->arena=(char*)mmap((void*)0x700000000000ULL,ARENA+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  g->chunks.assign(4096,(Chunk*)0); g->nchunks=0; g->lochash.assign(1024,0); g->lochgen.assign(1024,0); g->vis.assign(1<<16,0); g->visp.assign(1<<16,0); g->nvis=0;
  g->states=g->transitions=g->execs=g->pruned=g->maxdepth=g->stuck_ok=g->choices=0; g->logging=false; g->noexplore=false; g->final_fn=0; g->stuck_fn=0; memset(g->inj,0,sizeof g->inj); memset(g->key,0,sizeof g->key); g->watchdog_hits=0;
  for(int i=0;i<MAXT;i++){ g->f[i].stk=0; g->f[i].used=false; g->f[i].done=false; memset(g->f[i].keys,0,sizeof g->f[i].keys); }
  g->stklo=(char*)mmap((void*)0x710000000000ULL,MAXT*(STK+8192),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); g->stkhi=g->stklo+MAXT*(STK+8192);
  dl_iterate_phdr(phdr_cb,0);
}
