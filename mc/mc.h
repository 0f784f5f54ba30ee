// Harness-side API of the model checker runtime (see rt.cpp).
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <new>
#include <utility>

namespace mc {

// ---- exploration configuration of a scenario ----
struct Config {
  int stale;        // how many loads per execution may read a non-latest message
  int faults;       // how many environment faults (EINTR, spurious wakeup, weak CAS failure, injected error)
  int early;        // how many times the clock may advance although some thread can run
  int preempt;      // preemption bound, -1: unbounded
  unsigned fmask;   // which faults are possible (F_* bits)
  int steps;        // step limit of one execution
  int64_t real0;    // realtime clock at start (ns)
  int64_t mono0;    // monotonic clock at start (ns)
  int sem_max;      // model SEM_VALUE_MAX
  int fixed;        // 1: threads run in a fixed order until they block (for long or wide scenarios)
  int shards;       // number of processes the first choose_shard() is split over
  Config() : stale(0), faults(0), early(0), preempt(-1), fmask(0), steps(20000),
             real0(1600000000LL*1000000000LL+123456789), mono0(5000LL*1000000000LL+987654321), sem_max(0x7fffffff), fixed(0), shards(1) {}
  Config& Stale(int n){stale=n;return *this;}
  Config& Faults(int n,unsigned m){faults=n;fmask=m;return *this;}
  Config& Early(int n){early=n;return *this;}
  Config& Preempt(int n){preempt=n;return *this;}
  Config& Steps(int n){steps=n;return *this;}
  Config& Real0(int64_t n){real0=n;return *this;}
  Config& Fixed(){fixed=1;return *this;}
  Config& Shards(int n){shards=n;return *this;}
  Config& SemMax(int n){sem_max=n;return *this;}
};
enum {
  F_EINTR=1,        // futex / sem waits return EINTR
  F_SIGEAT=1<<20,   // a condvar wait times out and consumes a signal
  F_SPURIOUS=2,     // futex / condvar waits return without a wakeup
  F_CASWEAK=4,      // weak CAS fails spuriously
  F_ERR=8,          // calls selected by inject() fail with the selected code
  F_PTHREAD_EINTR=16, // pthread_mutex/cond calls return EINTR (BOOST_SYNC_HAS_PTHREAD_EINTR_BUG platforms)
  F_NOMEM=32        // allocations fail
};
// functions that can fail under F_ERR
enum Call { CALL_MUTEX_INIT, CALL_MUTEX_LOCK, CALL_MUTEX_TRYLOCK, CALL_MUTEX_TIMEDLOCK, CALL_MUTEX_UNLOCK, CALL_COND_INIT,
  CALL_COND_WAIT, CALL_COND_TIMEDWAIT, CALL_COND_SIGNAL, CALL_SEM_INIT, CALL_SEM_WAIT, CALL_SEM_TRYWAIT, CALL_SEM_TIMEDWAIT, CALL_SEM_POST,
  CALL_KEY_CREATE, CALL_SETSPECIFIC, CALL_ATTR, CALL_N };
void inject(Call c, int err);        // from now on call c may fail with err (consumes a fault; F_ERR)
void inject_clear();
int  injected();                     // number of injected failures so far; resets
int  injected_err();                 // last injected error
void nomem(bool on);                 // allow allocation failures (consumes a fault; F_NOMEM)

// ---- threads ----
int  spawn_raw(void(*f)(void*), void* arg);
}
extern "C" { void mc_k_init(uint32_t*,int,long); void mc_k_close(uint32_t*); int mc_k_wait(uint32_t*,int64_t,int); bool mc_k_signal(uint32_t*,long,long); }
extern "C" { void mc_join(int); void mc_quiesce(); void mc_yield(); void mc_sleep_ns(int64_t); void mc_jump_real(int64_t); }
namespace mc {
static inline void join(int tid){ mc_join(tid); }
static inline void quiesce(){ mc_quiesce(); } // wait until no other thread can run (without passing of time)
bool finished(int tid);
bool blocked(int tid);
int  self();
void keep_stuck_ok(bool);            // threads blocked forever at the end are not an error
// the call made in this scope must return even if threads blocked forever are acceptable
const char* must_return(const char* what);
struct MustReturn { const char* old; explicit MustReturn(const char* what):old(must_return(what)){} ~MustReturn(){ must_return(old); } };
int  real_threads();
template<class F> struct Thunk { static void run(void* p){ F* f=static_cast<F*>(p); (*f)(); delete f; } };
template<class F> int spawn(F f){ return spawn_raw(&Thunk<F>::run, new F(std::move(f))); }
static inline void yield(){ mc_yield(); } // a visible no-op

// ---- nondeterminism, checks ----
int  choose(int n);
int  choose_shard(int n);            // choose(n), but split over the processes of a sharded scenario
// Stateful exploration of a single-threaded scenario: ends the execution if this state (an encoding chosen by the scenario) was reached before
void checkpoint(const void* key, size_t n);
void fail(const char* fmt, ...) __attribute__((format(printf,1,2), noreturn));
#define MC_CHECK(c, ...) do { if (!(c)) ::mc::fail(__VA_ARGS__); } while (0)
// a check that belongs to one property: only made when that property (or no particular one) is being decided
bool thorough();   // the run is a deep one
bool wanted(const char* prop);
#define MC_CHECK_P(p, c, ...) do { if (::mc::wanted(p) && !(c)) ::mc::fail(__VA_ARGS__); } while (0)
void note(const char* fmt, ...) __attribute__((format(printf,1,2)));
long sample_count();

// ---- model-level flags (acquire/release, blocking) ----
struct Flag; struct Counter; }
extern "C" { void mc_flag_set(mc::Flag*); bool mc_flag_get(mc::Flag*); void mc_flag_await(mc::Flag*); long mc_counter_add(mc::Counter*,long); long mc_counter_get(mc::Counter*); }
namespace mc {
struct Flag { uint64_t id; Flag():id(0){} void set(){ mc_flag_set(this); } bool get(){ return mc_flag_get(this); } void await(){ mc_flag_await(this); } };
// counter without any ordering (like a relaxed atomic, but always current)
struct Counter { long v; Counter():v(0){} long add(long d){ return mc_counter_add(this,d); } long get(){ return mc_counter_get(this); } };

// ---- time ----
int64_t real_now();
int64_t mono_now();
static inline void sleep_ns(int64_t ns){ mc_sleep_ns(ns); } // block for a virtual time span
static inline void jump_real(int64_t d){ mc_jump_real(d); } // the system clock is adjusted
struct LastWait { int kind; int64_t sec; int64_t nsec; int clock; bool abs; bool has_timeout; int count; };
// last timed OS wait of this thread
LastWait last_wait();
void clear_last_wait();

// ---- memory ----
long live_blocks();                  // arena blocks currently allocated
long live_bytes();                   // and their total size
long live_sync_objects();

// ---- histories ----
int  op_begin(int obj, int kind, int arg=0);
void op_end(int id, int result);
struct HOp { int tid, obj, kind, arg, result; bool done; uint32_t beg[12]; uint32_t endclk; };
int  history(const HOp** ops);
bool hb(const HOp& a, const HOp& b);  // a's end happens before b's begin
// sequential specification: tries alternative alt (0,1,...) of op in *state: 1 = taken, 0 = not allowed, -1 = no such alternative
typedef int (*Spec)(int64_t* state, const HOp& op, int alt);
int lin_pending(unsigned kinds);      // inside a Spec: number of other ops of these kinds that have begun and are not linearized yet
const char* history_str();
bool linearizable(int obj, Spec spec, int64_t init, bool pending_must_block);

void on_final(void(*f)());           // executed after the end of each execution (no instrumentation)
void on_stuck(bool(*f)());           // called when nothing can run; return true if that is acceptable

struct Scenario { const char* name; const char* props; void(*fn)(); Config quick, thorough; bool in_quick; };
struct Reg { Reg(const Scenario& s); };
}
#define MC_CAT2(a,b) a##b
#define MC_CAT(a,b) MC_CAT2(a,b)
#define SCENARIO(name, props, qcfg, tcfg) \
  static void name(); \
  static ::mc::Reg MC_CAT(reg_,name)(::mc::Scenario{#name, props, &name, qcfg, tcfg, true}); \
  static void name()
#define SCENARIO_T(name, props, tcfg) \
  static void name(); \
  static ::mc::Reg MC_CAT(reg_,name)(::mc::Scenario{#name, props, &name, tcfg, tcfg, false}); \
  static void name()
// in the quick tier only if cond
#define SCENARIO_IF(cond, name, props, qcfg, tcfg) \
  static void name(); \
  static ::mc::Reg MC_CAT(reg_,name)(::mc::Scenario{#name, props, &name, qcfg, tcfg, (cond)}); \
  static void name()
#if defined(MC_V_eintr) || defined(MC_V_cxx03)
#define MC_MAIN false   // variants of secondary interest
#else
#define MC_MAIN true
#endif
#define CFG ::mc::Config()
#endif
