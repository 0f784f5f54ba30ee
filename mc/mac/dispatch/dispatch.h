// A model of the semaphores of Grand Central Dispatch, on top of the model checker's kernel objects (mc_k_*).
#ifndef MC_DISPATCH_H
#define MC_DISPATCH_H
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
#include "mc.h"
#define MCD static inline __attribute__((unused,no_sanitize("thread")))
typedef uint64_t dispatch_time_t;
#define DISPATCH_TIME_NOW 0ull
#define DISPATCH_TIME_FOREVER (~0ull)
struct mc_dispatch_semaphore { uint32_t id; int orig; };
typedef mc_dispatch_semaphore* dispatch_semaphore_t;
MCD dispatch_semaphore_t dispatch_semaphore_create(long v){ if(v<0) return 0; dispatch_semaphore_t s=(dispatch_semaphore_t)malloc(sizeof(*s)); if(!s) return 0; s->id=0; s->orig=v; mc_k_init(&s->id,0,v); return s; }
MCD void dispatch_release(dispatch_semaphore_t s){ for(int i=0;i<s->orig;i++) MC_CHECK(mc_k_wait(&s->id,0,CLOCK_MONOTONIC)==0,"dispatch_release of a semaphore whose count is less than the initial one"); mc_k_close(&s->id); free(s); }
MCD long dispatch_semaphore_signal(dispatch_semaphore_t s){ mc_k_signal(&s->id,1,0x7fffffffffffffffl); return 0; }
// relative to now: positive; walls: the negated time
MCD dispatch_time_t dispatch_time(dispatch_time_t,int64_t d){ int64_t n=mc::mono_now(); if(d>0&&n>INT64_MAX-d) return DISPATCH_TIME_FOREVER; return n+d>0?n+d:1; }
MCD dispatch_time_t dispatch_walltime(const struct timespec* t,int64_t d){ __int128 n=(__int128)t->tv_sec*1000000000+t->tv_nsec+d; if(n<=1||n>INT64_MAX) return DISPATCH_TIME_FOREVER; return (dispatch_time_t)-(int64_t)n; }
MCD long dispatch_semaphore_wait(dispatch_semaphore_t s,dispatch_time_t t){ int64_t v=(int64_t)t; return mc_k_wait(&s->id,t==DISPATCH_TIME_FOREVER?INT64_MAX:t==DISPATCH_TIME_NOW?INT64_MIN:v<0?-v:v,v<0&&t!=DISPATCH_TIME_FOREVER?CLOCK_REALTIME:CLOCK_MONOTONIC); }
#endif
