// the interlocked functions of Windows, full barriers
#ifndef MC_INTERLOCKED_HPP
#define MC_INTERLOCKED_HPP
static inline long mc_cmpxchg(long* p,long n,long o){ __atomic_compare_exchange_n(p,&o,n,false,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); return o; }
#define BOOST_INTERLOCKED_COMPARE_EXCHANGE(p,n,o) mc_cmpxchg(p,n,o)
#define BOOST_INTERLOCKED_EXCHANGE(p,n) __atomic_exchange_n(p,(long)(n),__ATOMIC_SEQ_CST)
#endif
