#ifndef VERIF_INTERLOCKED_HPP_
#define VERIF_INTERLOCKED_HPP_
inline long verif_interlocked_cas(long volatile* p, long v, long c) { __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
#define BOOST_INTERLOCKED_INCREMENT(p) (__atomic_add_fetch((p), 1, __ATOMIC_SEQ_CST))
#define BOOST_INTERLOCKED_DECREMENT(p) (__atomic_sub_fetch((p), 1, __ATOMIC_SEQ_CST))
#define BOOST_INTERLOCKED_EXCHANGE(p, v) (__atomic_exchange_n((p), (long)(v), __ATOMIC_SEQ_CST))
#define BOOST_INTERLOCKED_EXCHANGE_ADD(p, v) (__atomic_fetch_add((p), (long)(v), __ATOMIC_SEQ_CST))
#define BOOST_INTERLOCKED_COMPARE_EXCHANGE(p, v, c) (verif_interlocked_cas((p), (v), (c)))
#define BOOST_INTERLOCKED_READ(p) (__atomic_load_n((p), __ATOMIC_SEQ_CST))
#endif
