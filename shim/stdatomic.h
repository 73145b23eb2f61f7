/* gcc-compatible <stdatomic.h> for analysis builds: the runtime uses these operations on plain (non-_Atomic) objects,
 * which gcc accepts and clang's own header rejects. */
#ifndef VERIF_STDATOMIC_H
#define VERIF_STDATOMIC_H
#include <stddef.h>
#include <stdint.h>
typedef enum {
    memory_order_relaxed = __ATOMIC_RELAXED, memory_order_consume = __ATOMIC_CONSUME, memory_order_acquire = __ATOMIC_ACQUIRE,
    memory_order_release = __ATOMIC_RELEASE, memory_order_acq_rel = __ATOMIC_ACQ_REL, memory_order_seq_cst = __ATOMIC_SEQ_CST
} memory_order;
typedef _Bool atomic_bool; typedef char atomic_char; typedef signed char atomic_schar; typedef unsigned char atomic_uchar;
typedef short atomic_short; typedef unsigned short atomic_ushort; typedef int atomic_int; typedef unsigned int atomic_uint;
typedef long atomic_long; typedef unsigned long atomic_ulong; typedef long long atomic_llong; typedef unsigned long long atomic_ullong;
typedef int_least8_t atomic_int_least8_t; typedef uint_least8_t atomic_uint_least8_t;
typedef int_least16_t atomic_int_least16_t; typedef uint_least16_t atomic_uint_least16_t;
typedef int_least32_t atomic_int_least32_t; typedef uint_least32_t atomic_uint_least32_t;
typedef int_least64_t atomic_int_least64_t; typedef uint_least64_t atomic_uint_least64_t;
typedef intptr_t atomic_intptr_t; typedef uintptr_t atomic_uintptr_t; typedef size_t atomic_size_t; typedef ptrdiff_t atomic_ptrdiff_t;
typedef intmax_t atomic_intmax_t; typedef uintmax_t atomic_uintmax_t;
/* the same object without the qualifier: these builtins take plain objects only */
#define VERIF_PLAIN(p) ((__typeof__(((void) 0, *(p))) *) (p))
#define ATOMIC_VAR_INIT(v) (v)
#define ATOMIC_FLAG_INIT {0}
typedef struct { unsigned char v; } atomic_flag;
#define atomic_flag_test_and_set(p) __atomic_test_and_set(&(p)->v, __ATOMIC_SEQ_CST)
#define atomic_flag_clear(p) __atomic_clear(&(p)->v, __ATOMIC_SEQ_CST)
#define atomic_flag_test_and_set_explicit(p, o) __atomic_test_and_set(&(p)->v, o)
#define atomic_flag_clear_explicit(p, o) __atomic_clear(&(p)->v, o)
#define atomic_init(p, v) ((void) (*(p) = (v)))
#define atomic_thread_fence(o) __atomic_thread_fence(o)
#define atomic_signal_fence(o) __atomic_signal_fence(o)
#define atomic_load_explicit(p, o) __atomic_load_n(VERIF_PLAIN(p), o)
#define atomic_load(p) __atomic_load_n(VERIF_PLAIN(p), __ATOMIC_SEQ_CST)
#define atomic_store_explicit(p, v, o) __atomic_store_n(VERIF_PLAIN(p), v, o)
#define atomic_store(p, v) __atomic_store_n(VERIF_PLAIN(p), v, __ATOMIC_SEQ_CST)
#define atomic_exchange_explicit(p, v, o) __atomic_exchange_n(VERIF_PLAIN(p), v, o)
#define atomic_exchange(p, v) __atomic_exchange_n(VERIF_PLAIN(p), v, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_strong_explicit(p, e, d, s, f) __atomic_compare_exchange_n(VERIF_PLAIN(p), e, d, 0, s, f)
#define atomic_compare_exchange_strong(p, e, d) __atomic_compare_exchange_n(VERIF_PLAIN(p), e, d, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_compare_exchange_weak_explicit(p, e, d, s, f) __atomic_compare_exchange_n(VERIF_PLAIN(p), e, d, 1, s, f)
#define atomic_compare_exchange_weak(p, e, d) __atomic_compare_exchange_n(VERIF_PLAIN(p), e, d, 1, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)
#define atomic_fetch_add_explicit(p, v, o) __atomic_fetch_add(VERIF_PLAIN(p), v, o)
#define atomic_fetch_add(p, v) __atomic_fetch_add(VERIF_PLAIN(p), v, __ATOMIC_SEQ_CST)
#define atomic_fetch_sub_explicit(p, v, o) __atomic_fetch_sub(VERIF_PLAIN(p), v, o)
#define atomic_fetch_sub(p, v) __atomic_fetch_sub(VERIF_PLAIN(p), v, __ATOMIC_SEQ_CST)
#define atomic_fetch_or_explicit(p, v, o) __atomic_fetch_or(VERIF_PLAIN(p), v, o)
#define atomic_fetch_or(p, v) __atomic_fetch_or(VERIF_PLAIN(p), v, __ATOMIC_SEQ_CST)
#define atomic_fetch_and_explicit(p, v, o) __atomic_fetch_and(VERIF_PLAIN(p), v, o)
#define atomic_fetch_and(p, v) __atomic_fetch_and(VERIF_PLAIN(p), v, __ATOMIC_SEQ_CST)
#define atomic_fetch_xor_explicit(p, v, o) __atomic_fetch_xor(VERIF_PLAIN(p), v, o)
#define atomic_fetch_xor(p, v) __atomic_fetch_xor(VERIF_PLAIN(p), v, __ATOMIC_SEQ_CST)
#endif
