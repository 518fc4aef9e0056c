/* forced into the library's sources: every atomic operation is a scheduling point of the harness */
#ifndef L05_ATOMIC_H
#define L05_ATOMIC_H
void xs_point(const volatile void *p);   /* before the operation */
void xs_atomic(int wrote);               /* after it */
#define XS_RMW(p, e) ({ xs_point((const volatile void *)(p)); __auto_type xs_r = (e); xs_atomic(1); xs_r; })
#define __sync_val_compare_and_swap(p, o, n) ({ xs_point((const volatile void *)(p)); __auto_type xs_o = (o); __auto_type xs_r = __sync_val_compare_and_swap(p, xs_o, n); xs_atomic(xs_r == xs_o); xs_r; })
#define __sync_bool_compare_and_swap(p, o, n) ({ xs_point((const volatile void *)(p)); int xs_r = __sync_bool_compare_and_swap(p, o, n); xs_atomic(xs_r); xs_r; })
#define XS_XCHG(p, v, e) ({ xs_point((const volatile void *)(p)); __typeof__(*(p)) xs_v = (v), xs_r = (e); xs_atomic(xs_r != xs_v); xs_r; })
#define __sync_lock_test_and_set(p, v) XS_XCHG(p, v, __sync_lock_test_and_set(p, xs_v))
#define __sync_lock_release(p) ({ xs_point((const volatile void *)(p)); __sync_lock_release(p); xs_atomic(1); })
#define __sync_fetch_and_add(p, v) XS_RMW(p, __sync_fetch_and_add(p, v))
#define __sync_fetch_and_sub(p, v) XS_RMW(p, __sync_fetch_and_sub(p, v))
#define __sync_add_and_fetch(p, v) XS_RMW(p, __sync_add_and_fetch(p, v))
#define __sync_sub_and_fetch(p, v) XS_RMW(p, __sync_sub_and_fetch(p, v))
#define __atomic_compare_exchange_n(p, o, n, w, a, b) ({ xs_point((const volatile void *)(p)); int xs_r = __atomic_compare_exchange_n(p, o, n, 0, a, b); xs_atomic(xs_r); xs_r; })
#define __atomic_exchange_n(p, v, a) XS_XCHG(p, v, __atomic_exchange_n(p, xs_v, a))
#define __atomic_fetch_add(p, v, a) XS_RMW(p, __atomic_fetch_add(p, v, a))
#define __atomic_fetch_sub(p, v, a) XS_RMW(p, __atomic_fetch_sub(p, v, a))
#define __atomic_add_fetch(p, v, a) XS_RMW(p, __atomic_add_fetch(p, v, a))
#define __atomic_sub_fetch(p, v, a) XS_RMW(p, __atomic_sub_fetch(p, v, a))
#define __atomic_load_n(p, a) ({ xs_point((const volatile void *)(p)); __atomic_load_n(p, a); })
#define __atomic_store_n(p, v, a) ({ xs_point((const volatile void *)(p)); __atomic_store_n(p, v, a); xs_atomic(1); })
#endif
