/* Included into every translation unit of the program: the atomic operations the compiler would always expand in line
   become calls (-fno-inline-atomics takes care of the others), so that the simulator sees them. */
#ifdef __cplusplus
extern "C" bool __simwrap_tas(volatile void*, int);
#define __atomic_test_and_set(p, m) __simwrap_tas((p), (m))
template <class T, class U, class V> static inline __attribute__((unused)) bool __simwrap_bcas(volatile T* p, U o, V n) { T e = (T)o; return __atomic_compare_exchange_n(p, &e, (T)n, false, 5, 5); }
template <class T, class U, class V> static inline __attribute__((unused)) T __simwrap_vcas(volatile T* p, U o, V n) { T e = (T)o; __atomic_compare_exchange_n(p, &e, (T)n, false, 5, 5); return e; }
#define __sync_bool_compare_and_swap(p, o, ...) __simwrap_bcas((p), (o), __VA_ARGS__)
#define __sync_val_compare_and_swap(p, o, ...) __simwrap_vcas((p), (o), __VA_ARGS__)
#define __sync_lock_test_and_set(p, ...) __atomic_exchange_n((p), __VA_ARGS__, __ATOMIC_ACQUIRE)
#endif
