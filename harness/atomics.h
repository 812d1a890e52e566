// Included in front of the library's C sources in the variants with injected
// scheduling (sched, tsand, asand): every atomic operation is preceded by a
// scheduling point.  Basic blocks, and plain loads and stores, get theirs from
// the compiler's coverage instrumentation, which leaves read-modify-write
// operations out.
#ifndef VERIF_ATOMICS_H
#define VERIF_ATOMICS_H
#ifndef __cplusplus
void verif_atomic_point(void);
#define VERIF_AT(x) (verif_atomic_point(), x)
#define __atomic_load(...) VERIF_AT(__atomic_load(__VA_ARGS__))
#define __atomic_load_n(...) VERIF_AT(__atomic_load_n(__VA_ARGS__))
#define __atomic_store(...) VERIF_AT(__atomic_store(__VA_ARGS__))
#define __atomic_store_n(...) VERIF_AT(__atomic_store_n(__VA_ARGS__))
#define __atomic_exchange(...) VERIF_AT(__atomic_exchange(__VA_ARGS__))
#define __atomic_exchange_n(...) VERIF_AT(__atomic_exchange_n(__VA_ARGS__))
#define __atomic_compare_exchange(...) VERIF_AT(__atomic_compare_exchange(__VA_ARGS__))
#define __atomic_compare_exchange_n(...) VERIF_AT(__atomic_compare_exchange_n(__VA_ARGS__))
#define __atomic_add_fetch(...) VERIF_AT(__atomic_add_fetch(__VA_ARGS__))
#define __atomic_sub_fetch(...) VERIF_AT(__atomic_sub_fetch(__VA_ARGS__))
#define __atomic_fetch_add(...) VERIF_AT(__atomic_fetch_add(__VA_ARGS__))
#define __atomic_fetch_sub(...) VERIF_AT(__atomic_fetch_sub(__VA_ARGS__))
#define __atomic_and_fetch(...) VERIF_AT(__atomic_and_fetch(__VA_ARGS__))
#define __atomic_or_fetch(...) VERIF_AT(__atomic_or_fetch(__VA_ARGS__))
#define __atomic_fetch_and(...) VERIF_AT(__atomic_fetch_and(__VA_ARGS__))
#define __atomic_fetch_or(...) VERIF_AT(__atomic_fetch_or(__VA_ARGS__))
#define __sync_fetch_and_add(...) VERIF_AT(__sync_fetch_and_add(__VA_ARGS__))
#define __sync_add_and_fetch(...) VERIF_AT(__sync_add_and_fetch(__VA_ARGS__))
#define __sync_fetch_and_sub(...) VERIF_AT(__sync_fetch_and_sub(__VA_ARGS__))
#define __sync_sub_and_fetch(...) VERIF_AT(__sync_sub_and_fetch(__VA_ARGS__))
#define __sync_bool_compare_and_swap(...) VERIF_AT(__sync_bool_compare_and_swap(__VA_ARGS__))
#define __sync_val_compare_and_swap(...) VERIF_AT(__sync_val_compare_and_swap(__VA_ARGS__))
#endif
#endif
