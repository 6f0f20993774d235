// Instrumentation runtime: what clang's -fsanitize=thread pass calls.
#include "engine.h"
using namespace mc;
typedef unsigned __int128 u128;
#define PC ((ul)__builtin_return_address(0))
extern "C" {
void __tsan_init(void){} void __tsan_func_entry(void*){} void __tsan_func_exit(void){}
void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
#define RW(n) void __tsan_read##n(void* a){ mem_access((ul)a, n, false, PC, false); } void __tsan_write##n(void* a){ mem_access((ul)a, n, true, PC, false); } \
 void __tsan_unaligned_read##n(void* a){ mem_access((ul)a, n, false, PC, false); } void __tsan_unaligned_write##n(void* a){ mem_access((ul)a, n, true, PC, false); } \
 void __tsan_read_write##n(void* a){ mem_access((ul)a, n, false, PC, false); mem_access((ul)a, n, true, PC, false); } void __tsan_unaligned_read_write##n(void* a){ mem_access((ul)a, n, false, PC, false); mem_access((ul)a, n, true, PC, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void* a){ mem_access((ul)a, 8, false, PC, false); } void __tsan_vptr_update(void* a, void*){ mem_access((ul)a, 8, true, PC, false); }
void __tsan_read_range(void* a, size_t n){ mem_range((ul)a, n, false, PC); } void __tsan_write_range(void* a, size_t n){ mem_range((ul)a, n, true, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n){ mem_range((ul)s, n, false, PC); mem_range((ul)d, n, true, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n){ mem_range((ul)s, n, false, PC); mem_range((ul)d, n, true, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n){ mem_range((ul)d, n, true, PC); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int){} void __tsan_atomic_signal_fence(int){}
#define AT(b, t) \
 t __tsan_atomic##b##_load(const volatile t* a, int){ mem_access((ul)a, b/8, false, PC, true); return *a; } \
 void __tsan_atomic##b##_store(volatile t* a, t v, int){ mem_access((ul)a, b/8, true, PC, true); *a = v; } \
 t __tsan_atomic##b##_exchange(volatile t* a, t v, int){ return (t)mem_rmw((ul)a, b/8, 2, (uint64_t)v, PC); } \
 t __tsan_atomic##b##_fetch_add(volatile t* a, t v, int){ return (t)mem_rmw((ul)a, b/8, 0, (uint64_t)v, PC); } \
 t __tsan_atomic##b##_fetch_sub(volatile t* a, t v, int){ return (t)mem_rmw((ul)a, b/8, 1, (uint64_t)v, PC); } \
 t __tsan_atomic##b##_fetch_and(volatile t* a, t v, int){ return (t)mem_rmw((ul)a, b/8, 3, (uint64_t)v, PC); } \
 t __tsan_atomic##b##_fetch_or(volatile t* a, t v, int){ return (t)mem_rmw((ul)a, b/8, 4, (uint64_t)v, PC); } \
 t __tsan_atomic##b##_fetch_xor(volatile t* a, t v, int){ return (t)mem_rmw((ul)a, b/8, 5, (uint64_t)v, PC); } \
 t __tsan_atomic##b##_fetch_nand(volatile t* a, t v, int){ return (t)mem_rmw((ul)a, b/8, 6, (uint64_t)v, PC); } \
 t __tsan_atomic##b##_compare_exchange_val(volatile t* a, t e, t v, int, int){ return (t)mem_cas((ul)a, b/8, (uint64_t)e, (uint64_t)v, PC); } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile t* a, t* e, t v, int, int){ t o = (t)mem_cas((ul)a, b/8, (uint64_t)*e, (uint64_t)v, PC); if(o == *e) return 1; *e = o; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile t* a, t* e, t v, int, int){ t o = (t)mem_cas((ul)a, b/8, (uint64_t)*e, (uint64_t)v, PC); if(o == *e) return 1; *e = o; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
