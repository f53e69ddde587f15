// Runtime for library code compiled with -fsanitize=thread: not a race detector, but a call of point()
// before every access of the library to memory that is not a local variable.
#pragma once
#include "core.hpp"
extern "C" {
#define NOARG(n) void n(void *) { point(); }
#define RW(n) NOARG(__tsan_read##n) NOARG(__tsan_write##n) NOARG(__tsan_read_write##n) NOARG(__tsan_unaligned_read##n) NOARG(__tsan_unaligned_write##n) NOARG(__tsan_unaligned_read_write##n) \
    NOARG(__tsan_volatile_read##n) NOARG(__tsan_volatile_write##n) NOARG(__tsan_unaligned_volatile_read##n) NOARG(__tsan_unaligned_volatile_write##n)
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
NOARG(__tsan_read1_pc) NOARG(__tsan_write1_pc)
void __tsan_read_range(void *, unsigned long) { point(); }
void __tsan_write_range(void *, unsigned long) { point(); }
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_init(void) {}
void __tsan_vptr_read(void **) { point(); }
void __tsan_vptr_update(void **, void *) { point(); }
#define AT(n, T)                                                                                                             \
    T __tsan_atomic##n##_load(const volatile T *a, int) { point(); return *a; }                                              \
    void __tsan_atomic##n##_store(volatile T *a, T v, int) { point(); *a = v; }                                              \
    T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { point(); T o = *a; *a = v; return o; }                          \
    T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { point(); T o = *a; *a = o + v; return o; }                     \
    T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { point(); T o = *a; *a = o - v; return o; }                     \
    T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { point(); T o = *a; *a = o & v; return o; }                     \
    T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { point(); T o = *a; *a = o | v; return o; }                      \
    T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { point(); T o = *a; *a = o ^ v; return o; }                     \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
AT(8, u8)
AT(16, u16)
AT(32, u32)
AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { point(); return memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { point(); return memset(d, c, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { point(); return memmove(d, s, n); }
}
