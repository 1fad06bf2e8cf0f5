// The __tsan_* entry points: preemption points and heap checking.  Compiled WITHOUT instrumentation.
#include "rt_internal.hpp"
#include "arena.hpp"
#include <atomic>
#include <cstring>
using namespace simrt;

static inline void acc(const void * p, size_t n)
{
  uintptr_t off = reinterpret_cast<uintptr_t>(p) - ARENA_BASE;
  if (__builtin_expect(off < ARENA_SIZE, 1)) {
    uint8_t s = SHADOW[off >> 4];
    if (__builtin_expect(s != 1, 0)) arena_bad_access(p, n, s);
  }
  if (__builtin_expect(g_np != 0, 0) || !g_sim_active) return;
  if (__builtin_expect(++g_points >= g_next_stop, 0)) access_slow();
}
static inline void acc_range(const void * p, size_t n)
{
  if (n == 0) return;
  acc(p, n);
  if (n > 1) {
    const char * e = static_cast<const char *>(p) + n - 1;
    uintptr_t off = reinterpret_cast<uintptr_t>(e) - ARENA_BASE;
    if (off < ARENA_SIZE && SHADOW[off >> 4] != 1) arena_bad_access(e, 1, SHADOW[off >> 4]);
  }
}
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
  void __tsan_read##N(void * p) { acc(p, N); } \
  void __tsan_write##N(void * p) { acc(p, N); } \
  void __tsan_read_write##N(void * p) { acc(p, N); } \
  void __tsan_unaligned_read##N(void * p) { acc(p, N); } \
  void __tsan_unaligned_write##N(void * p) { acc(p, N); } \
  void __tsan_unaligned_read_write##N(void * p) { acc(p, N); } \
  void __tsan_volatile_read##N(void * p) { acc(p, N); } \
  void __tsan_volatile_write##N(void * p) { acc(p, N); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) { acc_range(p, n); }
void __tsan_write_range(void * p, size_t n) { acc_range(p, n); }
void __tsan_vptr_read(void ** p) { acc(p, 8); }
void __tsan_vptr_update(void ** p, void *) { acc(p, 8); }
void * __tsan_memcpy(void * d, const void * s, size_t n) { acc_range(d, n); acc_range(s, n); return memcpy(d, s, n); }
void * __tsan_memmove(void * d, const void * s, size_t n) { acc_range(d, n); acc_range(s, n); return memmove(d, s, n); }
void * __tsan_memset(void * d, int c, size_t n) { acc_range(d, n); return memset(d, c, n); }

static inline void at(const volatile void * p, size_t n)
{
  acc(const_cast<const void *>(p), n);
  sync_point("atomic");
}
#define ATOMIC(T, W) \
  T __tsan_atomic##W##_load(const volatile T * a, int) { at(a, sizeof(T)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##W##_store(volatile T * a, T v, int) { at(a, sizeof(T)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_exchange(volatile T * a, T v, int) { at(a, sizeof(T)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_add(volatile T * a, T v, int) { at(a, sizeof(T)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_sub(volatile T * a, T v, int) { at(a, sizeof(T)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_and(volatile T * a, T v, int) { at(a, sizeof(T)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_or(volatile T * a, T v, int) { at(a, sizeof(T)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_xor(volatile T * a, T v, int) { at(a, sizeof(T)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_fetch_nand(volatile T * a, T v, int) { at(a, sizeof(T)); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##W##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { at(a, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##W##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { at(a, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##W##_compare_exchange_val(volatile T * a, T c, T v, int, int) { at(a, sizeof(T)); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(uint8_t, 8)
ATOMIC(uint16_t, 16)
ATOMIC(uint32_t, 32)
ATOMIC(uint64_t, 64)
void __tsan_atomic_thread_fence(int) { sync_point("fence"); }
void __tsan_atomic_signal_fence(int) {}
}
