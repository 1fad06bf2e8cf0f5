// Deterministic, never-reusing, checked allocator replacing malloc.  Compiled WITHOUT instrumentation.
#include "arena.hpp"
#include "rt_internal.hpp"
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
namespace simrt
{
static uintptr_t bump = 0;
static AllocStats st{};
static void init()
{
  void * a = mmap(reinterpret_cast<void *>(ARENA_BASE), ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void * s = mmap(reinterpret_cast<void *>(SHADOW_BASE), ARENA_SIZE >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (a != reinterpret_cast<void *>(ARENA_BASE) || s != reinterpret_cast<void *>(SHADOW_BASE)) {
    const char m[] = "arena mmap failed\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(94);
  }
  bump = ARENA_BASE + 4096;
}
static void * alloc(size_t n, size_t align)
{
  if (__builtin_expect(!bump, 0)) init();
  if (align < 16) align = 16;
  uintptr_t p = (bump + 16 + align - 1) & ~(align - 1);
  size_t gran = (n + 15) >> 4;
  if (gran == 0) gran = 1;
  uintptr_t end = p + (gran << 4);
  if (n > ARENA_SIZE || end + 16 > ARENA_BASE + ARENA_SIZE) {
    errno = ENOMEM;
    return nullptr;
  }
  *reinterpret_cast<size_t *>(p - 16) = n;
  memset(SHADOW + ((p - ARENA_BASE) >> 4), 1, gran);
  bump = end;
  ++st.allocs;
  st.bytes += n;
  return reinterpret_cast<void *>(p);
}
static bool ours(const void * p) { return reinterpret_cast<uintptr_t>(p) - ARENA_BASE < ARENA_SIZE; }
static size_t usable(const void * p) { return *reinterpret_cast<const size_t *>(reinterpret_cast<uintptr_t>(p) - 16); }
static void release(void * p)
{
  if (!p || !ours(p)) return;
  uint8_t * sh = SHADOW + ((reinterpret_cast<uintptr_t>(p) - ARENA_BASE) >> 4);
  if (*sh != 1) {
    if (g_sim_active) fatal(*sh == 2 ? Fatal::DoubleFree : Fatal::HeapOverflow, "bad free in '%s': %s", current_fiber_name(), shadow_stack().c_str());
    return;
  }
  size_t n = usable(p);
  size_t gran = (n + 15) >> 4;
  if (gran == 0) gran = 1;
  memset(sh, 2, gran);
  memset(p, 0xDD, n > 2048 ? 2048 : n);
  ++st.frees;
}
AllocStats alloc_stats() { return st; }
bool is_freed(const void * p) { return ours(p) && SHADOW[(reinterpret_cast<uintptr_t>(p) - ARENA_BASE) >> 4] == 2; }
void arena_bad_access(const void * p, size_t n, uint8_t sh)
{
  g_np = 1 << 20;
  fatal(sh == 2 ? Fatal::UseAfterFree : Fatal::HeapOverflow, "invalid %zu-byte heap access at %p in thread '%s': %s", n, p, current_fiber_name(), shadow_stack().c_str());
}
}
using namespace simrt;
extern "C" {
void * malloc(size_t n) noexcept { return alloc(n, 16); }
void free(void * p) noexcept { release(p); }
void * calloc(size_t a, size_t b) noexcept
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  return alloc(n, 16);  // fresh anonymous memory is zero and never reused
}
void * realloc(void * p, size_t n) noexcept
{
  if (!p) return alloc(n, 16);
  if (n == 0) { release(p); return nullptr; }
  void * q = alloc(n, 16);
  if (!q) return nullptr;
  if (ours(p)) { size_t o = usable(p); memcpy(q, p, o < n ? o : n); release(p); }
  return q;
}
void * memalign(size_t a, size_t n) noexcept { return alloc(n, a); }
void * aligned_alloc(size_t a, size_t n) noexcept { return alloc(n, a); }
int posix_memalign(void ** o, size_t a, size_t n) noexcept { *o = alloc(n, a); return *o ? 0 : ENOMEM; }
void * valloc(size_t n) noexcept { return alloc(n, 4096); }
size_t malloc_usable_size(void * p) noexcept { return p ? usable(p) : 0; }
}
