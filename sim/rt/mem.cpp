// Allocation: failure injection, use-after-free tracking, and clearing of the race shadow when memory is recycled.
#include "rt.h"
#include <dlfcn.h>
#include <malloc.h>
#include <sys/mman.h>
#include <new>

namespace sim
{
namespace rt
{
static long g_fail_in = -1;
static bool g_failed;
// released blocks are kept for a while, so that a late access is seen as what it is
struct Q
{
  void* p;
  size_t n;
};
static Q g_q[1 << 16];
static unsigned g_qh, g_qt;
static size_t g_qbytes;
}  // namespace rt
using namespace rt;
void alloc_fail_in(long n)
{
  g_fail_in = n;
  g_failed = false;
}
bool alloc_failed() { return g_failed; }

// ---- leaks: open addressing, pointer -> where it was allocated -------------------------------------------------------
struct Blk
{
  void* p;  // 1 = was released
  const void* pc;
};
static constexpr size_t kBlk = 1u << 20;
static Blk* g_blk;
static bool g_track;
void track_leaks(bool on)
{
  if (on && !g_blk)
    g_blk = (Blk*)mmap(nullptr, kBlk * sizeof(Blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_track = on;
}
static size_t slot(const void* p) { return ((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL >> 44; }
static void leak_add(void* p, const void* pc)
{
  size_t i = slot(p);
  for (size_t k = 0; k < 4096; ++k, i = (i + 1) & (kBlk - 1))
    if ((uintptr_t)g_blk[i].p <= 1 || g_blk[i].p == p)
    {
      g_blk[i] = Blk{ p, pc };
      return;
    }
}
static void leak_remove(void* p)
{
  size_t i = slot(p);
  for (size_t k = 0; k < 4096 && g_blk[i].p; ++k, i = (i + 1) & (kBlk - 1))
    if (g_blk[i].p == p)
      g_blk[i].p = (void*)1;
}
long leaks(char* where, size_t n)
{
  long c = 0;
  for (size_t i = 0; g_blk && i < kBlk; ++i)
    if ((uintptr_t)g_blk[i].p > 1)
    {
      if (c++ == 0)
      {
        Dl_info di;
        memset(&di, 0, sizeof di);
        if (dladdr(g_blk[i].pc, &di) && di.dli_sname)
          snprintf(where, n, "%zu bytes at %s+0x%lx", malloc_usable_size(g_blk[i].p), di.dli_sname, (unsigned long)((const char*)g_blk[i].pc - (const char*)di.dli_saddr));
        else
          snprintf(where, n, "%zu bytes at %p", malloc_usable_size(g_blk[i].p), g_blk[i].pc);
      }
    }
  return c;
}

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
}

static void on_alloc(void* p, size_t n, const void* pc)
{
  if (g_track && p && active())
    leak_add(p, pc);
  if (p && cur())
  {
    const size_t u = malloc_usable_size(p);
    mem_clear(p, u < (1u << 22) ? u : (1u << 22));
    if (n < (1u << 22))
      mem_redzone((char*)p + ((n + 7) & ~7ULL), (char*)p + u);
  }
}
static inline size_t pad(size_t n) { return uaf_on() && cur() ? n + 8 : (n ? n : 1); }
static void on_free(void* p)
{
  if (!p)
    return;
  if (g_blk)
    leak_remove(p);
  const size_t n = malloc_usable_size(p);
  if (!active() || n > (1u << 22))
  {
    // no marks may stay: the memory can be handed out again by a library's own malloc
    if (uaf_on() && cur())
      mem_clear(p, n < (1u << 23) ? n : (1u << 23));
    __real_free(p);
    return;
  }
  mem_freed(p, n);
  sync_forget(p, n);
  NoSim ns;
  const unsigned nx = (g_qt + 1) & 0xffff;
  while (g_qbytes > (256u << 20) || nx == g_qh)
  {
    Q& q = g_q[g_qh];
    g_qh = (g_qh + 1) & 0xffff;
    g_qbytes -= q.n;
    mem_clear(q.p, q.n);
    __real_free(q.p);
  }
  g_q[g_qt] = Q{ p, n };
  g_qt = nx;
  g_qbytes += n;
}
}  // namespace sim

using namespace sim;

static void* do_new(size_t n, const void* pc)
{
  if (g_fail_in >= 0 && active())
  {
    if (g_fail_in-- == 0)
    {
      g_failed = true;
      return nullptr;
    }
  }
  void* p = __real_malloc(pad(n));
  on_alloc(p, n, pc);
  return p;
}
static void* do_new_aligned(size_t n, size_t al, const void* pc)
{
  void* p = aligned_alloc(al, (pad(n) + al - 1) / al * al);
  on_alloc(p, n, pc);
  return p;
}
void* operator new(size_t n)
{
  void* p = do_new(n, __builtin_return_address(0));
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n)
{
  void* p = do_new(n, __builtin_return_address(0));
  if (!p)
    throw std::bad_alloc();
  return p;
}
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, __builtin_return_address(0)); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, __builtin_return_address(0)); }
void* operator new(size_t n, std::align_val_t a) { return do_new_aligned(n, (size_t)a, __builtin_return_address(0)); }
void* operator new[](size_t n, std::align_val_t a) { return do_new_aligned(n, (size_t)a, __builtin_return_address(0)); }
void operator delete(void* p) noexcept { on_free(p); }
void operator delete[](void* p) noexcept { on_free(p); }
void operator delete(void* p, size_t) noexcept { on_free(p); }
void operator delete[](void* p, size_t) noexcept { on_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { on_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { on_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { on_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { on_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { on_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { on_free(p); }

extern "C" {
void* __wrap_malloc(size_t n)
{
  void* p = __real_malloc(pad(n));
  on_alloc(p, n, __builtin_return_address(0));
  return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
  void* p = __real_calloc(1, pad(a * b));
  on_alloc(p, a * b, __builtin_return_address(0));
  return p;
}
void __wrap_free(void* p) { on_free(p); }
void* __wrap_realloc(void* p, size_t n)
{
  if (!active() && !cur())
    return __real_realloc(p, n);
  void* q = __wrap_malloc(n);
  if (p && q)
  {
    const size_t o = malloc_usable_size(p);
    __real_memcpy(q, p, o < n ? o : n);
  }
  if (p && (q || n == 0))
    on_free(p);
  return q;
}
// the library allocates and releases exceptions by itself: no marks of earlier uses of the memory may stay
void* __real___cxa_allocate_exception(size_t) noexcept;
void* __wrap___cxa_allocate_exception(size_t n) noexcept
{
  void* p = __real___cxa_allocate_exception(n);
  if (p && cur())
    mem_clear(p, n);
  return p;
}
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
  mem_access(s, n, false, __builtin_return_address(0));
  mem_access(d, n, true, __builtin_return_address(0));
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
  mem_access(s, n, false, __builtin_return_address(0));
  mem_access(d, n, true, __builtin_return_address(0));
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
  mem_access(d, n, true, __builtin_return_address(0));
  return __real_memset(d, c, n);
}
}
