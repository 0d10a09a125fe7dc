// Scheduler: real threads, of which exactly one runs at a time. The running thread counts its steps (memory accesses of
// the instrumented code, synchronisation, simulated system calls) and, when the gap drawn for it is used up, hands over
// to another thread that the seed picks. The instrumentation calls (__tsan_*) are the compiler's; this file replaces the
// ThreadSanitizer runtime, so every load and store of the code under test is a scheduling point. A vector-clock
// happens-before race detector runs on the same calls.
#include "rt.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <climits>

extern "C" void __real__exit(int) __attribute__((noreturn));
extern "C" void* __real_malloc(size_t);
extern "C" void __real_free(void*);
extern "C" int __real___cxa_thread_atexit(void (*)(void*), void*, void*);

namespace sim
{
namespace rt
{
struct TlsDtor
{
  void (*f)(void*);
  void* obj;
  TlsDtor* next;
};
struct Thread
{
  int id;
  int futex;
  bool used, done, joined, blocked, started;
  const void* wait_obj;
  uint32_t vc[kMaxThreads];
  void* (*fn)(void*);
  void* arg;
  void* ret;
  pthread_t pt;
  int proc;
  void* stack_top;
  uintptr_t stack_low;  // lowest address of the stack in the race shadow
  struct TlsDtor* dtors;  // of thread_local objects, last one first
  // OpenMP
  void* team;
  int team_tid;
  int omp_n;  // omp_set_num_threads() of this thread, 0 = not called
  uint64_t gap;
};
static Thread g_threads[kMaxThreads];
static int g_nthreads, g_alive;
static Thread* g_running;
static thread_local Thread* t_self __attribute__((tls_model("initial-exec")));
static thread_local int t_rt __attribute__((tls_model("initial-exec")));
static bool g_inited;
static bool g_race, g_uaf, g_preempt = true;
static uint64_t g_steps, g_limit = 3000000000ULL, g_switches, g_shash = 0, g_gap_max;
static unsigned g_policy;
static uint64_t g_alarm = UINT64_MAX;  // a thread sleeps until this step
static Thread* g_alarm_thread;

NoSim::NoSim() { ++t_rt; }
NoSim::~NoSim() { --t_rt; }
void enter_rt() { ++t_rt; }
bool in_rt() { return t_rt != 0; }
Thread* cur() { return t_self; }
bool active() { return g_inited && t_self && t_rt == 0; }
int thread_count() { return g_alive; }
uint64_t sched_hash() { return g_shash; }
void* stack_top() { return t_self->stack_top; }
int proc_of(int tid) { return g_threads[tid].proc; }
void set_proc_self(int p) { t_self->proc = p; }

static void fwait(int* f)
{
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
    syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELEASE);
}
static void fwake(int* f)
{
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static bool g_long;
static uint64_t g_fair, g_ran0;
static void draw_gap(Thread* t)
{
  // policy: 0 serial (only blocking switches), otherwise gaps up to 2^policy steps
  if (g_policy == 0)
    t->gap = UINT64_MAX;
  else
  {
    const uint64_t g = logchoose(g_gap_max, "gap");
    t->gap = g == 0 ? (g_long ? g_gap_max : UINT64_MAX) : g;
  }
}

static Thread* pick(bool self_ok, const char* label)
{
  Thread* c[kMaxThreads];
  int n = 0;
  // the running thread first: choice 0 is "no switch"
  if (self_ok)
    c[n++] = t_self;
  for (int k = 1; k <= g_nthreads; ++k)
  {
    Thread* t = &g_threads[(t_self->id + k) % g_nthreads];
    if (t != t_self && t->used && !t->done && !t->blocked)
      c[n++] = t;
  }
  if (n == 0)
  {
    if (!g_alarm_thread)
      return nullptr;
    Thread* t = g_alarm_thread;  // nothing else happens until then
    g_alarm_thread = nullptr;
    g_alarm = UINT64_MAX;
    t->blocked = false;
    return t;
  }
  return c[choose((uint64_t)n, label)];
}

void deadlock(const char* what)
{
  char buf[512];
  int o = 0;
  for (int i = 0; i < g_nthreads && o < 400; ++i)
    if (g_threads[i].used && !g_threads[i].done)
      o += snprintf(buf + o, sizeof buf - (size_t)o, "%s%d(process %d)", o ? ", " : "", i, g_threads[i].proc);
  fail("hang", "%s: no thread can make progress; waiting: %s", what, buf);
}

static void switch_to(Thread* n)
{
  Thread* me = t_self;
  if (n == me)
    return;
  ++g_switches;
  g_shash = mix(g_shash, (uint64_t)n->id * 1000003u + g_steps);
  g_running = n;
  if (me == g_threads || n == g_threads)
    g_ran0 = g_steps;
  const int e = errno;  // belongs to the code under test
  fwake(&n->futex);
  if (me->done)
    return;
  fwait(&me->futex);
  errno = e;
}

void point(unsigned w)
{
  Thread* me = t_self;
  g_steps += w;
  if (g_steps > g_limit)
  {
    NoSim ns;
    fail("no-progress", "more than %llu simulated steps without finishing", (unsigned long long)g_limit);
  }
  if (g_steps >= g_alarm)
  {
    NoSim ns;
    Thread* t = g_alarm_thread;
    g_alarm_thread = nullptr;
    g_alarm = UINT64_MAX;
    t->blocked = false;
    switch_to(t);
    return;
  }
  if (g_alive < 2 || !g_preempt)
    return;
  if (g_fair && me != g_threads && g_steps - g_ran0 > g_fair && !g_threads[0].blocked)
  {
    NoSim ns;
    switch_to(g_threads);
    return;
  }
  if (me->gap > w)
  {
    me->gap -= w;
    return;
  }
  NoSim ns;
  Thread* n = pick(true, "switch");
  draw_gap(me);
  if (n && n != me)
    switch_to(n);
}

void block_on(const void* obj)
{
  NoSim ns;
  Thread* me = t_self;
  me->blocked = true;
  me->wait_obj = obj;
  Thread* n = pick(false, "next");
  if (!n)
    deadlock("deadlock");
  switch_to(n);
}
void wake(const void* obj)
{
  for (int i = 0; i < g_nthreads; ++i)
  {
    Thread* t = &g_threads[i];
    if (t->used && !t->done && t->blocked && t->wait_obj == obj)
    {
      t->blocked = false;
      t->wait_obj = nullptr;
    }
  }
}

// ---- happens-before -------------------------------------------------------------------------------------------------
struct SyncVar
{
  const void* addr;
  uint32_t vc[kMaxThreads];
};
static SyncVar* g_sync;
static size_t g_sync_cap, g_sync_n;
static SyncVar* syncvar(const void* a, bool create)
{
  if (g_sync_n * 2 >= g_sync_cap)
  {
    const size_t nc = g_sync_cap ? g_sync_cap * 2 : 1024;
    SyncVar* nt = (SyncVar*)mmap(nullptr, nc * sizeof(SyncVar), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = 0; i < g_sync_cap; ++i)
      if (g_sync[i].addr)
      {
        size_t j = ((uintptr_t)g_sync[i].addr >> 3) * 0x9e3779b97f4a7c15ULL % nc;
        while (nt[j].addr)
          j = (j + 1) % nc;
        nt[j] = g_sync[i];
      }
    if (g_sync)
      munmap(g_sync, g_sync_cap * sizeof(SyncVar));
    g_sync = nt;
    g_sync_cap = nc;
  }
  size_t j = ((uintptr_t)a >> 3) * 0x9e3779b97f4a7c15ULL % g_sync_cap;
  while (g_sync[j].addr && g_sync[j].addr != a)
    j = (j + 1) % g_sync_cap;
  if (!g_sync[j].addr)
  {
    if (!create)
      return nullptr;
    g_sync[j].addr = a;
    ++g_sync_n;
  }
  return &g_sync[j];
}
void sync_acquire(const void* a)
{
  if (g_alive < 2 && g_nthreads < 2)
    return;
  SyncVar* s = syncvar(a, false);
  if (!s)
    return;
  Thread* me = t_self;
  for (int i = 0; i < g_nthreads; ++i)
    if (s->vc[i] > me->vc[i])
      me->vc[i] = s->vc[i];
}
void sync_release(const void* a)
{
  if (g_alive < 2)
    return;
  Thread* me = t_self;
  SyncVar* s = syncvar(a, true);
  for (int i = 0; i < g_nthreads; ++i)
    if (me->vc[i] > s->vc[i])
      s->vc[i] = me->vc[i];
  ++me->vc[me->id];
}
// an atomic object that was freed: its sync variable must not order accesses to the next object at this address
void sync_forget(const void* lo, size_t n)
{
  if (!g_sync_n || n > 4096)
    return;
  for (size_t i = 0; i < g_sync_cap && n > 256; ++i)
    if (g_sync[i].addr >= lo && g_sync[i].addr < (const char*)lo + n)
      memset(g_sync[i].vc, 0, sizeof g_sync[i].vc);
  if (n <= 256)
    for (size_t k = 0; k < n; k += 4)
      if (SyncVar* s = syncvar((const char*)lo + k, false))
        memset(s->vc, 0, sizeof s->vc);
}

// shadow: 4 access records for every 8 bytes
struct Rec
{
  uint32_t clk;
  uint8_t tid, mask, flags, pad;  // flags: 1 write, 2 valid, 4 atomic
};
struct Cell
{
  Rec r[4];
};
constexpr int kPageBits = 20;
constexpr size_t kPageCells = (1u << kPageBits) / 8;
static Cell** g_l1;
static uint8_t** g_freed_l1;
static Cell* cell(uintptr_t a, bool create)
{
  if (!g_l1)
    g_l1 = (Cell**)mmap(nullptr, sizeof(Cell*) << (47 - kPageBits), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const size_t p = a >> kPageBits;
  if (p >> (47 - kPageBits))
    return nullptr;
  if (!g_l1[p])
  {
    if (!create)
      return nullptr;
    g_l1[p] = (Cell*)mmap(nullptr, kPageCells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  return &g_l1[p][(a & ((1u << kPageBits) - 1)) >> 3];
}
static uint8_t* freed_bits(uintptr_t a, bool create)
{
  if (!g_freed_l1)
    g_freed_l1 = (uint8_t**)mmap(nullptr, sizeof(void*) << (47 - kPageBits), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  const size_t p = a >> kPageBits;
  if (p >> (47 - kPageBits))
    return nullptr;
  if (!g_freed_l1[p])
  {
    if (!create)
      return nullptr;
    g_freed_l1[p] = (uint8_t*)mmap(nullptr, kPageCells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  return &g_freed_l1[p][(a & ((1u << kPageBits) - 1)) >> 3];
}

static void where(char* buf, size_t n, const void* pc)
{
  Dl_info di;
  memset(&di, 0, sizeof di);
  if (dladdr(pc, &di) && di.dli_sname)
    snprintf(buf, n, "%s+0x%lx", di.dli_sname, (unsigned long)((const char*)pc - (const char*)di.dli_saddr));
  else
    snprintf(buf, n, "0x%lx", (unsigned long)pc);
}

static bool g_race_flags;  // do not report bool flags of a stack frame (set and read with "omp flush")
static bool on_stack(uintptr_t a)
{
  for (int i = 0; i < g_nthreads; ++i)
    if (g_threads[i].used && a < (uintptr_t)g_threads[i].stack_top && a + (1 << 20) >= (uintptr_t)g_threads[i].stack_top)
      return true;
  return false;
}
static void access1(uintptr_t a, unsigned lo, unsigned hi, bool write, bool atomic, const void* pc)
{
  const uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1u) << lo);
  Thread* me = t_self;
  Cell* c = cell(a, true);
  if (!c)
    return;
  int free_slot = -1;
  for (int i = 0; i < 4; ++i)
  {
    Rec& r = c->r[i];
    if (!(r.flags & 2))
    {
      if (free_slot < 0)
        free_slot = i;
      continue;
    }
    if (r.tid == me->id)
    {
      // same thread: replaceable when this access subsumes it
      if ((r.mask & ~mask) == 0 && (write || !(r.flags & 1)) && (!(r.flags & 4) || atomic || true))
        free_slot = i;
      continue;
    }
    if (!(r.mask & mask) || !((r.flags & 1) || write) || ((r.flags & 4) && atomic))
      continue;
    if (g_threads[r.tid].proc != me->proc)
      continue;  // simulated processes share the address space of the simulation only
    if (r.clk > me->vc[r.tid])
    {
      if (g_race_flags && hi - lo == 1 && on_stack(a))
        continue;
      char w[300];
      NoSim ns;
      where(w, sizeof w, pc);
      fail("data-race", "thread %d %s %u byte(s) at %s while thread %d's %s of the same memory is not ordered before it",
           me->id, write ? "writes" : "reads", hi - lo, w, r.tid, (r.flags & 1) ? "write" : "read");
    }
    else if (write || !(r.flags & 1))
    {
      // ordered before us and subsumed
      if ((r.mask & ~mask) == 0 && free_slot < 0)
        free_slot = i;
    }
  }
  if (free_slot < 0)
    free_slot = (int)(g_steps & 3);
  Rec& r = c->r[free_slot];
  r.clk = me->vc[me->id];
  r.tid = (uint8_t)me->id;
  r.mask = mask;
  r.flags = (uint8_t)(2 | (write ? 1 : 0) | (atomic ? 4 : 0));
}
static uint64_t g_checked;
static void access_range(const void* p, size_t n, bool write, bool atomic, const void* pc)
{
  uintptr_t a = (uintptr_t)p;
  if (g_uaf)
  {
    const uint8_t* f = freed_bits(a, false);
    if (f && *f)
    {
      char w[300];
      NoSim ns;
      where(w, sizeof w, pc);
      if (*f == 2)
        fail("out-of-bounds", "thread %d %s memory behind the end of a heap block, at %s", t_self->id, write ? "writes" : "reads", w);
      fail("use-after-free", "thread %d %s memory that was already released, at %s", t_self->id, write ? "writes" : "reads", w);
    }
  }
  if (!g_race || g_alive < 2)
    return;
  ++g_checked;
  res->races_checked = g_checked;
  Thread* me = t_self;
  if (a < me->stack_low && a + (1 << 20) > (uintptr_t)me->stack_top)
    me->stack_low = a;
  while (n)
  {
    const unsigned lo = a & 7;
    const unsigned k = (unsigned)(n < 8 - lo ? n : 8 - lo);
    access1(a, lo, lo + k, write, atomic, pc);
    a += k;
    n -= k;
  }
}
void mem_access(const void* p, size_t n, bool write, const void* pc)
{
  if (!active() || n == 0)
    return;
  access_range(p, n, write, false, pc);
  point(1);
}
void mem_clear(const void* p, size_t n)
{
  if (!g_inited)
    return;
  uintptr_t a = (uintptr_t)p & ~7ULL, e = ((uintptr_t)p + n + 7) & ~7ULL;
  if (g_freed_l1)
    for (uintptr_t x = a; x < e; x += 8)
      if (uint8_t* f = freed_bits(x, false))
        *f = 0;
  if (g_l1)
    for (uintptr_t x = a; x < e; x += 8)
      if (Cell* c = cell(x, false))
        memset(c, 0, sizeof *c);
}
void mem_freed(const void* p, size_t n)
{
  if (!g_inited)
    return;
  uintptr_t a = (uintptr_t)p, e = a + n;
  // releasing counts as a write
  const uint8_t* f = g_uaf ? freed_bits(a, false) : nullptr;
  const bool empty = f && *f == 2;  // a block of 0 bytes
  if (!empty && g_race && g_alive > 1 && active() && n <= 65536)
    access_range(p, n, true, false, __builtin_return_address(0));
  if (g_uaf)
    for (uintptr_t x = a; x + 8 <= e; x += 8)
      if (uint8_t* f = freed_bits(x, true))
        *f = 1;
}

bool uaf_on() { return g_uaf; }
void mem_redzone(const void* lo, const void* hi)
{
  if (!g_uaf)
    return;
  for (uintptr_t x = (uintptr_t)lo; x + 8 <= (uintptr_t)hi; x += 8)
    if (uint8_t* f = freed_bits(x, true))
      *f = 2;
}

// ---- threads --------------------------------------------------------------------------------------------------------
typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*join_t)(pthread_t, void**);
static create_t real_create()
{
  static create_t f;
  if (!f)
    f = (create_t)dlsym(RTLD_NEXT, "pthread_create");
  return f;
}
static join_t real_join()
{
  static join_t f;
  if (!f)
    f = (join_t)dlsym(RTLD_NEXT, "pthread_join");
  return f;
}

static void* tramp(void* p)
{
  Thread* t = (Thread*)p;
  t_rt = 1;
  t_self = t;
  fwait(&t->futex);
  t_rt = 0;
  t->stack_top = __builtin_frame_address(0);
  t->stack_low = (uintptr_t)t->stack_top;
  // an earlier thread may have had its thread_local objects in the same place
  mem_clear(t->stack_top, (uintptr_t)pthread_self() + 64 - (uintptr_t)t->stack_top);
  void* r = t->fn(t->arg);
  while (TlsDtor* d = t->dtors)
  {
    t->dtors = d->next;
    d->f(d->obj);
    __real_free(d);
  }
  t_rt = 1;
  t->ret = r;
  // the next thread may get this stack
  if (t->stack_low < (uintptr_t)t->stack_top)
    mem_clear((void*)t->stack_low, (uintptr_t)t->stack_top - t->stack_low);
  sync_release(t);
  t->done = true;
  --g_alive;
  wake(t);
  Thread* n = pick(false, "next");
  if (!n)
    deadlock("last runnable thread ended");
  t_self = t;
  switch_to(n);
  t_self = nullptr;
  return r;
}

static Thread* make(void* (*fn)(void*), void* arg)
{
  NoSim ns;
  int id = -1;
  for (int i = 1; i < kMaxThreads; ++i)
    if (!g_threads[i].used)
    {
      id = i;
      break;
    }
  if (id < 0)
    fail("exit", "simulator: too many threads");
  Thread* t = &g_threads[id];
  memset(t, 0, sizeof *t);
  t->id = id;
  t->used = true;
  t->fn = fn;
  t->arg = arg;
  t->proc = t_self->proc;
  if (id >= g_nthreads)
    g_nthreads = id + 1;
  memcpy(t->vc, t_self->vc, sizeof t->vc);
  t->vc[id] = t_self->vc[id] + 1;  // a reused slot continues its clock
  ++t_self->vc[t_self->id];
  draw_gap(t);
  ++g_alive;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 1 << 20);
  if (real_create()(&t->pt, &at, tramp, t) != 0)
    fail("exit", "simulator: cannot create a thread");
  pthread_attr_destroy(&at);
  cover("threads_started");
  return t;
}

void sched_init()
{
  memset(g_threads, 0, sizeof g_threads);
  Thread* t = &g_threads[0];
  t->used = true;
  t->vc[0] = 1;
  g_nthreads = 1;
  g_alive = 1;
  g_running = t;
  t_self = t;
  t_rt = 0;
  g_steps = g_switches = g_shash = 0;
  g_long = false;
  g_fair = 0;
  g_race_flags = false;
  g_inited = true;
  // how this seed schedules: 0 = only where threads block, else preemption gaps up to 2^policy steps
  static const unsigned pol[] = { 0, 3, 5, 7, 9, 11, 13, 16 };
  g_policy = pol[choose(8, "sched-policy")];
  g_gap_max = g_policy ? (1ULL << g_policy) : 0;
  draw_gap(t);
}
}  // namespace rt

using namespace rt;
Quiet::Quiet() { ++t_rt; }
Quiet::~Quiet() { --t_rt; }
int self() { return t_self ? t_self->id : -1; }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_switches; }
void set_step_limit(uint64_t n) { g_limit = g_steps + n; }
void set_racecheck(bool on) { g_race = on; }
void allow_flag_races(bool on) { g_race_flags = on; }
void set_uafcheck(bool on) { g_uaf = on; }
void set_preempt(bool on) { g_preempt = on; }
void set_long_gaps(unsigned lo, unsigned hi)
{
  g_long = true;
  g_policy = (unsigned)(lo + choose(hi - lo + 1, "gap-policy"));
  g_gap_max = 1ULL << g_policy;
  draw_gap(t_self);
}
void set_fair(uint64_t n)
{
  g_fair = n;
  g_ran0 = g_steps;
}
void yield()
{
  if (active())
    point(20);
}
void sleep_steps(uint64_t n)
{
  if (!active() || g_alive < 2)
    return;
  NoSim ns;
  Thread* me = t_self;
  g_alarm = g_steps + n;
  g_alarm_thread = me;
  me->blocked = true;
  me->wait_obj = nullptr;
  Thread* t = pick(false, "next");
  if (t != me)
    switch_to(t);
  me->blocked = false;
}
// sleeping or yielding: another thread runs, if there is one
void relax(uint64_t ns)
{
  if (!active())
    return;
  advance(ns);
  NoSim no;
  ++g_steps;
  if (g_alive < 2)
    return;
  Thread* t = pick(false, "relax");
  draw_gap(t_self);
  if (t && t != t_self)
    switch_to(t);
}
static unsigned g_thread_fail;
void set_thread_fail(unsigned per1000) { g_thread_fail = per1000; }
static int g_omp_default = 4, g_procs = 2, g_omp_limit = 16;
void set_omp_limit(int n) { g_omp_limit = n; }
void set_omp(int default_threads, int procs)
{
  g_omp_default = default_threads;
  g_procs = procs;
}
struct SpawnArg
{
  void (*fn)(void*);
  void* arg;
};
static void* spawn_tramp(void* p)
{
  SpawnArg a = *(SpawnArg*)p;
  free(p);
  a.fn(a.arg);
  return nullptr;
}
int spawn(void (*fn)(void*), void* arg)
{
  SpawnArg* a = (SpawnArg*)malloc(sizeof(SpawnArg));
  a->fn = fn;
  a->arg = arg;
  Thread* t = make(spawn_tramp, a);
  point(20);
  return t->id;
}
void join(int tid)
{
  Thread* t = &g_threads[tid];
  while (!t->done)
    block_on(t);
  sync_acquire(t);
  NoSim ns;
  real_join()(t->pt, nullptr);
  t->joined = true;
}
}  // namespace sim

using namespace sim;
using namespace sim::rt;

// thread_local objects of simulated threads are destroyed while the thread is still simulated
extern "C" int __wrap___cxa_thread_atexit(void (*f)(void*), void* obj, void* dso)
{
  if (!t_self || t_self->id == 0)
    return __real___cxa_thread_atexit(f, obj, dso);
  TlsDtor* d = (TlsDtor*)__real_malloc(sizeof(TlsDtor));
  *d = TlsDtor{ f, obj, t_self->dtors };
  t_self->dtors = d;
  return 0;
}
extern "C" {
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
  if (!active())
    return real_create()(out, attr, fn, arg);
  if (g_thread_fail && g_faults && chance(g_thread_fail, 1000, "thread-fail"))
  {
    cover("fault.thread_creation");
    return EAGAIN;
  }
  Thread* t = make(fn, arg);
  *out = t->pt;
  point(20);
  return 0;
}
int pthread_join(pthread_t pt, void** ret)
{
  if (!active())
    return real_join()(pt, ret);
  Thread* t = nullptr;
  for (int i = 0; i < g_nthreads; ++i)
    if (g_threads[i].used && !g_threads[i].joined && i && pthread_equal(g_threads[i].pt, pt))
      t = &g_threads[i];
  if (!t)
    fail("bad-join", "join of a thread that does not exist or was already joined");
  while (!t->done)
    block_on(t);
  sync_acquire(t);
  void* r = t->ret;
  {
    NoSim ns;
    real_join()(pt, nullptr);
  }
  t->joined = true;
  if (ret)
    *ret = r;
  return 0;
}
int pthread_detach(pthread_t pt)
{
  typedef int (*fn_t)(pthread_t);
  static fn_t f;
  if (!f)
    f = (fn_t)dlsym(RTLD_NEXT, "pthread_detach");
  return f(pt);
}

// ---- mutexes: state is kept in a table keyed by address ------------------------------------------------------------
struct SimMutex
{
  const void* addr;
  int owner;  // tid+1
  int depth;
};
static SimMutex g_mx[4096];
static int g_mx_n;
static SimMutex* mx(const void* a)
{
  for (int i = g_mx_n - 1; i >= 0; --i)
    if (g_mx[i].addr == a)
      return &g_mx[i];
  if (g_mx_n == 4096)
    fail("exit", "simulator: too many mutexes");
  g_mx[g_mx_n].addr = a;
  g_mx[g_mx_n].owner = 0;
  g_mx[g_mx_n].depth = 0;
  return &g_mx[g_mx_n++];
}
static bool is_recursive(const pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m)
{
  typedef int (*fn_t)(pthread_mutex_t*);
  static fn_t f;
  if (!active())
  {
    if (!f)
      f = (fn_t)dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return f(m);
  }
  point(20);
  SimMutex* s = mx(m);
  if (s->owner == t_self->id + 1)
  {
    if (is_recursive(m))
    {
      ++s->depth;
      return 0;
    }
    fail("self-deadlock", "thread %d locks a mutex it already holds", t_self->id);
  }
  while (s->owner)
  {
    block_on(m);
    s = mx(m);
  }
  s->owner = t_self->id + 1;
  s->depth = 1;
  sync_acquire(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  typedef int (*fn_t)(pthread_mutex_t*);
  static fn_t f;
  if (!active())
  {
    if (!f)
      f = (fn_t)dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    return f(m);
  }
  point(20);
  SimMutex* s = mx(m);
  if (s->owner == t_self->id + 1 && is_recursive(m))
  {
    ++s->depth;
    return 0;
  }
  if (s->owner)
    return EBUSY;
  s->owner = t_self->id + 1;
  s->depth = 1;
  sync_acquire(m);
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  typedef int (*fn_t)(pthread_mutex_t*);
  static fn_t f;
  if (!active())
  {
    if (!f)
      f = (fn_t)dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    return f(m);
  }
  SimMutex* s = mx(m);
  if (s->owner != t_self->id + 1)
    fail("bad-unlock", "thread %d unlocks a mutex it does not hold", t_self->id);
  if (--s->depth == 0)
  {
    sync_release(m);
    s->owner = 0;
    wake(m);
  }
  point(20);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  if (active())
  {
    SimMutex* s = mx(m);
    if (s->owner)
      fail("destroy-locked-mutex", "a mutex is destroyed while thread %d holds it", s->owner - 1);
  }
  return 0;
}
struct CondQ
{
  int dummy;
};
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  pthread_mutex_unlock(m);
  block_on(c);
  pthread_mutex_lock(m);
  return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*)
{
  (void)c;
  pthread_mutex_unlock(m);
  sim::yield();
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c)
{
  point(20);
  wake(c);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  point(20);
  wake(c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

// ---- function-local statics ----------------------------------------------------------------------------------------
int __cxa_guard_acquire(uint64_t* g)
{
  uint8_t* b = (uint8_t*)g;
  if (!active())
    return b[0] ? 0 : 1;
  point(20);
  while (true)
  {
    if (b[0])
    {
      sync_acquire(g);
      return 0;
    }
    if (!b[1])
    {
      b[1] = 1;
      return 1;
    }
    block_on(g);
  }
}
void __cxa_guard_release(uint64_t* g)
{
  uint8_t* b = (uint8_t*)g;
  b[0] = 1;
  b[1] = 0;
  if (active())
  {
    sync_release(g);
    wake(g);
    point(1);
  }
}
void __cxa_guard_abort(uint64_t* g)
{
  ((uint8_t*)g)[1] = 0;
  if (active())
    wake(g);
}

// ---- OpenMP (the parts GCC emits for the code under test) ----------------------------------------------------------
struct Work
{
  long next, end, incr, chunk;
  uint64_t gen;  // number of the loop within the region, from 1
};
struct Team
{
  int n;
  Work w[64];           // loops the threads of the region are working on
  uint64_t at[17];       // per thread: number of its current loop
  uint64_t singles[17], single_done;
  int barrier_n;
  uint64_t barrier_gen;
  void (*fn)(void*);
  void* data;
};
static void* omp_tramp(void* p)
{
  Team* tm = ((Team**)p)[0];
  const int tid = (int)(intptr_t)((void**)p)[1];
  free(p);
  t_self->team = tm;
  t_self->team_tid = tid;
  tm->fn(tm->data);
  return nullptr;
}
static void omp_region(void (*fn)(void*), void* data, unsigned n, bool combined, long start, long end, long incr, long chunk)
{
  Team tm;
  memset(&tm, 0, sizeof tm);
  tm.n = n == 0 ? (t_self->omp_n ? t_self->omp_n : g_omp_default) : (int)n;
  if (tm.n > g_omp_limit)
    tm.n = g_omp_limit;
  if (t_self->team && ((Team*)t_self->team)->n > 1)
    tm.n = 1;  // nested regions are not active
  tm.fn = fn;
  tm.data = data;
  if (combined)
  {
    tm.w[1] = { start, end, incr, chunk > 0 ? chunk : 1, 1 };
    for (auto& a : tm.at)
      a = 1;
  }
  void* old = t_self->team;
  const int old_tid = t_self->team_tid;
  Thread* ts[16];
  if (tm.n > 1)
    cover("omp_regions");
  for (int i = 1; i < tm.n; ++i)
  {
    void** p = (void**)malloc(2 * sizeof(void*));
    p[0] = &tm;
    p[1] = (void*)(intptr_t)i;
    ts[i] = make(omp_tramp, p);
    ts[i]->omp_n = t_self->omp_n;
  }
  t_self->team = &tm;
  t_self->team_tid = 0;
  point(20);
  fn(data);
  for (int i = 1; i < tm.n; ++i)
  {
    while (!ts[i]->done)
      block_on(ts[i]);
    sync_acquire(ts[i]);
    NoSim ns;
    real_join()(ts[i]->pt, nullptr);
    ts[i]->used = false;  // the slot may be reused
    ts[i]->joined = true;
  }
  t_self->team = old;
  t_self->team_tid = old_tid;
}
static void omp_serial_guard()
{
  if (!active())
  {
    fprintf(stderr, "OpenMP region outside the simulation\n");
    abort();
  }
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
  omp_serial_guard();
  omp_region(fn, data, n, false, 0, 0, 1, 1);
}
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk, unsigned)
{
  omp_serial_guard();
  omp_region(fn, data, n, true, start, end, incr, chunk);
}
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk, unsigned f)
{
  GOMP_parallel_loop_nonmonotonic_dynamic(fn, data, n, start, end, incr, chunk, f);
}
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk, unsigned f)
{
  GOMP_parallel_loop_nonmonotonic_dynamic(fn, data, n, start, end, incr, chunk, f);
}
void GOMP_parallel_loop_guided(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, long chunk, unsigned f)
{
  GOMP_parallel_loop_nonmonotonic_dynamic(fn, data, n, start, end, incr, chunk, f);
}
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, unsigned f)
{
  GOMP_parallel_loop_nonmonotonic_dynamic(fn, data, n, start, end, incr, 1, f);
}
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* data, unsigned n, long start, long end, long incr, unsigned f)
{
  GOMP_parallel_loop_nonmonotonic_dynamic(fn, data, n, start, end, incr, 1, f);
}
static Team g_alone;  // outside of any region: a team of one
static Team* team()
{
  if (t_self->team)
    return (Team*)t_self->team;
  g_alone.n = 1;
  return &g_alone;
}
static int team_tid() { return t_self->team ? t_self->team_tid : 0; }
bool GOMP_loop_nonmonotonic_dynamic_next(long* s, long* e)
{
  Team* tm = team();
  point(20);
  Work& w = tm->w[tm->at[team_tid()] & 63];
  if (w.incr > 0 ? w.next >= w.end : w.next <= w.end)
    return false;
  *s = w.next;
  long nx = w.next + w.chunk * w.incr;
  if (w.incr > 0 ? nx > w.end : nx < w.end)
    nx = w.end;
  w.next = nx;
  *e = nx;
  return true;
}
bool GOMP_loop_nonmonotonic_dynamic_start(long start, long end, long incr, long chunk, long* s, long* e)
{
  omp_serial_guard();
  Team* tm = team();
  const uint64_t k = ++tm->at[team_tid()];
  Work& w = tm->w[k & 63];
  if (w.gen != k)
    w = { start, end, incr, chunk > 0 ? chunk : 1, k };
  return GOMP_loop_nonmonotonic_dynamic_next(s, e);
}
bool GOMP_loop_dynamic_start(long a, long b, long i, long c, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, c, s, e); }
bool GOMP_loop_guided_start(long a, long b, long i, long c, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, c, s, e); }
bool GOMP_loop_nonmonotonic_guided_start(long a, long b, long i, long c, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, c, s, e); }
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, 1, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_start(a, b, i, 1, s, e); }
unsigned GOMP_sections_next()
{
  long s, e;
  return GOMP_loop_nonmonotonic_dynamic_next(&s, &e) ? (unsigned)s : 0;
}
unsigned GOMP_sections_start(unsigned n)
{
  long s, e;
  return GOMP_loop_nonmonotonic_dynamic_start(1, (long)n + 1, 1, 1, &s, &e) ? (unsigned)s : 0;
}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned)
{
  omp_serial_guard();
  omp_region(fn, data, n, true, 1, (long)count + 1, 1, 1);
}
void GOMP_barrier();
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_loop_dynamic_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_guided_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_nonmonotonic_guided_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return GOMP_loop_nonmonotonic_dynamic_next(s, e); }
void GOMP_barrier()
{
  Team* tm = (Team*)t_self->team;
  if (!tm || tm->n < 2)
    return;
  sync_release(tm);
  const uint64_t g = tm->barrier_gen;
  if (++tm->barrier_n == tm->n)
  {
    tm->barrier_n = 0;
    ++tm->barrier_gen;
    wake(tm);
  }
  else
    while (tm->barrier_gen == g)
      block_on(tm);
  sync_acquire(tm);
  point(20);
}
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}
static pthread_mutex_t g_critical = PTHREAD_MUTEX_INITIALIZER;
void GOMP_critical_start() { pthread_mutex_lock(&g_critical); }
void GOMP_critical_end() { pthread_mutex_unlock(&g_critical); }
static pthread_mutex_t g_named[64];
static void* g_named_key[64];
static pthread_mutex_t* named(void** p)
{
  for (int i = 0; i < 64; ++i)
  {
    if (!g_named_key[i])
      g_named_key[i] = p;
    if (g_named_key[i] == p)
      return &g_named[i];
  }
  abort();
}
void GOMP_critical_name_start(void** p) { pthread_mutex_lock(named(p)); }
void GOMP_critical_name_end(void** p) { pthread_mutex_unlock(named(p)); }
static pthread_mutex_t g_atomic = PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start() { pthread_mutex_lock(&g_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&g_atomic); }
bool GOMP_single_start()
{
  Team* tm = team();
  point(20);
  const uint64_t k = ++tm->singles[team_tid()];
  if (tm->single_done >= k)
    return false;
  tm->single_done = k;
  return true;
}
int omp_get_thread_num() { return t_self && t_self->team ? t_self->team_tid : 0; }
int omp_get_num_threads() { return t_self && t_self->team ? ((Team*)t_self->team)->n : 1; }
int omp_get_max_threads() { return t_self && t_self->omp_n ? t_self->omp_n : g_omp_default; }
int omp_get_num_procs() { return g_procs; }
void omp_set_num_threads(int n)
{
  if (t_self)
    t_self->omp_n = n < 1 ? 1 : n;
}
int omp_in_parallel() { return t_self && t_self->team && ((Team*)t_self->team)->n > 1; }
int omp_get_level() { return omp_in_parallel(); }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 1e-9 * (double)steady_ns(); }

// ---- instrumentation entry points ----------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RA __builtin_return_address(0)
#define FAST(p, n, w)                                                                                                  \
  do                                                                                                                   \
  {                                                                                                                    \
    if (active())                                                                                                      \
    {                                                                                                                  \
      access_range(p, n, w, false, RA);                                                                                \
      point(1);                                                                                                        \
    }                                                                                                                  \
  } while (0)
#define RW(n)                                                                                                          \
  void __tsan_read##n(void* p) { FAST(p, n, false); }                                                                  \
  void __tsan_write##n(void* p) { FAST(p, n, true); }                                                                  \
  void __tsan_unaligned_read##n(void* p) { FAST(p, n, false); }                                                        \
  void __tsan_unaligned_write##n(void* p) { FAST(p, n, true); }                                                        \
  void __tsan_volatile_read##n(void* p) { FAST(p, n, false); }                                                         \
  void __tsan_volatile_write##n(void* p) { FAST(p, n, true); }                                                         \
  void __tsan_unaligned_volatile_read##n(void* p) { FAST(p, n, false); }                                               \
  void __tsan_unaligned_volatile_write##n(void* p) { FAST(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { FAST(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { FAST(p, n, true); }
void __tsan_vptr_update(void** p, void* v)
{
  if (*p != v)
    FAST(p, 8, true);
}
void __tsan_vptr_read(void** p) { FAST(p, 8, false); }

#define A_PRE(p, n, w)                                                                                                 \
  const bool act = active();                                                                                           \
  if (act)                                                                                                             \
  {                                                                                                                    \
    point(20);                                                                                                         \
    access_range((const void*)p, n, w, true, RA);                                                                      \
  }
static inline bool acq(int mo) { return mo != 0 && mo != 3; }
static inline bool rel(int mo) { return mo >= 3; }
#define ATOMICS(bits, T)                                                                                               \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo)                                                            \
  {                                                                                                                    \
    A_PRE(p, sizeof(T), false)                                                                                         \
    const T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                                                                  \
    if (act && acq(mo))                                                                                                \
      sync_acquire((const void*)p);                                                                                    \
    return v;                                                                                                          \
  }                                                                                                                    \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo)                                                         \
  {                                                                                                                    \
    A_PRE(p, sizeof(T), true)                                                                                          \
    if (act && rel(mo))                                                                                                \
      sync_release((const void*)p);                                                                                    \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                                                          \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo)                         \
  {                                                                                                                    \
    A_PRE(p, sizeof(T), true)                                                                                          \
    const bool ok = __atomic_compare_exchange_n(p, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                   \
    if (act)                                                                                                           \
    {                                                                                                                  \
      if (acq(ok ? mo : fmo))                                                                                          \
        sync_acquire((const void*)p);                                                                                  \
      if (ok && rel(mo))                                                                                               \
        sync_release((const void*)p);                                                                                  \
    }                                                                                                                  \
    return ok;                                                                                                         \
  }                                                                                                                    \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo)                           \
  {                                                                                                                    \
    return __tsan_atomic##bits##_compare_exchange_strong(p, e, d, mo, fmo);                                            \
  }                                                                                                                    \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo)                               \
  {                                                                                                                    \
    __tsan_atomic##bits##_compare_exchange_strong(p, &e, d, mo, fmo);                                                  \
    return e;                                                                                                          \
  }                                                                                                                    \
  ARMW(bits, T, exchange, __atomic_exchange_n)                                                                         \
  ARMW(bits, T, fetch_add, __atomic_fetch_add)                                                                         \
  ARMW(bits, T, fetch_sub, __atomic_fetch_sub)                                                                         \
  ARMW(bits, T, fetch_and, __atomic_fetch_and)                                                                         \
  ARMW(bits, T, fetch_or, __atomic_fetch_or)                                                                           \
  ARMW(bits, T, fetch_xor, __atomic_fetch_xor)                                                                         \
  ARMW(bits, T, fetch_nand, __atomic_fetch_nand)
#define ARMW(bits, T, name, op)                                                                                        \
  T __tsan_atomic##bits##_##name(volatile T* p, T v, int mo)                                                           \
  {                                                                                                                    \
    A_PRE(p, sizeof(T), true)                                                                                          \
    const T r = op(p, v, __ATOMIC_SEQ_CST);                                                                            \
    if (act)                                                                                                           \
    {                                                                                                                  \
      if (acq(mo))                                                                                                     \
        sync_acquire((const void*)p);                                                                                  \
      if (rel(mo))                                                                                                     \
        sync_release((const void*)p);                                                                                  \
    }                                                                                                                  \
    return r;                                                                                                          \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
  if (active())
    point(20);
}
void __tsan_atomic_signal_fence(int) {}
}
