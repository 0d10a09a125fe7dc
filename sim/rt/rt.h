// Internals shared by the runtime's own files. None of them uses standard containers: templates instantiated here would be
// merged by the linker with the instrumented ones of the code under test.
#pragma once
#include "sim.h"
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

namespace sim
{
namespace rt
{
constexpr int kMaxCounters = 256;
constexpr uint32_t kMaxTape = 1u << 20;
struct TapeItem
{
  uint64_t v, n;
  const char* label;
};
struct Counter
{
  char key[48];
  uint64_t n;
};
struct Result
{
  volatile int done;       // 1 = ok, 2 = violation
  char cls[64];
  char msg[2048];
  int known_n;
  char known_id[8][32];
  char known_msg[8][256];
  uint64_t hash, sched_hash, steps, switches, races_checked;
  uint64_t sim_ns;
  int nontrivial;
  uint32_t tape_len;
  Counter counters[kMaxCounters];
  TapeItem tape[kMaxTape];
};
extern Result* res;
extern bool g_trace;
extern bool g_faults;

// scheduler
constexpr int kMaxThreads = 64;
struct Thread;
Thread* cur();
bool active();                       // the calling thread is the simulated thread that holds the baton
void sched_init();
void point(unsigned weight);         // scheduling point worth this many steps
void block_on(const void* obj);      // sleep until wake(obj)
void wake(const void* obj);
void sync_acquire(const void* addr);
void sync_release(const void* addr);
void sync_forget(const void* lo, size_t n);
void mem_access(const void* p, size_t n, bool write, const void* pc);
void mem_clear(const void* p, size_t n);
void mem_freed(const void* p, size_t n);
void mem_redzone(const void* lo, const void* hi);
bool uaf_on();
int thread_count();
int proc_of(int tid);
void* stack_top();  // of the running thread; null for the first one
void set_proc_self(int proc);
uint64_t sched_hash();

// system layer
void sys_init();
[[noreturn]] void deadlock(const char* what);
struct NoSim                          // runtime code that must not be simulated itself
{
  NoSim();
  ~NoSim();
};
bool in_rt();
void enter_rt();
uint64_t tape_u64();
}  // namespace rt
}  // namespace sim
