// Deterministic simulation runtime. One seed = one tape of choices = one exactly repeatable execution.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdarg>

namespace sim
{
// ---- choices -------------------------------------------------------------------------------------------------------
// Every nondeterministic decision of a run (workload, schedule, delay, fault) is drawn here. The value is taken from the
// seeded generator (search) or from a recorded tape (replay, minimisation); past the end of a tape every choice is 0, and
// 0 is always the benign alternative (no fault, no preemption, smallest workload).
uint64_t choose(uint64_t n, const char* label);                // uniform in [0,n)
bool chance(unsigned num, unsigned den, const char* label);    // true with probability num/den
uint64_t logchoose(uint64_t max, const char* label);           // log-uniform in [0,max]
double real(double lo, double hi, const char* label);          // grid of 2^20 values; tape value 0 is lo
double nice(double lo, double hi, const char* label);          // multiples of (hi-lo)/16, centre at tape value 0

// ---- results -------------------------------------------------------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void known(const char* id, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // listed known finding seen
void cover(const char* key, uint64_t n = 1);   // counters (fault kinds injected, reach marks)
void event(uint64_t h);                        // mix into the trace hash
void event(const char* s);
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // shown on replay with --trace only
void nontrivial();                             // this run exercised what the property is about
bool tracing();

// ---- faults on/off: after quiesce() no more faults are injected (liveness = progress once faults stop) --------------
void quiesce();
bool faults_on();

// ---- scheduler -----------------------------------------------------------------------------------------------------
int self();                        // id of the running simulated thread, 0 = main
int spawn(void (*fn)(void*), void* arg);
void join(int tid);
void yield();                      // explicit scheduling point
void relax(uint64_t ns = 0);       // lets another thread run
void sleep_steps(uint64_t n);      // the others run for n steps (one sleeper at a time)
void set_thread_fail(unsigned per1000);             // pthread_create fails
void set_omp_limit(int n);         // no more threads in one OpenMP region (at most 16)
void set_omp(int default_threads, int procs);       // what OMP_NUM_THREADS and the machine say
struct Quiet                       // bookkeeping of a world: no scheduling points, no race checks, no faults
{
  Quiet();
  ~Quiet();
};
void set_long_gaps(unsigned lo, unsigned hi);  // for long runs: preemption after up to 2^k steps, k of lo .. hi, again and again
void set_fair(uint64_t n);         // thread 0 runs at least every n steps unless it is blocked
void set_racecheck(bool on);       // report data races between simulated threads
void allow_flag_races(bool on);    // except of one-byte variables on the stack (the "omp flush" idiom)
void set_uafcheck(bool on);
void set_preempt(bool on);         // off: threads switch only when they block (the serial schedule)
void hb_all();
uint64_t steps();
void set_step_limit(uint64_t n);
uint64_t switches();

// ---- time ----------------------------------------------------------------------------------------------------------
// two virtual clocks, in nanoseconds: the steady one only advances, the system one may be stepped
void advance(uint64_t ns);
void jump_system(int64_t ns);
uint64_t steady_ns();
int64_t system_ns();
void set_tick(uint64_t ns);        // added to both clocks by every reading of a clock

// ---- processes, pipes ----------------------------------------------------------------------------------------------
struct SysConfig
{
  unsigned pipe_cap = 65536;
  unsigned short_read = 0;   // per 1000 calls
  unsigned eintr = 0;        // per 1000 calls
  unsigned kill_child = 0;   // per 100000 system calls made by a child
  unsigned fork_fail = 0;    // per 1000
  unsigned exec_fail = 0;    // per 1000
  unsigned pipe_fail = 0;    // per 1000
};
extern SysConfig sys;
typedef int (*MainFn)(int, char**);
void set_exec(MainFn fn);          // what execl starts
int live_children();
int total_children();
unsigned child_kills();
unsigned io_eintrs();
void run_atexit();                 // simulated normal exit of the host process
int current_pid();                 // 0 = the host process
void kill_child_now(int which);
void close_stdio(unsigned mask);   // the host was started with these descriptors closed
void end_host(bool clean);         // the host process exits (exit handlers run) or is killed; its children must end, too
int open_fds();                    // of the host process, without stdio
int zombies();                     // children that ended and were not waited for

// ---- files ---------------------------------------------------------------------------------------------------------
struct FileConfig
{
  unsigned open_fail = 0;    // per 1000
  unsigned write_fail = 0;   // per 1000 (disk full)
};
extern FileConfig files;
int files_open();
int files_total();
const char* file_path(int i);
const char* file_data(int i, size_t* n);
bool file_full(int i);

// ---- memory --------------------------------------------------------------------------------------------------------
void alloc_fail_in(long n);        // the n-th operator new from now throws bad_alloc; <0 off
bool alloc_failed();               // a failure was injected since the last alloc_fail_in
void track_leaks(bool on);         // from now on allocations of the code under test are remembered until released
long leaks(char* where, size_t n); // how many are not released, and where one of them comes from

// ---- worlds --------------------------------------------------------------------------------------------------------
struct World
{
  const char* name;
  void (*run)();
  World* next;
  World(const char* n, void (*r)());
};
#define SIM_WORLD(name)                                                                                                \
  static void run_##name();                                                                                            \
  static ::sim::World world_##name(#name, run_##name);                                                                 \
  static void run_##name()

// 64-bit mixing
inline uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 33;
  return h;
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);
}  // namespace sim
