// Simulated operating system: processes, pipes, signals on broken pipes, clocks, stdio files. A simulated process is a
// simulated thread (or several) with its own descriptor table. fork() follows the real semantics: the child branch of the
// caller runs first, on a saved copy of the stack, until it calls exec or exits.
#include "rt.h"
#include <cxxabi.h>
#include <errno.h>
#include <exception>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio_ext.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <chrono>

extern "C" {
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
int __real_pipe(int*);
int __real_pipe2(int*, int);
int __real_dup2(int, int);
pid_t __real_fork();
int __real_execl(const char*, const char*, ...);
void __real_exit(int) __attribute__((noreturn));
void __real__exit(int) __attribute__((noreturn));
pid_t __real_waitpid(pid_t, int*, int);
int __real_kill(pid_t, int);
int __real_atexit(void (*)());
FILE* __real_fopen(const char*, const char*);
int __real_fclose(FILE*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_gettimeofday(struct timeval*, void*);
int __real_chdir(const char*);
int __real_usleep(unsigned);
}

namespace sim
{
namespace rt
{
// ---- pipes ---------------------------------------------------------------------------------------------------------
struct Pipe
{
  unsigned char* buf;
  size_t head, len, cap;
  int readers, writers;
  bool used;
};
constexpr int kPipes = 64, kProcs = 32, kFds = 64, kFdBase = 3;
static Pipe g_pipes[kPipes];
struct Fd
{
  short pipe;  // index+1, 0 = closed, -1 = inherited stdio of the host
  short wr;
};
struct Proc
{
  bool used, dead, reaped, killed_pending, execed;
  int status;
  Fd fd[kFds];
  int sigpipe_pending;
};
static Proc g_procs[kProcs];
static int g_nprocs;
static MainFn g_exec;
static void (*g_atexit[64])();
static int g_natexit;
static unsigned g_kills, g_eintrs;

struct ProcessEnd
{
  int code;
};

static Proc& me() { return g_procs[proc_of(self())]; }
static int pid_of(int proc) { return 1000 + proc; }

static void close_fd(Proc& p, int fd)
{
  log("process %d: descriptor %d is closed", (int)(&p - g_procs), fd);
  Fd& f = p.fd[fd];
  if (f.pipe > 0)
  {
    Pipe& pp = g_pipes[f.pipe - 1];
    (f.wr ? pp.writers : pp.readers)--;
    wake(&pp);
  }
  f.pipe = 0;
}
static void proc_die(int proc, int status)
{
  Proc& p = g_procs[proc];
  if (p.dead)
    return;
  p.dead = true;
  p.status = status;
  for (int i = 0; i < kFds; ++i)
    if (p.fd[i].pipe)
      close_fd(p, i);
  wake(&p);
  log("process %d ends, status %d", proc, status);
}

void sys_init()
{
  memset(g_procs, 0, sizeof g_procs);
  memset(g_pipes, 0, sizeof g_pipes);
  g_nprocs = 1;
  g_procs[0].used = true;
  g_procs[0].execed = true;
  for (int i = 0; i < 3; ++i)
    g_procs[0].fd[i].pipe = -1;
}

// a system call made by a child may be where it is killed
static void syscall_point(const char*)
{
  point(20);
  const int pr = proc_of(self());
  if (pr != 0 && g_procs[pr].execed)
  {
    bool kill = g_procs[pr].killed_pending;
    if (!kill && g_faults && sys.kill_child && chance(sys.kill_child, 100000, "kill-child"))
    {
      cover("fault.solver_process_killed");
      ++g_kills;
      kill = true;
    }
    if (kill)
    {
      log("process %d is killed", pr);
      g_procs[pr].killed_pending = true;
      throw ProcessEnd{ -SIGKILL };
    }
  }
}

// ---- fork ----------------------------------------------------------------------------------------------------------
static struct ForkState
{
  bool in_child;
  ucontext_t ctx;
  unsigned char* lo;
  size_t n;
  unsigned char save[16384];
  int parent_proc, child_proc;
  int errno_save;
} g_fork;
static unsigned char g_fork_stack[65536] __attribute__((aligned(64)));
static ucontext_t g_fork_sw;
static void fork_restore()
{
  enter_rt();  // the context was saved inside a NoSim scope, which it leaves once more
  memcpy(g_fork.lo, g_fork.save, g_fork.n);
  setcontext(&g_fork.ctx);
}
static void proc_main(void* a)
{
  const int proc = (int)(intptr_t)a;
  set_proc_self(proc);
  int code = 0;
  try
  {
    char nm[] = "solver";
    char* av[] = { nm, nullptr };
    code = g_exec(1, av);
  }
  catch (const ProcessEnd& e)
  {
    code = e.code;
  }
  catch (const std::exception& e)
  {
    fail("solver-process-terminate", "the solver process ends by an uncaught exception: %s", e.what());
  }
  proc_die(proc, code);
}
static void back_to_parent()
{
  g_fork.in_child = false;
  set_proc_self(g_fork.parent_proc);
  NoSim ns;
  getcontext(&g_fork_sw);
  g_fork_sw.uc_stack.ss_sp = g_fork_stack;
  g_fork_sw.uc_stack.ss_size = sizeof g_fork_stack;
  g_fork_sw.uc_link = nullptr;
  makecontext(&g_fork_sw, fork_restore, 0);
}
}  // namespace rt

using namespace rt;
void set_exec(MainFn fn) { g_exec = fn; }
int live_children()
{
  int n = 0;
  for (int i = 1; i < g_nprocs; ++i)
    n += g_procs[i].used && !g_procs[i].dead;
  return n;
}
int total_children() { return g_nprocs - 1; }
unsigned child_kills() { return g_kills; }
unsigned io_eintrs() { return g_eintrs; }
int current_pid() { return self() < 0 ? 0 : proc_of(self()); }
void run_atexit()
{
  while (g_natexit > 0)
    g_atexit[--g_natexit]();
}
void end_host(bool clean)
{
  if (clean)
    run_atexit();
  Proc& p = g_procs[0];
  for (int i = 0; i < kFds; ++i)
    if (p.fd[i].pipe)
      close_fd(p, i);
  for (int i = 1; i < g_nprocs; ++i)
    while (!g_procs[i].dead)
    {
      log("waiting for process %d to end", i);
      block_on(&g_procs[i]);
    }
}
int open_fds()
{
  int n = 0;
  for (auto& f : g_procs[0].fd)
    n += f.pipe > 0;
  return n;
}
int zombies()
{
  int n = 0;
  for (int i = 1; i < g_nprocs; ++i)
    n += g_procs[i].used && g_procs[i].dead && !g_procs[i].reaped;
  return n;
}
void close_stdio(unsigned mask)
{
  for (int i = 0; i < 3; ++i)
    if (mask >> i & 1)
      g_procs[0].fd[i].pipe = 0;
}
void kill_child_now(int which)
{
  for (int i = 1; i < g_nprocs; ++i)
    if (i == which && !g_procs[i].dead)
    {
      g_procs[i].killed_pending = true;
      ++g_kills;
      cover("fault.solver_process_killed");
      // wake it if it sleeps in a pipe
      for (auto& f : g_procs[i].fd)
        if (f.pipe > 0)
          wake(&g_pipes[f.pipe - 1]);
    }
}

// ---- clocks --------------------------------------------------------------------------------------------------------
static uint64_t g_steady = 1000000000ULL;
static int64_t g_system = 1700000000LL * 1000000000LL;
static uint64_t g_tick = 1000;
void advance(uint64_t ns)
{
  g_steady += ns;
  g_system += (int64_t)ns;
}
void jump_system(int64_t ns) { g_system += ns; }
uint64_t steady_ns() { return g_steady; }
int64_t system_ns() { return g_system; }
void set_tick(uint64_t ns) { g_tick = ns; }
}  // namespace sim

using namespace sim;
using namespace sim::rt;

namespace std
{
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept
{
  if (!active())
  {
    struct timespec ts;
    __real_clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
  }
  advance(g_tick);
  return time_point(duration(chrono::nanoseconds(g_system)));
}
steady_clock::time_point steady_clock::now() noexcept
{
  if (!active())
  {
    struct timespec ts;
    __real_clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
  }
  advance(g_tick);
  return time_point(duration(chrono::nanoseconds(g_steady)));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

static ssize_t pipe_io(int fd, void* b, size_t n, bool wr)
{
  syscall_point(wr ? "write" : "read");
  Proc* p = &me();
  if (fd < 0 || fd >= kFds || p->fd[fd].pipe <= 0 || (p->fd[fd].wr != 0) != wr)
  {
    log("process %d: %s of descriptor %d, which is not open for it", proc_of(self()), wr ? "write" : "read", fd);
    errno = EBADF;
    return -1;
  }
  Pipe& pp = g_pipes[p->fd[fd].pipe - 1];
  const bool fault = g_faults;
  if (fault && sys.eintr && chance(sys.eintr, 1000, wr ? "write-eintr" : "read-eintr"))
  {
    cover(wr ? "fault.write_eintr" : "fault.read_eintr");
    ++g_eintrs;
    errno = EINTR;
    return -1;
  }
  if (!wr)
  {
    if (n == 0)
      return 0;
    while (pp.len == 0)
    {
      if (pp.writers == 0)
      {
        cover("pipe_eof_seen");
        log("process %d: end of file on descriptor %d", proc_of(self()), fd);
        return 0;
      }
      block_on(&pp);
      syscall_point("read");
    }
    size_t k = pp.len < n ? pp.len : n;
    if (k < n)
      cover("short_read");
    if (fault && k > 1 && sys.short_read && chance(sys.short_read, 1000, "read-short"))
    {
      cover("fault.short_read");
      k = 1 + (size_t)choose(k - 1, "read-len");
    }
    for (size_t i = 0; i < k; ++i)
      ((unsigned char*)b)[i] = pp.buf[(pp.head + i) % pp.cap];
    pp.head = (pp.head + k) % pp.cap;
    pp.len -= k;
    wake(&pp);
    return (ssize_t)k;
  }
  size_t done = 0;
  while (done < n)
  {
    if (pp.readers == 0)
    {
      cover("broken_pipe_seen");
      log("process %d: broken pipe on descriptor %d", proc_of(self()), fd);
      sigset_t cur;
      sigemptyset(&cur);
      pthread_sigmask(SIG_BLOCK, nullptr, &cur);
      struct sigaction sa;
      sigaction(SIGPIPE, nullptr, &sa);
      if (sa.sa_handler == SIG_DFL)
      {
        if (!sigismember(&cur, SIGPIPE))
        {
          if (proc_of(self()) == 0)
            fail("killed-by-sigpipe", "the host process is killed by SIGPIPE: it writes to a solver process that is gone");
          throw ProcessEnd{ -SIGPIPE };
        }
        pthread_kill(pthread_self(), SIGPIPE);  // blocked: stays pending
      }
      errno = EPIPE;
      return -1;
    }
    if (pp.len < pp.cap)
    {
      size_t k = pp.cap - pp.len;
      if (k > n - done)
        k = n - done;
      for (size_t i = 0; i < k; ++i)
        pp.buf[(pp.head + pp.len + i) % pp.cap] = ((const unsigned char*)b)[done + i];
      pp.len += k;
      done += k;
      wake(&pp);
      if (done == n)
        break;
      if (fault && sys.eintr && chance(sys.eintr, 1000, "write-partial"))
      {
        cover("fault.partial_write");
        ++g_eintrs;
        return (ssize_t)done;
      }
    }
    block_on(&pp);
    syscall_point("write");
  }
  return (ssize_t)done;
}

extern "C" {
ssize_t __wrap_read(int fd, void* b, size_t n)
{
  if (!active())
    return __real_read(fd, b, n);
  return pipe_io(fd, b, n, false);
}
ssize_t __wrap_write(int fd, const void* b, size_t n)
{
  if (!active())
    return __real_write(fd, b, n);
  if (fd >= 0 && fd < 3 && me().fd[fd].pipe == -1)
    return __real_write(fd, b, n);
  return pipe_io(fd, const_cast<void*>(b), n, true);
}
int __wrap_close(int fd)
{
  if (!active())
    return __real_close(fd);
  point(5);
  Proc& p = me();
  if (fd < 0 || fd >= kFds || p.fd[fd].pipe == 0)
  {
    errno = EBADF;
    return -1;
  }
  close_fd(p, fd);
  return 0;
}
static int new_fd(Proc& p)
{
  for (int i = 0; i < kFds; ++i)
    if (p.fd[i].pipe == 0)
      return i;
  return -1;
}
int __wrap_pipe2(int* fds, int flags)
{
  if (!active())
    return __real_pipe2(fds, flags);
  point(5);
  if (g_faults && sys.pipe_fail && chance(sys.pipe_fail, 1000, "pipe-fail"))
  {
    cover("fault.pipe_fail");
    errno = EMFILE;
    return -1;
  }
  NoSim ns;
  int k = 0;
  while (k < kPipes && g_pipes[k].used)
    ++k;
  Proc& p = me();
  const int a = new_fd(p);
  if (a >= 0)
    p.fd[a].pipe = 1;  // reserve
  const int b = new_fd(p);
  if (k == kPipes || a < 0 || b < 0)
  {
    if (a >= 0)
      p.fd[a].pipe = 0;
    errno = EMFILE;
    return -1;
  }
  Pipe& pp = g_pipes[k];
  pp.used = true;
  pp.cap = sys.pipe_cap;
  pp.buf = (unsigned char*)malloc(pp.cap);
  pp.readers = pp.writers = 1;
  p.fd[a] = Fd{ (short)(k + 1), 0 };
  p.fd[b] = Fd{ (short)(k + 1), 1 };
  fds[0] = a;
  fds[1] = b;
  return 0;
}
int __wrap_pipe(int* fds)
{
  if (!active())
    return __real_pipe(fds);
  return __wrap_pipe2(fds, 0);
}
int __wrap_dup2(int a, int b)
{
  if (!active())
    return __real_dup2(a, b);
  Proc& p = me();
  if (a < 0 || a >= kFds || b < 0 || b >= kFds || p.fd[a].pipe == 0)
  {
    errno = EBADF;
    return -1;
  }
  if (a == b)
    return b;
  if (p.fd[b].pipe)
    close_fd(p, b);
  p.fd[b] = p.fd[a];
  if (p.fd[a].pipe > 0)
  {
    Pipe& pp = g_pipes[p.fd[a].pipe - 1];
    (p.fd[a].wr ? pp.writers : pp.readers)++;
  }
  return b;
}
__attribute__((noinline)) pid_t __wrap_fork()
{
  if (!active())
    return __real_fork();
  point(5);
  if (g_fork.in_child)
    fail("exit", "simulator: fork inside the child branch of fork is not supported");
  if (g_faults && sys.fork_fail && chance(sys.fork_fail, 1000, "fork-fail"))
  {
    cover("fault.fork_fail");
    errno = EAGAIN;
    return -1;
  }
  if (g_nprocs == kProcs)
    fail("exit", "simulator: too many processes");
  volatile bool resumed = false;
  const int child = g_nprocs++;
  g_fork.parent_proc = proc_of(self());
  g_fork.child_proc = child;
  Proc& c = g_procs[child];
  memset(&c, 0, sizeof c);
  c.used = true;
  for (int i = 0; i < kFds; ++i)
  {
    c.fd[i] = me().fd[i];
    if (c.fd[i].pipe > 0)
    {
      Pipe& pp = g_pipes[c.fd[i].pipe - 1];
      (c.fd[i].wr ? pp.writers : pp.readers)++;
    }
  }
  {
    NoSim ns;
    getcontext(&g_fork.ctx);
  }
  if (!resumed)
  {
    resumed = true;
    // save the stack from this frame up through the callers: the child branch may overwrite it
    unsigned char* lo = (unsigned char*)__builtin_frame_address(0) - 512;
    g_fork.lo = lo;
    g_fork.n = sizeof g_fork.save;
    void* top = nullptr;
    size_t sz = 0;
    {
      NoSim ns;
      pthread_attr_t at;
      pthread_getattr_np(pthread_self(), &at);
      pthread_attr_getstack(&at, &top, &sz);
      pthread_attr_destroy(&at);
    }
    unsigned char* end = (unsigned char*)top + sz;
    if (stack_top())
      end = (unsigned char*)stack_top();  // what is above is not stack but thread-local storage
    if (lo + g_fork.n > end)
      g_fork.n = (size_t)(end - lo);
    g_fork.in_child = true;
    set_proc_self(child);
    memcpy(g_fork.save, lo, g_fork.n);
    return 0;
  }
  return pid_of(g_fork.child_proc);
}
int __wrap_execl(const char* path, const char* arg, ...)
{
  if (!active())
    abort();
  point(5);
  if (!g_fork.in_child)
    fail("exit", "simulator: exec outside a child");
  if (g_faults && sys.exec_fail && chance(sys.exec_fail, 1000, "exec-fail"))
  {
    cover("fault.exec_fail");
    errno = ENOENT;
    return -1;
  }
  const int child = g_fork.child_proc;
  g_procs[child].execed = true;
  cover("solver_processes_started");
  log("exec %s -> process %d", path, child);
  // the new program starts as a simulated thread; the caller's stack returns to the parent side of fork
  back_to_parent();
  spawn(proc_main, (void*)(intptr_t)child);
  setcontext(&g_fork_sw);
  abort();
}
static void child_exit(int code)
{
  const int pr = proc_of(self());
  if (g_fork.in_child && pr == g_fork.child_proc)
  {
    back_to_parent();
    proc_die(pr, code);
    setcontext(&g_fork_sw);
    abort();
  }
  throw ProcessEnd{ code };
}
void __wrap_exit(int code)
{
  if (!active())
    __real_exit(code);
  if (proc_of(self()) != 0)
    child_exit(code);
  fail("host-exit", "the code under test ends the whole process with exit(%d)", code);
}
void __wrap__exit(int code)
{
  if (!active())
    __real__exit(code);
  if (proc_of(self()) != 0)
    child_exit(code);
  fail("host-exit", "the code under test ends the whole process with _exit(%d)", code);
}
void __wrap__Exit(int code) { __wrap__exit(code); }
pid_t __wrap_waitpid(pid_t pid, int* st, int opt)
{
  if (!active())
    return __real_waitpid(pid, st, opt);
  point(20);
  const int pr = (int)pid - 1000;
  if (pr <= 0 || pr >= g_nprocs || g_procs[pr].reaped)
  {
    errno = ECHILD;
    return -1;
  }
  Proc& p = g_procs[pr];
  while (!p.dead)
  {
    if (opt & WNOHANG)
      return 0;
    block_on(&p);
  }
  p.reaped = true;
  if (st)
    *st = p.status < 0 ? -p.status : (p.status & 0xff) << 8;
  return pid;
}
int __wrap_kill(pid_t pid, int sig)
{
  if (!active())
    return __real_kill(pid, sig);
  point(5);
  const int pr = (int)pid - 1000;
  if (pr <= 0)
    fail("kill-own-group", "kill(%d, %d) would signal the host process or its whole process group", (int)pid, sig);
  if (pr >= g_nprocs || g_procs[pr].reaped)
  {
    errno = ESRCH;
    return -1;
  }
  if (sig != 0 && !g_procs[pr].dead)
  {
    g_procs[pr].killed_pending = true;
    for (auto& f : g_procs[pr].fd)
      if (f.pipe > 0)
        wake(&g_pipes[f.pipe - 1]);
  }
  return 0;
}
int __wrap_atexit(void (*fn)())
{
  if (!active())
    return __real_atexit(fn);
  if (g_natexit < 64)
    g_atexit[g_natexit++] = fn;
  return 0;
}
int __wrap_chdir(const char* d)
{
  if (!active())
    return __real_chdir(d);
  return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec* ts)
{
  if (!active())
    return __real_clock_gettime(c, ts);
  advance(g_tick);
  const int64_t t = (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_MONOTONIC_COARSE) ? (int64_t)g_steady : g_system;
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
  if (!active())
    return __real_gettimeofday(tv, tz);
  advance(g_tick);
  tv->tv_sec = g_system / 1000000000;
  tv->tv_usec = g_system % 1000000000 / 1000;
  return 0;
}
int __wrap_usleep(unsigned us)
{
  if (!active())
    return __real_usleep(us);
  sim::relax((uint64_t)us * 1000);
  return 0;
}
int __real_nanosleep(const struct timespec*, struct timespec*);
int __wrap_nanosleep(const struct timespec* t, struct timespec* rem)
{
  if (!active())
    return __real_nanosleep(t, rem);
  sim::relax((uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec);
  return 0;
}
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __wrap_clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec* rem)
{
  if (!active())
    return __real_clock_nanosleep(c, flags, t, rem);
  const uint64_t at = (uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec, now = (uint64_t)(c == CLOCK_MONOTONIC ? (int64_t)g_steady : g_system);
  sim::relax(!(flags & TIMER_ABSTIME) ? at : at > now ? at - now : 0);
  return 0;
}
int __real_sched_yield();
int __wrap_sched_yield()
{
  if (!active())
    return __real_sched_yield();
  sim::relax();
  return 0;
}

// ---- stdio ---------------------------------------------------------------------------------------------------------
// Files opened by the code under test go to memory; a "disk full" stream fails its writes. Closing twice, writing after
// close and closing a null stream are violations.
struct SimFile
{
  FILE* f;
  char path[256];
  char* buf;
  size_t len;
  bool open, full;
};
static SimFile g_files[256];
static int g_nfiles;
FILE* __wrap_fopen(const char* path, const char* mode)
{
  if (!active())
    return __real_fopen(path, mode);
  point(5);
  if (g_faults && files.open_fail && chance(files.open_fail, 1000, "fopen-fail"))
  {
    cover("fault.fopen_fail");
    errno = EACCES;
    return nullptr;
  }
  NoSim ns;
  SimFile& s = g_files[g_nfiles++ & 255];
  memset(&s, 0, sizeof s);
  snprintf(s.path, sizeof s.path, "%s", path);
  s.full = g_faults && files.write_fail && chance(files.write_fail, 1000, "disk-full");
  if (s.full)
  {
    cover("fault.disk_full");
    s.f = __real_fopen("/dev/full", "w");
  }
  else
    s.f = open_memstream(&s.buf, &s.len);
  s.open = true;
  cover("files_opened");
  return s.f;
}
int __wrap_fclose(FILE* f)
{
  if (!active())
    return __real_fclose(f);
  if (!f)
    fail("fclose-null", "fclose is called on a stream that could not be opened");
  NoSim ns;
  bool closed = false;
  for (int i = 0; i < g_nfiles && i < 256; ++i)
    if (g_files[i].f == f)
    {
      closed = true;
      if (!g_files[i].open)
        continue;  // the address of a stream closed earlier
      g_files[i].open = false;
      return g_files[i].full ? (__real_fclose(f), EOF) : __real_fclose(f);
    }
  if (closed)
    fail("double-fclose", "a stream is closed twice");
  return __real_fclose(f);
}
}
namespace sim
{
int files_open()
{
  int n = 0;
  for (int i = 0; i < g_nfiles && i < 256; ++i)
    n += g_files[i].open;
  return n;
}
int files_total() { return g_nfiles < 256 ? g_nfiles : 256; }
const char* file_path(int i) { return g_files[i].path; }
const char* file_data(int i, size_t* n)
{
  if (g_files[i].open && !g_files[i].full)
    fflush(g_files[i].f);
  *n = g_files[i].len;
  return g_files[i].buf;
}
bool file_full(int i) { return g_files[i].full; }
}  // namespace sim
