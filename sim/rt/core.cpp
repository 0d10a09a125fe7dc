#include "rt.h"
#include <cxxabi.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <math.h>

extern "C" pid_t __real_fork();
extern "C" void __real__exit(int) __attribute__((noreturn));
extern "C" pid_t __real_waitpid(pid_t, int*, int);
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" int __real_kill(pid_t, int);
extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
extern "C" int __real_close(int);
extern "C" ssize_t __real_write(int, const void*, size_t);
extern "C" int __real_fclose(FILE*);
extern "C" int __real_dup2(int, int);

namespace sim
{
SysConfig sys;
FileConfig files;
namespace rt
{
Result* res;
bool g_trace;
bool g_faults = true;
static uint64_t g_hash;
static bool g_replay;
static const TapeItem* g_in;
static uint32_t g_in_len, g_in_pos;
static uint64_t g_rng[4];

static uint64_t splitmix(uint64_t& x)
{
  uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rng()
{
  const uint64_t r = rotl(g_rng[1] * 5, 7) * 9, t = g_rng[1] << 17;
  g_rng[2] ^= g_rng[0];
  g_rng[3] ^= g_rng[1];
  g_rng[1] ^= g_rng[2];
  g_rng[0] ^= g_rng[3];
  g_rng[2] ^= t;
  g_rng[3] = rotl(g_rng[3], 45);
  return r;
}
static uint64_t draw(uint64_t n, uint64_t gen, const char* label)
{
  uint64_t v = gen;
  if (g_replay)
  {
    v = g_in_pos < g_in_len ? g_in[g_in_pos].v : 0;
    ++g_in_pos;
    if (n && v >= n)
      v %= n;
  }
  if (res->tape_len < kMaxTape)
    res->tape[res->tape_len++] = TapeItem{ v, n, label };
  g_hash = mix(g_hash, v);
  return v;
}
}  // namespace rt

using namespace rt;

uint64_t choose(uint64_t n, const char* label)
{
  if (n <= 1)
    return 0;
  return draw(n, g_replay ? 0 : rng() % n, label);
}
bool chance(unsigned num, unsigned den, const char* label)
{
  if (num == 0)
    return false;
  // one tape entry per decision; 1 = it happens
  return draw(2, g_replay ? 0 : (rng() % den < num ? 1 : 0), label) == 1;
}
uint64_t logchoose(uint64_t max, const char* label)
{
  if (max == 0)
    return 0;
  uint64_t g = 0;
  if (!g_replay)
  {
    const int bits = 64 - __builtin_clzll(max);
    const int b = (int)(rng() % (uint64_t)(bits + 1));
    g = b == 0 ? 0 : ((1ULL << (b - 1)) + rng() % (1ULL << (b - 1)));
    if (g > max)
      g = max;
  }
  return draw(max + 1, g, label);
}
double real(double lo, double hi, const char* label)
{
  return lo + (hi - lo) * (double)choose(1u << 20, label) / (double)((1u << 20) - 1);
}
double nice(double lo, double hi, const char* label)
{
  // 0 -> centre, then alternating outwards
  const uint64_t k = choose(17, label);
  const int off = (k & 1) ? (int)((k + 1) / 2) : -(int)(k / 2);
  return (lo + hi) / 2 + off * (hi - lo) / 16;
}

static void finish(int code)
{
  res->hash = g_hash;
  res->sched_hash = sched_hash();
  res->steps = steps();
  res->switches = switches();
  res->sim_ns = steady_ns() - 1000000000ULL;
  res->done = code;
  __real__exit(0);
}

void fail(const char* cls, const char* fmt, ...)
{
  NoSim ns;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(res->msg, sizeof res->msg, fmt, ap);
  va_end(ap);
  snprintf(res->cls, sizeof res->cls, "%s", cls);
  if (g_trace)
    fprintf(stderr, "[%d] FAIL %s: %s\n", self(), cls, res->msg);
  finish(2);
  __builtin_unreachable();
}
void known(const char* id, const char* fmt, ...)
{
  NoSim ns;
  for (int i = 0; i < res->known_n; ++i)
    if (!strcmp(res->known_id[i], id))
      return;
  if (res->known_n >= 8)
    return;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(res->known_msg[res->known_n], 256, fmt, ap);
  va_end(ap);
  snprintf(res->known_id[res->known_n++], 32, "%s", id);
}
void cover(const char* key, uint64_t n)
{
  for (int i = 0; i < kMaxCounters; ++i)
  {
    Counter& c = res->counters[i];
    if (c.key[0] == 0)
    {
      strncpy(c.key, key, sizeof c.key - 1);
      c.n = n;
      return;
    }
    if (!strncmp(c.key, key, sizeof c.key - 1))
    {
      c.n += n;
      return;
    }
  }
}
void event(uint64_t h) { g_hash = mix(g_hash, h); }
void event(const char* s) { g_hash = hash_bytes(s, strlen(s), g_hash); }
void log(const char* fmt, ...)
{
  if (!g_trace)
    return;
  NoSim ns;
  va_list ap;
  va_start(ap, fmt);
  fprintf(stderr, "[t%d s%llu] ", self(), (unsigned long long)steps());
  vfprintf(stderr, fmt, ap);
  fputc('\n', stderr);
  va_end(ap);
}
bool tracing() { return g_trace; }
void nontrivial() { res->nontrivial = 1; }
void quiesce() { g_faults = false; }
bool faults_on() { return g_faults; }
uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i)
    h = (h ^ b[i]) * 1099511628211ULL;
  return h;
}

static World* g_worlds;
World::World(const char* n, void (*r)()) : name(n), run(r), next(g_worlds) { g_worlds = this; }

// ---- one run in a forked child -------------------------------------------------------------------------------------
struct Outcome
{
  int kind;  // 0 ok, 1 violation, 2 timeout
  char cls[64];
  char msg[2048];
};
static unsigned g_timeout = 100;

static void child_main(World* w, uint64_t seed, bool replay, const TapeItem* tape, uint32_t len)
{
  uint64_t s = seed * 0x9e3779b97f4a7c15ULL + 0x1234567;
  for (auto& r : g_rng)
    r = splitmix(s);
  g_hash = 0;
  g_replay = replay;
  g_in = tape;
  g_in_len = len;
  g_in_pos = 0;
  sched_init();
  sys_init();
  try
  {
    w->run();
  }
  catch (const std::exception& e)
  {
    fail("uncaught-exception", "uncaught exception: %s", e.what());
  }
  finish(1);
}

static int g_null = -1;
static Outcome run_one(World* w, uint64_t seed, bool replay, const TapeItem* tape, uint32_t len)
{
  Outcome o;
  memset(&o, 0, sizeof o);
  const uint32_t used = res->tape_len;
  memset((void*)res, 0, offsetof(Result, tape));
  (void)used;
  // crash output of the code under test (assert messages) is kept for the report
  static int errfd = -1;
  if (errfd < 0)
    errfd = memfd_create("err", 0);
  if (ftruncate(errfd, 0)) {}
  lseek(errfd, 0, SEEK_SET);
  const pid_t pid = __real_fork();
  if (pid == 0)
  {
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 6ULL << 30;
    setrlimit(RLIMIT_DATA, &rl);
    if (!g_trace)
    {
      __real_dup2(g_null, 1);
      __real_dup2(errfd, 2);
    }
    alarm(g_timeout);
    child_main(w, seed, replay, tape, len);
  }
  int st = 0;
  while (__real_waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && res->done == 1)
    return o;
  if (res->done == 2)
  {
    o.kind = 1;
    memcpy(o.cls, res->cls, sizeof o.cls);
    memcpy(o.msg, res->msg, sizeof o.msg);
    return o;
  }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM)
  {
    o.kind = 1;
    snprintf(o.cls, sizeof o.cls, "no-progress");
    snprintf(o.msg, sizeof o.msg, "the run made no progress within %u s of real time", g_timeout);
    return o;
  }
  o.kind = 1;
  char buf[1500];
  lseek(errfd, 0, SEEK_SET);
  const off_t end = lseek(errfd, 0, SEEK_END);
  lseek(errfd, end > 1400 ? end - 1400 : 0, SEEK_SET);
  ssize_t k = read(errfd, buf, sizeof buf - 1);
  buf[k > 0 ? k : 0] = 0;
  for (char* c = buf; *c; ++c)
    if (*c == '\n')
      *c = ' ';
  if (WIFSIGNALED(st))
  {
    snprintf(o.cls, sizeof o.cls, "crash-signal-%d", WTERMSIG(st));
    snprintf(o.msg, sizeof o.msg, "the code under test was killed by signal %d (%s) %s", WTERMSIG(st), strsignal(WTERMSIG(st)), buf);
  }
  else
  {
    snprintf(o.cls, sizeof o.cls, "exit");
    snprintf(o.msg, sizeof o.msg, "the code under test ended the process with status %d %s", WEXITSTATUS(st), buf);
  }
  return o;
}

// ---- reports -------------------------------------------------------------------------------------------------------
static void json_str(FILE* f, const char* s)
{
  fputc('"', f);
  for (; *s; ++s)
  {
    const unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}
static void write_tape(const char* path, const char* world, uint64_t seed, const Outcome& o, const TapeItem* t, uint32_t n)
{
  FILE* f = __real_fopen(path, "w");
  if (!f)
  {
    perror(path);
    return;
  }
  uint32_t last = n;
  while (last > 0 && t[last - 1].v == 0)
    --last;
  fprintf(f, "# replay of one simulated run: every line is one decision of the simulator (value, number of alternatives, what it decides)\n");
  fprintf(f, "world %s\nseed %llu\nclass %s\nmessage ", world, (unsigned long long)seed, o.cls);
  json_str(f, o.msg);
  fprintf(f, "\nhash %016llx\nchoices %u\n", (unsigned long long)res->hash, last);
  for (uint32_t i = 0; i < last; ++i)
    fprintf(f, "%llu %llu %s\n", (unsigned long long)t[i].v, (unsigned long long)t[i].n, t[i].label ? t[i].label : "?");
  __real_fclose(f);
}
static double now()
{
  struct timespec ts;
  __real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}
struct HashSet
{
  uint64_t* t = nullptr;
  size_t cap = 0, n = 0;
  bool add(uint64_t h)
  {
    if (h == 0)
      h = 1;
    if (n * 2 >= cap)
    {
      const size_t nc = cap ? cap * 2 : 1 << 12;
      uint64_t* nt = (uint64_t*)calloc(nc, 8);
      for (size_t i = 0; i < cap; ++i)
        if (t[i])
        {
          size_t j = t[i] % nc;
          while (nt[j])
            j = (j + 1) % nc;
          nt[j] = t[i];
        }
      free(t);
      t = nt;
      cap = nc;
    }
    size_t j = h % cap;
    while (t[j])
    {
      if (t[j] == h)
        return false;
      j = (j + 1) % cap;
    }
    t[j] = h;
    ++n;
    return true;
  }
};

static TapeItem* load_tape(const char* path, uint32_t* n, char* world, uint64_t* seed, char* cls)
{
  FILE* f = __real_fopen(path, "r");
  if (!f)
  {
    perror(path);
    exit(3);
  }
  TapeItem* t = (TapeItem*)calloc(kMaxTape, sizeof(TapeItem));
  *n = 0;
  char line[4096];
  bool in = false;
  while (fgets(line, sizeof line, f))
  {
    if (line[0] == '#')
      continue;
    unsigned long long a, b;
    if (!in)
    {
      char w[64];
      if (sscanf(line, "world %63s", w) == 1)
        strcpy(world, w);
      else if (sscanf(line, "seed %llu", &a) == 1)
        *seed = a;
      else if (sscanf(line, "class %63s", w) == 1)
        strcpy(cls, w);
      else if (sscanf(line, "choices %llu", &a) == 1)
        in = true;
      continue;
    }
    if (sscanf(line, "%llu %llu", &a, &b) >= 1 && *n < kMaxTape)
      t[(*n)++] = TapeItem{ a, b, "" };
  }
  __real_fclose(f);
  return t;
}

static World* find(const char* name)
{
  for (World* w = g_worlds; w; w = w->next)
    if (!strcmp(w->name, name))
      return w;
  fprintf(stderr, "no world %s\n", name);
  exit(3);
}

// minimise: keep only what the violation (same class) needs. Deletes blocks of choices, zeroes them, halves values.
static uint32_t shrink(World* w, uint64_t seed, TapeItem* t, uint32_t n, const char* cls, double budget, unsigned* tries)
{
  const double t0 = now();
  TapeItem* cand = (TapeItem*)malloc(sizeof(TapeItem) * kMaxTape);
  auto ok = [&](uint32_t cn) {
    if (now() - t0 > budget)
      return false;
    ++*tries;
    const Outcome o = run_one(w, seed, true, cand, cn);
    return o.kind == 1 && !strcmp(o.cls, cls);
  };
  auto adopt = [&](uint32_t cn) {
    memcpy(t, cand, sizeof(TapeItem) * cn);
    n = cn;
  };
  while (n > 0 && t[n - 1].v == 0)
    --n;
  bool progress = true;
  while (progress && now() - t0 < budget)
  {
    progress = false;
    // truncate
    for (uint32_t cut = n / 2; cut >= 1; cut /= 2)
      while (n > cut)
      {
        memcpy(cand, t, sizeof(TapeItem) * (n - cut));
        if (!ok(n - cut))
          break;
        adopt(n - cut);
        progress = true;
      }
    // zero blocks, delete blocks
    for (uint32_t blk = n / 2 > 64 ? 64 : (n / 2 ? n / 2 : 1); blk >= 1; blk /= 2)
    {
      for (int pos = (int)n - (int)blk; pos >= 0; pos -= (int)blk)
      {
        if ((uint32_t)pos + blk > n)
          continue;
        bool nz = false;
        for (uint32_t i = 0; i < blk; ++i)
          nz |= t[(uint32_t)pos + i].v != 0;
        memcpy(cand, t, sizeof(TapeItem) * (uint32_t)pos);
        memcpy(cand + pos, t + pos + blk, sizeof(TapeItem) * (n - (uint32_t)pos - blk));
        if (ok(n - blk))
        {
          adopt(n - blk);
          progress = true;
          continue;
        }
        if (nz)
        {
          memcpy(cand, t, sizeof(TapeItem) * n);
          for (uint32_t i = 0; i < blk; ++i)
            cand[(uint32_t)pos + i].v = 0;
          if (ok(n))
          {
            adopt(n);
            progress = true;
          }
        }
        if (now() - t0 > budget)
          break;
      }
      if (now() - t0 > budget)
        break;
    }
    for (uint32_t i = 0; i < n && now() - t0 < budget; ++i)
      while (t[i].v > 1)
      {
        memcpy(cand, t, sizeof(TapeItem) * n);
        cand[i].v = t[i].v / 2;
        if (!ok(n))
          break;
        adopt(n);
        progress = true;
      }
    while (n > 0 && t[n - 1].v == 0)
      --n;
  }
  free(cand);
  return n;
}
}  // namespace sim

int main(int argc, char** argv)
{
  using namespace sim;
  if (!getenv("SIM_NOASLR"))
  {
    setenv("SIM_NOASLR", "1", 1);
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  const char *world = nullptr, *replay = nullptr, *out = nullptr, *do_shrink = nullptr, *hashes = nullptr, *vio = "violation";
  uint64_t a = 1, b = 2, stride = 1;
  double tmax = 1e9;
  double budget = 60;
  for (int i = 1; i < argc; ++i)
  {
    auto is = [&](const char* s) { return !strcmp(argv[i], s); };
    if (is("--world"))
      world = argv[++i];
    else if (is("--from"))
      a = strtoull(argv[++i], 0, 10);
    else if (is("--to"))
      b = strtoull(argv[++i], 0, 10);
    else if (is("--stride"))
      stride = strtoull(argv[++i], 0, 10);
    else if (is("--time"))
      tmax = atof(argv[++i]);
    else if (is("--timeout"))
      g_timeout = (unsigned)atoi(argv[++i]);
    else if (is("--budget"))
      budget = atof(argv[++i]);
    else if (is("--replay"))
      replay = argv[++i];
    else if (is("--shrink"))
      do_shrink = argv[++i];
    else if (is("--out"))
      out = argv[++i];
    else if (is("--hashes"))
      hashes = argv[++i];
    else if (is("--violation"))
      vio = argv[++i];
    else if (is("--trace"))
      g_trace = true;
    else if (is("--list"))
    {
      for (World* w = g_worlds; w; w = w->next)
        puts(w->name);
      return 0;
    }
  }
  g_null = open("/dev/null", O_RDWR);
  res = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

  if (replay || do_shrink)
  {
    char wname[64] = "", cls[64] = "";
    uint64_t seed = 0;
    uint32_t n = 0;
    TapeItem* t = load_tape(replay ? replay : do_shrink, &n, wname, &seed, cls);
    World* w = find(wname);
    if (do_shrink)
    {
      unsigned tries = 0;
      n = shrink(w, seed, t, n, cls, budget, &tries);
      const Outcome o = run_one(w, seed, true, t, n);
      memcpy((void*)t, (void*)res->tape, sizeof(TapeItem) * (res->tape_len < n ? res->tape_len : n));  // labels
      write_tape(out, wname, seed, o, t, res->tape_len < n ? res->tape_len : n);
      printf("{\"kind\": %d, \"class\": ", o.kind);
      json_str(stdout, o.cls);
      printf(", \"choices\": %u, \"tries\": %u}\n", n, tries);
      return 0;
    }
    const Outcome o = run_one(w, seed, true, t, n);
    printf("{\"kind\": %d, \"class\": ", o.kind);
    json_str(stdout, o.cls);
    printf(", \"expected_class\": ");
    json_str(stdout, cls);
    printf(", \"message\": ");
    json_str(stdout, o.msg);
    printf(", \"hash\": \"%016llx\", \"choices\": %u, \"steps\": %llu, \"switches\": %llu, \"seed\": %llu, \"nontrivial\": %d}\n",
           (unsigned long long)res->hash, res->tape_len, (unsigned long long)res->steps,
           (unsigned long long)res->switches, (unsigned long long)seed, res->nontrivial);
    return o.kind == 0 ? 0 : 1;
  }

  World* w = find(world);
  const double t0 = now();
  uint64_t runs = 0, nontriv = 0, steps_sum = 0, sw_sum = 0, sim_ns = 0, rechecked = 0, nondet = 0, choices = 0, withsw = 0;
  HashSet traces, scheds;
  static Counter tot[kMaxCounters];
  static char known_id[32][32];
  static char known_msg[32][256];
  int known_n = 0;
  static char samples[3][3000];
  int nsamples = 0;
  Outcome bad;
  memset(&bad, 0, sizeof bad);
  uint64_t bad_seed = 0, last_seed = 0;
  for (uint64_t s = a; s < b && now() - t0 < tmax; s += stride)
  {
    Outcome o = run_one(w, s, false, nullptr, 0);
    ++runs;
    last_seed = s;
    if (o.kind == 1)
    {
      bad = o;
      bad_seed = s;
      write_tape(vio, world, s, o, res->tape, res->tape_len < kMaxTape ? res->tape_len : kMaxTape);
      break;
    }
    const uint64_t h = res->hash, sh = res->sched_hash;
    if (res->nontrivial && nsamples < 3)
    {
      char* b = samples[nsamples++];
      size_t o2 = (size_t)snprintf(b, sizeof samples[0], "seed %llu, trace %016llx, %llu steps, %llu context switches, %u decisions:", (unsigned long long)s,
                                   (unsigned long long)h, (unsigned long long)res->steps, (unsigned long long)res->switches, res->tape_len);
      for (uint32_t i = 0; i < res->tape_len && i < 40 && o2 < sizeof samples[0] - 80; ++i)
        o2 += (size_t)snprintf(b + o2, sizeof samples[0] - o2, " %s=%llu/%llu", res->tape[i].label, (unsigned long long)res->tape[i].v, (unsigned long long)res->tape[i].n);
    }
    if (res->nontrivial)
    {
      ++nontriv;
      traces.add(h);
    }
    scheds.add(sh);
    if (res->switches)
      ++withsw;
    steps_sum += res->steps;
    sw_sum += res->switches;
    sim_ns += res->sim_ns;
    choices += res->tape_len;
    for (int i = 0; i < kMaxCounters && res->counters[i].key[0]; ++i)
      for (int j = 0; j < kMaxCounters; ++j)
        if (!tot[j].key[0] || !strcmp(tot[j].key, res->counters[i].key))
        {
          memcpy(tot[j].key, res->counters[i].key, sizeof tot[j].key);
          tot[j].n += res->counters[i].n;
          break;
        }
    for (int i = 0; i < res->known_n; ++i)
    {
      int j = 0;
      while (j < known_n && strcmp(known_id[j], res->known_id[i]))
        ++j;
      if (j == known_n && known_n < 32)
      {
        strcpy(known_id[known_n], res->known_id[i]);
        strcpy(known_msg[known_n++], res->known_msg[i]);
      }
    }
    // one run in 32 is executed twice: the same seed must give the same trace
    if (s % 32 == 5)
    {
      ++rechecked;
      const Outcome o2 = run_one(w, s, false, nullptr, 0);
      if (o2.kind != 0 || res->hash != h)
      {
        ++nondet;
        fprintf(stderr, "not reproducible: world %s seed %llu: %s %s\n", world, (unsigned long long)s, o2.cls, o2.msg);
      }
    }
  }
  FILE* f = out ? __real_fopen(out, "w") : stdout;
  fprintf(f, "{\"world\": \"%s\", \"runs\": %llu, \"nontrivial\": %llu, \"distinct_traces\": %zu, \"distinct_schedules\": %zu, "
             "\"steps\": %llu, \"switches\": %llu, \"runs_with_switches\": %llu, \"sim_seconds\": %.6f, \"choices\": %llu, "
             "\"rechecked\": %llu, \"nondeterministic\": %llu, \"wall_s\": %.3f, \"counters\": {",
          world, (unsigned long long)runs, (unsigned long long)nontriv, traces.n, scheds.n, (unsigned long long)steps_sum,
          (unsigned long long)sw_sum, (unsigned long long)withsw, 1e-9 * (double)sim_ns, (unsigned long long)choices,
          (unsigned long long)rechecked, (unsigned long long)nondet, now() - t0);
  for (int j = 0; j < kMaxCounters && tot[j].key[0]; ++j)
  {
    fprintf(f, "%s", j ? ", " : "");
    json_str(f, tot[j].key);
    fprintf(f, ": %llu", (unsigned long long)tot[j].n);
  }
  fprintf(f, "}, \"known\": {");
  for (int j = 0; j < known_n; ++j)
  {
    fprintf(f, "%s", j ? ", " : "");
    json_str(f, known_id[j]);
    fprintf(f, ": ");
    json_str(f, known_msg[j]);
  }
  fprintf(f, "}, \"samples\": [");
  for (int j = 0; j < nsamples; ++j)
  {
    fprintf(f, "%s", j ? ", " : "");
    json_str(f, samples[j]);
  }
  fprintf(f, "], \"last_seed\": %llu, \"violation\": ", (unsigned long long)last_seed);
  if (bad.kind)
  {
    fprintf(f, "{\"seed\": %llu, \"class\": ", (unsigned long long)bad_seed);
    json_str(f, bad.cls);
    fprintf(f, ", \"message\": ");
    json_str(f, bad.msg);
    fprintf(f, ", \"tape\": ");
    json_str(f, vio);
    fprintf(f, "}");
  }
  else
    fprintf(f, "null");
  fprintf(f, "}\n");
  if (out)
    __real_fclose(f);
  if (hashes)
  {
    // for merging the distinct counts of several workers: traces, 0, schedules
    FILE* hf = __real_fopen(hashes, "wb");
    const uint64_t zero = 0;
    for (size_t i = 0; i < traces.cap; ++i)
      if (traces.t[i])
        fwrite(&traces.t[i], 8, 1, hf);
    fwrite(&zero, 8, 1, hf);
    for (size_t i = 0; i < scheds.cap; ++i)
      if (scheds.t[i])
        fwrite(&scheds.t[i], 8, 1, hf);
    __real_fclose(hf);
  }
  return 0;
}
