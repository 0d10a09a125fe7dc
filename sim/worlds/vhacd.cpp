// P13, P14: convex decomposition. The decomposition thread, the OpenMP threads and the thread that controls them run under
// the seeded scheduler. The result is compared with the one of the serial computation (one OpenMP thread, called directly).
#include <vhacd/VHACD.h>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <exception>
#include <string>
#include <vector>
#include "rt/sim.h"

using VHACD::IVHACD;
extern "C" void omp_set_num_threads(int);
namespace
{
struct Mesh
{
  std::vector<double> pts;
  std::vector<uint32_t> tri;
};
struct Job
{
  Mesh mesh;
  IVHACD::Parameters par;
  bool as_float = false;
};
typedef std::vector<std::vector<double>> Hulls;  // points, triangles, volume, centre
void add_box(Mesh& m, const double lo[3], const double hi[3])
{
  const uint32_t b = (uint32_t)(m.pts.size() / 3);
  for (int i = 0; i < 8; ++i)
    for (int k = 0; k < 3; ++k)
      m.pts.push_back(i >> k & 1 ? hi[k] : lo[k]);
  static const uint32_t q[6][4] = { { 0, 2, 3, 1 }, { 4, 5, 7, 6 }, { 0, 1, 5, 4 }, { 2, 6, 7, 3 }, { 0, 4, 6, 2 }, { 1, 3, 7, 5 } };
  for (auto& f : q)
    for (int i : { 0, 1, 2, 0, 2, 3 })
      m.tri.push_back(b + f[i]);
}
// walls of one box, the first two of them crossing: concave as a rule. Without the alignment to the principal axes the longest
// side has 64 voxels whatever the resolution; "rod" keeps the number of voxels small in that case.
Mesh draw_mesh(bool rod)
{
  Mesh m;
  const int n = sim::chance(1, 12, "convex") ? 1 : 2 + (int)sim::choose(3, "walls");
  const double size[3] = { 1.0, (rod ? 0.125 : 0.5) * (1 + 0.25 * (double)sim::choose(5, "height")), (rod ? 1.0 / 32 : 0.125) * (1 + (double)sim::choose(3, "depth")) };
  for (int i = 0; i < n; ++i)
  {
    const int along = i < 2 ? i : (int)sim::choose(4, "along");
    double lo[3] = { 0, 0, 0 }, hi[3] = { size[0], size[1], size[2] };
    for (int k = 0; k < 2; ++k)
      if (k != along && (along < 2 || k == along - 2))
      {
        const double at = 0.5 * (double)sim::choose(3, "at"), t = (k == 0 && rod ? 0.02 : 0.05) * (1 + (double)sim::choose(3, "wall"));
        lo[k] = size[k] * at * (1 - t);
        hi[k] = lo[k] + size[k] * t;
      }
    if (along >= 2)
    {
      hi[2] = size[2] * 0.5;
      hi[along - 2] = std::min(size[along - 2], lo[along - 2] + 0.5 * size[along - 2]);
    }
    add_box(m, lo, hi);
  }
  return m;
}
Job draw_job(unsigned max_res, bool small = false)
{
  Job j;
  IVHACD::Parameters& p = j.par;
  p.m_pca = small ? 1 : (unsigned)sim::choose(2, "pca");
  j.mesh = draw_mesh(!p.m_pca);
  p.m_resolution = (small ? 150 : p.m_pca ? 300 : 30) + (unsigned)sim::logchoose(max_res, "resolution");
  p.m_concavity = sim::chance(1, 4, "coarse") ? 0.1 : 0.001;
  p.m_planeDownsampling = 1 + (unsigned)sim::choose(4, "plane-sampling");
  p.m_convexhullDownsampling = 1 + (unsigned)sim::choose(4, "hull-sampling");
  p.m_mode = !small && sim::chance(1, 12, "tetrahedra");
  p.m_convexhullApproximation = !sim::chance(1, small ? 12 : 8, "exact-hulls");
  p.m_maxConvexHulls = 1 + (unsigned)sim::choose(4, "hulls");
  p.m_maxNumVerticesPerCH = 4 + (unsigned)sim::choose(40, "vertices");
  p.m_projectHullVertices = sim::chance(1, 2, "project");
  p.m_oclAcceleration = sim::chance(1, 2, "ocl");
  p.m_alpha = 0.05 * (double)sim::choose(3, "alpha");
  p.m_beta = 0.05 * (double)sim::choose(3, "beta");
  j.as_float = sim::chance(1, 4, "float");
  return j;
}
bool compute(IVHACD* v, const Job& j, const IVHACD::Parameters& p)
{
  const uint32_t n = (uint32_t)(j.mesh.pts.size() / 3), t = (uint32_t)(j.mesh.tri.size() / 3);
  if (!j.as_float)
    return v->Compute(j.mesh.pts.data(), n, j.mesh.tri.data(), t, p);
  std::vector<float> f(j.mesh.pts.begin(), j.mesh.pts.end());
  return v->Compute(f.data(), n, j.mesh.tri.data(), t, p);
}
std::vector<double> read_hull(const IVHACD* v, uint32_t i)
{
  IVHACD::ConvexHull h;
  memset(&h, 0, sizeof h);
  v->GetConvexHull(i, h);
  std::vector<double> d(h.m_points, h.m_points + 3 * (std::size_t)h.m_nPoints);
  d.insert(d.end(), h.m_triangles, h.m_triangles + 3 * (std::size_t)h.m_nTriangles);
  d.push_back(h.m_volume);
  d.insert(d.end(), h.m_center, h.m_center + 3);
  d.push_back(h.m_nPoints);
  d.push_back(h.m_nTriangles);
  return d;
}
Hulls read_all(const IVHACD* v)
{
  Hulls r;
  const uint32_t n = v->GetNConvexHulls();
  for (uint32_t i = 0; i < n; ++i)
    r.push_back(read_hull(v, i));
  return r;
}
bool equal(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
void same_hulls(const Hulls& got, const Hulls& want, const char* what)
{
  sim::Quiet q;
  if (got.size() != want.size())
    sim::fail("hulls", "%s: %zu convex hulls, the serial computation gives %zu", what, got.size(), want.size());
  for (std::size_t i = 0; i < got.size(); ++i)
    if (!equal(got[i], want[i]))
    {
      const std::size_t s = std::min(got[i].size(), want[i].size());
      std::size_t k = 0;
      while (k < s && memcmp(&got[i][k], &want[i][k], sizeof(double)) == 0)
        ++k;
      sim::fail("hulls", "%s: convex hull %zu (%zu values) differs from the one of the serial computation (%zu values) at value %zu: %.17g, not %.17g", what, i, got[i].size(), want[i].size(), k,
                k < got[i].size() ? got[i][k] : NAN, k < want[i].size() ? want[i][k] : NAN);
    }
}
struct Ref
{
  Hulls hulls;
  bool ok = false;
  bool too_long = false;
  bool centre_ok = false;
  double centre[3] = { 0, 0, 0 };
  uint64_t steps = 0;
};
void no_leaks()
{
  char w[300];
  const long n = sim::leaks(w, sizeof w);
  if (n)
    sim::fail("leak", "%ld blocks of memory are not released by Release(); one was allocated at %s", n, w);
}
// gives up on a decomposition that takes too long to be simulated
struct Budget : IVHACD::IUserCallback
{
  IVHACD* v = nullptr;
  uint64_t end = 0;
  bool over = false;
  void Update(const double, const double, const double, const char* const, const char* const) override
  {
    if (sim::steps() > end && !over)
    {
      over = true;
      v->Cancel();
    }
  }
};
// the serial computation; with nobody to switch to it is the same in every run
Ref serial(const Job& j, uint64_t most)
{
  Ref r;
  sim::set_omp_limit(1);
  IVHACD* v = VHACD::CreateVHACD();
  const uint64_t s = sim::steps();
  Budget b;
  b.v = v;
  b.end = s + most;
  IVHACD::Parameters par = j.par;
  par.m_callback = &b;
  r.ok = compute(v, j, par);
  r.too_long = b.over;
  r.steps = sim::steps() - s;
  r.hulls = read_all(v);
  r.centre_ok = v->ComputeCenterOfMass(r.centre);
  v->Release();
  sim::set_omp_limit(16);
  return r;
}
}  // namespace

// ---- P14 ----------------------------------------------------------------------------------------------------------------------
namespace
{
// messages of the progress callback
struct Progress : IVHACD::IUserCallback
{
  unsigned n = 0;
  void Update(const double overall, const double, const double, const char* const stage, const char* const operation) override
  {
    sim::Quiet q;
    ++n;
    if (!(overall >= 0 && overall <= 100) || !stage || !operation)
      sim::fail("progress", "the overall progress is reported as %g", overall);
  }
};
struct Logger : IVHACD::IUserLogger
{
  unsigned n = 0;
  void Log(const char* const msg) override
  {
    sim::Quiet q;
    ++n;
    sim::log("log: %s", msg);
  }
};
}  // namespace
SIM_WORLD(vhacd_parallel)
{
  sim::set_step_limit(4000000000ULL);
  const Job j = draw_job(1000);
  sim::set_uafcheck(true);
  const Ref ref = serial(j, 40000000);
  if (ref.too_long)
  {
    sim::cover("skipped");
    return;
  }
  const int procs = 1 + (int)sim::choose(4, "processors");
  sim::set_omp(1 + (int)sim::choose(8, "threads"), procs);
  sim::set_long_gaps(10, 20);
  sim::set_racecheck(true);
  sim::track_leaks(true);
  IVHACD* v = VHACD::CreateVHACD();
  if (sim::chance(1, 3, "set-threads"))
    omp_set_num_threads(1 + (int)sim::choose(12, "set"));
  Progress cb;
  Logger lg;
  IVHACD::Parameters p = j.par;
  p.m_callback = sim::chance(1, 2, "callback") ? &cb : nullptr;
  p.m_logger = sim::chance(1, 4, "logger") ? &lg : nullptr;
  const unsigned times = 1 + (unsigned)sim::choose(2, "times");
  for (unsigned t = 0; t < times; ++t)
  {
    const bool ok = compute(v, j, p);
    if (ok != ref.ok)
      sim::fail("hulls", "the computation reports %s", ok ? "success" : "failure");
    same_hulls(read_all(v), ref.hulls, "in parallel");
    double c[3] = { 0, 0, 0 };
    if (v->ComputeCenterOfMass(c) != ref.centre_ok || memcmp(c, ref.centre, sizeof c) != 0)
      sim::fail("hulls", "the centre of mass differs from the one of the serial computation");
    if (sim::chance(1, 2, "clean"))
      v->Clean();
  }
  v->Release();
  no_leaks();
  sim::cover("hulls", ref.hulls.size());
  sim::cover("steps_serial", ref.steps);
  if (ref.hulls.size() > 1 && sim::switches() > 0)
    sim::nontrivial();
}

// ---- P13 ----------------------------------------------------------------------------------------------------------------------
namespace
{
const int kMsgs = 24;
// one per call of Compute(); lives until the end of the run, but may be called only while it is the current one
struct Listener : IVHACD::IUserCallback, IVHACD::IUserLogger
{
  IVHACD* v = nullptr;
  bool current = false;
  int cancel_at = 0;      // Cancel() is called by the cancel_at-th message
  int poll_at = 0;        // IsReady() is called by the poll_at-th message
  int n = 0;
  bool cancelled = false;
  bool inside = false;
  void msg(const char* what)
  {
    {
      sim::Quiet q;
      ++n;
      if (sim::self() != 0)
        sim::fail("callback-thread", "%s was called by thread %d, not by the application's thread", what, sim::self());
      if (!current)
        sim::fail("stale-callback", "%s of an earlier computation was called", what);
    }
    if (inside)
      return;
    inside = true;
    if (n == poll_at)
      v->IsReady();
    if (n == cancel_at)
    {
      sim::cover("cancel_in_callback");
      v->Cancel();
      cancelled = true;
    }
    inside = false;
  }
  void Update(const double overall, const double, const double, const char* const stage, const char* const operation) override
  {
    {
      sim::Quiet q;
      if (!(overall >= 0 && overall <= 100) || !stage || !operation)
        sim::fail("progress", "the overall progress is reported as %g", overall);
    }
    msg("Update()");
  }
  void Log(const char* const) override { msg("Log()"); }
};
enum class St
{
  none,      // nothing to report
  running,
  done,
  stopped,   // cancelled: complete or nothing
};
struct Async
{
  IVHACD* v = nullptr;
  St st = St::none;
  int job = 0;
  uint64_t started = 0;      // steps when Compute() returned
  uint64_t cancelled = 0;    // steps when it was cancelled
  std::size_t cur = 0;
};
struct World13
{
  std::vector<Job> jobs;
  std::vector<Ref> refs;
  std::vector<Listener*> ls;
  Async a[2];
  int n = 1;

  void cancelled(Async& x, uint64_t when)
  {
    if (x.st == St::running)
    {
      x.st = St::stopped;
      x.cancelled = when;
    }
  }
  // what the application sees when nothing runs any more
  void check(Async& x, const char* what)
  {
    const Hulls h = read_all(x.v);
    double c[3] = { 7, 7, 7 };
    const bool com = x.v->ComputeCenterOfMass(c);
    sim::Quiet q;
    const Ref& r = refs[(std::size_t)x.job];
    bool none = x.st == St::none;
    if (x.st == St::stopped)
    {
      none = h.empty();
      if (!none && x.cancelled - x.started < r.steps / 2)
        sim::fail("cancel-lost", "%s: a decomposition cancelled after %llu steps reports a result; it takes %llu", what, (unsigned long long)(x.cancelled - x.started), (unsigned long long)r.steps);
      sim::cover(none ? "cancelled" : "cancelled_too_late");
    }
    if (none)
    {
      if (!h.empty() || com)
        sim::fail("hulls", "%s: there are %zu convex hulls%s without a finished decomposition", what, h.size(), com ? " and a centre of mass" : "");
      return;
    }
    same_hulls(h, r.hulls, what);
    if (com != r.centre_ok || memcmp(c, r.centre, sizeof c) != 0)
      sim::fail("hulls", "%s: the centre of mass differs from the one of the serial computation", what);
    sim::cover("results_checked");
  }
  void drop(Async& x)
  {
    if (x.cur < ls.size())
      ls[x.cur]->current = false;
    x.cur = (std::size_t)-1;
  }
  void start(Async& x)
  {
    const int j = (int)sim::choose(jobs.size(), "job");
    Job copy = jobs[(std::size_t)j];
    Listener* l;
    {
      sim::Quiet q;
      l = new Listener;
      ls.push_back(l);
    }
    l->v = x.v;
    if (sim::chance(1, 3, "cancel-in-callback"))
      l->cancel_at = 1 + (int)sim::choose(kMsgs, "at-message");
    if (sim::chance(1, 4, "poll-in-callback"))
      l->poll_at = 1 + (int)sim::choose(kMsgs, "at-message");
    copy.par.m_callback = sim::chance(2, 3, "callback") ? l : nullptr;
    copy.par.m_logger = sim::chance(1, 2, "logger") ? l : nullptr;
    // an earlier computation is cancelled by this; its listeners end
    const uint64_t before = sim::steps();
    l->current = true;
    cancelled(x, before);
    bool ok = false;
    try
    {
      ok = compute(x.v, copy, copy.par);
    }
    catch (const std::exception& e)
    {
      sim::log("Compute: %s", e.what());
    }
    drop(x);
    // the input belongs to the caller again
    std::fill(copy.mesh.pts.begin(), copy.mesh.pts.end(), 1e30);
    std::fill(copy.mesh.tri.begin(), copy.mesh.tri.end(), 0xffffffffu);
    sim::Quiet q;
    x.cur = ls.size() - 1;
    x.job = j;
    if (ok)
    {
      x.st = St::running;
      x.started = sim::steps();
      sim::cover("computations");
    }
    else
    {
      if (!thread_faults)
        sim::fail("not-started", "Compute() fails");
      x.st = St::none;
      sim::cover("not_started");
    }
  }
  bool ready(Async& x, const char* what)
  {
    Listener* l = x.cur < ls.size() ? ls[x.cur] : nullptr;
    const bool before = l && l->cancelled;
    const uint64_t s = sim::steps();
    const bool r = x.v->IsReady();
    if (l && l->cancelled && !before)
      cancelled(x, s);
    if (!r && x.st != St::running)
      sim::fail("not-ready", "%s: IsReady() is false, but nothing is running", what);
    if (r && x.st == St::running)
      x.st = St::done;
    return r;
  }
  bool thread_faults = false;
  void op(Async& x)
  {
    switch (sim::choose(8, "op"))
    {
      case 0:
      case 1:
        start(x);
        break;
      case 2:
      {
        const uint64_t most = refs[(std::size_t)x.job].steps;
        const uint64_t n = sim::chance(1, 3, "short") ? sim::logchoose(most, "steps") : sim::choose(most + most / 4 + 1, "steps");
        sim::sleep_steps(n);
        break;
      }
      case 3:
        if (ready(x, "poll"))
          check(x, "after IsReady()");
        break;
      case 4:
        if (x.st == St::running)
        {
          for (int i = 0; !ready(x, "wait"); ++i)
          {
            if (i > 200)
              sim::sleep_steps(refs[(std::size_t)x.job].steps);
            else
              sim::sleep_steps(1 + refs[(std::size_t)x.job].steps / 50);
            if (i > 400)
              sim::fail("never-ready", "the decomposition does not finish");
          }
          check(x, "when it is finished");
        }
        break;
      case 5:
      {
        const uint64_t s = sim::steps();
        x.v->Cancel();
        cancelled(x, s);
        if (!ready(x, "after Cancel()"))
          sim::fail("not-ready", "IsReady() is false after Cancel()");
        check(x, "after Cancel()");
        break;
      }
      case 6:
        x.v->Clean();
        x.st = St::none;
        check(x, "after Clean()");
        drop(x);
        break;
      case 7:
      {
        // asking at any time
        const uint32_t k = x.v->GetNConvexHulls();
        Listener* l = x.cur < ls.size() ? ls[x.cur] : nullptr;
        if (l && l->cancelled && x.st == St::running)
          cancelled(x, sim::steps());
        else if (k && x.st == St::running)
          same_hulls(read_all(x.v), refs[(std::size_t)x.job].hulls, "while it is running");
        break;
      }
    }
  }
};
}  // namespace
SIM_WORLD(vhacd_async)
{
  sim::set_step_limit(4000000000ULL);
  sim::set_uafcheck(true);
  World13 w;
  w.jobs.push_back(draw_job(200, true));
  if (sim::chance(1, 2, "second-job"))
    w.jobs.push_back(draw_job(60, true));
  for (const Job& j : w.jobs)
  {
    w.refs.push_back(serial(j, 10000000));
    if (w.refs.back().too_long)
    {
      sim::cover("skipped");
      return;
    }
  }
  if (sim::chance(1, 8, "empty-job"))
  {
    // nothing to decompose: no convex hulls
    w.jobs.push_back(Job());
    w.refs.push_back(Ref());
    w.refs.back().steps = 1000;
  }
  sim::set_omp(1 + (int)sim::choose(3, "threads"), 1 + (int)sim::choose(2, "processors"));
  sim::set_long_gaps(8, 18);
  sim::allow_flag_races(true);
  sim::set_racecheck(true);
  // a machine on which the application's thread is not starved; without this no bound on what follows Cancel() holds
  uint64_t least = w.refs[0].steps;
  if (w.refs.size() > 1 && !w.jobs[1].mesh.pts.empty())
    least = std::min(least, w.refs[1].steps);
  sim::set_fair(1 + least / 16);
  if (sim::chance(1, 6, "thread-failures"))
  {
    w.thread_faults = true;
    sim::set_thread_fail(200);
  }
  w.n = sim::chance(1, 4, "two") ? 2 : 1;
  sim::track_leaks(true);
  for (int i = 0; i < w.n; ++i)
    w.a[i].v = VHACD::CreateVHACD_ASYNC(), w.a[i].cur = (std::size_t)-1;
  const int ops = 2 + (int)sim::choose(7, "ops");
  for (int i = 0; i < ops; ++i)
    w.op(w.a[w.n > 1 ? sim::choose(2, "object") : 0]);
  for (int i = 0; i < w.n; ++i)
  {
    w.a[i].v->Release();
    w.drop(w.a[i]);
  }
  no_leaks();
  for (Listener* l : w.ls)
    delete l;
  if (w.refs[0].hulls.size() > 0 && sim::switches() > 0)
    sim::nontrivial();
}
