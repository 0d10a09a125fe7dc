#include "qp/canon.h"
#include "qp/qp.h"
#include <algorithm>
#include <cmath>
#include <rt/sim.h>

namespace qpstub
{
Solver solver = solve_by_signature;
Canon last;
const char* last_solver = "none";
unsigned fault_rate = 0, solves = 0, api_faults = 0;
std::vector<double> warm;
uint64_t sig_salt = 0;

static double inf1(double v)
{
  if (v >= 1e20)
    return INFINITY;
  if (v <= -1e20)
    return -INFINITY;
  return v == 0 ? 0.0 : v;  // no negative zero
}
void Canon::normalise()
{
  for (auto& v : lb)
    v = inf1(v);
  for (auto& v : ub)
    v = inf1(v);
  for (auto& v : lin)
    v = v == 0 ? 0.0 : v;
  for (auto it = quad.begin(); it != quad.end();)
    it = it->second == 0 ? quad.erase(it) : std::next(it);
  for (auto& r : rows)
  {
    for (auto it = r.a.begin(); it != r.a.end();)
      it = it->second == 0 ? r.a.erase(it) : std::next(it);
    r.lo = inf1(r.lo);
    r.hi = inf1(r.hi);
  }
}
bool fault(const char* what)
{
  if (!fault_rate || !sim::faults_on() || !sim::chance(fault_rate, 1000, what))
    return false;
  sim::cover((std::string("fault.") + what).c_str());
  ++api_faults;
  return true;
}
static uint64_t bits(double d)
{
  uint64_t u;
  __builtin_memcpy(&u, &d, 8);
  return u;
}
uint64_t signature(const Canon& c)
{
  sim::Quiet q;
  uint64_t h = sim::mix(7, (uint64_t)c.n);
  for (auto v : c.lb)
    h = sim::mix(h, bits(v));
  for (auto v : c.ub)
    h = sim::mix(h, bits(v));
  for (auto v : c.lin)
    h = sim::mix(h, bits(v));
  for (auto& e : c.quad)
    h = sim::mix(sim::mix(sim::mix(h, (uint64_t)e.first.first), (uint64_t)e.first.second), bits(e.second));
  uint64_t sum = 0;  // the order of the rows does not matter
  for (auto& r : c.rows)
  {
    uint64_t g = sim::mix(bits(r.lo), bits(r.hi));
    for (auto& e : r.a)
      g = sim::mix(sim::mix(g, (uint64_t)e.first), bits(e.second));
    sum += sim::mix(g, 99);
  }
  return sim::mix(sim::mix(h, sum), c.rows.size());
}
std::string show(const Canon& c)
{
  sim::Quiet q;
  char b[128];
  std::string s = "bounds";
  for (int i = 0; i < c.n; ++i)
  {
    snprintf(b, sizeof b, " x%d[%g,%g]", i, c.lb[(std::size_t)i], c.ub[(std::size_t)i]);
    s += b;
  }
  s += "; min";
  for (int i = 0; i < c.n; ++i)
    if (c.lin[(std::size_t)i] != 0)
    {
      snprintf(b, sizeof b, " %+g*x%d", c.lin[(std::size_t)i], i);
      s += b;
    }
  for (auto& e : c.quad)
  {
    snprintf(b, sizeof b, " %+g*x%d*x%d", e.second, e.first.first, e.first.second);
    s += b;
  }
  for (auto& r : c.rows)
  {
    snprintf(b, sizeof b, "; %g <=", r.lo);
    s += b;
    for (auto& e : r.a)
    {
      snprintf(b, sizeof b, " %+g*x%d", e.second, e.first);
      s += b;
    }
    snprintf(b, sizeof b, " <= %g", r.hi);
    s += b;
  }
  return s;
}
int sig_outcome(uint64_t sig)
{
  if (!sig_salt)
    return SOLVED;
  static const int t[] = { SOLVED, SOLVED, SOLVED, SOLVED, SOLVED, SOLVED_INACCURATE, PRIMAL_INFEASIBLE, DUAL_INFEASIBLE, GAVE_UP, SOLVED };
  return t[sim::mix(sig, sig_salt) % 10];
}
double sig_value(uint64_t sig, int i) { return (double)(sim::mix(sig, (uint64_t)i + 12345) >> 40) / 1024.0 - 8192.0; }
void solve_by_signature(const Canon& c, Answer& a)
{
  const uint64_t s = signature(c);
  a.outcome = sig_outcome(s);
  a.x.resize((std::size_t)c.n);
  for (int i = 0; i < c.n; ++i)
    a.x[(std::size_t)i] = sig_value(s, i);
}
void solve_numerically(const Canon& c, Answer& a)
{
  sim::Quiet qt;
  const std::size_t n = (std::size_t)c.n, m = c.rows.size() + n;
  std::vector<double> P(n * n, 0), q(c.lin), A(m * n, 0), l(m), u(m), x(n, 0), y(m, 0);
  for (auto& e : c.quad)
  {
    const std::size_t i = (std::size_t)e.first.first, j = (std::size_t)e.first.second;
    P[i + n * j] += e.second;
    P[j + n * i] += e.second;
  }
  for (std::size_t r = 0; r < c.rows.size(); ++r)
  {
    for (auto& e : c.rows[r].a)
      A[r * n + (std::size_t)e.first] = e.second;
    l[r] = std::max(c.rows[r].lo, -1e30);
    u[r] = std::min(c.rows[r].hi, 1e30);
  }
  for (std::size_t i = 0; i < n; ++i)
  {
    A[(c.rows.size() + i) * n + i] = 1;
    l[c.rows.size() + i] = std::max(c.lb[i], -1e30);
    u[c.rows.size() + i] = std::min(c.ub[i], 1e30);
  }
  const int rc = simqp_solve((int)n, P.data(), q.data(), (int)m, A.data(), l.data(), u.data(), x.data(), y.data());
  a.outcome = rc == 0 ? SOLVED : rc == 1 ? PRIMAL_INFEASIBLE : GAVE_UP;
  a.x = x;
}
}  // namespace qpstub
