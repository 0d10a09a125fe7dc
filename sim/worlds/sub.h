// Functions with known values and derivatives, and the convex subproblem of an optimizer's iteration: what it should be, what
// the QP solver was given (slack variables eliminated), and its minimisation over a box. Shared by the SQP worlds.
#pragma once
#include <rt/sim.h>
#include <qp/canon.h>
#include <Eigen/Dense>
#include <algorithm>
#include <cmath>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace sub
{
using DblVec = std::vector<double>;
struct Fn
{
  double k = 0;
  std::vector<double> a;   // one coefficient per variable
  int kind = 0;            // 0 affine, 1 + b*(x_i - c)^2, 2 + b*sin(c*x_i), 3 + b*x_i*x_j
  int i = 0, j = 0;
  double b = 0, c = 0;
  double nan_above = INFINITY;  // undefined where x_i exceeds this
  double value(const Eigen::VectorXd& x) const
  {
    double v = k;
    for (std::size_t m = 0; m < a.size(); ++m)
      v += a[m] * x((long)m);
    if (kind == 1)
      v += b * (x(i) - c) * (x(i) - c);
    else if (kind == 2)
      v += b * std::sin(c * x(i));
    else if (kind == 3)
      v += b * x(i) * x(j);
    if (x(i) > nan_above)
      v = NAN;
    return v;
  }
  Eigen::VectorXd grad(const Eigen::VectorXd& x) const
  {
    Eigen::VectorXd g(x.size());
    for (std::size_t m = 0; m < a.size(); ++m)
      g((long)m) = a[m];
    if (kind == 1)
      g(i) += 2 * b * (x(i) - c);
    else if (kind == 2)
      g(i) += b * c * std::cos(c * x(i));
    else if (kind == 3)
    {
      g(i) += b * x(j);
      g(j) += b * x(i);
    }
    return g;
  }
};
inline double c16(const char* l) { return sim::nice(-4, 4, l); }
inline Fn draw_fn(unsigned n, bool affine)
{
  Fn f;
  f.k = c16("k");
  f.a.assign(n, 0);
  const unsigned t = 1 + (unsigned)sim::choose(2, "terms");
  for (unsigned q = 0; q < t; ++q)
    f.a[sim::choose(n, "var")] = c16("a");
  if (!affine)
    f.kind = (int)sim::choose(4, "kind");
  f.i = (int)sim::choose(n, "i");
  f.j = (int)sim::choose(n, "j");
  f.b = c16("b") / 2;
  f.c = c16("c") / 2;
  return f;
}
inline Eigen::VectorXd eig(const DblVec& x) { return Eigen::Map<const Eigen::VectorXd>(x.data(), (long)x.size()); }
inline bool same(double a, double b, double tol)
{
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= tol * (1 + std::max(std::fabs(a), std::fabs(b)));
}
inline std::string str(const DblVec& v)
{
  std::ostringstream o;
  o.precision(17);
  for (auto e : v)
    o << " " << e;
  return o.str();
}
struct Term  // what the slack variables of the subproblem stand for: w*|a x + k|, w*max(0, a x + k), or a row
{
  char type;  // 'a', 'h', 'E', 'I'
  std::vector<double> a;
  double k, tol_a, tol_k;
};
struct Sub
{
  std::vector<double> L;
  Eigen::MatrixXd Q;  // x'Qx
  double C = 0, tolLQ = 1e-8;
  std::vector<Term> t;
};
inline double sub_value(const Sub& s, const DblVec& xs)
{
  const Eigen::VectorXd x = eig(xs);
  double v = s.C + x.dot(s.Q * x);
  for (std::size_t i = 0; i < xs.size(); ++i)
    v += s.L[i] * xs[i];
  for (auto& t : s.t)
  {
    double y = t.k;
    for (std::size_t i = 0; i < xs.size(); ++i)
      y += t.a[i] * xs[i];
    if (t.type == 'a')
      v += std::fabs(y);
    else if (t.type == 'h')
      v += std::max(0.0, y);
  }
  return v;
}
// the subproblem the QP solver was given, with the slack variables eliminated
struct Slack
{
  int row, col;
  double s;
};
struct Seen
{
  Sub s;
  std::vector<std::vector<Slack>> slacks;  // per row
  std::string odd;                          // not of the expected form
};
inline Seen read_sub(const qpstub::Canon& c, unsigned n)
{
  Seen o;
  o.s.L.assign(c.lin.begin(), c.lin.begin() + n);
  o.s.Q = Eigen::MatrixXd::Zero(n, n);
  for (auto& e : c.quad)
  {
    if (e.first.first >= (int)n || e.first.second >= (int)n)
    {
      o.odd = "an auxiliary variable occurs in the quadratic part of the objective";
      continue;
    }
    o.s.Q(e.first.first, e.first.second) += e.second / 2;
    o.s.Q(e.first.second, e.first.first) += e.second / 2;
  }
  std::vector<int> used(c.lin.size(), 0);
  for (std::size_t r = 0; r < c.rows.size(); ++r)
  {
    const auto& row = c.rows[r];
    o.slacks.push_back({});
    Term t{ '?', std::vector<double>(n, 0), 0, 0 };
    const bool eq = row.lo == row.hi;
    double sg = 1, k = row.hi;
    if (!eq && !std::isfinite(row.hi))
    {
      sg = -1;
      k = row.lo;
    }
    for (auto& e : row.a)
      if (e.first < (int)n)
        t.a[(std::size_t)e.first] = sg * e.second;
      else
      {
        o.slacks.back().push_back({ (int)r, e.first, sg * e.second });
        ++used[(std::size_t)e.first];
      }
    t.k = -sg * k;
    auto& sl = o.slacks.back();
    std::sort(sl.begin(), sl.end(), [](const Slack& a, const Slack& b) { return a.s < b.s; });
    if (sl.empty())
      t.type = eq ? 'E' : 'I';
    else
    {
      double w = -1;
      bool ok = eq ? sl.size() == 2 && sl[0].s < 0 && sl[1].s > 0 : sl.size() == 1 && sl[0].s < 0;
      for (auto& q : sl)
      {
        const double v = c.lin[(std::size_t)q.col] / std::fabs(q.s);
        ok = ok && c.lb[(std::size_t)q.col] == 0 && c.ub[(std::size_t)q.col] == INFINITY && (w < 0 || w == v) && v >= 0;
        w = v;
      }
      if (!ok && o.odd.empty())
        o.odd = "a penalty term is not |..| or max(0,..)";
      t.type = eq ? 'a' : 'h';
      for (auto& v : t.a)
        v *= w;
      t.k *= w;
    }
    o.s.t.push_back(t);
  }
  for (std::size_t i = n; i < used.size(); ++i)
    if (used[i] != 1 && o.odd.empty())
      o.odd = "an auxiliary variable belongs to " + std::to_string(used[i]) + " penalty terms";
  return o;
}

inline void check_sub(unsigned n, const qpstub::Canon& c, const Seen& seen, const Sub& e, const DblVec& x)
{
  if (!seen.odd.empty())
    sim::fail("subproblem", "%s: %s", seen.odd.c_str(), qpstub::show(c).c_str());
  for (unsigned i = 0; i < n; ++i)
    if (!same(seen.s.L[i], e.L[i], e.tolLQ))
      sim::fail("subproblem", "the linear coefficient of variable %u is %.12g, not %.12g", i, seen.s.L[i], e.L[i]);
  for (unsigned i = 0; i < n; ++i)
    for (unsigned j = 0; j < n; ++j)
      if (!same(seen.s.Q(i, j), e.Q(i, j), e.tolLQ))
        sim::fail("subproblem", "the quadratic coefficient of variables %u and %u is %.12g, not %.12g", i, j, seen.s.Q(i, j), e.Q(i, j));
  if (seen.s.t.size() != e.t.size())
    sim::fail("subproblem", "the subproblem has %zu rows, the current costs and constraints need %zu: %s", seen.s.t.size(), e.t.size(), qpstub::show(c).c_str());
  std::vector<bool> taken(e.t.size(), false);
  for (auto& t : seen.s.t)
  {
    bool found = false;
    for (std::size_t q = 0; q < e.t.size() && !found; ++q)
    {
      if (taken[q] || e.t[q].type != t.type)
        continue;
      bool eqv = std::fabs(t.k - e.t[q].k) <= e.t[q].tol_k;
      for (unsigned i = 0; i < n && eqv; ++i)
        eqv = std::fabs(t.a[i] - e.t[q].a[i]) <= e.t[q].tol_a;
      if (!eqv && t.type == 'a')
      {
        eqv = std::fabs(t.k + e.t[q].k) <= e.t[q].tol_k;
        for (unsigned i = 0; i < n && eqv; ++i)
          eqv = std::fabs(t.a[i] + e.t[q].a[i]) <= e.t[q].tol_a;
      }
      if (eqv)
        taken[q] = found = true;
    }
    if (!found)
      sim::fail("subproblem", "the subproblem at%s contains the term %c(%s %+.9g), which no current cost, constraint or penalty gives", str(x).c_str(), t.type,
                str(t.a).c_str(), t.k);
  }
}
inline double wsum(const Seen& s, const DblVec& x) { return sub_value(s.s, x); }
// minimises the subproblem over the box: exactly, or coordinate by coordinate
inline DblVec minimise_sub(unsigned n, bool exact, const qpstub::Canon& c, const Seen& s, const DblVec& lo, const DblVec& hi)
{
  DblVec x(n);
  if (exact)
  {
    // the auxiliary variables in the order of their rows, so that the answer does not depend on how they were numbered
    qpstub::Canon d = c;
    std::vector<int> at(c.lin.size());
    int nx = (int)n;
    for (unsigned i = 0; i < n; ++i)
      at[i] = (int)i;
    std::vector<bool> done(c.lin.size(), false);
    for (auto& r : s.slacks)
      for (auto& q : r)
        if (!done[(std::size_t)q.col])
        {
          done[(std::size_t)q.col] = true;
          at[(std::size_t)q.col] = nx++;
        }
    for (std::size_t i = n; i < at.size(); ++i)
      if (!done[i])
        at[i] = nx++;
    for (std::size_t i = 0; i < at.size(); ++i)
    {
      d.lin[(std::size_t)at[i]] = c.lin[i];
      d.lb[(std::size_t)at[i]] = c.lb[i];
      d.ub[(std::size_t)at[i]] = c.ub[i];
    }
    d.quad.clear();
    for (auto& e : c.quad)
    {
      const int a = at[(std::size_t)e.first.first], b = at[(std::size_t)e.first.second];
      d.quad[{ std::min(a, b), std::max(a, b) }] = e.second;
    }
    for (auto& r : d.rows)
    {
      std::map<int, double> m;
      for (auto& e : r.a)
        m[at[(std::size_t)e.first]] = e.second;
      r.a = m;
    }
    qpstub::Answer a;
    qpstub::solve_numerically(d, a);
    if (a.outcome == qpstub::SOLVED)
    {
      for (unsigned i = 0; i < n; ++i)
        x[i] = std::min(hi[i], std::max(lo[i], a.x[i]));
      return x;
    }
  }
  for (unsigned i = 0; i < n; ++i)
    x[i] = std::min(hi[i], std::max(lo[i], 0.5 * (std::max(lo[i], -100.0) + std::min(hi[i], 100.0))));
  for (int sweep = 0; sweep < 6; ++sweep)
    for (unsigned i = 0; i < n; ++i)
    {
      // convex in one variable: golden-section-free ternary search over the interval
      double a = std::max(lo[i], -1e3), b = std::min(hi[i], 1e3);
      DblVec y = x;
      for (int it = 0; it < 40; ++it)
      {
        const double u = a + (b - a) / 3, v = b - (b - a) / 3;
        y[i] = u;
        const double fu = wsum(s, y);
        y[i] = v;
        const double fv = wsum(s, y);
        if (fu <= fv)
          b = v;
        else
          a = u;
      }
      x[i] = std::min(hi[i], std::max(lo[i], 0.5 * (a + b)));
    }
  return x;
}
}  // namespace sub
