// OSQP stand-in: holds copies of the data like the library does, applies updates in the structure given at setup, answers
// through qpstub::solver for the data it holds, and fails calls where the simulator says so.
#include "osqp.h"
#include "qp/canon.h"
#include <memory>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <rt/sim.h>
#include <vector>

struct Csc
{
  OSQPInt m = 0, n = 0;
  std::vector<OSQPInt> p, i;
  std::vector<double> x;
  void set(const OSQPCscMatrix* a)
  {
    m = a->m;
    n = a->n;
    p.assign(a->p, a->p + n + 1);
    i.assign(a->i, a->i + p[(size_t)n]);
    x.assign(a->x, a->x + p[(size_t)n]);
    for (auto r : i)
      if (r < 0 || r >= m)
        sim::fail("solver-data", "the QP solver is given a matrix with row index %lld of %lld rows", r, m);
  }
};
struct OSQPWorkspace_
{
  Csc P, A;
  std::vector<double> q, l, u;
};

extern "C" {
void osqp_set_default_settings(OSQPSettings* s)
{
  memset(s, 0, sizeof *s);
  s->warm_starting = 1;
  s->scaling = 10;
  s->rho = 0.1;
  s->sigma = 1e-6;
  s->alpha = 1.6;
  s->adaptive_rho = 1;
  s->max_iter = 4000;
  s->eps_abs = s->eps_rel = 1e-3;
  s->eps_prim_inf = s->eps_dual_inf = 1e-4;
  s->check_termination = 25;
  s->check_dualgap = 1;
  s->time_limit = 1e10;
  s->delta = 1e-6;
  s->polish_refine_iter = 3;
}
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPFloat* x, OSQPInt* i, OSQPInt* p)
{
  OSQPCscMatrix* a = (OSQPCscMatrix*)calloc(1, sizeof(OSQPCscMatrix));
  a->m = m;
  a->n = n;
  a->nzmax = nzmax;
  a->nz = -1;
  a->x = x;
  a->i = i;
  a->p = p;
  return a;
}
static bool bad_bounds(const std::vector<double>& l, const std::vector<double>& u)
{
  for (size_t k = 0; k < l.size(); ++k)
    if (!(l[k] <= u[k]))
      return true;
  return false;
}
OSQPInt osqp_setup(OSQPSolver** out, const OSQPCscMatrix* P, const OSQPFloat* q, const OSQPCscMatrix* A, const OSQPFloat* l,
                   const OSQPFloat* u, OSQPInt m, OSQPInt n, const OSQPSettings* settings)
{
  sim::cover("osqp_setup");
  if (P->n != n || P->m != n || A->n != n || A->m != m)
    sim::fail("solver-data", "the QP solver is given matrices of the wrong size");
  if (qpstub::fault("osqp_setup"))
  {
    static const OSQPInt e[] = { OSQP_MEM_ALLOC_ERROR, OSQP_DATA_VALIDATION_ERROR, OSQP_SETTINGS_VALIDATION_ERROR };
    const OSQPInt rc = e[sim::choose(3, "setup-error")];
    return rc;  // returned before anything is allocated: *out is not touched
  }
  std::vector<double> vl(l, l + m), vu(u, u + m);
  if (bad_bounds(vl, vu))
    return OSQP_DATA_VALIDATION_ERROR;
  auto work = std::make_unique<OSQPWorkspace_>();
  work->P.set(P);
  work->A.set(A);
  work->q.assign(q, q + n);
  work->l = vl;
  work->u = vu;
  OSQPSolver* s = (OSQPSolver*)calloc(1, sizeof(OSQPSolver));
  *out = s;
  s->work = work.release();
  s->settings = (OSQPSettings*)malloc(sizeof(OSQPSettings));
  *s->settings = *settings;
  s->info = (OSQPInfo*)calloc(1, sizeof(OSQPInfo));
  s->info->status_val = OSQP_UNSOLVED;
  s->solution = (OSQPSolution*)calloc(1, sizeof(OSQPSolution));
  s->solution->x = (double*)calloc((size_t)n + 1, sizeof(double));
  s->solution->y = (double*)calloc((size_t)m + 1, sizeof(double));
  if (qpstub::fault("osqp_linsys"))
    return OSQP_LINSYS_SOLVER_INIT_ERROR;  // allocated: the caller has to clean up
  return 0;
}
OSQPInt osqp_cleanup(OSQPSolver* s)
{
  if (!s)
    return 0;
  delete s->work;
  free(s->settings);
  free(s->info);
  free(s->solution->x);
  free(s->solution->y);
  free(s->solution);
  free(s);
  return 0;
}
OSQPInt osqp_warm_start(OSQPSolver* s, const OSQPFloat* x, const OSQPFloat* y)
{
  sim::cover("osqp_warm_start");
  if (qpstub::fault("osqp_warm_start"))
    return OSQP_WORKSPACE_NOT_INIT_ERROR;
  for (OSQPInt i = 0; i < s->work->P.n; ++i)
    s->solution->x[i] = x[i];
  for (OSQPInt i = 0; i < s->work->A.m; ++i)
    s->solution->y[i] = y[i];
  return 0;
}
OSQPInt osqp_update_data_vec(OSQPSolver* s, const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u)
{
  sim::cover("osqp_update_data_vec");
  if (qpstub::fault("osqp_update_data_vec"))
    return OSQP_DATA_VALIDATION_ERROR;
  OSQPWorkspace_* w = s->work;
  std::vector<double> nl = l ? std::vector<double>(l, l + w->l.size()) : w->l, nu = u ? std::vector<double>(u, u + w->u.size()) : w->u;
  if (bad_bounds(nl, nu))
    return OSQP_DATA_VALIDATION_ERROR;
  w->l = nl;
  w->u = nu;
  if (q)
    w->q.assign(q, q + w->q.size());
  return 0;
}
static bool upd(Csc& c, const OSQPFloat* x, const OSQPInt* idx, OSQPInt n)
{
  if (!x)
    return true;
  if ((size_t)n > c.x.size() || (!idx && (size_t)n != c.x.size()))
    return false;
  for (OSQPInt k = 0; k < n; ++k)
    c.x[(size_t)(idx ? idx[k] : k)] = x[k];
  return true;
}
OSQPInt osqp_update_data_mat(OSQPSolver* s, const OSQPFloat* Px, const OSQPInt* Pi, OSQPInt Pn, const OSQPFloat* Ax, const OSQPInt* Ai, OSQPInt An)
{
  sim::cover("osqp_update_data_mat");
  if (qpstub::fault("osqp_update_data_mat"))
    return OSQP_LINSYS_SOLVER_INIT_ERROR;
  if (!upd(s->work->P, Px, Pi, Pn) || !upd(s->work->A, Ax, Ai, An))
    return OSQP_DATA_VALIDATION_ERROR;
  return 0;
}
OSQPInt osqp_update_settings(OSQPSolver* s, const OSQPSettings* n)
{
  *s->settings = *n;
  return 0;
}
OSQPInt osqp_solve(OSQPSolver* s)
{
  if (!s)
    return OSQP_WORKSPACE_NOT_INIT_ERROR;
  sim::yield();
  if (qpstub::fault("osqp_solve"))
  {
    if (sim::chance(1, 2, "status-reset"))  // given up before or after the status was reset
      s->info->status_val = OSQP_UNSOLVED;
    return sim::chance(1, 2, "solve-error") ? OSQP_LINSYS_SOLVER_INIT_ERROR : OSQP_MEM_ALLOC_ERROR;
  }
  const OSQPWorkspace_& w = *s->work;
  qpstub::Canon c;
  qpstub::Answer a;
  {
    sim::Quiet q;
    const size_t n = (size_t)w.P.n, m = (size_t)w.A.m;
    c.n = (int)n;
    c.lin = w.q;
    for (size_t j = 0; j < n; ++j)
      for (OSQPInt k = w.P.p[j]; k < w.P.p[j + 1]; ++k)
      {
        const int i = (int)w.P.i[(size_t)k];
        if (i > (int)j)
          continue;  // OSQP reads the upper triangle
        c.quad[{ i, (int)j }] += i == (int)j ? w.P.x[(size_t)k] / 2 : w.P.x[(size_t)k];
      }
    c.rows.resize(m);
    for (size_t r = 0; r < m; ++r)
    {
      c.rows[r].lo = w.l[r];
      c.rows[r].hi = w.u[r];
    }
    for (size_t j = 0; j < n; ++j)
      for (OSQPInt k = w.A.p[j]; k < w.A.p[j + 1]; ++k)
        c.rows[(size_t)w.A.i[(size_t)k]].a[(int)j] += w.A.x[(size_t)k];
    // the last n rows, if they are the identity, are the bounds of the variables
    bool ident = m >= n;
    for (size_t j = 0; ident && j < n; ++j)
    {
      auto& r = c.rows[m - n + j];
      r.a.erase(-1);
      ident = r.a.size() == 1 && r.a.begin()->first == (int)j && r.a.begin()->second == 1.0;
    }
    c.lb.assign(n, -INFINITY);
    c.ub.assign(n, INFINITY);
    if (ident)
    {
      for (size_t j = 0; j < n; ++j)
      {
        c.lb[j] = c.rows[m - n + j].lo;
        c.ub[j] = c.rows[m - n + j].hi;
      }
      c.rows.resize(m - n);
    }
    c.normalise();
    qpstub::last = c;
    qpstub::last_solver = "OSQP";
    ++qpstub::solves;
    qpstub::solver(c, a);
    for (size_t j = 0; j < n; ++j)
      s->solution->x[j] = a.x[j];
  }
  const uint64_t v = sim::mix(qpstub::signature(c), 3);
  switch (a.outcome)
  {
    case qpstub::SOLVED:
      s->info->status_val = OSQP_SOLVED;
      break;
    case qpstub::SOLVED_INACCURATE:
      s->info->status_val = OSQP_SOLVED_INACCURATE;
      break;
    case qpstub::PRIMAL_INFEASIBLE:
      s->info->status_val = v % 2 ? OSQP_PRIMAL_INFEASIBLE : OSQP_PRIMAL_INFEASIBLE_INACCURATE;
      break;
    case qpstub::DUAL_INFEASIBLE:
      s->info->status_val = v % 2 ? OSQP_DUAL_INFEASIBLE : OSQP_DUAL_INFEASIBLE_INACCURATE;
      break;
    case qpstub::NON_CONVEX:
      s->info->status_val = OSQP_NON_CVX;
      break;
    default:
    {
      static const int g[] = { OSQP_MAX_ITER_REACHED, OSQP_TIME_LIMIT_REACHED, OSQP_NON_CVX, OSQP_SIGINT, OSQP_UNSOLVED };
      s->info->status_val = g[v % 5];
    }
  }
  return 0;
}
}
