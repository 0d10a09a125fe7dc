// Stand-in for the BPMPD library inside the (simulated) solver process.
#include "qp/canon.h"
#include <cmath>
#include <rt/sim.h>

extern "C" void bpmpd(int* m, int* n, int* nz, int* qn, int* qnz, int* acolcnt, int* acolidx, double* acolnzs, int* qcolcnt, int* qcolidx,
                      double* qcolnzs, double* rhs, double* obj, double* lbound, double* ubound, double* primal, double* dual, int* status,
                      double* big, int* code, double* opt, int* memsiz)
{
  sim::yield();
  qpstub::Canon c;
  c.n = *n;
  const int N = *n, M = *m;
  c.lb.assign(lbound, lbound + N);
  c.ub.assign(ubound, ubound + N);
  c.lin.assign(obj, obj + N);
  c.rows.resize((std::size_t)M);
  for (int r = 0; r < M; ++r)
  {
    c.rows[(std::size_t)r].lo = lbound[N + r] + rhs[r];
    c.rows[(std::size_t)r].hi = ubound[N + r] + rhs[r];
  }
  int k = 0;
  for (int j = 0; j < N; ++j)
    for (int e = 0; e < acolcnt[j]; ++e, ++k)
    {
      if (k >= *nz || acolidx[k] < 1 || acolidx[k] > M)
        sim::fail("solver-data", "the QP solver process is given a matrix with row index %d of %d rows", k < *nz ? acolidx[k] : -1, M);
      c.rows[(std::size_t)(acolidx[k] - 1)].a[j] += acolnzs[k];
    }
  if (k != *nz)
    sim::fail("solver-data", "the QP solver process is given %d of %d matrix elements", k, *nz);
  k = 0;
  for (int j = 0; j < *qn; ++j)
    for (int e = 0; e < qcolcnt[j]; ++e, ++k)
    {
      const int i = k < *qnz ? qcolidx[k] - 1 : -1;
      if (i < j || i >= N)
        sim::fail("solver-data", "the QP solver process is given a Hessian element outside the lower triangle");
      c.quad[{ j, i }] += i == j ? qcolnzs[k] / 2 : qcolnzs[k];
    }
  if (k != *qnz)
    sim::fail("solver-data", "the QP solver process is given %d of %d Hessian elements", k, *qnz);
  sim::Quiet q;
  c.normalise();
  qpstub::last = c;
  qpstub::last_solver = "BPMPD";
  ++qpstub::solves;
  qpstub::Answer a;
  qpstub::solver(c, a);
  for (int i = 0; i < N; ++i)
    primal[i] = a.x[(std::size_t)i];
  for (int i = 0; i < M; ++i)
    primal[N + i] = 0;
  for (int i = 0; i < N + M; ++i)
  {
    dual[i] = 0.5 * i;
    status[i] = i & 1;
  }
  *opt = 1;
  switch (a.outcome)
  {
    case qpstub::SOLVED:
      *code = 2;
      break;
    case qpstub::SOLVED_INACCURATE:
      *code = 1;
      break;
    case qpstub::PRIMAL_INFEASIBLE:
      *code = 4;
      break;
    case qpstub::DUAL_INFEASIBLE:
      *code = 3;
      break;
    default:
      *code = -1;
  }
}
