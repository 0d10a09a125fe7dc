#include "qpOASES.hpp"
#include "qp/canon.h"
#include <cmath>
#include <cstdlib>
#include <rt/sim.h>

namespace qpOASES
{
SQProblem::~SQProblem() { free(x); }
returnValue SQProblem::solve(bool hot, SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub,
                             const real_t* lbA, const real_t* ubA, int_t& nWSR)
{
  sim::yield();
  solved = false;
  if (H->nRows != nV || H->nCols != nV || A->nRows != nC || A->nCols != nV)
    sim::fail("solver-data", "the QP solver is given matrices of the wrong size");
  if (!H->diag)
    sim::fail("solver-data", "the QP solver is given a Hessian without the information on its diagonal");
  qpstub::Canon c;
  c.n = nV;
  c.lb.assign(lb, lb + nV);
  c.ub.assign(ub, ub + nV);
  c.lin.assign(g, g + nV);
  for (int j = 0; j < nV; ++j)
    for (int k = H->jc[j]; k < H->jc[j + 1]; ++k)
    {
      const int i = H->ir[k];
      if (i < 0 || i >= nV)
        sim::fail("solver-data", "the QP solver is given a Hessian with row index %d of %d rows", i, nV);
      c.quad[{ i < j ? i : j, i < j ? j : i }] += H->val[k] / 2;
    }
  c.rows.resize((std::size_t)nC);
  for (int r = 0; r < nC; ++r)
  {
    c.rows[(std::size_t)r].lo = lbA[r];
    c.rows[(std::size_t)r].hi = ubA[r];
  }
  for (int j = 0; j < nV; ++j)
    for (int k = A->jc[j]; k < A->jc[j + 1]; ++k)
    {
      const int i = A->ir[k];
      if (i < 0 || i >= nC)
        sim::fail("solver-data", "the QP solver is given a matrix with row index %d of %d rows", i, nC);
      c.rows[(std::size_t)i].a[j] += A->val[k];
    }
  sim::Quiet q;
  c.normalise();
  qpstub::Answer a;
  const uint64_t sig = qpstub::signature(c);
  // nWSR: on entry how many working set recalculations are allowed, on return how many were done
  const int need = 1 + (int)(sim::mix(sig, hot ? 5 : 6) % 40);
  inited = true;
  if (need > nWSR)
    return RET_MAX_NWSR_REACHED;
  nWSR = need;
  qpstub::last = c;
  qpstub::last_solver = "qpOASES";
  ++qpstub::solves;
  qpstub::solver(c, a);
  switch (a.outcome)
  {
    case qpstub::SOLVED:
    case qpstub::SOLVED_INACCURATE:
      break;
    case qpstub::PRIMAL_INFEASIBLE:
      return hot ? RET_QP_INFEASIBLE : RET_INIT_FAILED_INFEASIBILITY;
    case qpstub::DUAL_INFEASIBLE:
      return hot ? RET_QP_UNBOUNDED : RET_INIT_FAILED_UNBOUNDEDNESS;
    default:
      return hot ? RET_HOTSTART_FAILED : RET_INIT_FAILED_HOTSTART;
  }
  free(x);
  x = (real_t*)malloc(sizeof(real_t) * (std::size_t)(nV + 1));
  for (int i = 0; i < nV; ++i)
    x[i] = a.x[(std::size_t)i];
  solved = true;
  return SUCCESSFUL_RETURN;
}
returnValue SQProblem::init(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                            const real_t* ubA, int_t& nWSR, real_t*)
{
  sim::cover("qpoases_init");
  if (qpstub::fault("qpoases_init"))
  {
    inited = sim::chance(1, 2, "init-left");
    solved = false;
    return sim::chance(1, 2, "init-error") ? RET_INIT_FAILED_CHOLESKY : RET_INIT_FAILED_TQ;
  }
  return solve(false, H, g, A, lb, ub, lbA, ubA, nWSR);
}
returnValue SQProblem::hotstart(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                                const real_t* ubA, int_t& nWSR, real_t*)
{
  sim::cover("qpoases_hotstart");
  if (!inited)
    return RET_HOTSTART_FAILED_TO_INIT;
  // a hotstart may fail where a cold start does not: not a failure of the solve
  if (qpstub::fault_rate && sim::faults_on() && sim::chance(qpstub::fault_rate, 1000, "qpoases_hotstart"))
  {
    sim::cover("fault.qpoases_hotstart");
    solved = false;
    const int did = 1 + (int)sim::choose(50, "hotstart-nwsr");
    if (did < nWSR)
      nWSR = did;
    return sim::chance(1, 2, "hotstart-error") ? RET_QP_INFEASIBLE : RET_HOTSTART_FAILED;
  }
  return solve(true, H, g, A, lb, ub, lbA, ubA, nWSR);
}
returnValue SQProblem::getPrimalSolution(real_t* out) const
{
  if (!solved)
    return RET_QP_NOT_SOLVED;
  for (int i = 0; i < nV; ++i)
    out[i] = x[i];
  return SUCCESSFUL_RETURN;
}
}  // namespace qpOASES
