// Dense convex QP solver behind the stand-ins for OSQP, OsqpEigen, qpOASES and BPMPD. C interface, own shared library.
#pragma once
extern "C" {
// minimise 1/2 x'Px + q'x  subject to  l <= A x <= u.  P: n x n, symmetric, column major. A: m x n, ROW major.
// x: n, y: m multipliers (Px + q + A'y = 0, y >= 0 at an upper bound, <= 0 at a lower one). |bound| >= 1e20 = none.
// returns 0 solved, 1 infeasible, 2 unbounded or not converged
int simqp_solve(int n, const double* P, const double* q, int m, const double* A, const double* l, const double* u, double* x, double* y);
}
