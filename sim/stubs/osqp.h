// Stand-in for the interface of OSQP 1.0 (what the project uses of it). Implemented in stubs/osqp_stub.cpp.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef long long OSQPInt;
typedef double OSQPFloat;
#define OSQP_NULL 0
#define OSQP_INFTY ((OSQPFloat)1e30)

typedef struct
{
  OSQPInt m, n;
  OSQPInt* p;
  OSQPInt* i;
  OSQPFloat* x;
  OSQPInt nzmax, nz, owned;
} OSQPCscMatrix;

typedef struct
{
  OSQPInt device;
  int linsys_solver;
  OSQPInt allocate_solution, verbose, profiler_level, warm_starting, scaling, polishing;
  OSQPFloat rho;
  OSQPInt rho_is_vec;
  OSQPFloat sigma, alpha;
  OSQPInt cg_max_iter, cg_tol_reduction;
  OSQPFloat cg_tol_fraction;
  int cg_precond;
  OSQPInt adaptive_rho, adaptive_rho_interval;
  OSQPFloat adaptive_rho_fraction, adaptive_rho_tolerance;
  OSQPInt max_iter;
  OSQPFloat eps_abs, eps_rel, eps_prim_inf, eps_dual_inf;
  OSQPInt scaled_termination, check_termination, check_dualgap;
  OSQPFloat time_limit, delta;
  OSQPInt polish_refine_iter;
} OSQPSettings;

typedef struct
{
  char status[32];
  OSQPInt status_val, status_polish;
  OSQPFloat obj_val, dual_obj_val, prim_res, dual_res, duality_gap;
  OSQPInt iter, rho_updates;
  OSQPFloat rho_estimate, setup_time, solve_time, update_time, polish_time, run_time, primdual_int, rel_kkt_error;
} OSQPInfo;

typedef struct
{
  OSQPFloat *x, *y, *prim_inf_cert, *dual_inf_cert;
} OSQPSolution;

typedef struct OSQPWorkspace_ OSQPWorkspace;
typedef struct
{
  OSQPSettings* settings;
  OSQPSolution* solution;
  OSQPInfo* info;
  OSQPWorkspace* work;
} OSQPSolver;

enum osqp_status_type
{
  OSQP_SOLVED = 1,
  OSQP_SOLVED_INACCURATE,
  OSQP_PRIMAL_INFEASIBLE,
  OSQP_PRIMAL_INFEASIBLE_INACCURATE,
  OSQP_DUAL_INFEASIBLE,
  OSQP_DUAL_INFEASIBLE_INACCURATE,
  OSQP_MAX_ITER_REACHED,
  OSQP_TIME_LIMIT_REACHED,
  OSQP_NON_CVX,
  OSQP_SIGINT,
  OSQP_UNSOLVED
};
enum osqp_error_type
{
  OSQP_NO_ERROR = 0,
  OSQP_DATA_VALIDATION_ERROR = 1,
  OSQP_SETTINGS_VALIDATION_ERROR,
  OSQP_LINSYS_SOLVER_INIT_ERROR,
  OSQP_NONCVX_ERROR,
  OSQP_MEM_ALLOC_ERROR,
  OSQP_WORKSPACE_NOT_INIT_ERROR,
  OSQP_ALGEBRA_LOAD_ERROR,
  OSQP_FOPEN_ERROR,
  OSQP_CODEGEN_DEFINES_ERROR,
  OSQP_DATA_NOT_INITIALIZED,
  OSQP_FUNC_NOT_IMPLEMENTED,
  OSQP_LAST_ERROR_PLACE
};

void osqp_set_default_settings(OSQPSettings* settings);
OSQPInt osqp_setup(OSQPSolver** solverp, const OSQPCscMatrix* P, const OSQPFloat* q, const OSQPCscMatrix* A, const OSQPFloat* l,
                   const OSQPFloat* u, OSQPInt m, OSQPInt n, const OSQPSettings* settings);
OSQPInt osqp_solve(OSQPSolver* solver);
OSQPInt osqp_cleanup(OSQPSolver* solver);
OSQPInt osqp_warm_start(OSQPSolver* solver, const OSQPFloat* x, const OSQPFloat* y);
OSQPInt osqp_update_data_vec(OSQPSolver* solver, const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u);
OSQPInt osqp_update_data_mat(OSQPSolver* solver, const OSQPFloat* Px, const OSQPInt* Px_idx, OSQPInt P_n, const OSQPFloat* Ax,
                             const OSQPInt* Ax_idx, OSQPInt A_n);
OSQPInt osqp_update_settings(OSQPSolver* solver, const OSQPSettings* s);
OSQPCscMatrix* OSQPCscMatrix_new(OSQPInt m, OSQPInt n, OSQPInt nzmax, OSQPFloat* x, OSQPInt* i, OSQPInt* p);
#ifdef __cplusplus
}
#endif
