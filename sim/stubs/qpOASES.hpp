// Stand-in for the interface of qpOASES 3.2 (what the project uses of it). Implemented in stubs/qpoases_stub.cpp.
#pragma once
namespace qpOASES
{
typedef double real_t;
typedef int int_t;
typedef unsigned int uint_t;
typedef int sparse_int_t;
const real_t INFTY = 1.0e20;
enum returnValue
{
  TERMINAL_LIST_ELEMENT = -1,
  SUCCESSFUL_RETURN = 0,
  RET_DIV_BY_ZERO,
  RET_QP_SOLUTION_STARTED = 20,
  RET_INIT_FAILED = 33,
  RET_INIT_FAILED_TQ,
  RET_INIT_FAILED_CHOLESKY,
  RET_INIT_FAILED_HOTSTART,
  RET_INIT_FAILED_INFEASIBILITY,
  RET_INIT_FAILED_UNBOUNDEDNESS,
  RET_INIT_FAILED_REGULARISATION,
  RET_HOTSTART_FAILED = 50,
  RET_HOTSTART_FAILED_TO_INIT,
  RET_QP_INFEASIBLE,
  RET_QP_UNBOUNDED,
  RET_QP_NOT_SOLVED,
  RET_MAX_NWSR_REACHED = 64
};
enum BooleanType
{
  BT_FALSE = 0,
  BT_TRUE
};
enum PrintLevel
{
  PL_DEBUG_ITER = -2,
  PL_TABULAR,
  PL_NONE = 0,
  PL_LOW,
  PL_MEDIUM,
  PL_HIGH
};
class Options
{
public:
  Options() = default;
  returnValue setToMPC() { return SUCCESSFUL_RETURN; }
  returnValue setToReliable() { return SUCCESSFUL_RETURN; }
  returnValue setToDefault() { return SUCCESSFUL_RETURN; }
  returnValue ensureConsistency() { return SUCCESSFUL_RETURN; }
  PrintLevel printLevel{ PL_MEDIUM };
  BooleanType enableRegularisation{ BT_FALSE };
  BooleanType enableFarBounds{ BT_FALSE };
  BooleanType enableFlippingBounds{ BT_FALSE };
};
// holds the caller's arrays without copying them, as the library does
class SparseMatrix
{
public:
  SparseMatrix() = default;
  SparseMatrix(int_t nr, int_t nc, sparse_int_t* r, sparse_int_t* c, real_t* v) : nRows(nr), nCols(nc), ir(r), jc(c), val(v) {}
  virtual ~SparseMatrix() = default;
  int_t nRows{ 0 }, nCols{ 0 };
  sparse_int_t *ir{ nullptr }, *jc{ nullptr };
  real_t* val{ nullptr };
};
class SymSparseMat : public SparseMatrix
{
public:
  SymSparseMat() = default;
  SymSparseMat(int_t nr, int_t nc, sparse_int_t* r, sparse_int_t* c, real_t* v) : SparseMatrix(nr, nc, r, c, v) {}
  sparse_int_t* createDiagInfo()
  {
    diag = true;
    return nullptr;
  }
  bool diag{ false };
};
class SQProblem
{
public:
  SQProblem(int_t nv, int_t nc) : nV(nv), nC(nc) {}
  ~SQProblem();
  int_t getNV() const { return nV; }
  int_t getNC() const { return nC; }
  BooleanType isInitialised() const { return inited ? BT_TRUE : BT_FALSE; }
  returnValue setOptions(const Options&) { return SUCCESSFUL_RETURN; }
  returnValue init(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA, const real_t* ubA,
                   int_t& nWSR, real_t* cputime = nullptr);
  returnValue hotstart(SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                       const real_t* ubA, int_t& nWSR, real_t* cputime = nullptr);
  returnValue getPrimalSolution(real_t* x) const;
  returnValue reset()
  {
    inited = solved = false;
    return SUCCESSFUL_RETURN;
  }

private:
  returnValue solve(bool hot, SymSparseMat* H, const real_t* g, SparseMatrix* A, const real_t* lb, const real_t* ub, const real_t* lbA,
                    const real_t* ubA, int_t& nWSR);
  int_t nV, nC;
  bool inited{ false }, solved{ false };
  real_t* x{ nullptr };
};
}  // namespace qpOASES
