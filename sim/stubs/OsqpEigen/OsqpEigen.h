// Stand-in for OsqpEigen (for OSQP 1.0), over the stand-in for OSQP: data set before the solver is initialised (matrices
// copied, vectors referred to by pointer), the solver initialised from it, updates of an initialised solver either in place
// or, when the sparsity pattern differs, by setting the solver up again.
#pragma once
#include <OsqpEigen/Settings.hpp>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <qp/canon.h>
#include <rt/sim.h>
#include <memory>
#include <vector>

namespace OsqpEigen
{
enum class Status : int
{
  Solved = OSQP_SOLVED,
  SolvedInaccurate = OSQP_SOLVED_INACCURATE,
  PrimalInfeasible = OSQP_PRIMAL_INFEASIBLE,
  PrimalInfeasibleInaccurate = OSQP_PRIMAL_INFEASIBLE_INACCURATE,
  DualInfeasible = OSQP_DUAL_INFEASIBLE,
  DualInfeasibleInaccurate = OSQP_DUAL_INFEASIBLE_INACCURATE,
  MaxIterReached = OSQP_MAX_ITER_REACHED,
  TimeLimitReached = OSQP_TIME_LIMIT_REACHED,
  NonCvx = OSQP_NON_CVX,
  Sigint = OSQP_SIGINT,
  Unsolved = OSQP_UNSOLVED
};
enum class ErrorExitFlag : int
{
  NoError = 0,
  DataValidationError = OSQP_DATA_VALIDATION_ERROR,
  SettingsValidationError = OSQP_SETTINGS_VALIDATION_ERROR,
  LinsysSolverInitError = OSQP_LINSYS_SOLVER_INIT_ERROR,
  NonCvxError = OSQP_NONCVX_ERROR,
  MemAllocError = OSQP_MEM_ALLOC_ERROR,
  WorkspaceNotInitError = OSQP_WORKSPACE_NOT_INIT_ERROR
};

struct OSQPData
{
  OSQPInt n = 0, m = 0;
  OSQPCscMatrix *P = nullptr, *A = nullptr;
  OSQPFloat *q = nullptr, *l = nullptr, *u = nullptr;
};
struct Mat  // column by column
{
  std::vector<OSQPInt> p, i;
  std::vector<OSQPFloat> x;
  OSQPCscMatrix view{};
  template <typename Derived>
  void set(const Eigen::SparseCompressedBase<Derived>& a, bool upper)
  {
    const Eigen::SparseMatrix<double, Eigen::ColMajor> c = a.derived();
    p.assign(1, 0);
    i.clear();
    x.clear();
    for (Eigen::Index k = 0; k < c.outerSize(); ++k)
    {
      for (Eigen::SparseMatrix<double, Eigen::ColMajor>::InnerIterator it(c, k); it; ++it)
        if (!upper || it.row() <= it.col())
        {
          i.push_back((OSQPInt)it.row());
          x.push_back(it.value());
        }
      p.push_back((OSQPInt)i.size());
    }
    i.reserve(1);
    x.reserve(1);
    view.m = c.rows();
    view.n = c.cols();
    view.p = p.data();
    view.i = i.data();
    view.x = x.data();
    view.nzmax = (OSQPInt)x.size();
    view.nz = -1;
  }
};

class Data
{
  friend class Solver;
  OSQPData d_;
  Mat P_, A_;
  bool n_ = false, m_ = false, hes_ = false, lin_ = false, grad_ = false, lo_ = false, up_ = false;

public:
  void setNumberOfVariables(int n)
  {
    n_ = true;
    d_.n = n;
  }
  void setNumberOfConstraints(int m)
  {
    m_ = true;
    d_.m = m;
  }
  void clearHessianMatrix() { hes_ = false; }
  void clearLinearConstraintsMatrix() { lin_ = false; }
  template <typename Derived>
  bool setHessianMatrix(const Eigen::SparseCompressedBase<Derived>& h)
  {
    if (hes_ || !n_ || h.rows() != d_.n || h.cols() != d_.n)
      return false;
    P_.set(h, true);
    d_.P = &P_.view;
    return hes_ = true;
  }
  template <typename Derived>
  bool setLinearConstraintsMatrix(const Eigen::SparseCompressedBase<Derived>& a)
  {
    if (lin_ || !m_ || !n_ || a.rows() != d_.m || a.cols() != d_.n)
      return false;
    A_.set(a, false);
    d_.A = &A_.view;
    return lin_ = true;
  }
  bool setGradient(Eigen::Ref<Eigen::VectorXd> v)
  {
    if (!n_ || v.rows() != d_.n)
      return false;
    d_.q = v.data();
    return grad_ = true;
  }
  bool setLowerBound(Eigen::Ref<Eigen::VectorXd> v)
  {
    if (!m_ || v.rows() != d_.m)
      return false;
    d_.l = v.data();
    return lo_ = true;
  }
  bool setUpperBound(Eigen::Ref<Eigen::VectorXd> v)
  {
    if (!m_ || v.rows() != d_.m)
      return false;
    d_.u = v.data();
    return up_ = true;
  }
  bool setBounds(Eigen::Ref<Eigen::VectorXd> l, Eigen::Ref<Eigen::VectorXd> u)
  {
    const bool a = setLowerBound(l), b = setUpperBound(u);
    return a && b;
  }
  OSQPData* getData() { return &d_; }
  bool isSet() const { return n_ && m_ && hes_ && lin_ && grad_ && lo_ && up_; }
};

class Solver
{
  Settings s_;
  Data d_;
  OSQPSolver* o_ = nullptr;
  bool init_ = false;
  Eigen::VectorXd x_;
  bool vec(const OSQPFloat* q, const OSQPFloat* l, const OSQPFloat* u) { return osqp_update_data_vec(o_, q, l, u) == 0; }
  template <typename Derived>
  bool update(const Eigen::SparseCompressedBase<Derived>& a, Mat& held, bool hessian)
  {
    Mat n;
    n.set(a, hessian);
    if (n.p == held.p && n.i == held.i)
    {
      if (osqp_update_data_mat(o_,
                               hessian ? n.x.data() : nullptr,
                               nullptr,
                               hessian ? (OSQPInt)n.x.size() : 0,
                               hessian ? nullptr : n.x.data(),
                               nullptr,
                               hessian ? 0 : (OSQPInt)n.x.size()) != 0)
        return false;
      held.set(a, hessian);
      return true;
    }
    // another pattern: set up again, going on from the same point
    const std::vector<double> x(o_->solution->x, o_->solution->x + d_.d_.n), y(o_->solution->y, o_->solution->y + d_.d_.m);
    held.set(a, hessian);
    clearSolver();
    if (!initSolver())
      return false;
    return osqp_warm_start(o_, x.data(), y.data()) == 0;
  }

public:
  Solver() = default;
  Solver(const Solver&) = delete;
  Solver& operator=(const Solver&) = delete;
  ~Solver() { clearSolver(); }
  Settings* settings() { return &s_; }
  Data* data() { return &d_; }
  OSQPSolver* solver() { return o_; }
  bool isInitialized() const { return init_; }
  bool initSolver()
  {
    if (init_ || !d_.isSet())
      return false;
    const OSQPData& d = d_.d_;
    if (osqp_setup(&o_, d.P, d.q, d.A, d.l, d.u, d.m, d.n, s_.getSettings()) != 0)
    {
      osqp_cleanup(o_);
      o_ = nullptr;
      return false;
    }
    return init_ = true;
  }
  void clearSolver()
  {
    if (init_)
      osqp_cleanup(o_);
    o_ = nullptr;
    init_ = false;
  }
  ErrorExitFlag solveProblem() { return init_ ? (ErrorExitFlag)osqp_solve(o_) : ErrorExitFlag::WorkspaceNotInitError; }
  Status getStatus() const { return init_ ? (Status)o_->info->status_val : Status::Unsolved; }
  const Eigen::VectorXd& getSolution()
  {
    x_ = Eigen::Map<Eigen::VectorXd>(o_->solution->x, d_.d_.n);
    return x_;
  }
  bool setWarmStart(const Eigen::VectorXd& x, const Eigen::VectorXd& y)
  {
    if (!init_ || x.size() != d_.d_.n || y.size() != d_.d_.m || osqp_warm_start(o_, x.data(), y.data()) != 0)
      return false;
    sim::Quiet quiet;
    qpstub::warm.assign(x.data(), x.data() + x.size());
    return true;
  }
  template <typename Derived>
  bool updateHessianMatrix(const Eigen::SparseCompressedBase<Derived>& h)
  {
    return init_ && h.rows() == d_.d_.n && h.cols() == d_.d_.n && update(h, d_.P_, true);
  }
  template <typename Derived>
  bool updateLinearConstraintsMatrix(const Eigen::SparseCompressedBase<Derived>& a)
  {
    return init_ && a.rows() == d_.d_.m && a.cols() == d_.d_.n && update(a, d_.A_, false);
  }
  bool updateGradient(const Eigen::Ref<const Eigen::VectorXd>& q) { return init_ && q.size() == d_.d_.n && vec(q.data(), nullptr, nullptr); }
  bool updateLowerBound(const Eigen::Ref<const Eigen::VectorXd>& l) { return init_ && l.size() == d_.d_.m && vec(nullptr, l.data(), nullptr); }
  bool updateUpperBound(const Eigen::Ref<const Eigen::VectorXd>& u) { return init_ && u.size() == d_.d_.m && vec(nullptr, nullptr, u.data()); }
  bool updateBounds(const Eigen::Ref<const Eigen::VectorXd>& l, const Eigen::Ref<const Eigen::VectorXd>& u)
  {
    return init_ && l.size() == d_.d_.m && u.size() == d_.d_.m && vec(nullptr, l.data(), u.data());
  }
};
}  // namespace OsqpEigen
