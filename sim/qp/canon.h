// The problem a QP back end was called with, in one form for all back ends, so that worlds can compare it with the one
// they expect. Stand-ins for the solver libraries convert to this form and ask `solver` for the answer.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace qpstub
{
struct Row
{
  std::map<int, double> a;
  double lo, hi;
};
struct Canon
{
  int n = 0;
  std::vector<double> lb, ub, lin;
  std::map<std::pair<int, int>, double> quad;  // i <= j, sum c_ij x_i x_j
  std::vector<Row> rows;
  void normalise();
};
enum Outcome
{
  SOLVED = 0,
  SOLVED_INACCURATE,
  PRIMAL_INFEASIBLE,
  DUAL_INFEASIBLE,
  GAVE_UP,     // iteration or time limit
  NON_CONVEX
};
struct Answer
{
  int outcome = SOLVED;
  std::vector<double> x;
};
typedef void (*Solver)(const Canon&, Answer&);
extern Solver solver;          // what the stand-ins answer with
extern const char* last_solver;  // which library was asked last
extern Canon last;             // the last problem any stand-in was asked to solve
extern unsigned fault_rate;    // failing calls of the solver libraries, per 1000
extern std::vector<double> warm;  // the point last handed over explicitly as a warm start
extern unsigned solves;        // calls of the solver
extern unsigned api_faults;    // failing calls injected so far

bool fault(const char* what);  // draw one failing call
uint64_t signature(const Canon&);
std::string show(const Canon&);
// "signature mode": outcome and solution are functions of the problem alone
extern uint64_t sig_salt;      // 0: always solved
int sig_outcome(uint64_t sig);
double sig_value(uint64_t sig, int i);
void solve_by_signature(const Canon&, Answer&);
void solve_numerically(const Canon&, Answer&);
}  // namespace qpstub
