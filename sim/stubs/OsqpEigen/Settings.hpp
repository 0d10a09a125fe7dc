// Stand-in for OsqpEigen (for OSQP 1.0), over the stand-in for OSQP.
#pragma once
#include <osqp.h>
namespace OsqpEigen
{
class Settings
{
  OSQPSettings s_;

public:
  Settings() { osqp_set_default_settings(&s_); }
  void resetDefaultSettings() { osqp_set_default_settings(&s_); }
  void setVerbosity(bool v) { s_.verbose = v; }
  void setWarmStart(bool v) { s_.warm_starting = v; }
  void setPolish(bool v) { s_.polishing = v; }
  void setAdaptiveRho(bool v) { s_.adaptive_rho = v; }
  void setMaxIteration(int v) { s_.max_iter = v; }
  void setAbsoluteTolerance(double v) { s_.eps_abs = v; }
  void setRelativeTolerance(double v) { s_.eps_rel = v; }
  void setCheckDualGap(bool v) { s_.check_dualgap = v; }
  OSQPSettings* getSettings() { return &s_; }
};
}  // namespace OsqpEigen
