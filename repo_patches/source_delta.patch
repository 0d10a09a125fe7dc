From 59887d7ab97b1213e08d860f4475db62fe169f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 01/67] fix: a failed allocation in Cache::put must not leave
 an object stored and available at once

put() entered the key into the lookup table, and had already marked the slot as not checked out, before the recency
list node was allocated. When that allocation threw, the key still found the object, but the object could be handed out
again by getOrAcquire() as unused, and erase() could no longer remove it.
---
 trajopt_common/include/trajopt_common/cache.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/trajopt_common/include/trajopt_common/cache.h b/trajopt_common/include/trajopt_common/cache.h
index 39e70c7..cecf7c1 100644
--- a/trajopt_common/include/trajopt_common/cache.h
+++ b/trajopt_common/include/trajopt_common/cache.h
@@ -126,17 +126,23 @@ public:
       }
     }
 
+    // Everything that may fail to allocate comes first: the slot must not be left reachable under the key while it is
+    // neither assigned nor checked out, because it would then be handed out again.
+    const bool newly_assigned = !assigned_[slot];
+    std::list<std::size_t> lru_node;
+    if (newly_assigned)
+      lru_node.push_front(slot);
+    slot_key_[slot] = key;
+    key_to_slot_[key] = slot;
+
     // If this slot was checked out, it is now being returned to the cache.
     checked_out_[slot] = false;
     removeFromFreeSlots(slot);
 
     // Associate and mark MRU.
-    slot_key_[slot] = key;
-    key_to_slot_[key] = slot;
-
-    if (!assigned_[slot])
+    if (newly_assigned)
     {
-      lru_.push_front(slot);
+      lru_.splice(lru_.begin(), lru_node);
       slot_it_[slot] = lru_.begin();
       assigned_[slot] = true;
     }
-- 
2.43.0


From 7c4c973aff8451be1d8b2c215965ddbd8ccbde93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 02/67] fix: transfer whole messages between BPMPDModel and the
 solver process

A pipe may take or deliver a part of a message, and a signal may interrupt the call.
---
 trajopt_sco/include/trajopt_sco/bpmpd_io.hpp | 58 +++++++++++++++-----
 trajopt_sco/src/bpmpd_caller.cpp             | 19 ++++++-
 2 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
index 7ab80ec..570cd4f 100644
--- a/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
+++ b/trajopt_sco/include/trajopt_sco/bpmpd_io.hpp
@@ -2,9 +2,11 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <vector>
-#include <cassert>
+#include <cerrno>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
+#include <stdexcept>
 #include <unistd.h>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -16,6 +18,44 @@ enum SerMode : std::uint8_t
   SER
 };
 
+/**
+ * @brief Write exactly size bytes. A pipe may accept part of them, and a signal may interrupt the call.
+ * @throws std::runtime_error if the other side is gone
+ */
+inline void writeAll(int fp, const void* data, std::size_t size)
+{
+  const char* pos = static_cast<const char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = write(fp, pos, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      throw std::runtime_error("bpmpd_io: write failed, the other side is gone");
+    pos += n;
+    size -= static_cast<std::size_t>(n);
+  }
+}
+
+/**
+ * @brief Read exactly size bytes. A pipe may deliver part of them, and a signal may interrupt the call.
+ * @throws std::runtime_error if the other side is gone
+ */
+inline void readAll(int fp, void* data, std::size_t size)
+{
+  char* pos = static_cast<char*>(data);
+  while (size > 0)
+  {
+    const ssize_t n = read(fp, pos, size);
+    if (n < 0 && errno == EINTR)
+      continue;
+    if (n <= 0)
+      throw std::runtime_error("bpmpd_io: read failed, the other side is gone");
+    pos += n;
+    size -= static_cast<std::size_t>(n);
+  }
+}
+
 template <typename T>
 void ser(int fp, T& x, SerMode mode)
 {
@@ -24,16 +64,12 @@ void ser(int fp, T& x, SerMode mode)
     case SER:
     {
       T xcopy = x;
-      const ssize_t n = write(fp, &xcopy, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      writeAll(fp, &xcopy, sizeof(T));
       break;
     }
     case DESER:
     {
-      const ssize_t n = read(fp, &x, sizeof(T));
-      assert(n == sizeof(T));
-      UNUSED(n);
+      readAll(fp, &x, sizeof(T));
       break;
     }
   }
@@ -48,17 +84,13 @@ void ser(int fp, std::vector<T>& x, SerMode mode)
   {
     case SER:
     {
-      const long n = write(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      writeAll(fp, x.data(), sizeof(T) * size);
       break;
     }
     case DESER:
     {
       x.resize(size);
-      const long n = read(fp, x.data(), sizeof(T) * size);
-      assert(static_cast<unsigned long>(n) == sizeof(T) * size);
-      UNUSED(n);
+      readAll(fp, x.data(), sizeof(T) * size);
       break;
     }
   }
diff --git a/trajopt_sco/src/bpmpd_caller.cpp b/trajopt_sco/src/bpmpd_caller.cpp
index 0110c0a..661b88a 100644
--- a/trajopt_sco/src/bpmpd_caller.cpp
+++ b/trajopt_sco/src/bpmpd_caller.cpp
@@ -1,6 +1,7 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <cerrno>
+#include <exception>
 #include <iostream>
 #include <cstring>
 #include <trajopt_sco/bpmpd_io.hpp>
@@ -47,7 +48,14 @@ int main(int /*argc*/, char** /*argv*/)
   while (true)
   {
     bpmpd_io::bpmpd_input bi;
-    bpmpd_io::ser(STDIN_FILENO, bi, bpmpd_io::DESER);
+    try
+    {
+      bpmpd_io::ser(STDIN_FILENO, bi, bpmpd_io::DESER);
+    }
+    catch (const std::exception&)
+    {
+      return 0;  // the process that asks for solutions is gone
+    }
 
     int memsiz = 0;
     double BIG = 1e30;
@@ -96,6 +104,13 @@ int main(int /*argc*/, char** /*argv*/)
           &bo.opt,
           &memsiz);
 
-    bpmpd_io::ser(STDOUT_FILENO, bo, bpmpd_io::SER);
+    try
+    {
+      bpmpd_io::ser(STDOUT_FILENO, bo, bpmpd_io::SER);
+    }
+    catch (const std::exception&)
+    {
+      return 1;
+    }
   }
 }
-- 
2.43.0


From 21e85402aba8dce8328f5ed447caefaf9daaf592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 03/67] fix: survive the death of the BPMPD solver process

The solver process may fail to start or die at any time. Close the pipe ends of the other side, so that this is noticed, report the
solve as failed instead of blocking or being killed by SIGPIPE, start another process with the next solve, and let the process end
when its user is gone.
---
 trajopt_sco/src/bpmpd_interface.cpp | 133 ++++++++++++++++++++++++----
 1 file changed, 114 insertions(+), 19 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index b6e522a..3325f02 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -1,9 +1,13 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
+#include <cerrno>
 #include <cmath>
 #include <csignal>
+#include <ctime>
 #include <array>
 #include <mutex>
+#include <stdexcept>
+#include <sys/wait.h>
 #include <trajopt_sco/bpmpd_io.hpp>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -168,29 +172,51 @@ pid_t popen2(const char* command, int* infp, int* outfp)
   std::array<int, 2> p_stdout{};
   pid_t pid{ 0 };
 
-  if (pipe(p_stdin.data()) != 0 || pipe(p_stdout.data()) != 0)
+  if (pipe(p_stdin.data()) != 0)
     return -1;
 
+  if (pipe(p_stdout.data()) != 0)
+  {
+    close(p_stdin[READ]);
+    close(p_stdin[WRITE]);
+    return -1;
+  }
+
   pid = fork();
 
   if (pid < 0)
   {
-    assert(0);
+    close(p_stdin[READ]);
+    close(p_stdin[WRITE]);
+    close(p_stdout[READ]);
+    close(p_stdout[WRITE]);
     return pid;
   }
 
   if (pid == 0)
   {
     close(p_stdin[WRITE]);
-    dup2(p_stdin[READ], READ);
     close(p_stdout[READ]);
-    dup2(p_stdout[WRITE], WRITE);
+    if (p_stdin[READ] != READ)
+    {
+      dup2(p_stdin[READ], READ);
+      close(p_stdin[READ]);
+    }
+    if (p_stdout[WRITE] != WRITE)
+    {
+      dup2(p_stdout[WRITE], WRITE);
+      close(p_stdout[WRITE]);
+    }
 
     execl("/bin/sh", "sh", "-c", command, nullptr);
     perror("execl");
-    exit(1);
+    _exit(127);
   }
 
+  // The ends of the other side must not stay open here, otherwise the death of either side goes unnoticed by the other
+  close(p_stdin[READ]);
+  close(p_stdout[WRITE]);
+
   if (infp == nullptr)
     close(p_stdin[WRITE]);
   else
@@ -204,26 +230,81 @@ pid_t popen2(const char* command, int* infp, int* outfp)
   return pid;
 }
 
-static pid_t gPID = 0;    // NOLINT
-static int gPipeIn = 0;   // NOLINT
-static int gPipeOut = 0;  // NOLINT
+static pid_t gPID = 0;     // NOLINT
+static int gPipeIn = -1;   // NOLINT
+static int gPipeOut = -1;  // NOLINT
+
+/** @brief A write to a solver process that is gone must be an error of that write, not the end of this process */
+class IgnoreSigPipe
+{
+public:
+  IgnoreSigPipe()
+  {
+    sigemptyset(&sigpipe_);
+    sigaddset(&sigpipe_, SIGPIPE);
+    sigset_t pending;
+    sigpending(&pending);
+    was_pending_ = sigismember(&pending, SIGPIPE) == 1;
+    pthread_sigmask(SIG_BLOCK, &sigpipe_, &old_mask_);
+  }
+  ~IgnoreSigPipe()
+  {
+    const timespec no_wait{};
+    if (!was_pending_)
+      while (sigtimedwait(&sigpipe_, nullptr, &no_wait) < 0 && errno == EINTR)
+      {
+      }
+    pthread_sigmask(SIG_SETMASK, &old_mask_, nullptr);
+  }
+  IgnoreSigPipe(const IgnoreSigPipe&) = delete;
+  IgnoreSigPipe& operator=(const IgnoreSigPipe&) = delete;
+  IgnoreSigPipe(IgnoreSigPipe&&) = delete;
+  IgnoreSigPipe& operator=(IgnoreSigPipe&&) = delete;
+
+private:
+  sigset_t sigpipe_{};
+  sigset_t old_mask_{};
+  bool was_pending_{ false };
+};
 
 void fexit()
 {
+  if (gPID <= 0)
+    return;
+  const IgnoreSigPipe guard;
   std::array<char, 1> text{ bpmpd_io::EXIT_CHAR };
-  long const n = write(gPipeIn, text.data(), 1);
-  ALWAYS_ASSERT(n == 1);
+  if (write(gPipeIn, text.data(), 1) != 1)
+    LOG_DEBUG("The BPMPD process had already ended.");
+  close(gPipeIn);
+  close(gPipeOut);
+  gPID = 0;
 }
 
-BPMPDModel::BPMPDModel()
+/** @brief Start the solver process unless it runs */
+static bool startSolver()
 {
-  if (gPID == 0)
+  if (gPID > 0)
+    return true;
+  static const int registered = atexit(fexit);
+  UNUSED(registered);
+  gPID = popen2(BPMPD_CALLER, &gPipeIn, &gPipeOut);
+  return gPID > 0;
+}
+
+/** @brief Get rid of a solver process that failed. The next solve starts another one. */
+static void stopSolver()
+{
+  close(gPipeIn);
+  close(gPipeOut);
+  kill(gPID, SIGKILL);
+  while (waitpid(gPID, nullptr, 0) < 0 && errno == EINTR)
   {
-    atexit(fexit);
-    gPID = popen2(BPMPD_CALLER, &gPipeIn, &gPipeOut);
   }
+  gPID = 0;
 }
 
+BPMPDModel::BPMPDModel() { startSolver(); }
+
 // BPMPDModel::~BPMPDModel()
 //{
 // char text[1] = {123};
@@ -518,12 +599,26 @@ CvxOptStatus BPMPDModel::optimize()
                            obj,
                            lbound,
                            ubound);
-  bpmpd_io::ser(gPipeIn, bi, bpmpd_io::SER);
-
-  // std::cout << "serialization time:" << end-start << '\n';
-
   bpmpd_io::bpmpd_output bo;
-  bpmpd_io::ser(gPipeOut, bo, bpmpd_io::DESER);
+  if (!startSolver())
+  {
+    LOG_ERROR("The BPMPD process could not be started.");
+    return CVX_FAILED;
+  }
+  try
+  {
+    const IgnoreSigPipe guard;
+    bpmpd_io::ser(gPipeIn, bi, bpmpd_io::SER);
+    bpmpd_io::ser(gPipeOut, bo, bpmpd_io::DESER);
+    if (bo.primal.size() < n)
+      throw std::runtime_error("the solution is incomplete");
+  }
+  catch (const std::exception& e)
+  {
+    LOG_ERROR("The BPMPD process failed: %s", e.what());
+    stopSolver();
+    return CVX_FAILED;
+  }
 
   m_soln = DblVec(bo.primal.begin(), bo.primal.begin() + static_cast<long int>(n));
   const int retcode = bo.code;
-- 
2.43.0


From 4bf022afb773f8a273bf8cf4a5c3b915754e76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:57 +0000
Subject: [PATCH 04/67] fix: models in different threads take turns with the
 BPMPD solver process

---
 trajopt_sco/src/bpmpd_interface.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 3325f02..5b257f9 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -234,6 +234,9 @@ static pid_t gPID = 0;     // NOLINT
 static int gPipeIn = -1;   // NOLINT
 static int gPipeOut = -1;  // NOLINT
 
+/** @brief The solver process is shared by all models, which may be used by different threads */
+static std::mutex gSolverMutex;  // NOLINT
+
 /** @brief A write to a solver process that is gone must be an error of that write, not the end of this process */
 class IgnoreSigPipe
 {
@@ -280,7 +283,7 @@ void fexit()
   gPID = 0;
 }
 
-/** @brief Start the solver process unless it runs */
+/** @brief Start the solver process unless it runs. The caller must hold gSolverMutex. */
 static bool startSolver()
 {
   if (gPID > 0)
@@ -291,7 +294,7 @@ static bool startSolver()
   return gPID > 0;
 }
 
-/** @brief Get rid of a solver process that failed. The next solve starts another one. */
+/** @brief Get rid of a solver process that failed. The next solve starts another one. The caller must hold gSolverMutex. */
 static void stopSolver()
 {
   close(gPipeIn);
@@ -303,7 +306,11 @@ static void stopSolver()
   gPID = 0;
 }
 
-BPMPDModel::BPMPDModel() { startSolver(); }
+BPMPDModel::BPMPDModel()
+{
+  const std::scoped_lock lock(gSolverMutex);
+  startSolver();
+}
 
 // BPMPDModel::~BPMPDModel()
 //{
@@ -600,6 +607,7 @@ CvxOptStatus BPMPDModel::optimize()
                            lbound,
                            ubound);
   bpmpd_io::bpmpd_output bo;
+  std::unique_lock solver_lock(gSolverMutex);
   if (!startSolver())
   {
     LOG_ERROR("The BPMPD process could not be started.");
@@ -619,6 +627,7 @@ CvxOptStatus BPMPDModel::optimize()
     stopSolver();
     return CVX_FAILED;
   }
+  solver_lock.unlock();
 
   m_soln = DblVec(bo.primal.begin(), bo.primal.begin() + static_cast<long int>(n));
   const int retcode = bo.code;
-- 
2.43.0


From f4c7e83dbea72083db6f3796628f293e68aded64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 05/67] fix: an affine objective replaces a quadratic one

OSQPModel, qpOASESModel and BPMPDModel kept the quadratic terms of the previous objective, other than GurobiModel.
---
 trajopt_sco/src/bpmpd_interface.cpp   | 2 +-
 trajopt_sco/src/osqp_interface.cpp    | 2 +-
 trajopt_sco/src/qpoases_interface.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 5b257f9..0224235 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -644,7 +644,7 @@ CvxOptStatus BPMPDModel::optimize()
 
   // exit(0);
 }
-void BPMPDModel::setObjective(const AffExpr& expr) { m_objective.affexpr = expr; }
+void BPMPDModel::setObjective(const AffExpr& expr) { m_objective = QuadExpr(expr); }
 void BPMPDModel::setObjective(const QuadExpr& expr) { m_objective = expr; }
 void BPMPDModel::writeToFile(const std::string& /*fname*/) const
 {
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index c64b205..6fdb369 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -613,7 +613,7 @@ CvxOptStatus OSQPModel::optimize()
 
   return CVX_FAILED;
 }
-void OSQPModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void OSQPModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void OSQPModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 
 VarVector OSQPModel::getVars() const { return vars_; }
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 1886201..66b9d80 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -259,7 +259,7 @@ CvxOptStatus qpOASESModel::optimize()
 
   return CVX_FAILED;
 }
-void qpOASESModel::setObjective(const AffExpr& expr) { objective_.affexpr = expr; }
+void qpOASESModel::setObjective(const AffExpr& expr) { objective_ = QuadExpr(expr); }
 void qpOASESModel::setObjective(const QuadExpr& expr) { objective_ = expr; }
 void qpOASESModel::writeToFile(const std::string& /*fname*/) const {}
 VarVector qpOASESModel::getVars() const { return vars_; }
-- 
2.43.0


From 337ca51759230dbc1f11ccc71fb4c159f20f53f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 06/67] fix: adding a variable with bounds is thread-safe like
 adding one without

---
 trajopt_sco/src/bpmpd_interface.cpp   | 1 +
 trajopt_sco/src/osqp_interface.cpp    | 1 +
 trajopt_sco/src/qpoases_interface.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/trajopt_sco/src/bpmpd_interface.cpp b/trajopt_sco/src/bpmpd_interface.cpp
index 0224235..c794d49 100644
--- a/trajopt_sco/src/bpmpd_interface.cpp
+++ b/trajopt_sco/src/bpmpd_interface.cpp
@@ -420,6 +420,7 @@ void BPMPDModel::update()
 
 void BPMPDModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(m_mutex);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     auto varind = static_cast<std::size_t>(vars[i].var_rep->index);
diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index 6fdb369..a8cbd82 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -419,6 +419,7 @@ void OSQPModel::update()
 
 void OSQPModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (unsigned i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 66b9d80..2c96e96 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -199,6 +199,7 @@ void qpOASESModel::update()
 
 void qpOASESModel::setVarBounds(const VarVector& vars, const DblVec& lower, const DblVec& upper)
 {
+  const std::scoped_lock lock(mutex_);
   for (std::size_t i = 0; i < vars.size(); ++i)
   {
     const std::size_t varind = vars[i].var_rep->index;
-- 
2.43.0


From 2e3130a8f351733e24f50d3fa310fe30e3893fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 07/67] fix: a cold start of qpOASES after a failed hotstart
 gets the whole iteration limit

---
 trajopt_sco/src/qpoases_interface.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_sco/src/qpoases_interface.cpp b/trajopt_sco/src/qpoases_interface.cpp
index 2c96e96..1af33bc 100644
--- a/trajopt_sco/src/qpoases_interface.cpp
+++ b/trajopt_sco/src/qpoases_interface.cpp
@@ -241,6 +241,8 @@ CvxOptStatus qpOASESModel::optimize()
     //      tests pass.
     createSolver();
 
+    // The hotstart has replaced the limit by the number of working set recalculations it did
+    nWSR = 255;
     val = qpoases_problem_->init(&H_, g_.data(), &A_, lb_.data(), ub_.data(), lbA_.data(), ubA_.data(), nWSR, nullptr);
   }
 
-- 
2.43.0


From b55b08494056611cd58ca7e34ef68888e72b7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:46 +0000
Subject: [PATCH 08/67] fix: forget the OSQP workspace that was released before
 setting up another one

A setup that fails before it allocates anything leaves the pointer as it is.
---
 trajopt_sco/src/osqp_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index a8cbd82..edf8644 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -348,6 +348,7 @@ void OSQPModel::createOrUpdateSolver()
       settings.rho = osqp_workspace_->settings->rho;
     }
     osqp_cleanup(osqp_workspace_);
+    osqp_workspace_ = nullptr;
   }
 
   // Setup workspace - this should be called only once
-- 
2.43.0


From 79d9e786382dd4cc3e03dd8a56456a006ce5a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 09/67] fix: compare the whole sparsity pattern before the OSQP
 workspace is updated

The comparison took the number of elements for the number of bytes, so that it missed changes behind the first eighth of the pattern.
---
 trajopt_sco/src/osqp_interface.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/trajopt_sco/src/osqp_interface.cpp b/trajopt_sco/src/osqp_interface.cpp
index edf8644..ea85797 100644
--- a/trajopt_sco/src/osqp_interface.cpp
+++ b/trajopt_sco/src/osqp_interface.cpp
@@ -195,10 +195,8 @@ bool OSQPModel::updateObjective(bool check_sparsity)
   eigenToCSC(triangular_sm, P_row_indices_, P_column_pointers_, P_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), P_column_pointers_.data(), static_cast<size_t>(P_->n) + 1) == 0;
   sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), P_row_indices_.data(), static_cast<size_t>(P_->nzmax)) == 0);
+      sparsity_equal && prev_column_pointers == P_column_pointers_ && prev_row_indices == P_row_indices_;
 
   P_.reset(OSQPCscMatrix_new(n_,
                              n_,
@@ -265,10 +263,8 @@ bool OSQPModel::updateConstraints(bool check_sparsity)
   eigenToCSC(sm, A_row_indices_, A_column_pointers_, A_csc_data_);
 
   // Check if sparsity has changed
-  sparsity_equal = sparsity_equal &&
-                   memcmp(prev_column_pointers.data(), A_column_pointers_.data(), static_cast<size_t>(A_->n) + 1) == 0;
   sparsity_equal =
-      sparsity_equal && (memcmp(prev_row_indices.data(), A_row_indices_.data(), static_cast<size_t>(A_->nzmax)) == 0);
+      sparsity_equal && prev_column_pointers == A_column_pointers_ && prev_row_indices == A_row_indices_;
 
   A_.reset(OSQPCscMatrix_new(m_,
                              n_,
-- 
2.43.0


From e9ef28910de8b2ac5bfa706670551998824f9ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 10/67] fix: the names of the solvers are in the order of their
 enumeration

---
 trajopt_sco/src/solver_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/solver_interface.cpp b/trajopt_sco/src/solver_interface.cpp
index be35ea8..a936f5e 100644
--- a/trajopt_sco/src/solver_interface.cpp
+++ b/trajopt_sco/src/solver_interface.cpp
@@ -11,7 +11,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace sco
 {
-const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "BPMPD", "OSQP", "QPOASES", "AUTO_SOLVER" };
+const std::vector<std::string> ModelType::MODEL_NAMES_ = { "GUROBI", "OSQP", "QPOASES", "BPMPD", "AUTO_SOLVER" };
 
 void vars2inds(const VarVector& vars, SizeTVec& inds)
 {
-- 
2.43.0


From 1ae532a592274262996ad1163faa2ee5146fc722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 11/67] fix: the closest feasible point respects the lower
 bounds

---
 trajopt_sco/src/modeling.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_sco/src/modeling.cpp b/trajopt_sco/src/modeling.cpp
index 5185c9f..2744198 100644
--- a/trajopt_sco/src/modeling.cpp
+++ b/trajopt_sco/src/modeling.cpp
@@ -263,9 +263,9 @@ DblVec OptProb::getClosestFeasiblePoint(const DblVec& x, const double& delta)
   DblVec y(x.size());
   for (std::size_t i = 0; i < x.size(); i++)
   {
-    // Force it a tiny bit inside the bounds
-    y[i] = fmax(lower_bounds_[i] + delta, x[i]);
-    y[i] = fmin(upper_bounds_[i] - delta, x[i]);
+    // Force it a tiny bit inside the bounds, in the middle if there is less room than that
+    const double margin = fmin(delta, (upper_bounds_[i] - lower_bounds_[i]) / 2);
+    y[i] = fmin(upper_bounds_[i] - margin, fmax(lower_bounds_[i] + margin, x[i]));
   }
   return y;
 }
-- 
2.43.0


From 5042db7078ac4a8693963a8847dcbdc8f4a20553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:10 +0000
Subject: [PATCH 12/67] fix: adjusting the system clock does not change the
 time limit of the SQP

---
 trajopt_sco/src/optimizers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index fce8e57..8052b27 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -729,7 +729,7 @@ OptStatus BasicTrustRegionSQP::optimize()
 
   OptStatus retval = INVALID;
 
-  using Clock = std::chrono::high_resolution_clock;
+  using Clock = std::chrono::steady_clock;
   auto start_time = Clock::now();
 
   for (int merit_increases = 0; merit_increases < param_.max_merit_coeff_increases; ++merit_increases)
-- 
2.43.0


From ae4530a705b9bc884c2c7e5f88c1f272174c3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 13/67] fix: the SQP evaluates its start point in every
 optimization, whatever the time limit

---
 trajopt_sco/src/optimizers.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 8052b27..2f751c4 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -722,7 +722,10 @@ OptStatus BasicTrustRegionSQP::optimize()
   if (!prob_)
     PRINT_AND_THROW("you forgot to set the optimization problem");
 
-  results_.x = prob_->getClosestFeasiblePoint(results_.x);
+  // Every optimization starts afresh, from the current point
+  DblVec x_start = prob_->getClosestFeasiblePoint(results_.x);
+  results_.clear();
+  results_.x = std::move(x_start);
 
   assert(results_.x.size() == prob_->getVars().size());
   assert(!prob_->getCosts().empty() || !constraints.empty());
@@ -732,6 +735,11 @@ OptStatus BasicTrustRegionSQP::optimize()
   using Clock = std::chrono::steady_clock;
   auto start_time = Clock::now();
 
+  // The values of later iterates are known from the evaluation of the step that led there
+  results_.cnt_viols = evaluateConstraintViols(constraints, results_.x);
+  results_.cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
+  ++results_.n_func_evals;
+
   for (int merit_increases = 0; merit_increases < param_.max_merit_coeff_increases; ++merit_increases)
   { /* merit adjustment loop */
     for (int iter = 1;; ++iter)
@@ -756,16 +764,6 @@ OptStatus BasicTrustRegionSQP::optimize()
       LOG_DEBUG("current iterate: %s", CSTR(results_.x));
       LOG_INFO("iteration %i", iter);
 
-      // speedup: if you just evaluated the cost when doing the line search, use
-      // that
-      if (results_.cost_vals.empty() && results_.cnt_viols.empty())
-      {  // only happens on the first iteration
-        results_.cnt_viols = evaluateConstraintViols(constraints, results_.x);
-        results_.cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
-        assert(results_.n_func_evals == 0);
-        ++results_.n_func_evals;
-      }
-
       // DblVec new_cnt_viols = evaluateConstraintViols(constraints, results_.x);
       // DblVec new_cost_vals = evaluateCosts(prob_->getCosts(), results_.x);
       // cout << "costs" << endl;
-- 
2.43.0


From 14832c52e51f0c946fe15b2820c3e0e71e06fb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:53 +0000
Subject: [PATCH 14/67] fix: the SQP neither accepts a step to a point where
 the merit is NaN nor takes NaN for a satisfied constraint

---
 trajopt_sco/src/optimizers.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 2f751c4..aca77bc 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -79,6 +79,12 @@ std::vector<ConvexObjective::Ptr> cntsToCosts(const std::vector<ConvexConstraint
   }
   return out;
 }
+
+/** True if every violation is below the tolerance; NaN is not */
+bool allWithin(const DblVec& viols, double tolerance)
+{
+  return std::all_of(viols.begin(), viols.end(), [tolerance](double viol) { return viol < tolerance; });
+}
 }  // namespace
 
 bool BasicTrustRegionSQPParameters::operator==(const BasicTrustRegionSQPParameters& rhs) const
@@ -750,7 +756,7 @@ OptStatus BasicTrustRegionSQP::optimize()
         LOG_INFO("Elapsed time %f has exceeded max time %f", elapsed_time, param_.max_time);
         retval = OPT_TIME_LIMIT;
 
-        if (results_.cnt_viols.empty() || vecMax(results_.cnt_viols) < param_.cnt_tolerance)
+        if (allWithin(results_.cnt_viols, param_.cnt_tolerance))
         {
           retval = OPT_CONVERGED;
           if (!results_.cnt_viols.empty())
@@ -894,7 +900,7 @@ OptStatus BasicTrustRegionSQP::optimize()
           retval = OPT_CONVERGED;
           goto penaltyadjustment;
         }
-        else if (iteration_results.exact_merit_improve < 0 ||
+        else if (std::isnan(iteration_results.new_merit) || iteration_results.exact_merit_improve < 0 ||
                  iteration_results.merit_improve_ratio < param_.improve_ratio_threshold)
         {
           adjustTrustRegion(param_.trust_shrink_ratio);
@@ -922,7 +928,7 @@ OptStatus BasicTrustRegionSQP::optimize()
         LOG_INFO("iteration limit");
         retval = OPT_SCO_ITERATION_LIMIT;
 
-        if (results_.cnt_viols.empty() || vecMax(results_.cnt_viols) < param_.cnt_tolerance)
+        if (allWithin(results_.cnt_viols, param_.cnt_tolerance))
         {
           retval = OPT_CONVERGED;
           if (!results_.cnt_viols.empty())
@@ -934,7 +940,7 @@ OptStatus BasicTrustRegionSQP::optimize()
     } /* sqp loop */
 
   penaltyadjustment:
-    if (results_.cnt_viols.empty() || vecMax(results_.cnt_viols) < param_.cnt_tolerance)
+    if (allWithin(results_.cnt_viols, param_.cnt_tolerance))
     {
       if (!results_.cnt_viols.empty())
         LOG_INFO("woo-hoo! constraints are satisfied (to tolerance %.2e)", param_.cnt_tolerance);
-- 
2.43.0


From 2182e4866ceb0b81c9e8bb6f47a01aac8087600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 15/67] fix: repeated QP failures end the SQP with a failure
 when the trust region is small, too

---
 trajopt_sco/src/optimizers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index aca77bc..bc88951 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -825,7 +825,9 @@ OptStatus BasicTrustRegionSQP::optimize()
           model_->writeToFile("/tmp/fail.lp");
           if (qp_solver_failures < (param_.max_qp_solver_failures - 1))
           {
-            adjustTrustRegion(param_.trust_shrink_ratio);
+            // Not below the minimum, where the failures would pass for convergence
+            setTrustRegionSize(
+                std::max(param_.trust_box_size * param_.trust_shrink_ratio, param_.min_trust_box_size));
             LOG_INFO("shrunk trust region. new box size: %.4f", param_.trust_box_size);
             qp_solver_failures++;
             continue;
-- 
2.43.0


From 8cca2b843ae419ed3106109de627723d58a6a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:19 +0000
Subject: [PATCH 16/67] fix: the SQP closes its log files exactly if they were
 opened, whatever ends it

---
 trajopt_sco/src/optimizers.cpp | 42 ++++++++++++++++------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index bc88951..253b1f0 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -5,6 +5,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <cmath>
 #include <chrono>
 #include <cstdio>
+#include <memory>
 TRAJOPT_IGNORE_WARNINGS_POP
 
 #include <trajopt_sco/expr_ops.hpp>
@@ -80,6 +81,12 @@ std::vector<ConvexObjective::Ptr> cntsToCosts(const std::vector<ConvexConstraint
   return out;
 }
 
+struct FileCloser
+{
+  void operator()(std::FILE* file) const { std::fclose(file); }
+};
+using LogStream = std::unique_ptr<std::FILE, FileCloser>;
+
 /** True if every violation is below the tolerance; NaN is not */
 bool allWithin(const DblVec& viols, double tolerance)
 {
@@ -711,16 +718,17 @@ OptStatus BasicTrustRegionSQP::optimize()
   std::vector<double> merit_error_coeffs(constraints.size(), param_.initial_merit_error_coeff);
   BasicTrustRegionSQPResults iteration_results(var_names, cost_names, cnt_names, *this);
 
-  std::FILE* log_solver_stream = nullptr;
-  std::FILE* log_vars_stream = nullptr;
-  std::FILE* log_costs_stream = nullptr;
-  std::FILE* log_constraints_stream = nullptr;
+  // Closed however this function is left; null if logging is off or the file could not be opened
+  LogStream log_solver_stream;
+  LogStream log_vars_stream;
+  LogStream log_costs_stream;
+  LogStream log_constraints_stream;
   if (param_.log_results || trajopt_common::GetLogLevel() >= trajopt_common::LevelDebug)
   {
-    log_solver_stream = std::fopen((param_.log_dir + "/trajopt_solver.log").c_str(), "w");
-    log_vars_stream = std::fopen((param_.log_dir + "/trajopt_vars.log").c_str(), "w");
-    log_costs_stream = std::fopen((param_.log_dir + "/trajopt_costs.log").c_str(), "w");
-    log_constraints_stream = std::fopen((param_.log_dir + "/trajopt_constraints.log").c_str(), "w");
+    log_solver_stream.reset(std::fopen((param_.log_dir + "/trajopt_solver.log").c_str(), "w"));
+    log_vars_stream.reset(std::fopen((param_.log_dir + "/trajopt_vars.log").c_str(), "w"));
+    log_costs_stream.reset(std::fopen((param_.log_dir + "/trajopt_costs.log").c_str(), "w"));
+    log_constraints_stream.reset(std::fopen((param_.log_dir + "/trajopt_constraints.log").c_str(), "w"));
   }
 
   if (results_.x.empty())
@@ -864,16 +872,16 @@ OptStatus BasicTrustRegionSQP::optimize()
         if (param_.log_results || trajopt_common::GetLogLevel() >= trajopt_common::LevelDebug)
         {
           if (log_solver_stream != nullptr)
-            iteration_results.writeSolver(log_solver_stream, results_.n_func_evals == 1);
+            iteration_results.writeSolver(log_solver_stream.get(), results_.n_func_evals == 1);
 
           if (log_vars_stream != nullptr)
-            iteration_results.writeVars(log_vars_stream, results_.n_func_evals == 1);
+            iteration_results.writeVars(log_vars_stream.get(), results_.n_func_evals == 1);
 
           if (log_costs_stream != nullptr)
-            iteration_results.writeCosts(log_costs_stream, results_.n_func_evals == 1);
+            iteration_results.writeCosts(log_costs_stream.get(), results_.n_func_evals == 1);
 
           if (log_constraints_stream != nullptr)
-            iteration_results.writeConstraints(log_constraints_stream, results_.n_func_evals == 1);
+            iteration_results.writeConstraints(log_constraints_stream.get(), results_.n_func_evals == 1);
         }
 
         ++results_.n_func_evals;
@@ -983,16 +991,6 @@ cleanup:
   LOG_INFO("\n==================\n%s==================", CSTR(results_));
   callCallbacks();
 
-  // NOLINTBEGIN(clang-analyzer-core.NonNullParamChecker)
-  if (param_.log_results || trajopt_common::GetLogLevel() >= trajopt_common::LevelDebug)
-  {
-    std::fclose(log_solver_stream);
-    std::fclose(log_vars_stream);
-    std::fclose(log_costs_stream);
-    std::fclose(log_constraints_stream);
-  }
-  // NOLINTEND(clang-analyzer-core.NonNullParamChecker)
-
   return retval;
 }
 }  // namespace sco
-- 
2.43.0


From 95d646c9468aa10c9f193854f00823e27caa740e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:11 +0000
Subject: [PATCH 17/67] fix: stop the SQP solver when a callback asks for it or
 the QP solver gives up

A step went on, and solve() replaced the status by running or converged, so
neither was ever reported and a failed solve could be taken for convergence.
---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index eeccd77..ef98bcf 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -123,6 +123,10 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
         break;
     }
 
+    // A callback asked to stop or the QP solver gave up, so this must not be reported as anything else
+    if (status_ == SQPStatus::kStoppedByCallback || status_ == SQPStatus::kQPSolveFailed)
+      break;
+
     // Check if constraints are satisfied
     if (verifySQPSolverConvergence())
     {
@@ -246,8 +250,8 @@ bool TrustRegionSQPSolver::stepSQPSolver()
   // Trust region loop
   runTrustRegionLoop();
 
-  // Check if the NLP has converged
-  if (status_ == SQPStatus::kConverged)
+  // Check if the NLP has converged or cannot continue because of a callback or the QP solver
+  if (status_ != SQPStatus::kRunning)
     return true;
 
   if (results_.box_size.maxCoeff() < params.min_trust_box_size)
-- 
2.43.0


From 864ac3d812776f1854d77b017a12811d256def49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 18/67] fix: never take an undefined constraint value or merit
 for a good one

A NaN value was reported as no violation, so an undefined constraint counted as
satisfied, and a step to a point with an undefined merit was accepted.
---
 trajopt_ifopt/src/utils/ifopt_utils.cpp                      | 5 +++++
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp              | 5 +++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/src/utils/ifopt_utils.cpp b/trajopt_ifopt/src/utils/ifopt_utils.cpp
index d1dd657..06513ec 100644
--- a/trajopt_ifopt/src/utils/ifopt_utils.cpp
+++ b/trajopt_ifopt/src/utils/ifopt_utils.cpp
@@ -29,6 +29,7 @@
 #include <trajopt_ifopt/utils/ifopt_utils.h>
 
 #include <cassert>
+#include <cmath>
 
 namespace trajopt_ifopt
 {
@@ -114,6 +115,8 @@ void calcBoundsErrors(Eigen::Ref<Eigen::VectorXd> out,
       out[i] = x - lb;  // negative
     else if (x > ub)
       out[i] = x - ub;  // positive
+    else if (std::isnan(x))
+      out[i] = x;  // an undefined value does not satisfy any bound
     else
       out[i] = 0.0;
   }
@@ -139,6 +142,8 @@ void calcBoundsViolations(Eigen::Ref<Eigen::VectorXd> out,
       out[i] = std::abs(x - lb);  // negative
     else if (x > ub)
       out[i] = std::abs(x - ub);  // positive
+    else if (std::isnan(x))
+      out[i] = x;  // an undefined value does not satisfy any bound
     else
       out[i] = 0.0;
   }
diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index ef98bcf..bdb2aaa 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -171,7 +171,7 @@ bool TrustRegionSQPSolver::verifySQPSolverConvergence()
     return true;
   }
 
-  if (results_.best_constraint_violations.maxCoeff() < params.cnt_tolerance)
+  if ((results_.best_constraint_violations.array() < params.cnt_tolerance).all())
   {
     CONSOLE_BRIDGE_logDebug("woo-hoo! constraints are satisfied (to tolerance %.2e)", params.cnt_tolerance);
     return true;
@@ -340,7 +340,8 @@ void TrustRegionSQPSolver::runTrustRegionLoop()
 
     // Check if the bounding trust region needs to be shrunk
     // This happens if the exact solution got worse or if the QP approximation deviates from the exact by too much
-    if (results_.exact_merit_improve < 0 || results_.merit_improve_ratio < params.improve_ratio_threshold)
+    // The comparisons are negated so that undefined (NaN) values are never accepted
+    if (!(results_.exact_merit_improve >= 0) || !(results_.merit_improve_ratio >= params.improve_ratio_threshold))
     {
       qp_problem->scaleBoxSize(params.trust_shrink_ratio);
       qp_solver->updateBounds(qp_problem->getBoundsLower(), qp_problem->getBoundsUpper());
-- 
2.43.0


From 0a502e6051999d570c5af6c81dcd6b26119c08b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 19/67] fix: count the QP calls of the trust region loop
 against max_iterations

The documented limit on the number of QP calls was only looked at before each
convexification, so it could be exceeded.
---
 .../include/trajopt_sqp/trust_region_sqp_solver.h      |  4 ++++
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp        | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
index f8e8396..00ae5bf 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/trust_region_sqp_solver.h
@@ -29,6 +29,7 @@
 #ifndef TRAJOPT_SQP_INCLUDE_SIMPLE_SQP_SOLVER_H_
 #define TRAJOPT_SQP_INCLUDE_SIMPLE_SQP_SOLVER_H_
 
+#include <limits>
 #include <memory>
 #include <vector>
 
@@ -126,6 +127,9 @@ protected:
   SQPResults results_;
   std::vector<std::shared_ptr<SQPCallback>> callbacks_;
 
+  /** @brief The number of QP calls at which solve() must stop, unlimited when stepping directly (online planning) */
+  int iteration_limit_{ std::numeric_limits<int>::max() };
+
   void constraintMeritCoeffChanged();
 };
 
diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index bdb2aaa..e4000b5 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -35,6 +35,7 @@
 #include <console_bridge/console.h>
 #include <chrono>
 #include <cassert>
+#include <limits>
 
 namespace trajopt_sqp
 {
@@ -45,6 +46,7 @@ TrustRegionSQPSolver::TrustRegionSQPSolver(QPSolver::Ptr qp_solver) : qp_solver(
 bool TrustRegionSQPSolver::init(QPProblem::Ptr qp_prob)
 {
   qp_problem = std::move(qp_prob);
+  iteration_limit_ = std::numeric_limits<int>::max();
 
   // Initialize optimization parameters
   results_ = SQPResults(qp_problem->getNumNLPVars(), qp_problem->getNumNLPConstraints(), qp_problem->getNumNLPCosts());
@@ -94,6 +96,7 @@ void TrustRegionSQPSolver::solve(const QPProblem::Ptr& qp_problem)
 
   // Initialize solver
   init(qp_problem);
+  iteration_limit_ = params.max_iterations;
 
   // Penalty Iteration Loop
   for (int penalty_iteration = 0; penalty_iteration < params.max_merit_coeff_increases; penalty_iteration++)
@@ -272,6 +275,13 @@ void TrustRegionSQPSolver::runTrustRegionLoop()
     if (SUPER_DEBUG_MODE)
       qp_problem->print();
 
+    if (results_.overall_iteration >= iteration_limit_)
+    {
+      CONSOLE_BRIDGE_logDebug("Iteration limit");
+      status_ = SQPStatus::kIterationLimit;
+      return;
+    }
+
     results_.overall_iteration++;
     results_.trust_region_iteration++;
 
-- 
2.43.0


From 4ef593cd94292906cfd7b7f456ce31104de13720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 20/67] fix: do not shift the constraint penalties when a
 dynamic constraint has no rows

The constraints after one without rows got the penalty of their predecessor.
---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8d88f0b..ef972e3 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -746,7 +746,12 @@ void TrajOptQPProblem::Implementation::convexify()
     const auto& info = cvp.constraint_term_infos[i].get();
     const auto& cnt = constraint_terms[i];
     if (info.rows == 0)
+    {
+      // The penalty of a constraint without rows must not be used for the next constraint
+      if (info.type == ComponentInfoType::kMeritConstraint)
+        ++merit_constraint_index;
       continue;
+    }
 
     // Linearize Constraints
     const trajopt_ifopt::Jacobian jac = cnt->getJacobian();
-- 
2.43.0


From 69692a17f4c20e35eb542e320eabb6b1a9617b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 21/67] fix: set up a TrajOptQPProblem completely when setup()
 is called again

The component data was cleared, but update() returned early and never filled it.
---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index ef972e3..8600d9b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -567,6 +567,9 @@ void TrajOptQPProblem::Implementation::update()
 
 void TrajOptQPProblem::Implementation::setup()
 {
+  // All component data is rebuilt below
+  initialized = false;
+
   objective_terms.clear();
   objective_terms.insert(objective_terms.end(), squared_costs.begin(), squared_costs.end());
   objective_terms.insert(objective_terms.end(), dyn_squared_costs.begin(), dyn_squared_costs.end());
-- 
2.43.0


From 02297dea5e914ff5d30e7b06f92f95dbfe2408bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 22/67] fix: do not evaluate convex costs that were never
 convexified

While all squared costs have no rows, the model of an earlier convexification,
or none, was evaluated.
---
 trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 8600d9b..fa905b3 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -145,7 +145,12 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
   Eigen::Index row_offset{ 0 };
 
   // Squared costs (already convexified into squared_objective_nlp_)
-  if (!objective_term_infos.empty())
+  if (!objective_term_infos.empty() && n_objective_terms == 0)
+  {
+    // Nothing was convexified, all of the costs currently have no rows
+    cost_idx += static_cast<Eigen::Index>(objective_term_infos.size());
+  }
+  else if (!objective_term_infos.empty())
   {
     // reuse scratch_val (ensure big enough once)
     if (scratch_val.size() < n_objective_terms)
-- 
2.43.0


From c48acea29c8edfa440a559f61c900c7c36320336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:13 +0000
Subject: [PATCH 23/67] fix: evaluate hinge and absolute costs as the
 subproblem penalises them

The predicted cost included the slack variables, which makes it always zero, and
the coefficients of the costs were ignored, so that the predicted improvement
was wrong and the improvement of the merit was not that of the costs.
---
 .../trajopt_sqp/src/trajopt_qp_problem.cpp          | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index fa905b3..5049c37 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -130,7 +130,6 @@ struct ConvexProblem
 
 Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen::VectorXd>& var_vals) const
 {
-  /** @note The legacy trajop appears to use all variables include slack for convex cost evaluation */
   const auto total_cost = static_cast<Eigen::Index>(objective_term_infos.size() + penalty_constraint_infos.size());
 
   if (total_cost == 0)
@@ -177,7 +176,9 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
       continue;
     }
 
-    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows);
+    // The slack variables must be excluded or the violation is always zero
+    // NOLINTNEXTLINE
+    auto jac = constraint_matrix.middleRows(row_offset, c_info.rows).leftCols(n_nlp_vars);
     auto constant = constraint_constant.segment(row_offset, c_info.rows);
 
     // Ensure scratch buffers big enough (no allocation after first growth)
@@ -190,13 +191,13 @@ Eigen::VectorXd ConvexProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen:
     auto err = scratch_err.head(c_info.rows);
 
     // scratch_val = constant + jac * var_vals
-    val = constant;                   // copy into scratch (but no alloc)
-    val.noalias() += jac * var_vals;  // mat-vec into existing memory
+    val = constant;                    // copy into scratch (but no alloc)
+    val.noalias() += jac * var_block;  // mat-vec into existing memory
 
     // compute violations in-place
     trajopt_ifopt::calcBoundsViolations(err, val, c_info.bounds);
 
-    costs(cost_idx++) = err.sum();
+    costs(cost_idx++) = err.dot(c_info.coeffs);
     assert(!(err.array() < -1e-8).any());
     row_offset += c_info.rows;
   }
@@ -1026,7 +1027,7 @@ Eigen::VectorXd TrajOptQPProblem::Implementation::getExactCosts() const
     auto err = scratch_err.head(c->getRows());
 
     trajopt_ifopt::calcBoundsViolations(err, c->getValues(), c->getBounds());
-    g(cost_idx++) = err.sum();
+    g(cost_idx++) = err.dot(c->getCoefficients());
   }
 
   return g;
-- 
2.43.0


From 2b2c8e4f292c916f770a6dd0466acec226a9923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 24/67] fix: evaluate all cost terms of a problem, not only the
 first

The cost terms are stacked, and only the first row was used for the value and
the gradient of the cost function.
---
 trajopt_ifopt/src/core/problem.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/trajopt_ifopt/src/core/problem.cpp b/trajopt_ifopt/src/core/problem.cpp
index d73ae7c..e1dba28 100644
--- a/trajopt_ifopt/src/core/problem.cpp
+++ b/trajopt_ifopt/src/core/problem.cpp
@@ -68,11 +68,10 @@ void Problem::setVariables(const double* x)
 
 double Problem::evaluateCostFunction()
 {
-  Eigen::VectorXd g = Eigen::VectorXd::Zero(1);
-  if (hasCostTerms())
-    g = costs_.getValues();
+  if (!hasCostTerms())
+    return 0;
 
-  return g(0);
+  return costs_.getValues().sum();
 }
 
 Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference_approximation, double epsilon)
@@ -101,7 +100,7 @@ Eigen::VectorXd Problem::evaluateCostFunctionGradient(bool use_finite_difference
     }
     else
     {
-      jac = costs_.getJacobian();
+      return costs_.getJacobian().transpose() * Eigen::VectorXd::Ones(costs_.getRows());
     }
   }
 
-- 
2.43.0


From 99140b147c0d57d160ca128608a9955157b192f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 25/67] fix: do not repeat the names when
 IfoptQPProblem::setup() is called again

---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 9adb993..0f2c751 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -94,6 +94,8 @@ void IfoptQPProblem::setup()
   constraint_types_.resize(static_cast<std::size_t>(num_nlp_cnts_));
 
   // Get NLP Cost and Constraint Names for Debug Print
+  constraint_names_.clear();
+  cost_names_.clear();
   for (const auto& cnt : nlp_->getConstraints().getComponents())
   {
     for (Eigen::Index j = 0; j < cnt->getRows(); j++)
-- 
2.43.0


From 0e5c2177b722cfc5904f79394b6dbb94667fc6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 26/67] fix: weight the exact costs of IfoptQPProblem like
 those of the subproblem

The subproblem uses the coefficients of the costs, the exact costs did not, so
the merit was that of another problem.
---
 trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 0f2c751..2f8a933 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -62,13 +62,13 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   {
     case CostPenaltyType::kSquared:
     {
-      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
     case CostPenaltyType::kAbsolute:
     {
-      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set);
+      auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set, constraint_set->getCoefficients());
       nlp_->addCostSet(std::move(cost));
       break;
     }
-- 
2.43.0


From c1faeda738e608d4e8b9cd821991a866d8be9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:01 +0000
Subject: [PATCH 27/67] fix: predict each cost of IfoptQPProblem with its own
 model

Every predicted cost contained the gradient and hessian of all costs, so with
more than one the predicted improvement was a multiple of the real one.
---
 .../include/trajopt_sqp/ifopt_qp_problem.h    |  6 ++-
 .../trajopt_sqp/src/ifopt_qp_problem.cpp      | 52 +++++++++++--------
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
index f7a12e6..566ffa1 100644
--- a/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
+++ b/trajopt_optimizers/trajopt_sqp/include/trajopt_sqp/ifopt_qp_problem.h
@@ -114,9 +114,13 @@ protected:
   trajopt_ifopt::Jacobian hessian_;
   Eigen::VectorXd gradient_;
   Eigen::VectorXd cost_constant_;
+  Eigen::VectorXd cost_linearization_point_;
+  std::vector<Eigen::VectorXd> cost_errors_;
+  std::vector<trajopt_ifopt::Jacobian> cost_jacobians_;
 
   /** @brief Raw constraint sets underlying each SquaredCost, saved for Hessian/gradient computation */
   std::vector<std::shared_ptr<trajopt_ifopt::ConstraintSet>> cost_constraints_;
+  std::vector<CostPenaltyType> cost_types_;
 
   trajopt_ifopt::Jacobian constraint_matrix_;
   Eigen::VectorXd bounds_lower_;
@@ -191,7 +195,7 @@ protected:
   /** @brief This calculates the constant expression in the quadratic expression for the constraints */
   void updateConstraintsConstantExpression();
 
-  /** @brief This calculates the constant expression in the quadratic expression for the costs */
+  /** @brief This stores the data needed to evaluate the model of each cost */
   void updateCostsConstantExpression();
 };
 
diff --git a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
index 2f8a933..42c706d 100644
--- a/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/ifopt_qp_problem.cpp
@@ -56,19 +56,22 @@ void IfoptQPProblem::addCostSet(std::shared_ptr<trajopt_ifopt::ConstraintSet> co
   // Save raw constraint for Hessian/gradient computation (SquaredCost wraps it
   // but doesn't expose the raw Jacobian needed for the Gauss-Newton Hessian)
   constraint_set->linkWithVariables(nlp_->getOptVariables());
-  cost_constraints_.push_back(constraint_set);
 
   switch (penalty_type)
   {
     case CostPenaltyType::kSquared:
     {
       auto cost = std::make_shared<trajopt_ifopt::SquaredCost>(constraint_set, constraint_set->getCoefficients());
+      cost_constraints_.push_back(constraint_set);
+      cost_types_.push_back(penalty_type);
       nlp_->addCostSet(std::move(cost));
       break;
     }
     case CostPenaltyType::kAbsolute:
     {
       auto cost = std::make_shared<trajopt_ifopt::AbsoluteCost>(constraint_set, constraint_set->getCoefficients());
+      cost_constraints_.push_back(constraint_set);
+      cost_types_.push_back(penalty_type);
       nlp_->addCostSet(std::move(cost));
       break;
     }
@@ -377,28 +380,23 @@ void IfoptQPProblem::updateCostsConstantExpression()
   if (num_nlp_costs_ == 0)
     return;
 
-  // Get values about which we will linearize
-  Eigen::VectorXd x_initial = nlp_->getVariableValues().head(num_nlp_vars_);
-  const Eigen::VectorXd cost_initial_value = nlp_->getCosts().getValues();
+  // The values at the point about which the costs are linearized
+  cost_constant_ = nlp_->getCosts().getValues();
+  cost_linearization_point_ = nlp_->getVariableValues().head(num_nlp_vars_);
 
-  // In the case of a QP problem the costs and constraints are represented as
-  // quadratic functions is f(x) = a + b * x + c * x^2.
-  // When convexifying the function it need to produce the same cost values at the values used to calculate
-  // the Jacobian and Hessian, so f(x_initial) = a + b * x + c * x^2 = cost_initial_value.
-  // Therefore a = cost_initial_value - b * x - c * x^2
-  //     where: b = gradient_
-  //            c = hessian_
-  //            x = x_initial
-  //            a = quadratic constant (cost_constant_)
+  // Each cost has a model of its own, gradient_ and hessian_ are those of the sum of all costs.
   //
   // Note: This is not used by the QP solver directly but by the Trust Regions Solver
   //       to calculate the merit of the solve.
-
-  // The block excludes the slack variables
-  /** @todo I am not sure this is correct because the gradient_ is not each individual cost function gradient */
-  const double result_quad = x_initial.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * x_initial;
-  const double result_lin = x_initial.dot(gradient_.head(num_nlp_vars_));
-  cost_constant_ = cost_initial_value.array() - result_quad - result_lin;
+  cost_errors_.clear();
+  cost_jacobians_.clear();
+  for (const auto& c : cost_constraints_)
+  {
+    Eigen::VectorXd errors(c->getRows());
+    trajopt_ifopt::calcBoundsErrors(errors, c->getValues(), c->getBounds());
+    cost_errors_.push_back(std::move(errors));
+    cost_jacobians_.push_back(c->getJacobian());
+  }
 }
 
 void IfoptQPProblem::updateConstraintsConstantExpression()
@@ -518,10 +516,18 @@ Eigen::VectorXd IfoptQPProblem::evaluateConvexCosts(const Eigen::Ref<const Eigen
   if (num_nlp_costs_ == 0)
     return {};
 
-  auto var_block = var_vals.head(num_nlp_vars_);
-  const double result_quad = var_block.transpose() * hessian_.block(0, 0, num_nlp_vars_, num_nlp_vars_) * var_block;
-  const double result_lin = var_block.dot(gradient_.head(num_nlp_vars_));
-  return cost_constant_.array() + result_lin + result_quad;
+  // Cost terms which are not modeled by the subproblem keep the value they have at the linearization point
+  Eigen::VectorXd costs = cost_constant_;
+  const Eigen::VectorXd delta = var_vals.head(num_nlp_vars_) - cost_linearization_point_;
+  const Eigen::Index offset = costs.size() - static_cast<Eigen::Index>(cost_errors_.size());
+  for (std::size_t i = 0; i < cost_errors_.size(); ++i)
+  {
+    const Eigen::VectorXd errors = cost_errors_[i] + cost_jacobians_[i] * delta;
+    const Eigen::VectorXd weights = cost_constraints_[i]->getCoefficients().cwiseAbs();
+    costs(offset + static_cast<Eigen::Index>(i)) =
+        (cost_types_[i] == CostPenaltyType::kSquared) ? weights.dot(errors.cwiseAbs2()) : weights.dot(errors.cwiseAbs());
+  }
+  return costs;
 }
 
 double IfoptQPProblem::getTotalExactCost() const { return nlp_->evaluateCostFunction(); }
-- 
2.43.0


From 8621139458a92b0e2e6a395b6dcccdb265bdcc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 28/67] fix: OSQPEigenSolver does not stay failed after a
 successful solve

---
 trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 248674d..70d733f 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -169,6 +169,7 @@ bool OSQPEigenSolver::solve()
     {
       std::cout << "OSQP Solution: " << solver_->getSolution().transpose().format(format) << '\n';
     }
+    solver_status_ = QPSolverStatus::kInitialized;
     return true;
   }
 
-- 
2.43.0


From 9501d71db249ce37a2fce0e744d8e2d4cf05d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 29/67] fix: report a constraint matrix of another size instead
 of aborting

A TrustRegionSQPSolver that is used for a second problem tries to update the
QP in place and builds it anew if that is refused.
---
 trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 70d733f..54db12d 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -265,8 +265,9 @@ bool OSQPEigenSolver::updateBounds(const Eigen::Ref<const Eigen::VectorXd>& lowe
 
 bool OSQPEigenSolver::updateLinearConstraintsMatrix(const trajopt_ifopt::Jacobian& linearConstraintsMatrix)
 {
-  assert(num_cnts_ == linearConstraintsMatrix.rows());
-  assert(num_vars_ == linearConstraintsMatrix.cols());
+  // The caller rebuilds the problem if it cannot be updated
+  if (num_cnts_ != linearConstraintsMatrix.rows() || num_vars_ != linearConstraintsMatrix.cols())
+    return false;
 
   if (solver_->isInitialized())
     return solver_->updateLinearConstraintsMatrix(linearConstraintsMatrix);
-- 
2.43.0


From 35cdb24376ae1c43ec93970a2febb17e2af9986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 30/67] fix: compute the slack variables of the warm start from
 the rows they belong to

The index of a constraint, or nothing for a penalty cost, was used as the index
of a row, and the side of the violation was not considered.
---
 .../trajopt_sqp/src/osqp_eigen_solver.cpp     | 36 ++++++++++---------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
index 54db12d..875036b 100644
--- a/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/osqp_eigen_solver.cpp
@@ -296,27 +296,31 @@ bool OSQPEigenSolver::setWarmStart(const QPProblem& qp_problem)
   // If there are slack variables, compute them from constraint violations
   if (num_slacks > 0)
   {
-    // Evaluate constraint violations at current NLP variables
-    const Eigen::VectorXd violations = qp_problem.evaluateConvexConstraintViolations(nlp_vars);
-
-    // Get the constraint matrix (row-major)
+    // Get the linearized constraints (row-major), every slack variable appears in exactly one of them
     const trajopt_ifopt::Jacobian& constraint_matrix = qp_problem.getConstraintMatrix();
+    const Eigen::VectorXd& lower = qp_problem.getBoundsLower();
+    const Eigen::VectorXd& upper = qp_problem.getBoundsUpper();
 
-    for (Eigen::Index k = 0; k < violations.size(); ++k)
+    // The last rows are the bounds of the variables
+    for (Eigen::Index k = 0; k < num_cnts_ - num_vars_; ++k)
     {
+      // Value of the constraint at the current NLP variables
+      double value = 0;
+      for (trajopt_ifopt::Jacobian::InnerIterator it(constraint_matrix, k); it; ++it)
+      {
+        if (it.col() < num_nlp_vars)
+          value += it.value() * nlp_vars(it.col());
+      }
+
+      // A slack variable with a positive coefficient makes up for a value below the lower bound,
+      // and one with a negative coefficient for a value above the upper bound
       for (trajopt_ifopt::Jacobian::InnerIterator it(constraint_matrix, k); it; ++it)
       {
-        const Eigen::Index col_idx = it.col();
-        const double coeff = it.value();
-
-        // Slack variables start at index num_nlp_vars
-        if (col_idx >= num_nlp_vars && std::abs(coeff) > 1e-14)
-        {
-          // Slack is computed as: slack = violation / coefficient
-          double slack = violations(k) / coeff;
-          // Enforce non-negativity constraint on slack variables
-          x0_(col_idx) = std::max(0.0, slack);
-        }
+        if (it.col() < num_nlp_vars || std::abs(it.value()) <= 1e-14)
+          continue;
+
+        const double violation = (it.value() > 0) ? lower(k) - value : value - upper(k);
+        x0_(it.col()) = std::max(0.0, violation / std::abs(it.value()));
       }
     }
   }
-- 
2.43.0


From 1cbe7e6ff5746ea5e86fd8cb0795a892a7dddab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:40 +0000
Subject: [PATCH 31/67] fix: treat an undefined solution of the QP solver as a
 failed solve

With a NaN among the values of variables that no cost depends on, the merit is still
finite, so the solution was accepted and reported as converged.
---
 .../trajopt_sqp/src/trust_region_sqp_solver.cpp               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
index e4000b5..5b2aa4f 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trust_region_sqp_solver.cpp
@@ -393,7 +393,11 @@ SQPStatus TrustRegionSQPSolver::solveQPProblem()
   if (succeed)
   {
     results_.new_var_vals = qp_solver->getSolution();
+    succeed = results_.new_var_vals.allFinite();  // an undefined solution must never become the best one
+  }
 
+  if (succeed)
+  {
     // Calculate approximate QP merits (cheap)
     qp_problem->setVariables(results_.new_var_vals.data());
 
-- 
2.43.0


From 2dee3df6207d63a1302f6c5ad34c417a2066ca5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 32/67] fix: check the voxel indices of vhacd against their own
 dimensions

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
index 4ec3af0..ad882ad 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVolume.h
@@ -252,15 +252,15 @@ public:
   unsigned char& GetVoxel(const size_t i, const size_t j, const size_t k)
   {
     assert(i < m_dim[0]);
-    assert(j < m_dim[0]);
-    assert(k < m_dim[0]);
+    assert(j < m_dim[1]);
+    assert(k < m_dim[2]);
     return m_data[i + j * m_dim[0] + k * m_dim[0] * m_dim[1]];
   }
   const unsigned char& GetVoxel(const size_t i, const size_t j, const size_t k) const
   {
     assert(i < m_dim[0]);
-    assert(j < m_dim[0]);
-    assert(k < m_dim[0]);
+    assert(j < m_dim[1]);
+    assert(k < m_dim[2]);
     return m_data[i + j * m_dim[0] + k * m_dim[0] * m_dim[1]];
   }
   size_t GetNPrimitivesOnSurf() const { return m_numVoxelsOnSurface; }
-- 
2.43.0


From 341e946aba415cf6742b7f69db15218274b5c3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:37 +0000
Subject: [PATCH 33/67] fix: never use more OpenMP threads than buffers were
 allocated for in vhacd

---
 trajopt_ext/vhacd/src/VHACD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/VHACD.cpp b/trajopt_ext/vhacd/src/VHACD.cpp
index 96e0213..779989c 100644
--- a/trajopt_ext/vhacd/src/VHACD.cpp
+++ b/trajopt_ext/vhacd/src/VHACD.cpp
@@ -887,7 +887,7 @@ void VHACD::ComputeBestClippingPlane(const PrimitiveSet* inputPSet,
 #endif  // DEBUG_TEMP
 
 #if USE_THREAD == 1 && _OPENMP
-#pragma omp parallel for
+#pragma omp parallel for num_threads(m_ompNumProcessors)
 #endif
   for (int32_t x = 0; x < nPlanes; ++x)
   {
-- 
2.43.0


From c588bce492befb0073b1441df7f3e33490f85f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 34/67] fix: count the aligned allocations of vhacd atomically

---
 trajopt_ext/vhacd/src/btAlignedAllocator.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/trajopt_ext/vhacd/src/btAlignedAllocator.cpp b/trajopt_ext/vhacd/src/btAlignedAllocator.cpp
index 9a2629a..379423d 100644
--- a/trajopt_ext/vhacd/src/btAlignedAllocator.cpp
+++ b/trajopt_ext/vhacd/src/btAlignedAllocator.cpp
@@ -20,14 +20,15 @@ software.
 TRAJOPT_IGNORE_WARNINGS_PUSH
 
 #include "vhacd/inc/btAlignedAllocator.h"
+#include <atomic>
 
 #ifdef _MSC_VER
 #pragma warning(disable : 4311 4302)
 #endif
 
-int32_t gNumAlignedAllocs = 0;
-int32_t gNumAlignedFree = 0;
-int32_t gTotalBytesAlignedAllocs = 0;  // detect memory leaks
+std::atomic<int32_t> gNumAlignedAllocs{ 0 };
+std::atomic<int32_t> gNumAlignedFree{ 0 };
+std::atomic<int32_t> gTotalBytesAlignedAllocs{ 0 };  // detect memory leaks
 
 static void* btAllocDefault(size_t size) { return malloc(size); }
 static void btFreeDefault(void* ptr) { free(ptr); }
@@ -117,7 +118,7 @@ void* btAlignedAllocInternal(size_t size, int32_t alignment, int32_t line, char*
     ret = (void*)(real);  //??
   }
 
-  printf("allocation#%d at address %x, from %s,line %d, size %d\n", gNumAlignedAllocs, real, filename, line, size);
+  printf("allocation#%d at address %x, from %s,line %d, size %d\n", gNumAlignedAllocs.load(), real, filename, line, size);
 
   int32_t* ptr = (int32_t*)ret;
   *ptr = 12;
@@ -135,7 +136,7 @@ void btAlignedFreeInternal(void* ptr, int32_t line, char* filename)
     int32_t size = *((int32_t*)(ptr)-2);
     gTotalBytesAlignedAllocs -= size;
 
-    printf("free #%d at address %x, from %s,line %d, size %d\n", gNumAlignedFree, real, filename, line, size);
+    printf("free #%d at address %x, from %s,line %d, size %d\n", gNumAlignedFree.load(), real, filename, line, size);
 
     sFreeFunc(real);
   }
-- 
2.43.0


From 9272721353561f2b60266e7a7c6ad0235fb8c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 35/67] fix: release the previous result of vhacd when it is
 computed again or destroyed

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
index ea98573..e6b3e64 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
@@ -69,7 +69,7 @@ public:
     Init();
   }
   //! Destructor.
-  ~VHACD(void) {}
+  ~VHACD(void) { Clean(); }
   uint32_t GetNConvexHulls() const override { return (uint32_t)m_convexHulls.Size(); }
   void Cancel() override { SetCancel(true); }
   void GetConvexHull(const uint32_t index, ConvexHull& ch) const override
@@ -325,7 +325,7 @@ private:
                   const uint32_t nTriangles,
                   const Parameters& params)
   {
-    Init();
+    Clean();
     if (params.m_projectHullVertices)
     {
       mRaycastMesh = RaycastMesh::createRaycastMesh(nPoints, points, nTriangles, (const uint32_t*)triangles);
-- 
2.43.0


From c256f7aaee046baa29d6ed03c158c66d850a116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 36/67] fix: make the cancel flag of vhacd atomic

---
 trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
index e6b3e64..a03e508 100644
--- a/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
+++ b/trajopt_ext/vhacd/include/vhacd/inc/vhacdVHACD.h
@@ -40,6 +40,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include "vhacdMutex.h"
 #include "vhacdVolume.h"
 #include "vhacdRaycastMesh.h"
+#include <atomic>
 #include <vector>
 
 #define USE_THREAD 1
@@ -368,7 +369,7 @@ private:
   Volume* m_volume;
   PrimitiveSet* m_pset;
   Mutex m_cancelMutex;
-  bool m_cancel;
+  std::atomic<bool> m_cancel;
   int32_t m_ompNumProcessors;
 #ifdef CL_VERSION_1_1
   cl_device_id* m_oclDevice;
-- 
2.43.0


From 601952c87c9b593ac0996602956c204a7dc5b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 37/67] fix: stop the decomposition thread before its input is
 released

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 628 +++++++++++++-------------
 1 file changed, 314 insertions(+), 314 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 6759e97..7fc455b 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -1,314 +1,314 @@
-#include "vhacd/VHACD.h"
-#include <stdlib.h>
-#include <string.h>
-#include <stdarg.h>
-#include <thread>
-#include <atomic>
-#include <mutex>
-#include <string>
-#include <float.h>
-
-#define ENABLE_ASYNC 1
-
-#define HACD_ALLOC(x) malloc(x)
-#define HACD_FREE(x) free(x)
-#define HACD_ASSERT(x) assert(x)
-
-namespace VHACD
-{
-class MyHACD_API : public VHACD::IVHACD, public VHACD::IVHACD::IUserCallback, VHACD::IVHACD::IUserLogger
-{
-public:
-  MyHACD_API(void) { mVHACD = VHACD::CreateVHACD(); }
-  virtual ~MyHACD_API(void)
-  {
-    releaseHACD();
-    Cancel();
-    mVHACD->Release();
-  }
-
-  bool Compute(const double* const _points,
-               const uint32_t countPoints,
-               const uint32_t* const _triangles,
-               const uint32_t countTriangles,
-               const Parameters& _desc) override final
-  {
-#if ENABLE_ASYNC
-    Cancel();  // if we previously had a solution running; cancel it.
-    releaseHACD();
-
-    // We need to copy the input vertices and triangles into our own buffers so we can operate
-    // on them safely from the background thread.
-    mVertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
-    mIndices = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * countTriangles * 3);
-    memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
-    memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
-    mRunning = true;
-    mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
-      ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
-      mRunning = false;
-    });
-#else
-    releaseHACD();
-    ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
-#endif
-    return true;
-  }
-
-  bool ComputeNow(const double* const points,
-                  const uint32_t countPoints,
-                  const uint32_t* const triangles,
-                  const uint32_t countTriangles,
-                  const Parameters& _desc)
-  {
-    uint32_t ret = 0;
-
-    mHullCount = 0;
-    mCallback = _desc.m_callback;
-    mLogger = _desc.m_logger;
-
-    IVHACD::Parameters desc = _desc;
-    // Set our intercepting callback interfaces if non-null
-    desc.m_callback = desc.m_callback ? this : nullptr;
-    desc.m_logger = desc.m_logger ? this : nullptr;
-
-    if (countPoints)
-    {
-      bool ok = mVHACD->Compute(points, countPoints, triangles, countTriangles, desc);
-      if (ok)
-      {
-        ret = mVHACD->GetNConvexHulls();
-        mHulls = new IVHACD::ConvexHull[ret];
-        for (uint32_t i = 0; i < ret; i++)
-        {
-          VHACD::IVHACD::ConvexHull vhull;
-          mVHACD->GetConvexHull(i, vhull);
-          VHACD::IVHACD::ConvexHull h;
-          h.m_nPoints = vhull.m_nPoints;
-          h.m_points = (double*)HACD_ALLOC(sizeof(double) * 3 * h.m_nPoints);
-          memcpy(h.m_points, vhull.m_points, sizeof(double) * 3 * h.m_nPoints);
-          h.m_nTriangles = vhull.m_nTriangles;
-          h.m_triangles = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * 3 * h.m_nTriangles);
-          memcpy(h.m_triangles, vhull.m_triangles, sizeof(uint32_t) * 3 * h.m_nTriangles);
-          h.m_volume = vhull.m_volume;
-          h.m_center[0] = vhull.m_center[0];
-          h.m_center[1] = vhull.m_center[1];
-          h.m_center[2] = vhull.m_center[2];
-          mHulls[i] = h;
-          if (mCancel)
-          {
-            ret = 0;
-            break;
-          }
-        }
-      }
-    }
-
-    mHullCount = ret;
-    return ret ? true : false;
-  }
-
-  void releaseHull(VHACD::IVHACD::ConvexHull& h)
-  {
-    HACD_FREE((void*)h.m_triangles);
-    HACD_FREE((void*)h.m_points);
-    h.m_triangles = nullptr;
-    h.m_points = nullptr;
-  }
-
-  void GetConvexHull(const uint32_t index, VHACD::IVHACD::ConvexHull& ch) const override final
-  {
-    if (index < mHullCount)
-    {
-      ch = mHulls[index];
-    }
-  }
-
-  void releaseHACD(void)  // release memory associated with the last HACD request
-  {
-    for (uint32_t i = 0; i < mHullCount; i++)
-    {
-      releaseHull(mHulls[i]);
-    }
-    delete[] mHulls;
-    mHulls = nullptr;
-    mHullCount = 0;
-    HACD_FREE(mVertices);
-    mVertices = nullptr;
-    HACD_FREE(mIndices);
-    mIndices = nullptr;
-  }
-
-  virtual void release(void)  // release the HACD_API interface
-  {
-    delete this;
-  }
-
-  virtual uint32_t getHullCount(void) { return mHullCount; }
-  virtual void Cancel() override final
-  {
-    if (mRunning)
-    {
-      mVHACD->Cancel();  // Set the cancel signal to the base VHACD
-    }
-    if (mThread)
-    {
-      mThread->join();  // Wait for the thread to fully exit before we delete the instance
-      delete mThread;
-      mThread = nullptr;
-      Log("Convex Decomposition thread canceled\n");
-    }
-    mCancel = false;  // clear the cancel semaphore
-  }
-
-  bool Compute(const float* const points,
-               const uint32_t countPoints,
-               const uint32_t* const triangles,
-               const uint32_t countTriangles,
-               const Parameters& params) override final
-  {
-    double* vertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
-    const float* source = points;
-    double* dest = vertices;
-    for (uint32_t i = 0; i < countPoints; i++)
-    {
-      dest[0] = source[0];
-      dest[1] = source[1];
-      dest[2] = source[2];
-      dest += 3;
-      source += 3;
-    }
-
-    bool ret = Compute(vertices, countPoints, triangles, countTriangles, params);
-    HACD_FREE(vertices);
-    return ret;
-  }
-
-  uint32_t GetNConvexHulls() const override final
-  {
-    processPendingMessages();
-    return mHullCount;
-  }
-
-  void Clean(void) override final  // release internally allocated memory
-  {
-    Cancel();
-    releaseHACD();
-    mVHACD->Clean();
-  }
-
-  void Release(void) override final  // release IVHACD
-  {
-    delete this;
-  }
-
-  bool OCLInit(void* const oclDevice, IVHACD::IUserLogger* const logger = nullptr) override final
-  {
-    return mVHACD->OCLInit(oclDevice, logger);
-  }
-
-  bool OCLRelease(IVHACD::IUserLogger* const logger = nullptr) override final { return mVHACD->OCLRelease(logger); }
-  void Update(const double overallProgress,
-              const double stageProgress,
-              const double operationProgress,
-              const char* const stage,
-              const char* const operation) override final
-  {
-    mMessageMutex.lock();
-    mHaveUpdateMessage = true;
-    mOverallProgress = overallProgress;
-    mStageProgress = stageProgress;
-    mOperationProgress = operationProgress;
-    mStage = std::string(stage);
-    mOperation = std::string(operation);
-    mMessageMutex.unlock();
-  }
-
-  void Log(const char* const msg) override final
-  {
-    mMessageMutex.lock();
-    mHaveLogMessage = true;
-    mMessage = std::string(msg);
-    mMessageMutex.unlock();
-  }
-
-  bool IsReady(void) const override final
-  {
-    processPendingMessages();
-    return !mRunning;
-  }
-
-  // As a convenience for the calling application we only send it update and log messages from it's own main
-  // thread.  This reduces the complexity burden on the caller by making sure it only has to deal with log
-  // messages in it's main application thread.
-  void processPendingMessages(void) const
-  {
-    // If we have a new update message and the user has specified a callback we send the message and clear the semaphore
-    if (mHaveUpdateMessage && mCallback)
-    {
-      mMessageMutex.lock();
-      mCallback->Update(mOverallProgress, mStageProgress, mOperationProgress, mStage.c_str(), mOperation.c_str());
-      mHaveUpdateMessage = false;
-      mMessageMutex.unlock();
-    }
-    // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
-    if (mHaveLogMessage && mLogger)
-    {
-      mMessageMutex.lock();
-      mLogger->Log(mMessage.c_str());
-      mHaveLogMessage = false;
-      mMessageMutex.unlock();
-    }
-  }
-
-  // Will compute the center of mass of the convex hull decomposition results and return it
-  // in 'centerOfMass'.  Returns false if the center of mass could not be computed.
-  bool ComputeCenterOfMass(double centerOfMass[3]) const override
-  {
-    bool ret = false;
-
-    centerOfMass[0] = 0;
-    centerOfMass[1] = 0;
-    centerOfMass[2] = 0;
-
-    if (mVHACD && IsReady())
-    {
-      ret = mVHACD->ComputeCenterOfMass(centerOfMass);
-    }
-    return ret;
-  }
-
-private:
-  double* mVertices{ nullptr };
-  uint32_t* mIndices{ nullptr };
-  std::atomic<uint32_t> mHullCount{ 0 };
-  VHACD::IVHACD::ConvexHull* mHulls{ nullptr };
-  VHACD::IVHACD::IUserCallback* mCallback{ nullptr };
-  VHACD::IVHACD::IUserLogger* mLogger{ nullptr };
-  VHACD::IVHACD* mVHACD{ nullptr };
-  std::thread* mThread{ nullptr };
-  std::atomic<bool> mRunning{ false };
-  std::atomic<bool> mCancel{ false };
-
-  // Thread safe caching mechanism for messages and update status.
-  // This is so that caller always gets messages in his own thread
-  // Member variables are marked as 'mutable' since the message dispatch function
-  // is called from const query methods.
-  mutable std::mutex mMessageMutex;
-  mutable std::atomic<bool> mHaveUpdateMessage{ false };
-  mutable std::atomic<bool> mHaveLogMessage{ false };
-  mutable double mOverallProgress{ 0 };
-  mutable double mStageProgress{ 0 };
-  mutable double mOperationProgress{ 0 };
-  mutable std::string mStage;
-  mutable std::string mOperation;
-  mutable std::string mMessage;
-};
-
-IVHACD* CreateVHACD_ASYNC(void)
-{
-  MyHACD_API* m = new MyHACD_API;
-  return static_cast<IVHACD*>(m);
-}
-
-};  // namespace VHACD
+#include "vhacd/VHACD.h"
+#include <stdlib.h>
+#include <string.h>
+#include <stdarg.h>
+#include <thread>
+#include <atomic>
+#include <mutex>
+#include <string>
+#include <float.h>
+
+#define ENABLE_ASYNC 1
+
+#define HACD_ALLOC(x) malloc(x)
+#define HACD_FREE(x) free(x)
+#define HACD_ASSERT(x) assert(x)
+
+namespace VHACD
+{
+class MyHACD_API : public VHACD::IVHACD, public VHACD::IVHACD::IUserCallback, VHACD::IVHACD::IUserLogger
+{
+public:
+  MyHACD_API(void) { mVHACD = VHACD::CreateVHACD(); }
+  virtual ~MyHACD_API(void)
+  {
+    Cancel();
+    releaseHACD();
+    mVHACD->Release();
+  }
+
+  bool Compute(const double* const _points,
+               const uint32_t countPoints,
+               const uint32_t* const _triangles,
+               const uint32_t countTriangles,
+               const Parameters& _desc) override final
+  {
+#if ENABLE_ASYNC
+    Cancel();  // if we previously had a solution running; cancel it.
+    releaseHACD();
+
+    // We need to copy the input vertices and triangles into our own buffers so we can operate
+    // on them safely from the background thread.
+    mVertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
+    mIndices = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * countTriangles * 3);
+    memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
+    memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
+    mRunning = true;
+    mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
+      ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
+      mRunning = false;
+    });
+#else
+    releaseHACD();
+    ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
+#endif
+    return true;
+  }
+
+  bool ComputeNow(const double* const points,
+                  const uint32_t countPoints,
+                  const uint32_t* const triangles,
+                  const uint32_t countTriangles,
+                  const Parameters& _desc)
+  {
+    uint32_t ret = 0;
+
+    mHullCount = 0;
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
+
+    IVHACD::Parameters desc = _desc;
+    // Set our intercepting callback interfaces if non-null
+    desc.m_callback = desc.m_callback ? this : nullptr;
+    desc.m_logger = desc.m_logger ? this : nullptr;
+
+    if (countPoints)
+    {
+      bool ok = mVHACD->Compute(points, countPoints, triangles, countTriangles, desc);
+      if (ok)
+      {
+        ret = mVHACD->GetNConvexHulls();
+        mHulls = new IVHACD::ConvexHull[ret];
+        for (uint32_t i = 0; i < ret; i++)
+        {
+          VHACD::IVHACD::ConvexHull vhull;
+          mVHACD->GetConvexHull(i, vhull);
+          VHACD::IVHACD::ConvexHull h;
+          h.m_nPoints = vhull.m_nPoints;
+          h.m_points = (double*)HACD_ALLOC(sizeof(double) * 3 * h.m_nPoints);
+          memcpy(h.m_points, vhull.m_points, sizeof(double) * 3 * h.m_nPoints);
+          h.m_nTriangles = vhull.m_nTriangles;
+          h.m_triangles = (uint32_t*)HACD_ALLOC(sizeof(uint32_t) * 3 * h.m_nTriangles);
+          memcpy(h.m_triangles, vhull.m_triangles, sizeof(uint32_t) * 3 * h.m_nTriangles);
+          h.m_volume = vhull.m_volume;
+          h.m_center[0] = vhull.m_center[0];
+          h.m_center[1] = vhull.m_center[1];
+          h.m_center[2] = vhull.m_center[2];
+          mHulls[i] = h;
+          if (mCancel)
+          {
+            ret = 0;
+            break;
+          }
+        }
+      }
+    }
+
+    mHullCount = ret;
+    return ret ? true : false;
+  }
+
+  void releaseHull(VHACD::IVHACD::ConvexHull& h)
+  {
+    HACD_FREE((void*)h.m_triangles);
+    HACD_FREE((void*)h.m_points);
+    h.m_triangles = nullptr;
+    h.m_points = nullptr;
+  }
+
+  void GetConvexHull(const uint32_t index, VHACD::IVHACD::ConvexHull& ch) const override final
+  {
+    if (index < mHullCount)
+    {
+      ch = mHulls[index];
+    }
+  }
+
+  void releaseHACD(void)  // release memory associated with the last HACD request
+  {
+    for (uint32_t i = 0; i < mHullCount; i++)
+    {
+      releaseHull(mHulls[i]);
+    }
+    delete[] mHulls;
+    mHulls = nullptr;
+    mHullCount = 0;
+    HACD_FREE(mVertices);
+    mVertices = nullptr;
+    HACD_FREE(mIndices);
+    mIndices = nullptr;
+  }
+
+  virtual void release(void)  // release the HACD_API interface
+  {
+    delete this;
+  }
+
+  virtual uint32_t getHullCount(void) { return mHullCount; }
+  virtual void Cancel() override final
+  {
+    if (mRunning)
+    {
+      mVHACD->Cancel();  // Set the cancel signal to the base VHACD
+    }
+    if (mThread)
+    {
+      mThread->join();  // Wait for the thread to fully exit before we delete the instance
+      delete mThread;
+      mThread = nullptr;
+      Log("Convex Decomposition thread canceled\n");
+    }
+    mCancel = false;  // clear the cancel semaphore
+  }
+
+  bool Compute(const float* const points,
+               const uint32_t countPoints,
+               const uint32_t* const triangles,
+               const uint32_t countTriangles,
+               const Parameters& params) override final
+  {
+    double* vertices = (double*)HACD_ALLOC(sizeof(double) * countPoints * 3);
+    const float* source = points;
+    double* dest = vertices;
+    for (uint32_t i = 0; i < countPoints; i++)
+    {
+      dest[0] = source[0];
+      dest[1] = source[1];
+      dest[2] = source[2];
+      dest += 3;
+      source += 3;
+    }
+
+    bool ret = Compute(vertices, countPoints, triangles, countTriangles, params);
+    HACD_FREE(vertices);
+    return ret;
+  }
+
+  uint32_t GetNConvexHulls() const override final
+  {
+    processPendingMessages();
+    return mHullCount;
+  }
+
+  void Clean(void) override final  // release internally allocated memory
+  {
+    Cancel();
+    releaseHACD();
+    mVHACD->Clean();
+  }
+
+  void Release(void) override final  // release IVHACD
+  {
+    delete this;
+  }
+
+  bool OCLInit(void* const oclDevice, IVHACD::IUserLogger* const logger = nullptr) override final
+  {
+    return mVHACD->OCLInit(oclDevice, logger);
+  }
+
+  bool OCLRelease(IVHACD::IUserLogger* const logger = nullptr) override final { return mVHACD->OCLRelease(logger); }
+  void Update(const double overallProgress,
+              const double stageProgress,
+              const double operationProgress,
+              const char* const stage,
+              const char* const operation) override final
+  {
+    mMessageMutex.lock();
+    mHaveUpdateMessage = true;
+    mOverallProgress = overallProgress;
+    mStageProgress = stageProgress;
+    mOperationProgress = operationProgress;
+    mStage = std::string(stage);
+    mOperation = std::string(operation);
+    mMessageMutex.unlock();
+  }
+
+  void Log(const char* const msg) override final
+  {
+    mMessageMutex.lock();
+    mHaveLogMessage = true;
+    mMessage = std::string(msg);
+    mMessageMutex.unlock();
+  }
+
+  bool IsReady(void) const override final
+  {
+    processPendingMessages();
+    return !mRunning;
+  }
+
+  // As a convenience for the calling application we only send it update and log messages from it's own main
+  // thread.  This reduces the complexity burden on the caller by making sure it only has to deal with log
+  // messages in it's main application thread.
+  void processPendingMessages(void) const
+  {
+    // If we have a new update message and the user has specified a callback we send the message and clear the semaphore
+    if (mHaveUpdateMessage && mCallback)
+    {
+      mMessageMutex.lock();
+      mCallback->Update(mOverallProgress, mStageProgress, mOperationProgress, mStage.c_str(), mOperation.c_str());
+      mHaveUpdateMessage = false;
+      mMessageMutex.unlock();
+    }
+    // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
+    if (mHaveLogMessage && mLogger)
+    {
+      mMessageMutex.lock();
+      mLogger->Log(mMessage.c_str());
+      mHaveLogMessage = false;
+      mMessageMutex.unlock();
+    }
+  }
+
+  // Will compute the center of mass of the convex hull decomposition results and return it
+  // in 'centerOfMass'.  Returns false if the center of mass could not be computed.
+  bool ComputeCenterOfMass(double centerOfMass[3]) const override
+  {
+    bool ret = false;
+
+    centerOfMass[0] = 0;
+    centerOfMass[1] = 0;
+    centerOfMass[2] = 0;
+
+    if (mVHACD && IsReady())
+    {
+      ret = mVHACD->ComputeCenterOfMass(centerOfMass);
+    }
+    return ret;
+  }
+
+private:
+  double* mVertices{ nullptr };
+  uint32_t* mIndices{ nullptr };
+  std::atomic<uint32_t> mHullCount{ 0 };
+  VHACD::IVHACD::ConvexHull* mHulls{ nullptr };
+  VHACD::IVHACD::IUserCallback* mCallback{ nullptr };
+  VHACD::IVHACD::IUserLogger* mLogger{ nullptr };
+  VHACD::IVHACD* mVHACD{ nullptr };
+  std::thread* mThread{ nullptr };
+  std::atomic<bool> mRunning{ false };
+  std::atomic<bool> mCancel{ false };
+
+  // Thread safe caching mechanism for messages and update status.
+  // This is so that caller always gets messages in his own thread
+  // Member variables are marked as 'mutable' since the message dispatch function
+  // is called from const query methods.
+  mutable std::mutex mMessageMutex;
+  mutable std::atomic<bool> mHaveUpdateMessage{ false };
+  mutable std::atomic<bool> mHaveLogMessage{ false };
+  mutable double mOverallProgress{ 0 };
+  mutable double mStageProgress{ 0 };
+  mutable double mOperationProgress{ 0 };
+  mutable std::string mStage;
+  mutable std::string mOperation;
+  mutable std::string mMessage;
+};
+
+IVHACD* CreateVHACD_ASYNC(void)
+{
+  MyHACD_API* m = new MyHACD_API;
+  return static_cast<IVHACD*>(m);
+}
+
+};  // namespace VHACD
-- 
2.43.0


From 8cad4ec68ca4a9f7e4feef8b3d364d93f7a7a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 38/67] fix: a decomposition cancelled before it begins is not
 computed to its end

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 7fc455b..11ed399 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -2,6 +2,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdarg.h>
+#include <chrono>
 #include <thread>
 #include <atomic>
 #include <mutex>
@@ -147,9 +148,10 @@ public:
   virtual uint32_t getHullCount(void) { return mHullCount; }
   virtual void Cancel() override final
   {
-    if (mRunning)
+    while (mRunning)
     {
-      mVHACD->Cancel();  // Set the cancel signal to the base VHACD
+      mVHACD->Cancel();  // Set the cancel signal to the base VHACD; it is lost if the computation has not begun yet
+      std::this_thread::sleep_for(std::chrono::milliseconds(1));
     }
     if (mThread)
     {
-- 
2.43.0


From 135470f289ad3740aadade46f528a41a86048ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 39/67] fix: vhacd callbacks may call back into the
 asynchronous decomposition

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 11ed399..39368f7 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -249,17 +249,24 @@ public:
     if (mHaveUpdateMessage && mCallback)
     {
       mMessageMutex.lock();
-      mCallback->Update(mOverallProgress, mStageProgress, mOperationProgress, mStage.c_str(), mOperation.c_str());
+      const double overallProgress = mOverallProgress;
+      const double stageProgress = mStageProgress;
+      const double operationProgress = mOperationProgress;
+      const std::string stage = mStage;
+      const std::string operation = mOperation;
       mHaveUpdateMessage = false;
       mMessageMutex.unlock();
+      // Not under the lock, the callback may call back
+      mCallback->Update(overallProgress, stageProgress, operationProgress, stage.c_str(), operation.c_str());
     }
     // If we have a new log message and the user has specified a callback we send the message and clear the semaphore
     if (mHaveLogMessage && mLogger)
     {
       mMessageMutex.lock();
-      mLogger->Log(mMessage.c_str());
+      const std::string message = mMessage;
       mHaveLogMessage = false;
       mMessageMutex.unlock();
+      mLogger->Log(message.c_str());
     }
   }
 
-- 
2.43.0


From 0550da5694ce8f3fd3b1c69927ebea3ebe40a11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 40/67] fix: set the vhacd callbacks where they are used,
 before the decomposition thread starts

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 39368f7..19ff1d7 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -37,6 +37,7 @@ public:
 #if ENABLE_ASYNC
     Cancel();  // if we previously had a solution running; cancel it.
     releaseHACD();
+    setCallbacks(_desc);
 
     // We need to copy the input vertices and triangles into our own buffers so we can operate
     // on them safely from the background thread.
@@ -51,11 +52,21 @@ public:
     });
 #else
     releaseHACD();
+    setCallbacks(_desc);
     ComputeNow(_points, countPoints, _triangles, countTriangles, _desc);
 #endif
     return true;
   }
 
+  // Messages of a previous request are not for the callbacks of this one
+  void setCallbacks(const Parameters& _desc)
+  {
+    mCallback = _desc.m_callback;
+    mLogger = _desc.m_logger;
+    mHaveUpdateMessage = false;
+    mHaveLogMessage = false;
+  }
+
   bool ComputeNow(const double* const points,
                   const uint32_t countPoints,
                   const uint32_t* const triangles,
@@ -65,8 +76,6 @@ public:
     uint32_t ret = 0;
 
     mHullCount = 0;
-    mCallback = _desc.m_callback;
-    mLogger = _desc.m_logger;
 
     IVHACD::Parameters desc = _desc;
     // Set our intercepting callback interfaces if non-null
-- 
2.43.0


From 95d12fa63c2e9b85a0852b7dd8d9410bd9e821a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 41/67] fix: report a decomposition thread that cannot be
 created

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 19ff1d7..933e1d8 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -7,6 +7,7 @@
 #include <atomic>
 #include <mutex>
 #include <string>
+#include <system_error>
 #include <float.h>
 
 #define ENABLE_ASYNC 1
@@ -46,10 +47,18 @@ public:
     memcpy(mVertices, _points, sizeof(double) * countPoints * 3);
     memcpy(mIndices, _triangles, sizeof(uint32_t) * countTriangles * 3);
     mRunning = true;
-    mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
-      ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
+    try
+    {
+      mThread = new std::thread([this, countPoints, countTriangles, _desc]() {
+        ComputeNow(mVertices, countPoints, mIndices, countTriangles, _desc);
+        mRunning = false;
+      });
+    }
+    catch (const std::system_error&)  // there is no thread to wait for
+    {
       mRunning = false;
-    });
+      return false;
+    }
 #else
     releaseHACD();
     setCallbacks(_desc);
-- 
2.43.0


From c9d01307387fb516b539dff1e258f6984aea2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 42/67] fix: no centre of mass of a previous decomposition

---
 trajopt_ext/vhacd/src/VHACD-ASYNC.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
index 933e1d8..2ff9d2a 100644
--- a/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
+++ b/trajopt_ext/vhacd/src/VHACD-ASYNC.cpp
@@ -38,6 +38,7 @@ public:
 #if ENABLE_ASYNC
     Cancel();  // if we previously had a solution running; cancel it.
     releaseHACD();
+    mVHACD->Clean();  // the centre of mass is computed from there
     setCallbacks(_desc);
 
     // We need to copy the input vertices and triangles into our own buffers so we can operate
-- 
2.43.0


From aa718643270d6e485d08b8d80a183d337c53c4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 43/67] fix: the centre of an empty vhacd mesh is not
 uninitialised memory

---
 trajopt_ext/vhacd/src/vhacdMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ext/vhacd/src/vhacdMesh.cpp b/trajopt_ext/vhacd/src/vhacdMesh.cpp
index 3c08a22..dd53b06 100644
--- a/trajopt_ext/vhacd/src/vhacdMesh.cpp
+++ b/trajopt_ext/vhacd/src/vhacdMesh.cpp
@@ -43,7 +43,7 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace VHACD
 {
-Mesh::Mesh() { m_diag = 1.0; }
+Mesh::Mesh() : m_minBB(0.0, 0.0, 0.0), m_maxBB(0.0, 0.0, 0.0), m_center(0.0, 0.0, 0.0) { m_diag = 1.0; }
 Mesh::~Mesh() {}
 Vec3<double>& Mesh::ComputeCenter(void)
 {
-- 
2.43.0


From c7d0ecebad599e0280a1e787cab09cf7ebb2cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 44/67] fix: a NodesObserver can be constructed

---
 .../include/trajopt_ifopt/variable_sets/nodes_observer.h    | 4 ++--
 trajopt_ifopt/src/variable_sets/nodes_observer.cpp          | 6 ++----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
index 64fd7b8..c19de9a 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/nodes_observer.h
@@ -39,7 +39,7 @@ class NodesVariables;
 /**
  * @brief Base class to receive up-to-date values of the NodeVariables.
  *
- * This class registers with the node variables and everytime a node changes,
+ * This class is registered with the node variables and everytime a node changes,
  * the subject updates this class by calling the UpdatePolynomials() method.
  *
  * Used by spline.h
@@ -51,7 +51,7 @@ class NodesObserver : public std::enable_shared_from_this<NodesObserver>
 {
 public:
   /**
-   * @brief Registers this observer with the subject class to receive updates.
+   * @brief Creates an observer of the subject. Register it with NodesVariables::addObserver() to receive updates.
    * @param subject  The subject holding the Hermite node values.
    */
   NodesObserver(std::weak_ptr<NodesVariables> subject);
diff --git a/trajopt_ifopt/src/variable_sets/nodes_observer.cpp b/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
index c589a07..c663ce2 100644
--- a/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
+++ b/trajopt_ifopt/src/variable_sets/nodes_observer.cpp
@@ -34,10 +34,8 @@ namespace trajopt_ifopt
 {
 NodesObserver::NodesObserver(std::weak_ptr<NodesVariables> subject) : subject_(std::move(subject))
 {
-  auto subject_shared = subject_.lock();  // Convert weak_ptr to shared_ptr
-  if (subject_shared)
-    subject_shared->addObserver(shared_from_this());  // register observer to subject so this class always up-to-date
-  else                                                // Handle the case where the weak_ptr is expired
+  // The observer is not owned by a shared_ptr yet, so it cannot be registered here: call NodesVariables::addObserver()
+  if (subject_.expired())  // Handle the case where the weak_ptr is expired
     throw std::runtime_error("Failed to lock weak_ptr; the object might have been destroyed.");
 }
 }  // namespace trajopt_ifopt
-- 
2.43.0


From 74884ffccc805e8d54d2b0fefad2437ff1d61b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:02 +0000
Subject: [PATCH 45/67] fix: a joint position constraint with split bounds and
 one or no coefficient does not read past the coefficients

---
 trajopt_ifopt/src/constraints/joint_position_constraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
index af72551..3f120fe 100644
--- a/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/joint_position_constraint.cpp
@@ -126,14 +126,14 @@ JointPosConstraint::JointPosConstraint(const std::vector<Bounds>& bounds,
         bounds_.emplace_back(-double(INFINITY), b.getUpper());
         split_indices.push_back(indices_[i]);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
       else
       {
         bounds_.push_back(b);
         split_indices.push_back(indices_[i]);
-        split_coeffs.emplace_back(coeffs[static_cast<Eigen::Index>(i)]);
+        split_coeffs.emplace_back(coeffs_[static_cast<Eigen::Index>(i)]);
       }
     }
 
-- 
2.43.0


From 8b8ca9ccc0391b9c892763d12ed9551f37ffafbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 46/67] fix: the variables of a moved node show the node they
 belong to

---
 .../trajopt_ifopt/variable_sets/node.h        |  4 ++--
 trajopt_ifopt/src/variable_sets/node.cpp      | 21 +++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/node.h b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/node.h
index 81424b7..61688e3 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/variable_sets/node.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/variable_sets/node.h
@@ -59,8 +59,8 @@ public:
   ~Node();
   Node(const Node&) = delete;
   Node& operator=(const Node&) = delete;
-  Node(Node&&) = default;
-  Node& operator=(Node&&) = default;
+  Node(Node&& other) noexcept;
+  Node& operator=(Node&& other) noexcept;
 
   /**
    * @brief Get the name of this node.
diff --git a/trajopt_ifopt/src/variable_sets/node.cpp b/trajopt_ifopt/src/variable_sets/node.cpp
index 95c3a43..9706b8b 100644
--- a/trajopt_ifopt/src/variable_sets/node.cpp
+++ b/trajopt_ifopt/src/variable_sets/node.cpp
@@ -22,12 +22,33 @@
 #include <trajopt_ifopt/variable_sets/node.h>
 #include <trajopt_ifopt/variable_sets/var.h>
 #include <memory>
+#include <utility>
 
 namespace trajopt_ifopt
 {
 Node::Node(std::string node_name) : name_(std::move(node_name)) {}
 Node::~Node() = default;
 
+Node::Node(Node&& other) noexcept { *this = std::move(other); }
+
+Node& Node::operator=(Node&& other) noexcept
+{
+  if (this == &other)
+    return *this;
+
+  name_ = std::move(other.name_);
+  vars_ = std::move(other.vars_);
+  vars_by_name_ = std::move(other.vars_by_name_);
+  length_ = std::exchange(other.length_, 0);
+  parent_ = other.parent_;
+
+  // The variables now belong to this node
+  for (auto& var : vars_)
+    var->parent_ = this;
+
+  return *this;
+}
+
 const std::string& Node::getName() const { return name_; }
 const NodesVariables* Node::getParent() const { return parent_; }
 
-- 
2.43.0


From df024eda03406431c98432d36ccbd7710ee220dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 47/67] fix: the worst contacts of a state are kept, whichever
 link moves

---
 .../src/constraints/collision/discrete_collision_evaluators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
index 4d80d56..98dfb1c 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
@@ -142,7 +142,7 @@ void SingleTimestepCollisionEvaluator::calcCollisions(trajopt_common::CollisionC
     std::sort(collision_data.gradient_results_sets.begin(),
               collision_data.gradient_results_sets.end(),
               [](const trajopt_common::GradientResultsSet& a, const trajopt_common::GradientResultsSet& b) {
-                return a.max_error[0].error > b.max_error[0].error;
+                return a.getMaxErrorWithBufferT0() > b.getMaxErrorWithBufferT0();
               });
   }
 }
-- 
2.43.0


From bca8df19ba443f9916de8146acfc4dc61b2156fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 48/67] fix: a continuous collision constraint rejects a
 missing variable

---
 .../constraints/collision/continuous_collision_constraint.cpp | 4 ++--
 .../collision/continuous_collision_numerical_constraint.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
index 8303d7f..abcfb44 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
@@ -54,7 +54,7 @@ ContinuousCollisionConstraint::ContinuousCollisionConstraint(
   , collision_evaluator_(std::move(collision_evaluator))
   , fixed_sparsity_(fixed_sparsity)
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("ContinuousCollisionConstraint: position_vars contains a nullptr!");
 
   // All vars must have same size
@@ -257,7 +257,7 @@ ContinuousCollisionConstraintD::ContinuousCollisionConstraintD(
   , vars1_fixed_(vars1_fixed)
   , collision_evaluator_(std::move(collision_evaluator))
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("ContinuousCollisionConstraint: position_vars contains a nullptr!");
 
   // All vars must have same size
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 3bad743..f4cd761 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -52,7 +52,7 @@ ContinuousCollisionNumericalConstraint::ContinuousCollisionNumericalConstraint(
   , vars1_fixed_(vars1_fixed)
   , collision_evaluator_(std::move(collision_evaluator))
 {
-  if (position_vars_[0] == nullptr && position_vars_[1] == nullptr)
+  if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
     throw std::runtime_error("position_vars contains a nullptr!");
 
   // Set n_dof_ for convenience
-- 
2.43.0


From dbd2b66a03a64ae677141d81c2d591d1e245b6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 49/67] fix: the numerical derivative by the second state moves
 the second state

---
 .../continuous_collision_numerical_constraint.cpp      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index f4cd761..2a3ba1f 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -171,7 +171,7 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
   const double margin_buffer = collision_evaluator_->getCollisionMarginBuffer();
 
   // Calculate collisions
-  Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
+  const Eigen::VectorXd joint_vals0 = position_vars_[0]->value();
   const Eigen::VectorXd joint_vals1 = position_vars_[1]->value();
 
   trajopt_common::CollisionCacheData collision_data_delta;
@@ -183,8 +183,12 @@ Jacobian ContinuousCollisionNumericalConstraint::getJacobian() const
     for (int j = 0; j < n_dof_; j++)
     {
       jv(j) += delta;
-      collision_evaluator_->calcCollisionData(
-          collision_data_delta, jv, joint_vals1, vars0_fixed_, vars1_fixed_, bounds_.size());
+      collision_evaluator_->calcCollisionData(collision_data_delta,
+                                              (p == 0) ? jv : joint_vals0,
+                                              (p == 0) ? joint_vals1 : jv,
+                                              vars0_fixed_,
+                                              vars1_fixed_,
+                                              bounds_.size());
 
       for (int i = 0; i < static_cast<int>(cnt); ++i)
       {
-- 
2.43.0


From 6169f62edabdf101b663b48305ab4e6563129692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 50/67] fix: the fixed pattern of the numerical collision
 constraint follows the variables' final indices

---
 ...ontinuous_collision_numerical_constraint.h |  7 +++-
 ...tinuous_collision_numerical_constraint.cpp | 35 +++++++++++--------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h b/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h
index 35f5f1a..17661aa 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/continuous_collision_numerical_constraint.h
@@ -27,6 +27,7 @@
 #include <trajopt_common/macros.h>
 TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <Eigen/Eigen>
+#include <mutex>
 TRAJOPT_IGNORE_WARNINGS_POP
 
 #include <trajopt_ifopt/core/constraint_set.h>
@@ -117,11 +118,15 @@ private:
   bool vars1_fixed_{ false };
 
   /** @brief Used to initialize jacobian because snopt sparsity cannot change */
-  std::vector<Eigen::Triplet<double>> triplet_list_;
+  bool fixed_sparsity_{ false };
+  mutable std::once_flag init_flag_;
+  mutable std::vector<Eigen::Triplet<double>> triplet_list_;
 
   std::shared_ptr<ContinuousCollisionEvaluator> collision_evaluator_;
   trajopt_common::Cache<std::size_t, trajopt_common::CollisionCacheData> collision_data_cache_{ 3 };
   std::shared_ptr<trajopt_common::CollisionCacheData> collision_data_;
+
+  void init() const;
 };
 }  // namespace trajopt_ifopt
 #endif  // TRAJOPT_IFOPT_CONTINUOUS_COLLISION_NUMERICAL_CONSTRAINT_H
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 2a3ba1f..17eef81 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -50,6 +50,7 @@ ContinuousCollisionNumericalConstraint::ContinuousCollisionNumericalConstraint(
   , position_vars_(std::move(position_vars))
   , vars0_fixed_(vars0_fixed)
   , vars1_fixed_(vars1_fixed)
+  , fixed_sparsity_(fixed_sparsity)
   , collision_evaluator_(std::move(collision_evaluator))
 {
   if (position_vars_[0] == nullptr || position_vars_[1] == nullptr)
@@ -71,20 +72,6 @@ ContinuousCollisionNumericalConstraint::ContinuousCollisionNumericalConstraint(
 
   coeffs_ = Eigen::VectorXd::Constant(rows_, 1);
   bounds_ = std::vector<Bounds>(static_cast<std::size_t>(max_num_cnt), BoundSmallerZero);
-
-  if (fixed_sparsity)
-  {
-    // Setting to zeros because snopt sparsity cannot change
-    triplet_list_.reserve(static_cast<std::size_t>(bounds_.size()) *
-                          static_cast<std::size_t>(position_vars_[0]->size()));
-
-    for (Eigen::Index i = 0; i < static_cast<Eigen::Index>(bounds_.size()); i++)  // NOLINT
-      for (Eigen::Index j = 0; j < n_dof_; j++)
-      {
-        triplet_list_.emplace_back(i, position_vars_[0]->getIndex() + j, 0);
-        triplet_list_.emplace_back(i, position_vars_[1]->getIndex() + j, 0);
-      }
-  }
 }
 
 int ContinuousCollisionNumericalConstraint::update()
@@ -111,9 +98,29 @@ int ContinuousCollisionNumericalConstraint::update()
     coeffs_(static_cast<Eigen::Index>(i)) = collision_data_->gradient_results_sets[i].coeff;
 
   non_zeros_ = 2 * static_cast<Eigen::Index>(rows_) * n_dof_;
+
+  std::call_once(init_flag_, &ContinuousCollisionNumericalConstraint::init, this);
+
   return rows_;
 }
 
+void ContinuousCollisionNumericalConstraint::init() const
+{
+  if (!fixed_sparsity_)
+    return;
+
+  // Setting to zeros because snopt sparsity cannot change
+  triplet_list_.reserve(2 * bounds_.size() * static_cast<std::size_t>(n_dof_));
+  for (Eigen::Index i = 0; i < static_cast<Eigen::Index>(bounds_.size()); i++)
+  {
+    for (Eigen::Index j = 0; j < n_dof_; j++)
+    {
+      triplet_list_.emplace_back(i, position_vars_[0]->getIndex() + j, 0);
+      triplet_list_.emplace_back(i, position_vars_[1]->getIndex() + j, 0);
+    }
+  }
+}
+
 Eigen::VectorXd ContinuousCollisionNumericalConstraint::getValues() const
 {
   // Get current joint values
-- 
2.43.0


From 75c8171f265d465929b24ab8e5478987bb274b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:39 +0000
Subject: [PATCH 51/67] fix: register the term makers once, also when problems
 are built from JSON in several threads

TermInfo::fromName() filled the map of makers on the first call without any synchronisation, so two threads that
construct their first problems from JSON at the same time modified and searched the map concurrently.
---
 trajopt/src/problem_description.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 6e77143..4b684de 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -27,8 +27,6 @@ TRAJOPT_IGNORE_WARNINGS_POP
 
 namespace
 {
-bool gRegisteredMakers = false;
-
 void ensure_only_members(const Json::Value& v, const char** fields, int nvalid)
 {
   for (Json::ValueConstIterator it = v.begin(); it != v.end(); ++it)
@@ -61,8 +59,6 @@ void RegisterMakers()
   trajopt::TermInfo::RegisterMaker("joint_jerk", &trajopt::JointJerkTermInfo::create);
   trajopt::TermInfo::RegisterMaker("collision", &trajopt::CollisionTermInfo::create);
   trajopt::TermInfo::RegisterMaker("total_time", &trajopt::TotalTimeTermInfo::create);
-
-  gRegisteredMakers = true;
 }
 
 /**
@@ -105,11 +101,16 @@ void TermInfo::RegisterMaker(const std::string& type, MakerFunc f) { TermInfo::n
 
 TermInfo::Ptr TermInfo::fromName(const std::string& type)
 {
-  if (!gRegisteredMakers)
+  // The first caller registers the makers; callers in other threads wait for it
+  static const bool registered_makers = []() {
     RegisterMakers();
+    return true;
+  }();
+  UNUSED(registered_makers);
 
-  if (name2maker.find(type) != name2maker.end())
-    return (*name2maker[type])();
+  const auto it = name2maker.find(type);
+  if (it != name2maker.end())
+    return (*it->second)();
 
   // RAVELOG_ERROR("There is no cost of type %s\n", type.c_str());
   return {};
-- 
2.43.0


From a300d51c0b19c648ecf79fb09ad7f0331ccd3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:17 +0000
Subject: [PATCH 52/67] fix: avoid-singularity terms of a subset of the joints
 work when assertions are off

The calculators called getSubset() and updateFromSubset() only inside assert(), so in a build with NDEBUG the joint
values of the subset and the gradient were left uninitialised.
---
 trajopt/src/kinematic_terms.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/trajopt/src/kinematic_terms.cpp b/trajopt/src/kinematic_terms.cpp
index dd20e24..1fa353a 100644
--- a/trajopt/src/kinematic_terms.cpp
+++ b/trajopt/src/kinematic_terms.cpp
@@ -4,6 +4,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <Eigen/Core>
 #include <boost/format.hpp>
 #include <iostream>
+#include <stdexcept>
 #include <tesseract/common/eigen_types.h>
 #include <tesseract/common/utils.h>
 #include <tesseract/kinematics/joint_group.h>
@@ -643,10 +644,10 @@ MatrixXd AvoidSingularityJacCalculator::operator()(const VectorXd& var_vals) con
 
 VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Get the subset of the input variable values
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  if (!getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals))
+    throw std::runtime_error("AvoidSingularitySubsetErrCalculator: the joints are not a subset");
 
   // Return the cost using the base class
   return AvoidSingularityErrCalculator::operator()(subset_var_vals);
@@ -654,10 +655,10 @@ VectorXd AvoidSingularitySubsetErrCalculator::operator()(const VectorXd& var_val
 
 MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_vals) const
 {
-  UNUSED(var_vals);
   // Calculate the gradient using the subset kinematics
   VectorXd subset_var_vals(fwd_kin_->numJoints());
-  assert(getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals) == true);
+  if (!getSubset(superset_kin_->getJointNames(), var_vals, fwd_kin_->getJointNames(), subset_var_vals))
+    throw std::runtime_error("AvoidSingularitySubsetJacCalculator: the joints are not a subset");
   MatrixXd subset_jac = AvoidSingularityJacCalculator::operator()(subset_var_vals);
 
   // Create an all-zero gradient that is the size of the superset joints
@@ -666,9 +667,9 @@ MatrixXd AvoidSingularitySubsetJacCalculator::operator()(const VectorXd& var_val
 
   // Update the all-zero superset gradient with the values from the subset gradient
   VectorXd tmp(superset_kin_->numJoints());
-  assert(updateFromSubset(
-             superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp) ==
-         true);
+  if (!updateFromSubset(
+          superset_kin_->getJointNames(), superset_jac.row(0), fwd_kin_->getJointNames(), subset_jac.row(0), tmp))
+    throw std::runtime_error("AvoidSingularitySubsetJacCalculator: the joints are not a subset");
 
   // Create the output gradient
   MatrixXd jac(1, superset_kin_->numJoints());
-- 
2.43.0


From a6c2c8f9f10fb7c6ea577b4b990ba863772465c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 53/67] fix: fixed steps and joints outside the trajectory are
 rejected

The bounds of fixed_timesteps and fixed_dofs were off by one and ignored negative values, so that the initial trajectory
was read outside its bounds; a fixed_dofs entry one past the last column was then applied to the first joint of the next
step, without an error if the last step was fixed as well.
---
 trajopt/src/problem_description.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 4b684de..8fd6690 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -487,7 +487,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& t_idx : bi.fixed_timesteps)
     {
-      if (init_traj.rows() < t_idx)
+      if (t_idx < 0 || t_idx >= init_traj.rows())
       {
         PRINT_AND_THROW("Fixed timestep index is outside the bounds of the initial trajectory.");
       }
@@ -511,7 +511,7 @@ TrajOptProb::Ptr ConstructProblem(const ProblemConstructionInfo& pci)
   {
     for (const int& dof_ind : bi.fixed_dofs)
     {
-      if (static_cast<int>(n_dof) < dof_ind)
+      if (dof_ind < 0 || dof_ind >= init_traj.cols())
       {
         PRINT_AND_THROW("DOF(aka Joint) indice is greater than the number of DOF available.");
       }
-- 
2.43.0


From 57fc2c646c0d41100992270d373d6683d55861e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 54/67] fix: a collision term in JSON may give its
 safety_margin_buffer

---
 trajopt/src/problem_description.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trajopt/src/problem_description.cpp b/trajopt/src/problem_description.cpp
index 8fd6690..49c9358 100644
--- a/trajopt/src/problem_description.cpp
+++ b/trajopt/src/problem_description.cpp
@@ -1706,6 +1706,7 @@ void CollisionTermInfo::fromJson(ProblemConstructionInfo& pci, const Json::Value
                                "fixed_steps",
                                "contact_test_type",
                                "longest_valid_segment_length",
+                               "safety_margin_buffer",
                                "coeffs",
                                "dist_pen",
                                "pairs" };
-- 
2.43.0


From d398226bcd13efabd747ab24e31aedbac9a463a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:31 +0000
Subject: [PATCH 55/67] fix: collision constraints do not reuse contacts when
 the environment may have moved

---
 .../collision/continuous_collision_evaluators.h        | 10 ++++++++++
 .../collision/discrete_collision_evaluators.h          |  8 ++++++++
 .../collision/continuous_collision_constraint.cpp      |  4 ++--
 .../collision/continuous_collision_evaluators.cpp      |  4 ++++
 .../continuous_collision_numerical_constraint.cpp      |  2 +-
 .../collision/discrete_collision_constraint.cpp        |  4 ++--
 .../collision/discrete_collision_evaluators.cpp        |  2 ++
 .../discrete_collision_numerical_constraint.cpp        |  2 +-
 8 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h b/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h
index f66e64c..edad48b 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/continuous_collision_evaluators.h
@@ -116,6 +116,12 @@ public:
    */
   virtual const tesseract::kinematics::JointGroup& getJointGroup() const = 0;
 
+  /**
+   * @brief Check if the environment may change between calls, so results must not be reused for the same joint values
+   * @return True if the environment may change
+   */
+  virtual bool isDynamicEnvironment() const { return false; }
+
 protected:
   static thread_local tesseract::common::TransformMap transforms_cache0;  // NOLINT
   static thread_local tesseract::common::TransformMap transforms_cache1;  // NOLINT
@@ -158,6 +164,8 @@ public:
 
   const tesseract::kinematics::JointGroup& getJointGroup() const override final;
 
+  bool isDynamicEnvironment() const override final;
+
 private:
   std::shared_ptr<const tesseract::kinematics::JointGroup> manip_;
   std::shared_ptr<const tesseract::environment::Environment> env_;
@@ -221,6 +229,8 @@ public:
 
   const tesseract::kinematics::JointGroup& getJointGroup() const override final;
 
+  bool isDynamicEnvironment() const override final;
+
 private:
   std::shared_ptr<const tesseract::kinematics::JointGroup> manip_;
   std::shared_ptr<const tesseract::environment::Environment> env_;
diff --git a/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h b/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h
index 3a7da79..2a504cb 100644
--- a/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h
+++ b/trajopt_ifopt/include/trajopt_ifopt/constraints/collision/discrete_collision_evaluators.h
@@ -96,6 +96,12 @@ public:
    */
   virtual const tesseract::kinematics::JointGroup& getJointGroup() const = 0;
 
+  /**
+   * @brief Check if the environment may change between calls, so results must not be reused for the same joint values
+   * @return True if the environment may change
+   */
+  virtual bool isDynamicEnvironment() const { return false; }
+
   /**
    * @brief Extracts the gradient information based on the contact results
    * @param dofvals The joint values
@@ -139,6 +145,8 @@ public:
 
   const tesseract::kinematics::JointGroup& getJointGroup() const override final;
 
+  bool isDynamicEnvironment() const override final;
+
 private:
   std::shared_ptr<const tesseract::kinematics::JointGroup> manip_;
   std::shared_ptr<const tesseract::environment::Environment> env_;
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
index abcfb44..8f55a55 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_constraint.cpp
@@ -82,7 +82,7 @@ int ContinuousCollisionConstraint::update()
   auto cache_data = collision_data_cache_.getOrAcquire(variable_hash);
 
   collision_data_ = cache_data.first;
-  if (!cache_data.second)
+  if (!cache_data.second || collision_evaluator_->isDynamicEnvironment())
   {
     collision_data_->contact_results_map.clear();
     collision_data_->gradient_results_sets.clear();
@@ -278,7 +278,7 @@ int ContinuousCollisionConstraintD::update()
   auto cache_data = collision_data_cache_.getOrAcquire(variable_hash);
 
   collision_data_ = cache_data.first;
-  if (!cache_data.second)
+  if (!cache_data.second || collision_evaluator_->isDynamicEnvironment())
   {
     collision_data_->contact_results_map.clear();
     collision_data_->gradient_results_sets.clear();
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
index 67d67eb..c5dd09c 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_evaluators.cpp
@@ -276,6 +276,8 @@ const trajopt_common::CollisionCoeffData& LVSContinuousCollisionEvaluator::getCo
 
 const tesseract::kinematics::JointGroup& LVSContinuousCollisionEvaluator::getJointGroup() const { return *manip_; }
 
+bool LVSContinuousCollisionEvaluator::isDynamicEnvironment() const { return dynamic_environment_; }
+
 //////////////////////////////////////////
 
 LVSDiscreteCollisionEvaluator::LVSDiscreteCollisionEvaluator(
@@ -499,4 +501,6 @@ const trajopt_common::CollisionCoeffData& LVSDiscreteCollisionEvaluator::getColl
 
 const tesseract::kinematics::JointGroup& LVSDiscreteCollisionEvaluator::getJointGroup() const { return *manip_; }
 
+bool LVSDiscreteCollisionEvaluator::isDynamicEnvironment() const { return dynamic_environment_; }
+
 }  // namespace trajopt_ifopt
diff --git a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
index 17eef81..899afa1 100644
--- a/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/continuous_collision_numerical_constraint.cpp
@@ -80,7 +80,7 @@ int ContinuousCollisionNumericalConstraint::update()
   auto cache_data = collision_data_cache_.getOrAcquire(variable_hash);
 
   collision_data_ = cache_data.first;
-  if (!cache_data.second)
+  if (!cache_data.second || collision_evaluator_->isDynamicEnvironment())
   {
     collision_data_->contact_results_map.clear();
     collision_data_->gradient_results_sets.clear();
diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp
index ff829fd..eb2885e 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_constraint.cpp
@@ -70,7 +70,7 @@ int DiscreteCollisionConstraint::update()
   auto cache_data = collision_data_cache_.getOrAcquire(variable_hash);
 
   collision_data_ = cache_data.first;
-  if (!cache_data.second)
+  if (!cache_data.second || collision_evaluator_->isDynamicEnvironment())
   {
     collision_data_->contact_results_map.clear();
     collision_data_->gradient_results_sets.clear();
@@ -178,7 +178,7 @@ int DiscreteCollisionConstraintD::update()
   std::size_t variable_hash = position_var_->getParent()->getParent()->getHash();
   auto cache_data = collision_data_cache_.getOrAcquire(variable_hash);
 
-  if (cache_data.second)
+  if (cache_data.second && !collision_evaluator_->isDynamicEnvironment())
   {
     collision_data_ = cache_data.first;
   }
diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
index 98dfb1c..c0ed70c 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_evaluators.cpp
@@ -212,4 +212,6 @@ const trajopt_common::CollisionCoeffData& SingleTimestepCollisionEvaluator::getC
 
 const tesseract::kinematics::JointGroup& SingleTimestepCollisionEvaluator::getJointGroup() const { return *manip_; }
 
+bool SingleTimestepCollisionEvaluator::isDynamicEnvironment() const { return dynamic_environment_; }
+
 }  // namespace trajopt_ifopt
diff --git a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
index 367b736..976ab44 100644
--- a/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/collision/discrete_collision_numerical_constraint.cpp
@@ -68,7 +68,7 @@ int DiscreteCollisionNumericalConstraint::update()
   auto cache_data = collision_data_cache_.getOrAcquire(variable_hash);
 
   collision_data_ = cache_data.first;
-  if (!cache_data.second)
+  if (!cache_data.second || collision_evaluator_->isDynamicEnvironment())
   {
     collision_data_->contact_results_map.clear();
     collision_data_->gradient_results_sets.clear();
-- 
2.43.0


From 850c9712945e7083a4d7846d5fc17091e8adfc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:47 +0000
Subject: [PATCH 56/67] fix: a CONTINUOUS collision term is not split like
 LVS_CONTINUOUS

---
 trajopt/src/collision_terms.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index 23cd58b..4e85b36 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -1115,7 +1115,9 @@ void CastCollisionEvaluator::CalcCollisions(const Eigen::Ref<const Eigen::Vector
 #endif
   };
 
-  if (dist > collision_check_config_.longest_valid_segment_length)
+  // CONTINUOUS checks the motion between the two states as a whole
+  const bool split = collision_check_config_.type != tesseract::collision::CollisionEvaluatorType::CONTINUOUS;
+  if (split && dist > collision_check_config_.longest_valid_segment_length)
   {
     // Calculate the number state to interpolate
     auto cnt = static_cast<long>(std::ceil(dist / collision_check_config_.longest_valid_segment_length)) + 1;
-- 
2.43.0


From 9e1b4aa8eb439020d80f355feff899754a94a25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 57/67] fix: the vector of cached contacts keeps the contacts
 it refers to alive

---
 trajopt/src/collision_terms.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index 4e85b36..d1337c2 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -456,11 +456,13 @@ CollisionEvaluator::GetContactResultCached(const DblVec& x)
 
   CalcCollisions(x, dist_map);
 
-  auto dist_map_ptr = std::make_shared<tesseract::collision::ContactResultMap>(std::move(dist_map));
-  auto dist_vec_ptr = std::make_shared<ContactResultVectorWrapper>();
-  dist_map_ptr->flattenWrapperResults(*dist_vec_ptr);
+  // The vector refers to the results in the map, so they are kept alive together
+  auto results = std::make_shared<std::pair<tesseract::collision::ContactResultMap, ContactResultVectorWrapper>>();
+  results->first = std::move(dist_map);
+  results->first.flattenWrapperResults(results->second);
 
-  auto pair = std::make_pair(dist_map_ptr, dist_vec_ptr);
+  auto pair = std::make_pair(ContactResultMapConstPtr(results, &results->first),
+                             ContactResultVectorConstPtr(results, &results->second));
   m_cache.put(key, pair);
   return pair;
 }
-- 
2.43.0


From c3ca803fe60c2edf7170ff997e4d42ce6961ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:48 +0000
Subject: [PATCH 58/67] fix: a collision evaluator does not reuse contacts when
 the environment may have moved

---
 trajopt/src/collision_terms.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/collision_terms.cpp b/trajopt/src/collision_terms.cpp
index d1337c2..4bf8ad2 100644
--- a/trajopt/src/collision_terms.cpp
+++ b/trajopt/src/collision_terms.cpp
@@ -441,7 +441,8 @@ std::pair<ContactResultMapConstPtr, ContactResultVectorConstPtr>
 CollisionEvaluator::GetContactResultCached(const DblVec& x)
 {
   const std::size_t key = hash(sco::getDblVec(x, GetVars()));
-  auto* it = m_cache.get(key);
+  // If the environment may have changed the results of the same joint values cannot be reused
+  auto* it = dynamic_environment_ ? nullptr : m_cache.get(key);
   if (it != nullptr)
   {
     LOG_DEBUG("using cached collision check\n")
@@ -463,7 +464,8 @@ CollisionEvaluator::GetContactResultCached(const DblVec& x)
 
   auto pair = std::make_pair(ContactResultMapConstPtr(results, &results->first),
                              ContactResultVectorConstPtr(results, &results->second));
-  m_cache.put(key, pair);
+  if (!dynamic_environment_)
+    m_cache.put(key, pair);
   return pair;
 }
 
-- 
2.43.0


From f40ab7b6324deef89197e7597f0bd0052f776b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 59/67] fix: an inverse kinematics constraint without a
 solution is not reported as satisfied

---
 .../src/constraints/inverse_kinematics_constraint.cpp          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp b/trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp
index ba7ba52..6e81b8f 100644
--- a/trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/inverse_kinematics_constraint.cpp
@@ -79,7 +79,8 @@ Eigen::VectorXd InverseKinematicsConstraint::getValues() const
   auto seed_values = seed_var_->value();
   const tesseract::kinematics::IKSolutions target_joint_position =
       kinematic_info_->manip->calcInvKin(inputs, seed_values);
-  assert(!target_joint_position.empty());
+  if (target_joint_position.empty())
+    throw std::runtime_error("InverseKinematicsConstraint: '" + name_ + "' has no inverse kinematics solution.");
 
   // Calculate joint error
   Eigen::VectorXd error = Eigen::VectorXd::Zero(n_dof_);
-- 
2.43.0


From 1aaf1dabc55935c4b325ffc8272070769197973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 60/67] fix: the rotational derivative of a Cartesian position
 constraint from the geometric Jacobian

---
 .../cartesian_position_constraint.cpp            | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
index 6b6cad3..bc18346 100644
--- a/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_position_constraint.cpp
@@ -333,28 +333,32 @@ void CartPosConstraint::calcJacobianBlock(Jacobian& jac_block,
     Eigen::MatrixXd jac0;
     if (type_ == Type::kTargetActive)
     {
-      jac0 = manip_->calcJacobian(joint_vals, target_frame_, target_frame_offset_.translation());
+      const Eigen::MatrixXd jac_world =
+          manip_->calcJacobian(joint_vals, target_frame_, target_frame_offset_.translation());
+      jac0 = jac_world;
       tesseract::common::jacobianChangeBase(jac0, (transforms_cache_[source_frame_] * source_frame_offset_).inverse());
 
       for (int c = 0; c < jac0.cols(); ++c)
       {
-        auto perturbed_target_tf = trajopt_common::addTwist(target_tf, jac0.col(c), eps);
+        auto perturbed_target_tf = trajopt_common::addTwist(target_tf, jac_world.col(c), eps);
         const Eigen::VectorXd error_diff =
             tesseract::common::calcJacobianTransformErrorDiff(source_tf, target_tf, perturbed_target_tf);
-        jac0.col(c).tail(3) = (error_diff / eps);
+        jac0.col(c).tail(3) = error_diff.tail(3) / eps;
       }
     }
     else
     {
-      jac0 = manip_->calcJacobian(joint_vals, source_frame_, source_frame_offset_.translation());
+      const Eigen::MatrixXd jac_world =
+          manip_->calcJacobian(joint_vals, source_frame_, source_frame_offset_.translation());
+      jac0 = jac_world;
       tesseract::common::jacobianChangeBase(jac0, (transforms_cache_[target_frame_] * target_frame_offset_).inverse());
 
       for (int c = 0; c < jac0.cols(); ++c)
       {
-        auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac0.col(c), eps);
+        auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac_world.col(c), eps);
         const Eigen::VectorXd error_diff =
             tesseract::common::calcJacobianTransformErrorDiff(target_tf, source_tf, perturbed_source_tf);
-        jac0.col(c).tail(3) = (error_diff / eps);
+        jac0.col(c).tail(3) = error_diff.tail(3) / eps;
       }
     }
 
-- 
2.43.0


From 015ffe0cc069dfd4a3b9843100ce1be04ef73b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 61/67] fix: the nearest point of a Cartesian line lies between
 its ends, wherever the target frame is

---
 .../constraints/cartesian_line_constraint.cpp | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index 609ecc0..fc0ba98 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -36,6 +36,7 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <tesseract/kinematics/joint_group.h>
 #include <tesseract/common/utils.h>
 #include <console_bridge/console.h>
+#include <algorithm>
 #include <cassert>
 TRAJOPT_IGNORE_WARNINGS_POP
 
@@ -272,36 +273,23 @@ Eigen::Isometry3d CartLineConstraint::getLinePoint(const Eigen::Isometry3d& sour
                                                    const Eigen::Isometry3d& target_tf1,
                                                    const Eigen::Isometry3d& target_tf2) const
 {
-  // distance 1; distance from new pose to first point on line
-  const Eigen::Vector3d d1 = (source_tf.translation() - target_tf1.translation()).array().abs();
-
   // Get the line
   const Eigen::Vector3d line = target_tf2.translation() - target_tf1.translation();
 
-  // Point D, the nearest point on line AB to point C, can be found with:
-  // (AC - (AC * AB)) * AB
-  Eigen::Isometry3d line_point;
-  const Eigen::Vector3d line_norm = line.normalized();
-  const double mag = d1.dot(line_norm);
-
+  // Point D, the nearest point on line AB to point C, is A + s * AB with s = (AC . AB) / (AB . AB)
   // If point C is not between the line endpoints, set nearest point to endpoint
-  if (mag > 1.0)
-  {
-    line_point.translation() = info_.target_frame_offset2.translation();
-  }
-  else if (mag < 0)
-  {
-    line_point.translation() = info_.target_frame_offset1.translation();
-  }
-  else
-  {
-    line_point.translation() = info_.target_frame_offset1.translation() + mag * line_norm;
-  }
+  const double length_squared = line.squaredNorm();
+  double s{ 0 };
+  if (length_squared > 0)
+    s = std::clamp((source_tf.translation() - target_tf1.translation()).dot(line) / length_squared, 0.0, 1.0);
+
+  Eigen::Isometry3d line_point{ Eigen::Isometry3d::Identity() };
+  line_point.translation() = target_tf1.translation() + s * line;
 
   // The orientation of the line_point is found using quaternion SLERP
   const Eigen::Quaterniond quat_a(target_tf1.rotation());
   const Eigen::Quaterniond quat_b(target_tf2.rotation());
-  const Eigen::Quaterniond slerp = quat_a.slerp(mag, quat_b);
+  const Eigen::Quaterniond slerp = quat_a.slerp(s, quat_b);
   line_point.linear() = slerp.toRotationMatrix();
 
   return line_point;
-- 
2.43.0


From d33546e0ecb130410b9996bfd5e4d8516edf2b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 62/67] fix: the derivative of a Cartesian line constraint has
 the rows of the constraint

---
 .../src/constraints/cartesian_line_constraint.cpp         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index fc0ba98..da9e38c 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -148,7 +148,7 @@ std::vector<Bounds> CartLineConstraint::getBounds() const { return bounds_; }
 
 void CartLineConstraint::setBounds(const std::vector<Bounds>& bounds)
 {
-  assert(bounds.size() == 6);
+  assert(bounds.size() == static_cast<std::size_t>(rows_));
   bounds_ = bounds;
 }
 
@@ -177,14 +177,14 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       dof_vals_pert(i) = joint_vals(i);
     }
 
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
       {
         // Each jac_block will be for a single variable but for all timesteps. Therefore we must index down to the
         // correct timestep for this variable
-        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0.coeffRef(info_.indices[i], j);
+        jac_block.insertBack(i, position_var_->getIndex() + j) = jac0(i, j);
       }
     }
   }
@@ -236,7 +236,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     //    Jacobian jac_block = jac0.sparseView();
 
     // This does work but could be faster
-    for (int i = 0; i < 6; i++)
+    for (int i = 0; i < info_.indices.size(); i++)
     {
       jac_block.startVec(i);
       for (int j = 0; j < n_dof_; j++)
-- 
2.43.0


From c2e7b3b48ff295de25028eb264ac0585234c2f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:29 +0000
Subject: [PATCH 63/67] fix: the derivative of a Cartesian line constraint from
 the geometric Jacobian follows the nearest point

---
 .../src/constraints/cartesian_line_constraint.cpp   | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
index da9e38c..d422619 100644
--- a/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
+++ b/trajopt_ifopt/src/constraints/cartesian_line_constraint.cpp
@@ -165,7 +165,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
   const Eigen::Isometry3d target_tf = getLinePoint(source_tf, target_tf1, target_tf2);
 
   constexpr double eps{ 1e-5 };
-  if (use_numeric_differentiation)
+  if (use_numeric_differentiation || info_.manip->isActiveLinkName(info_.target_frame))
   {
     Eigen::MatrixXd jac0(info_.indices.size(), joint_vals.size());
     Eigen::VectorXd dof_vals_pert = joint_vals;
@@ -199,9 +199,9 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     // For Jacobian Calc, we need the inverse of the nearest point, D, to new Pose, C, on the constraint line AB
     const Eigen::Isometry3d target_tf = getLinePoint(source_tf, target_tf1, target_tf2);
 
-    Eigen::MatrixXd jac0 =
+    const Eigen::MatrixXd jac_world =
         info_.manip->calcJacobian(joint_vals, info_.source_frame, info_.source_frame_offset.translation());
-    tesseract::common::jacobianChangeBase(jac0, target_tf.inverse());
+    Eigen::MatrixXd jac0(6, jac_world.cols());
 
     // Paper:
     // https://ethz.ch/content/dam/ethz/special-interest/mavt/robotics-n-intelligent-systems/rsl-dam/documents/RobotDynamics2016/RD2016script.pdf
@@ -216,11 +216,10 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
     // below should be sufficient and faster than numerical calculations using the err function.
 
     // The approach below leverages the geometric jacobian and a small step in time to approximate
-    // the partial derivative of the error function. Note that the rotational portion is the only part
-    // that is required to be modified per the paper.
+    // the partial derivative of the error function. The nearest point on the line moves along with the source.
     for (int c = 0; c < jac0.cols(); ++c)
     {
-      auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac0.col(c), eps);
+      auto perturbed_source_tf = trajopt_common::addTwist(source_tf, jac_world.col(c), eps);
 
       // For Jacobian Calc, we need the inverse of the nearest point, D, to new Pose, C, on the constraint line AB
       const Eigen::Isometry3d perturbed_target_tf = getLinePoint(perturbed_source_tf, target_tf1, target_tf2);
@@ -228,7 +227,7 @@ void CartLineConstraint::calcJacobianBlock(Jacobian& jac_block,
       const Eigen::VectorXd error_diff = tesseract::common::calcJacobianTransformErrorDiff(
           target_tf, perturbed_target_tf, source_tf, perturbed_source_tf);
 
-      jac0.col(c).tail(3) = (error_diff / eps);
+      jac0.col(c) = error_diff / eps;
     }
 
     // Convert to a sparse matrix and set the jacobian
-- 
2.43.0


From bfdc134132f4f71fcfe79823b220b1d552d8f661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 64/67] fix: an exception of a cost or constraint evaluated in
 parallel reaches the caller of the optimizer

---
 trajopt_sco/src/optimizers.cpp | 63 ++++++++++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/trajopt_sco/src/optimizers.cpp b/trajopt_sco/src/optimizers.cpp
index 253b1f0..0a476ad 100644
--- a/trajopt_sco/src/optimizers.cpp
+++ b/trajopt_sco/src/optimizers.cpp
@@ -5,7 +5,9 @@ TRAJOPT_IGNORE_WARNINGS_PUSH
 #include <cmath>
 #include <chrono>
 #include <cstdio>
+#include <exception>
 #include <memory>
+#include <mutex>
 TRAJOPT_IGNORE_WARNINGS_POP
 
 #include <trajopt_sco/expr_ops.hpp>
@@ -271,14 +273,53 @@ std::vector<std::string> BasicTrustRegionSQP::getVarNames(const VarVector& vars)
   return out;
 }
 
+namespace
+{
+/** @brief Keeps the exceptions of a parallel loop, which they must not leave, and throws the one that a serial loop would */
+class LoopErrors
+{
+public:
+  template <typename F>
+  void run(int i, const F& body)
+  {
+    try
+    {
+      body();
+    }
+    catch (...)
+    {
+      const std::lock_guard<std::mutex> lock(mutex_);
+      if (error_ == nullptr || i < index_)
+      {
+        error_ = std::current_exception();
+        index_ = i;
+      }
+    }
+  }
+
+  void rethrow() const
+  {
+    if (error_ != nullptr)
+      std::rethrow_exception(error_);
+  }
+
+private:
+  std::mutex mutex_;
+  std::exception_ptr error_;
+  int index_{ 0 };
+};
+}  // namespace
+
 DblVec BasicTrustRegionSQPMultiThreaded::evaluateCosts(const std::vector<Cost::Ptr>& costs, const DblVec& x) const
 {
   DblVec out(costs.size());
+  LoopErrors errors;
 #pragma omp parallel for schedule(dynamic) num_threads(param_.num_threads) shared(out, costs, x)
   for (int i = 0; i < static_cast<int>(costs.size()); ++i)
   {
-    out[static_cast<std::size_t>(i)] = costs[static_cast<std::size_t>(i)]->value(x);
+    errors.run(i, [&] { out[static_cast<std::size_t>(i)] = costs[static_cast<std::size_t>(i)]->value(x); });
   }
+  errors.rethrow();
 
   return out;
 }
@@ -287,11 +328,13 @@ DblVec BasicTrustRegionSQPMultiThreaded::evaluateConstraintViols(const std::vect
                                                                  const DblVec& x) const
 {
   DblVec out(cnts.size());
+  LoopErrors errors;
 #pragma omp parallel for schedule(dynamic) num_threads(param_.num_threads) shared(out, cnts, x)
   for (int i = 0; i < static_cast<int>(cnts.size()); ++i)
   {
-    out[static_cast<std::size_t>(i)] = cnts[static_cast<std::size_t>(i)]->violation(x);
+    errors.run(i, [&] { out[static_cast<std::size_t>(i)] = cnts[static_cast<std::size_t>(i)]->violation(x); });
   }
+  errors.rethrow();
 
   return out;
 }
@@ -301,11 +344,13 @@ std::vector<ConvexObjective::Ptr> BasicTrustRegionSQPMultiThreaded::convexifyCos
                                                                                    Model* model) const
 {
   std::vector<ConvexObjective::Ptr> out(costs.size());
+  LoopErrors errors;
 #pragma omp parallel for schedule(dynamic) num_threads(param_.num_threads) shared(out, costs, x, model)
   for (int i = 0; i < static_cast<int>(costs.size()); ++i)
   {
-    out[static_cast<std::size_t>(i)] = costs[static_cast<std::size_t>(i)]->convex(x, model);
+    errors.run(i, [&] { out[static_cast<std::size_t>(i)] = costs[static_cast<std::size_t>(i)]->convex(x, model); });
   }
+  errors.rethrow();
 
   return out;
 }
@@ -316,11 +361,13 @@ BasicTrustRegionSQPMultiThreaded::convexifyConstraints(const std::vector<Constra
                                                        Model* model) const
 {
   std::vector<ConvexConstraints::Ptr> out(cnts.size());
+  LoopErrors errors;
 #pragma omp parallel for schedule(dynamic) num_threads(param_.num_threads) shared(out, cnts, x, model)
   for (int i = 0; i < static_cast<int>(cnts.size()); ++i)
   {
-    out[static_cast<std::size_t>(i)] = cnts[static_cast<std::size_t>(i)]->convex(x, model);
+    errors.run(i, [&] { out[static_cast<std::size_t>(i)] = cnts[static_cast<std::size_t>(i)]->convex(x, model); });
   }
+  errors.rethrow();
 
   return out;
 }
@@ -329,11 +376,13 @@ DblVec BasicTrustRegionSQPMultiThreaded::evaluateModelCosts(const std::vector<Co
                                                             const DblVec& x) const
 {
   DblVec out(costs.size());
+  LoopErrors errors;
 #pragma omp parallel for schedule(dynamic) num_threads(param_.num_threads) shared(out, costs, x)
   for (int i = 0; i < static_cast<int>(costs.size()); ++i)
   {
-    out[static_cast<std::size_t>(i)] = costs[static_cast<std::size_t>(i)]->value(x);
+    errors.run(i, [&] { out[static_cast<std::size_t>(i)] = costs[static_cast<std::size_t>(i)]->value(x); });
   }
+  errors.rethrow();
 
   return out;
 }
@@ -342,11 +391,13 @@ DblVec BasicTrustRegionSQPMultiThreaded::evaluateModelCntViols(const std::vector
                                                                const DblVec& x) const
 {
   DblVec out(cnts.size());
+  LoopErrors errors;
 #pragma omp parallel for schedule(dynamic) num_threads(param_.num_threads) shared(out, cnts, x)
   for (int i = 0; i < static_cast<int>(cnts.size()); ++i)
   {
-    out[static_cast<std::size_t>(i)] = cnts[static_cast<std::size_t>(i)]->violation(x);
+    errors.run(i, [&] { out[static_cast<std::size_t>(i)] = cnts[static_cast<std::size_t>(i)]->violation(x); });
   }
+  errors.rethrow();
 
   return out;
 }
-- 
2.43.0


From eb2b148dfba4c82b25a4a7d31bde9b00e6cfe332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 65/67] fix: a plotted trajectory of a problem with time has
 one value per joint

---
 trajopt/src/plot_callback.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trajopt/src/plot_callback.cpp b/trajopt/src/plot_callback.cpp
index 8825b16..b85e76a 100644
--- a/trajopt/src/plot_callback.cpp
+++ b/trajopt/src/plot_callback.cpp
@@ -46,7 +46,7 @@ void PlotCosts(const std::shared_ptr<tesseract::visualization::Visualization>& p
   auto traj = getTraj(results.x, vars);
   tesseract::common::JointTrajectory joint_trajectory;
   for (long i = 0; i < traj.rows(); ++i)
-    joint_trajectory.states.emplace_back(joint_names, traj.row(i));
+    joint_trajectory.states.emplace_back(joint_names, traj.row(i).head(static_cast<Eigen::Index>(joint_names.size())));
 
   plotter->plotTrajectory(joint_trajectory, state_solver);
   plotter->waitForInput();
@@ -95,12 +95,15 @@ void PlotProb(const std::shared_ptr<tesseract::visualization::Visualization>& pl
   VarArray var_array;
   var_array.m_data = var_vec;
   var_array.m_nCol = static_cast<int>(joint_names.size());
+  // A row also has the time if the problem does
+  if (auto* trajopt_prob = dynamic_cast<TrajOptProb*>(prob))
+    var_array.m_nCol = trajopt_prob->GetNumDOF();
   var_array.m_nRow = static_cast<int>(var_vec.size()) / var_array.cols();
 
   auto traj = getTraj(results.x, var_array);
   tesseract::common::JointTrajectory joint_trajectory;
   for (long i = 0; i < traj.rows(); ++i)
-    joint_trajectory.states.emplace_back(joint_names, traj.row(i));
+    joint_trajectory.states.emplace_back(joint_names, traj.row(i).head(static_cast<Eigen::Index>(joint_names.size())));
 
   plotter->plotTrajectory(joint_trajectory, state_solver);
   plotter->waitForInput();
-- 
2.43.0


From 3be225e283e21437afe614da7de76f05f59a529c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 66/67] fix: the written file names its columns, and the poses
 of a problem with time are those of the joints

---
 trajopt/src/file_write_callback.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/trajopt/src/file_write_callback.cpp b/trajopt/src/file_write_callback.cpp
index 289c146..655f2f0 100644
--- a/trajopt/src/file_write_callback.cpp
+++ b/trajopt/src/file_write_callback.cpp
@@ -53,8 +53,8 @@ void WriteFile(const std::shared_ptr<std::ofstream>& file,
       joint_angles(j) = traj(i, j);
     }
 
-    // Calc cartesian pose
-    const tesseract::common::TransformMap state = manip->calcFwdKin(joint_angles);
+    // Calc cartesian pose, a row ends with the time if the problem has it
+    const tesseract::common::TransformMap state = manip->calcFwdKin(joint_angles.head(manip->numJoints()));
 
     for (const auto& it : state)
     {
@@ -102,7 +102,9 @@ std::function<void(sco::OptProb*, sco::OptResults&)> WriteCallback(std::shared_p
   }
 
   // Write joint names
-  std::vector<std::string> joint_names = prob->GetEnv()->getActiveJointNames();
+  std::vector<std::string> joint_names = prob->GetKin()->getJointNames();
+  if (prob->GetHasTime())
+    joint_names.emplace_back("dt");
   for (std::size_t i = 0; i < joint_names.size(); i++)
   {
     if (i != 0)
-- 
2.43.0


From b9bf7c8e83316d8f1b8c4406aa92d4e955e165e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:28 +0000
Subject: [PATCH 67/67] fix: setting the variables of a TrajOptQPProblem again
 after a failed update updates its components

---
 .../trajopt_sqp/src/trajopt_qp_problem.cpp               | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
index 5049c37..86ecf08 100644
--- a/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
+++ b/trajopt_optimizers/trajopt_sqp/src/trajopt_qp_problem.cpp
@@ -360,6 +360,9 @@ struct TrajOptQPProblem::Implementation
   int n_dyn_components{ 0 };
   int n_dyn_components_prev{ -1 };
 
+  /** @brief True while the components are updated, so it stays true if one of them throws an exception */
+  bool update_pending{ false };
+
   std::vector<Eigen::Triplet<double>> cache_triplets_1;
   std::vector<Eigen::Triplet<double>> cache_triplets_2;
   std::vector<double> cache_slack_gradient;
@@ -711,10 +714,11 @@ void TrajOptQPProblem::Implementation::setVariables(const double* x)
   const std::size_t hash = variables->getHash();
   variables->setVariables(Eigen::Map<const Eigen::VectorXd>(x, variables->getRows()));
 
-  // Skip update if variables did not change
-  if (hash == variables->getHash())
+  // Skip update if variables did not change and the last update was completed
+  if (!update_pending && hash == variables->getHash())
     return;
 
+  update_pending = true;
   n_dyn_components = 0;
   for (auto& c : all_components)
   {
@@ -722,6 +726,7 @@ void TrajOptQPProblem::Implementation::setVariables(const double* x)
     if (c->isDynamic())
       n_dyn_components += cnt;
   }
+  update_pending = false;
 }
 
 Eigen::VectorXd TrajOptQPProblem::Implementation::getVariableValues() const { return variables->getValues(); }
-- 
2.43.0

