"""What each check runs: property -> worlds (executable, world, share of the time), time budgets, what is real and what is a stand-in."""
COMMON_ASSUMPTIONS = [
    "Only interleavings at memory accesses, synchronisation calls and system calls of the instrumented code are explored, under sequentially consistent memory.",
    "The code runs as compiled by GCC 13 at -O1 for x86-64.",
]
PROPS = {}
NOT_APPLICABLE = {}
PROPS["P12"] = dict(
    worlds=[("w_cache", "cache", 1)], quick=15, thorough=300,
    technique="random operation histories with allocation failures injected at any point, against a reference model of the cache",
    note="Seeded search, not exhaustive. Reference model compares every observable result after every operation.",
    rule="Each seed draws a capacity, key type, hash function, a history of operations and failing allocations; non-trivial: at least three objects were stored or an allocation failed.",
    real=["trajopt_common::Cache"], stubs=["memory allocator (failures injected)"])

MODELS = "the model classes of trajopt_sco for BPMPD, OSQP and qpOASES, expression and matrix conversion"
BPMPD_STUBS = ["BPMPD library (bpmpd()): a stand-in that answers with a function of the exact problem it was given", "operating system: processes, pipes, signals, descriptors"]
PROPS["P01"] = dict(
    worlds=[("w_model", "bpmpd_exchange", 1)], quick=25, thorough=900,
    technique="models in 1-3 threads, the solver process and the pipes between them under a seeded scheduler with short, partial and interrupted transfers; every answer compared with the one for the submitted problem; data races",
    note="Seeded search. The answer of the stand-in solver is a hash of every bit of the problem, so any lost, reordered or mixed-up byte that matters changes the values the caller sees.",
    rule="Each seed draws threads, problems, pipe capacity, transfer faults and the schedule; non-trivial: several threads, or small pipes, or faults.",
    real=[MODELS, "bpmpd_io serialisation", "the main program of the solver process (bpmpd_caller)"], stubs=BPMPD_STUBS)
PROPS["P02"] = dict(
    worlds=[("w_model", "bpmpd_failure", 1)], quick=25, thorough=900,
    technique="the solver process is killed at any of its system calls or between solves, and starting it fails; liveness as recovery within two solves once faults stop",
    note="Seeded search over kill points and failing calls. Hangs are detected exactly: no simulated thread can run.",
    rule="Each seed draws models, solves, kill rate, failing pipe/fork/exec calls, closed standard descriptors and the schedule; non-trivial: a process was killed or a solve reported failure.",
    real=[MODELS, "bpmpd_io serialisation", "bpmpd_caller"], stubs=BPMPD_STUBS)
PROPS["P03"] = dict(
    worlds=[("w_model", "history_osqp", 3), ("w_model", "history_qpoases", 2), ("w_model", "history_bpmpd", 2)], quick=30, thorough=900,
    technique="random histories of edits and solves with failing solver calls and any solver outcome, against a reference model of the problem; use after free and reads beyond heap blocks",
    note="Seeded search. The stand-ins for OSQP and qpOASES keep their own copy of the data, apply updates the way the libraries do, and answer with a hash of the data they hold.",
    rule="Each seed draws back end settings, one or two models, a history of edits and solves, outcomes and failing calls; non-trivial: at least two solves in the history.",
    real=[MODELS], stubs=["OSQP", "qpOASES", "BPMPD library"])
PROPS["P04"] = dict(
    worlds=[("w_model", "model_concurrent", 1)], quick=20, thorough=600,
    technique="concurrent additions and removals under a seeded scheduler with data-race detection, compared with the set they must leave",
    note="Seeded search over schedules.",
    rule="Each seed draws a back end, 2-3 threads with calls to add and remove items, and the schedule; every run is non-trivial.",
    real=[MODELS], stubs=["OSQP", "qpOASES", "BPMPD library and its process"])
SQPS = "BasicTrustRegionSQP and BasicTrustRegionSQPMultiThreaded, OptProb, costs, constraints, penalties, convexification, numeric differentiation, the OSQP and qpOASES models"
SQP_STUBS = ["OSQP and qpOASES libraries: a stand-in that reads the subproblem it was given and answers with its minimiser, an inexact or wrong point, or any failure status", "clocks"]
SQP_RULE = "Each seed draws a problem (costs, constraints, bounds, linear constraints, functions that are undefined somewhere), parameters, a start point, and the outcome of every QP solve; "
PROPS["P05"] = dict(
    worlds=[("w_sco", "sco_parallel", 1)], quick=20, thorough=900,
    technique="the OpenMP threads run under a seeded scheduler with data-race detection; costs and constraints may throw; iterates, result, exception and log files are compared with those of the serial optimizer on the same problem and QP outcomes",
    note="Seeded search over schedules (a stand-in for libgomp creates the teams and deals out the loop iterations).",
    rule=SQP_RULE + "and the number of threads and their schedule; non-trivial: more than one thread evaluated.",
    real=[SQPS], stubs=SQP_STUBS + ["OpenMP run-time library", "file system (in memory)"])
PROPS["P06"] = dict(
    worlds=[("w_sco", "sco_truth", 1)], quick=20, thorough=900,
    technique="optimisations with injected QP failures and wrong QP answers; every reported value recomputed from the problem's definition, every accepted step's exact merit compared with the one before",
    note="Seeded search. The oracle evaluates the functions from their description, not through the library.",
    rule=SQP_RULE + "non-trivial: at least one QP solve.", real=[SQPS], stubs=SQP_STUBS)
PROPS["P07"] = dict(
    worlds=[("w_sco", "sco_limits", 1)], quick=20, thorough=900,
    technique="simulated time with slow evaluations and solves and with jumps of the system clock; QP failures in any sequence; iterations, solves and the time of the end are bounded by the configured limits",
    note="Seeded search. Liveness as a bound on simulated steps, solves and time that follows from the limits.",
    rule=SQP_RULE + "the limits, and the durations; non-trivial: at least one QP solve.", real=[SQPS], stubs=SQP_STUBS)
TSQP = "TrustRegionSQPSolver, TrajOptQPProblem, IfoptQPProblem, OSQPEigenSolver, trajopt_ifopt problem, variables and constraint sets"
TSQP_STUBS = ["OSQP and OsqpEigen libraries or the QPSolver interface: a stand-in that reads the subproblem it was given and answers with its minimiser, an inexact, wrong or undefined point, or any failure", "clocks"]
TSQP_RULE = "Each seed draws a problem (costs and constraints of every bound and penalty type, functions undefined somewhere, both kinds of QP problem), parameters, a start point, and the outcome of every QP solve; "
PROPS["P08"] = dict(
    worlds=[("w_sqp", "sqp_truth", 1)], quick=25, thorough=900,
    technique="optimisations with injected QP failures, wrong and undefined QP answers, refused updates and evaluations that throw; every reported value, at every callback and at the end, recomputed from the problem's definition",
    note="Seeded search. The oracle evaluates the functions from their description, not through the library.",
    rule=TSQP_RULE + "non-trivial: at least one step was accepted.", real=[TSQP], stubs=TSQP_STUBS)
PROPS["P09"] = dict(
    worlds=[("w_sqp", "sqp_limits", 1)], quick=25, thorough=900,
    technique="simulated time with slow evaluations, solves and callbacks and jumps of the system clock; QP failures in any sequence, callbacks that ask to stop; the end, its time and its status are compared with what the limits imply",
    note="Seeded search. Liveness as bounds on the simulated solves, callbacks and time that follow from the limits.",
    rule=TSQP_RULE + "the limits, the durations and the callbacks' answers; non-trivial: at least two QP solves.", real=[TSQP], stubs=TSQP_STUBS)
PROPS["P10"] = dict(
    worlds=[("w_sqp", "sqp_steps", 1), ("w_sqp", "sqp_subproblem", 1)], quick=30, thorough=900,
    technique="every subproblem that reaches the QP solver in an optimisation with faults, and every one left by a random history of calls, is compared with the convexification computed from the problem's definition",
    note="Seeded search. The slack encoding is read back from the matrices, so the order and signs of slack variables do not matter.",
    rule=TSQP_RULE + "or a history of calls; non-trivial: at least three QP solves or convexifications.", real=[TSQP], stubs=TSQP_STUBS)
PROPS["P11"] = dict(
    worlds=[("w_sqp", "sqp_osqp", 2), ("w_sqp", "sqp_warmstart", 1)], quick=25, thorough=600,
    technique="random histories of init, update, clear and solve with failing OSQP calls and any outcome; the stand-in for OSQP keeps its own copy of the data and answers with a hash of it",
    note="Seeded search. Only the data OSQP holds when it solves and what the wrapper reports are judged.",
    rule="Each seed draws a history of calls, matrices with changing sparsity, outcomes and failing calls; non-trivial: at least two solves.", real=["OSQPEigenSolver", "TrajOptQPProblem, IfoptQPProblem (warm start)"], stubs=["OSQP and OsqpEigen libraries"])
VH = "VHACD and its asynchronous front end (MyHACD_API), voxelization, convex hulls, clipping and merging"
PROPS["P13"] = dict(
    worlds=[("w_vhacd", "vhacd_async", 1)], quick=30, thorough=900,
    technique="the decomposition thread, its OpenMP threads and the application's thread under a seeded scheduler; random histories of computing, polling, cancelling (also from callbacks), restarting, cleaning and releasing, with thread creation failing; data races, use after free, leaks, hangs",
    note="Seeded search over schedules and points of cancellation. A decomposition cancelled in its first half must not report a result; that bound assumes that the application's thread is not starved, which the scheduler guarantees.",
    rule="Each seed draws one or two objects, meshes and parameters, a history of calls, how far the computation gets between them, and the schedule; non-trivial: at least one switch between threads.",
    real=[VH], stubs=["OpenMP run-time library", "thread creation (failures injected)", "clocks and sleeping"])
PROPS["P14"] = dict(
    worlds=[("w_vhacd", "vhacd_parallel", 1)], quick=40, thorough=900,
    technique="the OpenMP threads run under a seeded scheduler with data-race detection and checks of the heap; convex hulls and centre of mass compared bit by bit with those of one thread",
    note="Seeded search over schedules, numbers of threads and processors, meshes and parameters (a stand-in for libgomp creates the teams).",
    rule="Each seed draws a mesh of crossing walls, parameters, numbers of threads and processors and the schedule; non-trivial: more than one convex hull and at least one switch between threads.",
    real=[VH], stubs=["OpenMP run-time library"])
PROPS["P15"] = dict(
    worlds=[("w_sco", "sco_logs", 1)], quick=20, thorough=600,
    technique="file operations fail at any point (missing directory, failing open, disk full after n bytes) and evaluations throw; log files compared with the recorded steps, results with those of a run without logging",
    note="Seeded search over fault points.",
    rule=SQP_RULE + "and the file operations that fail; non-trivial: at least one file was opened or refused.", real=[SQPS], stubs=SQP_STUBS + ["file system (in memory, with failures)"])
IFO = "Node, Var, NodesVariables, NodesObserver, Bounds, Problem, CompositeDifferentiable, ifopt_utils"
PROPS["P16"] = dict(
    worlds=[("w_ifopt", "ifopt_vars", 1)], quick=20, thorough=600,
    technique="random histories of building nodes, rejected additions, updates, saving and restoring, numerical differentiation, with exceptions injected in observers and evaluations, in one or two threads with data-race detection, against a reference model of the values last set",
    note="Seeded search. Every view is compared bit by bit after every operation and inside every callback; after an injected exception in an evaluation all views must still agree with each other.",
    rule="Each seed draws nodes, variables, bounds, observers, a history of operations, injected exceptions and the schedule; non-trivial: at least one update.",
    real=[IFO], stubs=["getHash of trajopt_common (same algorithm, the original needs libraries that are not installed)"])
PROPS["P18"] = dict(
    worlds=[("w_ifopt", "ifopt_terms", 1)], quick=20, thorough=600,
    technique="random histories of updates of trajectories with terms and costs, rejected terms, components whose number of rows changes, in one or two threads with data-race detection, against a reference model with exact arithmetic",
    note="Seeded search. All values are multiples of powers of two, so that terms are compared exactly; costs and gradients with relative tolerance 1e-9, numerical derivatives 1e-3.",
    rule="Each seed draws the trajectory, the terms and costs, a history of updates and the schedule; non-trivial: at least one term was accepted and evaluated.",
    real=["the joint terms of trajopt_ifopt, SquaredCost, AbsoluteCost", IFO], stubs=["getHash of trajopt_common (same algorithm, the original needs libraries that are not installed)"])
PROPS["P17"] = dict(
    worlds=[("w_sco", "sco_steps", 1)], quick=25, thorough=900,
    technique="every subproblem that reaches the QP solver is compared with the convexification computed from the problem's definition at the current point, every accepted and rejected step with the exact and predicted improvement",
    note="Seeded search. Compared up to the accuracy of the numeric derivatives where the problem asks for them.",
    rule=SQP_RULE + "non-trivial: at least one QP solve.", real=[SQPS], stubs=SQP_STUBS)
PROPS["P19"] = dict(
    worlds=[("w_coll", "collision_terms", 1)], quick=25, thorough=900,
    technique="random histories of trajectories with revisits, contact checks that throw and failing allocations, in one or two threads with data-race detection, against the contacts computed afresh from the definition",
    note="Seeded search. The links are made of spheres, so that distances and derivatives are exact; cases in which rounding decides what is in contact are left out and counted.",
    rule="Each seed draws the links and joints, margins, coefficients, evaluators and constraints, a history of trajectories, the failures and the schedule; non-trivial: at least one contact.",
    real=["collision constraints and evaluators of trajopt_ifopt, collision types and utilities of trajopt_common", IFO],
    stubs=["Tesseract's environment, kinematics and contact managers: spheres at exact distances, joints that slide or turn"])
PROPS["P20"] = dict(
    worlds=[("w_traj", "problem_description", 1)], quick=25, thorough=900,
    technique="random descriptions of problems, in structures and JSON, constructed and evaluated over histories of trajectories with kinematics that throw and failing allocations, in one or two threads with data-race detection, against an independent reading of the description",
    note="Seeded search. Derivatives of Cartesian and singularity terms are compared with central differences of the definition, away from the points where there is none. Collision terms are P21.",
    rule="Each seed draws the robot, the description (or a flaw in it), a history of trajectories, the failures and the schedule; non-trivial: at least one term, or two problems at once.",
    real=["problem description, JSON, joint, time, Cartesian, singularity and user-defined terms of trajopt; modelling, expressions, optimizer of trajopt_sco", "trajopt/"],
    stubs=["Tesseract's environment, kinematics and visualization: links on joints that slide or turn", "the QP solvers"])
PROPS["P21"] = dict(
    worlds=[("w_traj", "trajopt_collision", 1)], quick=25, thorough=900,
    technique="random scenes and collision terms, in structures and JSON, over histories of trajectories and of movements of the environment, with contact checks and kinematics that throw and failing allocations, in one or two threads with data-race and use-after-free detection, against the contacts recomputed from the definition",
    note="Seeded search. The contact checker is a stand-in with exact distances; derivatives of contacts swept between turned links, which the code approximates, are not compared.",
    rule="Each seed draws the scene, the terms (or a flaw in their description), a history of trajectories and movements, the failures and the schedule; non-trivial: at least one contact.",
    real=["collision terms and evaluators, problem description and JSON of trajopt; collision types of trajopt_common; modelling, expressions, optimizer of trajopt_sco", "trajopt/"],
    stubs=["Tesseract's environment, kinematics and contact managers: spheres at exact distances, joints that slide or turn", "the QP solvers"])
PROPS["P22"] = dict(
    worlds=[("w_cart", "cartesian_terms", 1)], quick=20, thorough=900,
    technique="random histories of trajectories and target poses with revisits, kinematics that throw or find no solution and failing allocations, in one or two threads that share constraints, with data-race and out-of-bounds detection, against pose errors and nearest solutions recomputed from the definition",
    note="Seeded search. Derivatives are compared with central differences of the definition, away from the points where there is none.",
    rule="Each seed draws the robot, the constraints (or a flaw in them), a history of trajectories and target poses, the failures and the schedule; non-trivial: at least one constraint was evaluated.",
    real=["Cartesian position, Cartesian line and inverse kinematics constraints, numeric differentiation and trajectory conversion of trajopt_ifopt", IFO],
    stubs=["Tesseract's kinematics: links on joints that slide or turn; inverse kinematics with any number of solutions"])
PROPS["P23"] = dict(
    worlds=[("w_traj", "planning", 1)], quick=35, thorough=900,
    technique="random planning problems, planned repeatedly: with one or several threads, next to another planner, watched by callbacks, again on the same problem and after failures injected into kinematics, contact checks, user functions, the QP solver, callbacks and the disk, with data-race detection; compared bit by bit with a plan made on its own, and with terms evaluated afresh",
    note="Seeded search. The QP solver is a stand-in whose answer depends on the subproblem only.",
    rule="Each seed draws the robot, the scene, the description, the parameters, a sequence of plans, the failures and the schedule; non-trivial: at least one QP solve.",
    real=["all of trajopt except the plots of single terms, optimizers and modelling of trajopt_sco, with the OSQP and qpOASES interfaces; collision types of trajopt_common", "trajopt/"],
    stubs=["Tesseract's environment, kinematics, contact managers and visualization", "the QP solvers", "file system (the stream's buffer, with a size)"])
PROPS["P24"] = dict(
    worlds=[("w_plan", "plans", 1)], quick=35, thorough=900,
    technique="random planning problems for the SQP solver, planned repeatedly: on the same problem or with the same solvers and callbacks, in turn with another problem, next to another planner, watched by callbacks, and after failures injected into kinematics, contact checks, inverse kinematics, the QP solver, callbacks and memory allocation, with data-race detection; compared bit by bit with a plan made on its own, and with terms evaluated afresh",
    note="Seeded search. The QP solver is a stand-in whose answer depends on the subproblem only.",
    rule="Each seed draws the robot, the scene, the terms, the parameters, a sequence of plans, the failures and the schedule; non-trivial: at least one step of the solver.",
    real=["all of trajopt_sqp, all terms and variables of trajopt_ifopt, collision types of trajopt_common", "trajopt_optimizers/trajopt_sqp/"],
    stubs=["Tesseract's environment, kinematics, contact managers and visualization", "OsqpEigen and OSQP"])
for _i in ["P%02d" % k for k in range(1, 25)]:
    if _i not in PROPS:
        NOT_APPLICABLE[_i] = "no check has been built yet"
