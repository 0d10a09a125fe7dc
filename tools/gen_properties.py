#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text lives here so that it can be read and edited)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()), "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism], "observe_at": observe, "hook_needed": None}})


SCO, SQP, IFO, COM, VH = "trajopt_sco/", "trajopt_optimizers/trajopt_sqp/", "trajopt_ifopt/", "trajopt_common/", "trajopt_ext/vhacd/"

prop("P01", "Exchange with the external QP solver process is exact",
     """However the operating system splits, delays or interrupts the transfers between the optimizer and its external QP solver process,
     and however many models and threads solve at the same time, the solver process receives exactly the problem that was submitted, and each
     caller gets back exactly the solution and the status that were computed for its own problem.""",
     ["schedules", "inputs", "histories", "fault_sequences"],
     "All schedules of the solving threads and of the solver process, all ways of splitting and interrupting pipe transfers, all pipe capacities, all problem sizes and sequences of solves.",
     "The unit tests solve a few small problems from one thread; each message fits in the pipe buffer and arrives in one piece, so partial transfers, interrupted calls and interleaved messages never happen.",
     [SCO + "include/trajopt_sco/bpmpd_io.hpp", SCO + "src/bpmpd_interface.cpp", SCO + "src/bpmpd_caller.cpp"],
     [("length-prefixed serialisation over two pipes", SCO + "include/trajopt_sco/bpmpd_io.hpp ser()"), ("one shared solver process", SCO + "src/bpmpd_interface.cpp popen2()")],
     ["the problem as the solver process sees it", "return value of optimize() and getVarValues()"],
     [("gPID/gPipeIn/gPipeOut", "the solver process shared by all models", SCO + "src/bpmpd_interface.cpp")])
prop("P02", "A failing QP solver process is survived, reported and replaced",
     """If the external QP solver process cannot be started, or dies at any point, every solve still returns: either with the right answer or by
     reporting failure; it never blocks for ever, ends the calling process or passes off other data as the solution. Once the process can be started
     and stays alive, solves succeed again, repeated failures leak neither file descriptors nor processes, and the solver process ends when the process that uses it does.""",
     ["crash_points", "fault_sequences", "histories", "schedules"],
     "All points (every system call of the solver process) at which the solver process can die, all failures of pipe, fork and exec, in all sequences of solves.",
     "No test ever kills the solver process or makes a system call fail.",
     [SCO + "src/bpmpd_interface.cpp", SCO + "src/bpmpd_caller.cpp", SCO + "include/trajopt_sco/bpmpd_io.hpp"],
     [("process start and exit hook", SCO + "src/bpmpd_interface.cpp popen2(), fexit()"), ("status codes", SCO + "src/bpmpd_interface.cpp optimize()")],
     ["return value of optimize()", "liveness of the host process", "open descriptors and child processes"])
prop("P03", "The solver is given exactly the current model after any history of edits",
     """After any history of adding and removing variables and constraints, changing bounds and objective, and earlier solves with any outcome, a solve hands the
     QP solver exactly the convex problem that the surviving variables, constraints, bounds and the last objective describe, whatever is reused from earlier solves
     (factorised workspace, sparsity pattern, warm start). The status and the values reported for every variable are the ones that the solver asked for, by value, by name or by the environment, returned for that problem.""",
     ["histories", "inputs", "configurations", "fault_sequences"],
     "All sequences of edits and solves, all solver outcomes and failing solver calls, all three back ends (BPMPD, OSQP, qpOASES), workspace update on and off.",
     "Tests build a model once, solve it, perhaps remove one constraint; they never vary sparsity between solves, reuse a workspace after a failure or interleave removals with bounds.",
     [SCO + "src/osqp_interface.cpp", SCO + "src/qpoases_interface.cpp", SCO + "src/bpmpd_interface.cpp", SCO + "src/solver_utils.cpp", SCO + "src/solver_interface.cpp"],
     [("index compaction", SCO + "src/*_interface.cpp update()"), ("expression to matrix conversion", SCO + "src/solver_utils.cpp exprToEigen()"), ("workspace reuse", SCO + "src/osqp_interface.cpp createOrUpdateSolver()")],
     ["the data the solver library is called with", "optimize() and getVarValues()"])
prop("P04", "Variables and constraints can be added and removed from several threads",
     """When several threads add and remove variables and constraints of one model at the same time, in any interleaving, the model afterwards holds exactly the items
     that were added and not removed, each with its own name, bounds, expression and type, as if the calls had been made one after another, and without data races.""",
     ["schedules", "histories"], "All interleavings of concurrent additions and removals, all three back ends.",
     "The tests are single-threaded.",
     [SCO + "src/osqp_interface.cpp", SCO + "src/qpoases_interface.cpp", SCO + "src/bpmpd_interface.cpp", SCO + "src/solver_interface.cpp", SCO + "include/trajopt_sco/solver_interface.hpp"],
     [("model mutex", SCO + "include/trajopt_sco/*_interface.hpp")], ["getVars(), the problem given to the solver", "memory accesses of the threads"])
prop("P05", "Evaluating costs and constraints in parallel gives the serial result",
     """Optimising with any number of threads evaluating costs and constraints gives, under every interleaving, the same iterates, the same result and the same logged values as
     evaluating them one after another, without data races. An exception of one of them reaches the caller of the optimizer, as it does when they are evaluated one after another.""",
     ["schedules", "inputs", "configurations", "fault_sequences"], "All interleavings of the worker threads, all numbers of threads, all sets of costs and constraints, exceptions at any evaluation.",
     "Tests run with whatever schedule the OpenMP runtime happens to pick, and never compare it with the serial one.",
     [SCO + "src/optimizers.cpp"], [("parallel evaluation", SCO + "src/optimizers.cpp BasicTrustRegionSQPMultiThreaded")], ["results().x, total_cost, cost_vals, cnt_viols, status"])
prop("P06", "The sequential convex optimizer reports only what is true of its solution",
     """Whenever an optimisation ends, for any problem, start point and any sequence of QP solver outcomes, the reported costs and constraint violations are those of the reported
     solution, the solution lies within the variable bounds, no step was accepted that makes the exact merit, at the penalties then in force, worse (or undefined), and
     the status 'converged' is reported only if every constraint violation is within the tolerance.""",
     ["inputs", "histories", "fault_sequences"], "All problems, start points, parameters, QP solver outcomes (failures, infeasible, inaccurate).",
     "Three small problems are solved in the tests, always with a working QP solver.",
     [SCO + "src/optimizers.cpp", SCO + "src/modeling.cpp"], [("step acceptance and penalty adjustment", SCO + "src/optimizers.cpp optimize()")], ["OptResults"])
prop("P07", "The sequential convex optimizer stops at its limits and when the QP solver fails",
     """An optimisation ends within its limits on merit penalty increases, iterations and trust-region reductions whatever the QP solver returns, and it stops at its time limit, however the
     clocks of the machine are adjusted meanwhile; if constraints are still violated then, the limit that ended the run is what is reported. Repeated QP failures end it with a failure status instead of being ignored.""",
     ["histories", "fault_sequences", "configurations", "inputs"], "All sequences of QP outcomes, all evaluation times and clock adjustments, all parameter settings.",
     "Tests never inject a failing solver or a time limit, and cannot control the clock.",
     [SCO + "src/optimizers.cpp"], [("limit checks", SCO + "src/optimizers.cpp BasicTrustRegionSQP::optimize()")], ["OptResults::status, n_qp_solves, n_func_evals, simulated time"])
prop("P08", "The trust-region SQP solver reports only what is true of its solution",
     """Whenever the trust-region SQP solver ends, for any problem, start point and sequence of QP solver outcomes, its reported best solution is the one stored in the problem's variables, with the
     cost and violation values that evaluating the problem there gives; the exact merit of accepted steps never increases or becomes undefined under fixed penalties, and 'converged' is reported only if every
     constraint is within the tolerance.""",
     ["inputs", "histories", "fault_sequences"], "All problems, start points, parameters and QP outcomes.",
     "The tests that run this solver need a collision environment or OSQP and use one start point each; none makes the QP solver fail.",
     [SQP + "src/trust_region_sqp_solver.cpp"], [("step acceptance", SQP + "src/trust_region_sqp_solver.cpp stepSQPSolver(), runTrustRegionLoop()")], ["getResults(), getStatus(), problem variables"])
prop("P09", "The trust-region SQP solver stops when told to",
     """The trust-region SQP solver ends within its limits on iterations, penalty increases and time whatever the QP solver returns and however the clocks are adjusted, ends at once when a callback asks it to, and ends when the QP
     solver keeps failing. If it ends without satisfying the constraints, or because of a callback or of the QP solver, the reported status names that reason.""",
     ["histories", "fault_sequences", "configurations", "inputs"], "All callback answers, QP outcomes, limits and clock adjustments.",
     "No test stops the solver from a callback, lets the QP solver fail or controls the clock.",
     [SQP + "src/trust_region_sqp_solver.cpp"], [("loop conditions", SQP + "src/trust_region_sqp_solver.cpp solve()")], ["getStatus(), number of QP solves and callbacks, simulated time"])
prop("P10", "A QP subproblem depends only on the current point, penalties and trust region",
     """However often, in whatever order and at whatever points the convex subproblem was rebuilt or scaled before, the subproblem for a given point, penalty weights and trust region is the one a freshly
     built problem gives; its convex costs, violations and merit at any point agree with the reference formulas.""",
     ["histories", "inputs", "configurations"], "All histories of convexify/update/scale calls, all mixtures of costs and constraints of every bound and penalty type.",
     "Tests convexify each problem once or twice at chosen points.",
     [SQP + "src/trajopt_qp_problem.cpp", SQP + "src/ifopt_qp_problem.cpp", SQP + "src/expressions.cpp"], [("convexification and slack handling", SQP + "src/trajopt_qp_problem.cpp")],
     ["getHessian(), getGradient(), getConstraintMatrix(), bounds, evaluate*()"])
prop("P11", "A reused QP solver wrapper solves the current problem",
     """After any history of setting up, updating and clearing the QP solver wrapper, with any of those calls failing, a solve that reports success returns the solution of the matrices, gradient and bounds last given
     to it, and a call that failed reports failure, as does the solver's status. A warm start is a feasible start: the problem's variables, with slack values that satisfy the rows they belong to.""",
     ["histories", "fault_sequences", "inputs"], "All sequences of init/update/clear/solve with failing back-end calls and changing sparsity.",
     "The tests that use the wrapper need OSQP and follow one fixed sequence.",
     [SQP + "src/osqp_eigen_solver.cpp"], [("incremental updates", SQP + "src/osqp_eigen_solver.cpp")], ["data in the back end when it solves", "return values, getSolution(), getSolverStatus()"])
prop("P12", "The object cache never mixes up, duplicates or loses objects",
     """After any history of lookups, insertions, erasures and evictions, with memory allocation failing at any point, a lookup returns exactly the object last stored for that key; no object is stored for two keys, or handed out for a new key,
     while it is still stored for another. The number of pooled objects never exceeds the capacity, and the least recently used object is the one evicted.""",
     ["histories", "fault_sequences", "configurations"], "All operation histories, capacities, hash functions and points at which an allocation fails.",
     "The unit tests run a dozen fixed short sequences with a well-spread hash and no failing allocation.",
     [COM + "include/trajopt_common/cache.h"], [("key map, reverse map, LRU list and free pool kept in step", COM + "include/trajopt_common/cache.h")], ["get/getOrAcquire/put/erase results, size()"])
prop("P13", "Asynchronous convex decomposition can be cancelled or destroyed at any time",
     """Whatever the interleaving of a running decomposition with polling, cancelling (also from a callback), restarting, cleaning and destroying it, and whether or not its thread could be created,
     a finished decomposition has exactly the result of the synchronous one; a cancelled one stops, so that nothing runs when cancel returns, and reports the complete result if it had finished or nothing;
     callbacks are called on the application's thread and never after their computation was replaced; no call blocks for ever and no memory is used after release or leaked.""",
     ["schedules", "histories", "crash_points"], "All interleavings of the control calls with the worker thread, all points of cancellation.",
     "There are no tests of the decomposition.",
     [VH + "src/VHACD-ASYNC.cpp", VH + "src/VHACD.cpp"], [("worker thread, cancel flag, update() relay", VH + "src/VHACD-ASYNC.cpp")], ["IsReady, GetNConvexHulls, GetConvexHull, callbacks, heap"])
prop("P14", "Parallel convex decomposition does not depend on the schedule",
     """For a given mesh and parameters the decomposition computed with any number of threads and any interleaving is the one the serial computation gives.""",
     ["schedules", "inputs", "configurations"], "All interleavings and numbers of the threads that search for the best cutting plane, all meshes and parameters.",
     "There are no tests of the decomposition.",
     [VH + "src/VHACD.cpp"], [("parallel search for the best cutting plane", VH + "src/VHACD.cpp ComputeBestClippingPlane()")], ["all convex hulls returned"])
prop("P15", "Optimizer log files are complete or absent and never influence the result",
     """With logging to files on, any failure to create or write the log files leaves the optimisation result unchanged and the process alive. Every log file that could be written has one header and, in order, one line for each
     solution the optimizer evaluated, with the values of that very step; it is complete and closed when the optimisation ends, also when an evaluation throws.""",
     ["fault_sequences", "inputs", "histories"], "All failures of opening and writing each file, all problems, exceptions thrown by any evaluation.",
     "No test turns logging on or makes a file operation fail.",
     [SCO + "src/optimizers.cpp"], [("log files", SCO + "src/optimizers.cpp optimize()")], ["files written, OptResults"])
prop("P16", "Optimization variables and their views stay consistent",
     """After any history of adding nodes and variables and setting values, every node and variable view shows exactly the values last set, bounds and names keep their order and index ranges, and the flat vector round-trips through
     the variables unchanged.""",
     ["histories", "inputs"], "All sequences of construction and value updates, all node and variable shapes.",
     "The unit tests set one vector once per shape.",
     [IFO + "src/variable_sets/nodes_variables.cpp", IFO + "src/variable_sets/node.cpp", IFO + "src/variable_sets/var.cpp", IFO + "src/core/composite.cpp", IFO + "src/core/problem.cpp"],
     [("observer update", IFO + "src/variable_sets/nodes_variables.cpp")], ["getValues(), node and variable values, problem vector"])
prop("P17", "Each step of the sequential convex optimizer judges the current subproblem",
     """In every iteration, after any history of accepted and rejected steps, penalty increases and QP failures, the subproblem handed to the QP solver is the convexification of the current costs and constraints at the current
     point with the current penalties and trust region within the variable bounds, with nothing left over from earlier iterations. A step is accepted exactly when its exact improvement is large enough compared with the predicted
     one, and the trust region and the penalties change by the configured ratios.""",
     ["histories", "inputs", "configurations", "fault_sequences"], "All problems, parameters, start points and sequences of QP outcomes, including wrong and inexact answers.",
     "Tests look at the final result of three problems only; a stale term or a trust region that is not applied usually still converges there.",
     [SCO + "src/optimizers.cpp", SCO + "src/modeling.cpp", SCO + "src/modeling_utils.cpp"],
     [("subproblem set-up and step acceptance", SCO + "src/optimizers.cpp optimize()"), ("convexification of costs and constraints", SCO + "src/modeling.cpp, src/modeling_utils.cpp")],
     ["the problem given to the QP solver", "the sequence of iterates seen by callbacks"])
prop("P18", "Joint terms and costs follow the variables they are built on",
     """After any history of value updates, joint position, velocity, acceleration and jerk terms, and squared and absolute costs on them, report values, bounds, coefficients and derivatives for the current values of exactly the variables
     they were given, row for row in the same order. The problem stacks them in the order they were added, also when their numbers of rows change, and numerical differentiation agrees with the exact derivatives and leaves the variables as they were.""",
     ["histories", "inputs", "configurations"], "All lengths of trajectories, numbers of joints, selections of variables, coefficients, targets, bounds and weights, and all sequences of updates.",
     "The unit tests evaluate one term of each kind at one or two points, on variables that fill the whole problem.",
     [IFO + "src/constraints/joint_position_constraint.cpp", IFO + "src/constraints/joint_velocity_constraint.cpp", IFO + "src/constraints/joint_acceleration_constraint.cpp", IFO + "src/constraints/joint_jerk_constraint.cpp",
      IFO + "src/costs/squared_cost.cpp", IFO + "src/costs/absolute_cost.cpp", IFO + "src/core/composite.cpp", IFO + "src/core/problem.cpp", IFO + "src/utils/ifopt_utils.cpp"],
     [("terms hold views of their variables", IFO + "src/constraints/"), ("stacking of components", IFO + "src/core/composite.cpp")], ["values, bounds, coefficients and derivatives of terms and problem"])

prop("P19", "Collision terms report the contacts of the current trajectory",
     """After any history of updates, revisits and failing contact checks, each collision constraint reports, for the current values of its variables, exactly the contacts between moving links within margin and buffer: their errors,
     the coefficients of the pairs, and derivatives in the columns of the states that may move. When there are more contacts than rows, the worst ones are reported. Contacts at fixed states and of pairs with coefficient zero never count.""",
     ["histories", "inputs", "fault_sequences", "schedules"], "All trajectories, margins, coefficients, kinds of evaluators and constraints, sequences of updates, failing contact checks and allocations, with one or two threads.",
     "The unit tests check one or two poses of one robot, and need libraries that are not installed.",
     [IFO + "src/constraints/collision/discrete_collision_constraint.cpp", IFO + "src/constraints/collision/discrete_collision_evaluators.cpp", IFO + "src/constraints/collision/continuous_collision_constraint.cpp",
      IFO + "src/constraints/collision/continuous_collision_evaluators.cpp", IFO + "src/constraints/collision/discrete_collision_numerical_constraint.cpp", IFO + "src/constraints/collision/continuous_collision_numerical_constraint.cpp",
      IFO + "src/constraints/collision/weighted_average_methods.cpp", "trajopt_common/src/collision_types.cpp", "trajopt_common/src/collision_utils.cpp"],
     [("collision data is cached by the hash of the joint values and shared between terms", IFO + "src/constraints/collision/"), ("filtering and sorting of contacts", "trajopt_common/src/collision_utils.cpp")],
     ["values, coefficients, bounds and derivatives of collision constraints"])

TRJ = "trajopt/"
prop("P20", "The constructed trajectory problem is the one that was described",
     """A problem constructed from a description, in structures or JSON, has the described steps, variables, bounds, start and fixed values, and exactly the described costs and constraints, each with the value and convex approximation that its
     definition gives at every trajectory, whatever was evaluated or failed before. Descriptions that contradict themselves or reach outside the trajectory are rejected. Problems can be constructed and evaluated in several threads.""",
     ["inputs", "histories", "fault_sequences", "schedules"], "All descriptions of joint, time, Cartesian, singularity and user-defined terms, sequences of trajectories, kinematics that fail, failing allocations, with one or two threads.",
     "The unit tests of this part need libraries that are not installed; they solve a handful of fixed examples and look only at the end result.",
     [TRJ + "src/problem_description.cpp", TRJ + "src/trajectory_costs.cpp", TRJ + "src/kinematic_terms.cpp", TRJ + "src/utils.cpp", TRJ + "src/json_marshal.cpp", TRJ + "include/trajopt/problem_description.hpp", "trajopt_sco/src/modeling_utils.cpp"],
     [("terms turn their description into costs and constraints (hatch)", TRJ + "src/problem_description.cpp"), ("joint, Cartesian and singularity terms and their convex approximations", TRJ + "src/")],
     ["variables, bounds, initial values, names of terms, values and convex approximations of terms, rejections"])

prop("P21", "Collision terms of trajopt are the contacts at the trajectory",
     """The value of a collision cost is, at every trajectory, the sum over the contacts of coefficient times the amount by which the distance falls short of the margin; a collision constraint has one such violation for each contact, and the convex
     approximations are their linearisations with the exact derivatives. Contacts count within margin and buffer, unless their coefficient is zero or they lie at a fixed step. All of this is independent of what was evaluated, or failed, before and elsewhere, and
     of movements in the environment (which count in a dynamic environment, and only there); reported contacts remain valid while they are held.""",
     ["inputs", "histories", "fault_sequences", "schedules"], "All scenes of moving and fixed bodies (stand-in for Tesseract), descriptions of collision terms in structures and JSON, margins and coefficients of pairs, types of collision check, fixed steps, sequences of trajectories and movements of the environment, contact checks, kinematics and allocations that fail, with one or two threads.",
     "The unit tests of this part need libraries that are not installed; they solve a handful of fixed examples and look only at the end result.",
     [TRJ + "src/collision_terms.cpp", TRJ + "include/trajopt/collision_terms.hpp", TRJ + "src/problem_description.cpp", "trajopt_common/src/collision_types.cpp", "trajopt_common/src/collision_utils.cpp"],
     [("collision evaluators, costs and constraints", TRJ + "src/collision_terms.cpp"), ("CollisionTermInfo", TRJ + "src/problem_description.cpp")],
     ["names of terms, values, convex approximations, distances, expressions, gradients and contacts of the evaluators, rejections"])

prop("P22", "Cartesian and IK terms of trajopt_ifopt are the errors they are defined by",
     """At every state of the variables, the value of a Cartesian position constraint is the pose error between its two frames, that of a Cartesian line constraint the pose error to the nearest point between the ends of the line (orientation interpolated), and that of an
     inverse kinematics constraint the joint distance to the nearest solution for the current target and seed; an unsolvable target is an error, never a satisfied constraint. Rows, bounds, coefficients and derivatives belong to these values, for every choice of rows and
     bounds, whichever frames move. All of this is independent of what was evaluated, or failed, before and in other threads. Frames and settings that make no sense are rejected.""",
     ["inputs", "histories", "fault_sequences", "schedules"], "All robots (stand-in for Tesseract's kinematics), frames, offsets, rows, bounds and coefficients, sequences of states and target poses, kinematics and allocations that fail, inverse kinematics with no or many solutions, with one or two threads that may share constraints.",
     "The unit tests of this part need libraries that are not installed; they use one robot, all six rows, and a fixed world frame at the origin as the target.",
     [IFO + "src/constraints/cartesian_position_constraint.cpp", IFO + "src/constraints/cartesian_line_constraint.cpp", IFO + "src/constraints/inverse_kinematics_constraint.cpp", IFO + "src/utils/numeric_differentiation.cpp", IFO + "src/utils/trajopt_utils.cpp"],
     [("CartPosConstraint", IFO + "src/constraints/cartesian_position_constraint.cpp"), ("CartLineConstraint", IFO + "src/constraints/cartesian_line_constraint.cpp"), ("InverseKinematicsConstraint", IFO + "src/constraints/inverse_kinematics_constraint.cpp")],
     ["values, derivatives, bounds, coefficients and poses of the constraints, numeric derivatives, trajectories, rejections"])

prop("P23", "A plan depends on its description alone, and is shown as it is",
     """Planning from a description (joint, pose, collision and user's terms, optimizer, callbacks) gives the same iterates and result with any number of threads, next to other planners, watched by callbacks, on a problem planned before,
     and after plans that were broken off by an exception, which reaches the caller of the optimizer. Every iterate and the result have the reported costs and violations, respect limits and fixed steps, and converged means satisfied.
     The callbacks that plot and write files show every iterate: its joints and time, the poses of the links, costs and violations, under their names.""",
     ["inputs", "histories", "fault_sequences", "schedules", "configurations"], "All robots and scenes (stand-in for Tesseract), descriptions, parameters, sequences of plans, numbers of threads, QP outcomes, kinematics, contact checks, user functions and plotters that fail, disks that become full.",
     "The unit tests of this part need libraries that are not installed; they plan a handful of fixed problems once, in one thread, and look at the end result only. Nothing tests the callbacks.",
     [TRJ + "src/problem_description.cpp", TRJ + "src/plot_callback.cpp", TRJ + "src/file_write_callback.cpp", TRJ + "src/collision_terms.cpp", TRJ + "src/kinematic_terms.cpp", SCO + "src/optimizers.cpp", SCO + "src/modeling.cpp", SCO + "src/modeling_utils.cpp"],
     [("BasicTrustRegionSQP and BasicTrustRegionSQPMultiThreaded", SCO + "src/optimizers.cpp"), ("callbacks that plot and write files", TRJ + "src/plot_callback.cpp, src/file_write_callback.cpp")],
     ["iterates and results of the optimizer, exceptions, files written, trajectories shown"])
prop("P24", "A plan of the SQP solver depends on its problem alone, whatever broke off before",
     """Planning with joint, pose, line, inverse kinematics and collision terms, either kind of QP problem, the trust-region solver and the OSQP wrapper gives the same steps and the same result on a new problem, on a problem or with solvers and callbacks used before (for it or for another problem),
     next to another planner in a second thread, watched by callbacks, and after plans that were broken off by an exception or stopped by a callback; the exception reaches the caller. Every step and the result have the reported costs and violations,
     stay inside the limits and the trust region, and converged means satisfied. Afterwards the variables have the values of the result. The plotting callbacks show the plan as it is in every call.""",
     ["inputs", "histories", "fault_sequences", "schedules", "configurations"], "All robots and scenes (stand-in for Tesseract), terms with fixed and changing numbers of rows, parameters, sequences of plans, QP outcomes, kinematics, contact checks, allocations and plotters that fail, inverse kinematics without a solution.",
     "The unit tests of this part need libraries that are not installed; they plan a handful of fixed problems once, in one thread, and look at the end result only.",
     [SQP + "src/trust_region_sqp_solver.cpp", SQP + "src/trajopt_qp_problem.cpp", SQP + "src/ifopt_qp_problem.cpp", SQP + "src/osqp_eigen_solver.cpp", SQP + "src/callbacks", "trajopt_ifopt/src/constraints", "trajopt_ifopt/src/variable_sets"],
     [("TrustRegionSQPSolver::solve, TrajOptQPProblem, IfoptQPProblem", SQP + "src"), ("plotting callbacks", SQP + "src/callbacks")],
     ["steps and results of the solver, exceptions, values of the variables, trajectories and poses shown"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
