# ---- trajopt_common (cache) ------------------------------------------------------------------------------------------
world(w_cache SOURCES worlds/cache.cpp)
target_include_directories(w_cache PRIVATE ${R}/trajopt_common/include)
target_link_libraries(w_cache PRIVATE Eigen3::Eigen)

# ---- trajopt_sco (models in front of the QP solvers, optimizers) ----------------------------------------------------
project_sources(SCO ${R}/trajopt_sco EXCLUDE src/bpmpd_caller.cpp src/gurobi_interface.cpp)
set(COMMON ${R}/trajopt_common/src/logging.cpp ${R}/trajopt_common/src/clock.cpp ${R}/trajopt_common/src/stl_to_string.cpp)
code_under_test(sco SOURCES ${SCO} ${R}/trajopt_sco/src/bpmpd_caller.cpp ${COMMON}
  INCLUDE ${R}/trajopt_sco/include ${R}/trajopt_common/include
  DEFINE HAVE_BPMPD HAVE_OSQP HAVE_QPOASES BPMPD_CALLER="bpmpd_caller" BPMPD_WORKING_DIR="/tmp" OPTIONS -fopenmp)
set_source_files_properties(${R}/trajopt_sco/src/bpmpd_caller.cpp PROPERTIES COMPILE_DEFINITIONS "main=bpmpd_caller_main")
target_link_libraries(sco PUBLIC console_bridge::console_bridge JsonCpp::JsonCpp)
world(w_model SOURCES worlds/model.cpp qp/canon.cpp stubs/bpmpd_stub.cpp stubs/osqp_stub.cpp stubs/qpoases_stub.cpp LIBS sco)
world(w_sco SOURCES worlds/sco.cpp qp/canon.cpp stubs/bpmpd_stub.cpp stubs/osqp_stub.cpp stubs/qpoases_stub.cpp LIBS sco)

# ---- trajopt_ifopt and trajopt_sqp (trust-region SQP solver) --------------------------------------------------------
set(IFO ${R}/trajopt_ifopt/src)
file(GLOB IFOPT_CORE CONFIGURE_DEPENDS ${IFO}/core/*.cpp ${IFO}/costs/*.cpp ${IFO}/variable_sets/*.cpp)
list(APPEND IFOPT_CORE ${IFO}/utils/ifopt_utils.cpp)
project_sources(SQP ${R}/trajopt_optimizers/trajopt_sqp EXCLUDE src/callbacks/cartesian_error_plotter.cpp src/callbacks/clear_plotter.cpp
  src/callbacks/collision_plotter.cpp src/callbacks/joint_state_plotter.cpp src/callbacks/wait_for_input.cpp)
code_under_test(sqp SOURCES ${SQP} ${IFOPT_CORE} stubs/hash_stub.cpp
  INCLUDE ${R}/trajopt_optimizers/trajopt_sqp/include ${R}/trajopt_ifopt/include ${R}/trajopt_common/include)
target_link_libraries(sqp PUBLIC console_bridge::console_bridge)
world(w_sqp SOURCES worlds/sqp.cpp qp/canon.cpp stubs/osqp_stub.cpp LIBS sqp)

# ---- vhacd (convex decomposition) -----------------------------------------------------------------------------------
file(GLOB VHACD_SRC CONFIGURE_DEPENDS ${R}/trajopt_ext/vhacd/src/*.cpp)
code_under_test(vhacd SOURCES ${VHACD_SRC} INCLUDE ${R}/trajopt_ext/vhacd/include ${R}/trajopt_common/include OPTIONS -fopenmp)
target_include_directories(vhacd PRIVATE ${R}/trajopt_ext/vhacd/include/vhacd/inc)
world(w_vhacd SOURCES worlds/vhacd.cpp LIBS vhacd)

# ---- trajopt_ifopt alone (variables, joint terms) -------------------------------------------------------------------
file(GLOB IFOPT_JOINT CONFIGURE_DEPENDS ${IFO}/constraints/joint_*.cpp)
code_under_test(ifopt SOURCES ${IFOPT_CORE} ${IFOPT_JOINT} stubs/hash_stub.cpp
  INCLUDE ${R}/trajopt_ifopt/include ${R}/trajopt_common/include)
target_link_libraries(ifopt PUBLIC console_bridge::console_bridge)
world(w_ifopt SOURCES worlds/ifopt.cpp LIBS ifopt)

# ---- collision terms (trajopt_common, trajopt_ifopt) behind a stand-in for Tesseract --------------------------------
file(GLOB IFOPT_COLL CONFIGURE_DEPENDS ${IFO}/constraints/collision/*.cpp)
set(COLL ${R}/trajopt_common/src/collision_types.cpp ${R}/trajopt_common/src/collision_utils.cpp)
code_under_test(coll SOURCES ${IFOPT_CORE} ${IFOPT_COLL} ${COLL}
  INCLUDE ${R}/trajopt_ifopt/include ${R}/trajopt_common/include)
target_link_libraries(coll PUBLIC console_bridge::console_bridge)
world(w_coll SOURCES worlds/coll.cpp LIBS coll)

# ---- trajopt (problem descriptions and their terms) behind a stand-in for Tesseract ---------------------------------
set(TRAJ ${R}/trajopt/src)
code_under_test(traj SOURCES ${SCO} ${R}/trajopt_sco/src/bpmpd_caller.cpp ${COMMON} ${COLL}
  ${TRAJ}/collision_terms.cpp ${TRAJ}/kinematic_terms.cpp ${TRAJ}/problem_description.cpp ${TRAJ}/trajectory_costs.cpp
  ${TRAJ}/utils.cpp ${TRAJ}/typedefs.cpp ${TRAJ}/json_marshal.cpp ${TRAJ}/plot_callback.cpp ${TRAJ}/file_write_callback.cpp
  INCLUDE ${R}/trajopt/include ${R}/trajopt_sco/include ${R}/trajopt_common/include
  DEFINE HAVE_BPMPD HAVE_OSQP HAVE_QPOASES BPMPD_CALLER="bpmpd_caller" BPMPD_WORKING_DIR="/tmp" OPTIONS -fopenmp -DNDEBUG "-Deigen_assert(x)=((x)?(void)0:__builtin_trap())")
target_link_libraries(traj PUBLIC console_bridge::console_bridge JsonCpp::JsonCpp)
world(w_traj SOURCES worlds/traj.cpp worlds/traj_coll.cpp worlds/traj_plan.cpp qp/canon.cpp stubs/bpmpd_stub.cpp stubs/osqp_stub.cpp stubs/qpoases_stub.cpp LIBS traj)

# ---- Cartesian and inverse kinematics terms of trajopt_ifopt behind a stand-in for Tesseract ------------------------
file(GLOB IFOPT_CART CONFIGURE_DEPENDS ${IFO}/constraints/cartesian_*.cpp ${IFO}/constraints/inverse_*.cpp ${IFO}/utils/*.cpp)
list(REMOVE_ITEM IFOPT_CART ${IFO}/utils/ifopt_utils.cpp)
code_under_test(cart SOURCES ${IFOPT_CORE} ${IFOPT_CART} ${R}/trajopt_common/src/utils.cpp stubs/hash_stub.cpp
  INCLUDE ${R}/trajopt_ifopt/include ${R}/trajopt_common/include
  OPTIONS -DNDEBUG "-Deigen_assert(x)=((x)?(void)0:__builtin_trap())")
target_link_libraries(cart PUBLIC console_bridge::console_bridge)
world(w_cart SOURCES worlds/cart.cpp LIBS cart)

# ---- whole plans with trajopt_ifopt and trajopt_sqp behind a stand-in for Tesseract ---------------------------------
project_sources(SQP_ALL ${R}/trajopt_optimizers/trajopt_sqp)
code_under_test(plan SOURCES ${SQP_ALL} ${IFOPT_CORE} ${IFOPT_JOINT} ${IFOPT_COLL} ${IFOPT_CART} ${COLL} ${R}/trajopt_common/src/utils.cpp
  INCLUDE ${R}/trajopt_optimizers/trajopt_sqp/include ${R}/trajopt_ifopt/include ${R}/trajopt_common/include
  OPTIONS -DNDEBUG "-Deigen_assert(x)=((x)?(void)0:__builtin_trap())")
target_link_libraries(plan PUBLIC console_bridge::console_bridge)
world(w_plan SOURCES worlds/plan.cpp qp/canon.cpp stubs/osqp_stub.cpp LIBS plan)
