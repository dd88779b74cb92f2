SP = "include/smooth/feedback/utils/sparse.hpp"
IP = "include/smooth/feedback/compat/ipopt.hpp"
SNOTE = ("Decides, for the instantiations in tu/sparse.cpp (dense, column- and row-major sparse, blocks, products; with and without the default arguments), the value of every entry of the result "
         "for all sizes, offsets, patterns and values; real arithmetic, Eigen operations modelled by their documented meaning. Only a definite, separable difference is reported.")
prop("S01", "Block writes into sparse matrices touch exactly the addressed entries",
     "Adding (writing) a block or an identity block into a sparse matrix changes exactly the addressed entries, each by (to) the scaled source entry, whatever the storage order, pattern, size and position of "
     "source and destination; with the upper-triangular option only destination entries on or above the diagonal of the destination change. Writing a sparse source leaves entries that the source does not store unchanged; the optional arguments default to scale one and all entries.",
     ["inputs", "programs"], "all sources (dense, column- or row-major sparse, block and product expressions), destinations, offsets, scales",
     "The only test adds three blocks of one size with scale one into an empty column-major matrix.",
     [SP], [("block_add, block_write", SP), ("block_add_identity, block_write_identity", SP)], note=SNOTE)
prop("S02", "The Hessian of a composition obeys the chain rule",
     "The composed Hessian helper adds, for every output k, Jg^T Hf_k Jg + sum_i Jf(k,i) Hg_i into the k-th block of the result at the requested position and changes nothing else, for dense and sparse arguments and every number of outputs, "
     "intermediate and input variables.",
     ["inputs", "programs"], "all dimensions, patterns and insertion offsets",
     "No test covers it; offsets and multiple outputs only matter with more than one output and unequal dimensions.",
     [SP], [("d2r_fog", SP)], note=SNOTE)
prop("S03", "Zeroing and explicit-zero bookkeeping cover exactly the stored entries",
     "Setting a sparse expression to zero clears exactly the stored values of that expression (a block does not clear the rest of its matrix), compressed or not, and keeps the allocation; counting explicit zeros returns the number of stored entries that are zero, "
     "and marking them yields 0 for absent, 1 for nonzero and 9 for stored zero entries.",
     ["inputs", "histories"], "all sparse matrices and blocks, compressed or not, row- or column-major",
     "No test exercises uncompressed matrices or blocks.",
     [SP], [("set_zero", SP), ("count_explicit_zeros, mark_explicit_zeros", SP)], note=SNOTE)

INOTE = ("Decides, for the instantiations in tu/ipopt.cpp (an unknown problem with and without Hessian, Jacobian stored by columns and by rows; all problem functions and Ipopt itself uninterpreted), every value written to Ipopt's "
         "arrays and to the solution, for all sizes, patterns and points. Assumes, as the NLP interface demands, that the sparsity pattern of a problem's derivatives does not depend on the point. Only a definite, separable difference is reported.")
prop("I01", "Ipopt sees exactly the bounds, start point and values of the problem",
     "The Ipopt adapter reports the dimensions of the problem, passes on every finite bound unchanged and every infinite bound as one Ipopt treats as absent (at least 1e19 in magnitude), hands over the initial point and the multipliers of the "
     "initial solution exactly when Ipopt asks for them, and evaluates objective, gradient and constraints at the point Ipopt asks for.",
     ["inputs", "histories"], "all problems, points and request combinations",
     "No test runs Ipopt.", [IP], [("get_nlp_info, get_bounds_info, get_starting_point, eval_f, eval_grad_f, eval_g", IP)], note=INOTE)
prop("I02", "The sparse derivative triplets given to Ipopt describe the problem's derivatives",
     "For column- and row-major derivatives alike, the structure and value calls of the Ipopt adapter enumerate the stored entries of the constraint Jacobian once each, in the same order, with correct row, column and count; the same holds for the Hessian "
     "of the Lagrangian sigma * d2f/dx2 + d2g/dx2(lambda) at the requested point, given as the lower triangle (the transpose of the problem's upper triangular one), whatever was evaluated before, and no Hessian is reported when it is not used.",
     ["inputs", "histories"], "all patterns, points, multipliers, objective factors and earlier evaluations",
     "No test runs Ipopt; a stale or mis-scaled Hessian only slows convergence.", [IP], [("get_nlp_info, eval_jac_g, eval_h", IP)], note=INOTE)
prop("I03", "Ipopt's outcome and the caller's options and warm start are passed through",
     "solve_nlp_ipopt returns the point, multipliers, objective, iteration count and status Ipopt finishes with (success and acceptable points are Optimal, iteration and time limits, primal and dual infeasibility are told apart, everything else is Unknown, also when "
     "Ipopt never finishes); every option of the caller reaches Ipopt and overrides the defaults; exact Hessians are used only when the caller asks for them; a warm start is used, with multipliers, exactly when it is given, else the start is zero.",
     ["inputs", "histories"], "all Ipopt return codes, option lists and warm starts",
     "No test runs Ipopt; most return codes need a failing solve.", [IP], [("solve_nlp_ipopt", IP), ("IpoptNLP::finalize_solution", IP)], note=INOTE)
TM = "include/smooth/feedback/time.hpp"
ROS = "include/smooth/feedback/compat/ros.hpp"
prop("T01", "Adding seconds to a time and subtracting times are exact inverses",
     "For every kind of time (floating point numbers, std::chrono durations and time points of any clock, period and representation, ROS times) adding a number of seconds moves the time by that many seconds, "
     "up to less than one tick of the time and exactly for whole ticks, also for negative amounts; subtracting two times gives the signed difference (later argument first) in seconds. No more precision is lost than the representation of the time itself demands.",
     ["inputs", "programs"], "all times, amounts, periods and representations",
     "Times are only used with std::chrono::duration<double> and nanoseconds around zero, where unit and rounding mistakes do not show.",
     [TM, ROS], [("time_trait", TM), ("time_trait of ROS times", ROS)],
     note="Decides, for twelve kinds of time instantiated in tu/time.cpp, the sum and difference as formulas in the number of ticks, and that no conversion on the way goes through a type with fewer bits than the time has; "
          "floating-point rounding is outside. rclcpp is not installed: its interface is declared in stub/.")
prop("K01", "Concepts and type traits accept exactly the types they document",
     "NLP is satisfied by exactly the types (and references to them) providing n, m, xl, xu, f, df_dx, g, gl, gu and dg_dx with results convertible to the documented ones; HessianNLP by exactly those that also provide d2f_dx2 and d2g_dx2; Time by exactly the types whose time_trait "
     "has plus (giving the time) and minus (giving a number). is_specialization_of and is_specialization_of_sizet are true for exactly the specializations of the given template. Quadratic programs and their solutions have the static dimensions and number type of their parameters, in the solver's results too.",
     ["programs"], "all user types",
     "Tests only instantiate types that satisfy the concepts; a concept or trait that accepts too much still compiles.",
     ["include/smooth/feedback/nlp.hpp", TM, "include/smooth/feedback/traits.hpp", QP], [("NLP, HessianNLP", "include/smooth/feedback/nlp.hpp"), ("Time", TM), ("is_specialization_of", "include/smooth/feedback/traits.hpp"), ("QuadraticProgram, QPSolution", QP)],
     tech="type-level witnesses decided by the C++ type checker (positive and negative static_asserts, one missing member each)",
     note="The witnesses of tu/types.cpp: for each documented requirement a type that lacks exactly that one, and types that provide the interface in other spellings.")
PI = "include/smooth/feedback/pid.hpp"
EK = "include/smooth/feedback/ekf.hpp"
prop("P01", "The PID law, its integral and its gains are the documented ones",
     "The PID controller returns a_des + kp (x_des - x) + kd (v_des - v) + ki I component by component, with the desired trajectory evaluated at the given time; I is the integral of the position error over the elapsed time of consecutive calls (right-point rule), accumulates only when the "
     "time advances, is limited to [-windup_limit, windup_limit] in every component after each update and changes nowhere else but in reset_integral(). kp and kd start at one, ki and I at zero, the target at the identity at rest; setters change exactly their gain or the "
     "trajectory, and a spline target is evaluated relative to its start time, with its velocity and acceleration.",
     ["inputs", "histories", "programs"], "all states, gains, targets, call histories, types of time and groups",
     "Tests run one or two controllers forward in time and look at the final error; sign-dependent windup, time going backwards and other groups are not covered (and the test needs a library that is not installed here).",
     [PI], [("PID::operator()", PI), ("PID setters", PI)],
     note="Decides, for three kinds of time and two kinds of group (vectors, an unknown non-commutative Lie group) instantiated in tu/pid.cpp, every value returned or stored, for all inputs and histories; group operations, splines and trajectories are uninterpreted. Real arithmetic; "
          "the smooth library is not installed: its interface is declared in stub/. Only a definite, separable difference is reported.")
ENOTE = ("Decides, for an unknown non-commutative Lie group and for vectors instantiated in tu/ekf.cpp with the explicit Euler stepper (the default), every value stored, for all states, covariances, dynamics and measurements (uninterpreted functions; derivatives by diff::dr "
         "uninterpreted too). Real arithmetic; the smooth library is not installed: its interface is declared in stub/. Only a definite, separable difference is reported.")
prop("E01", "EKF prediction propagates estimate and covariance by the linearized flow",
     "Each step of a Kalman filter prediction moves the estimate along f(t, x) and the covariance along A P + P A' + Q with A = -ad(f(t, x)) + df/dx, both at the time and the estimate before the step, where only the upper triangle of Q matters and the covariance stays symmetric.",
     ["inputs", "programs"], "all groups, dynamics, covariances, times and step sizes",
     "Tests (which need a library that is not installed here) cover linear time-invariant systems without a Lie bracket, where the order and time of the evaluations do not matter.",
     [EK], [("EKF::predict", EK)], note=ENOTE)
prop("E02", "EKF prediction covers exactly the requested time in steps of at most dt",
     "A Kalman filter prediction over tau steps from time 0 to exactly tau: in steps of dt and one last step that is not longer than dt, or in a single step when dt is not given; estimate and covariance are stepped once each over the same intervals.",
     ["inputs"], "all durations and step sizes",
     "Tests use steps that divide the duration.",
     [EK], [("EKF::predict", EK)], note=ENOTE)
prop("E03", "EKF measurement updates are the Kalman update for the linearized measurement",
     "A measurement update uses the measurement function and its derivative H at the prior estimate, S = H P H' + R (upper triangle of R only), the gain K = P H' S^-1, moves the estimate by K (y - h(x)) and makes the covariance the symmetric (I - K H) P; reset() sets and "
     "estimate() and covariance() return the state, and the initial covariance is the identity.",
     ["inputs", "programs"], "all groups, measurement functions (also group valued), measurements and covariances",
     "Tests (which need a library that is not installed here) cover linear measurements of vectors with diagonal noise.",
     [EK], [("EKF::update, reset, estimate, covariance", EK)], note=ENOTE)
AF = "include/smooth/feedback/asif_func.hpp"
AH = "include/smooth/feedback/asif.hpp"
ANOTE = ("Decides, for a state in an unknown non-commutative Lie group with a vector input and for a vector state with an input in a group (tu/asif.cpp), every entry of the quadratic program as a formula, for all states, numbers of constraints, input bounds, parameters, dynamics, safe sets and "
         "backup controllers (uninterpreted functions; derivatives by diff::dr uninterpreted too). Real arithmetic; the smooth library is not installed: its interface is declared in stub/. Only a definite, separable difference is reported.")
prop("A01", "The barrier rows of the safety filter are the linearized barrier condition",
     "Row block k of the quadratic program of the active set invariance filter states dh/dt + dh/dx d_x0 phi (f(x0, u_des) + df/du mu) >= -alpha h, with h and its derivatives (in time and state) at the k-th instant and state of the backup trajectory, d_x0 phi the sensitivity of that state, "
     "and f and df/du at the current state and desired input: A is that coefficient of mu, the lower bound the rest and the upper bound infinite, for every k < K; derivatives are taken with the requested method.",
     ["inputs", "programs"], "all groups, dynamics, safe sets, backup controllers, states and parameters",
     "Tests (which need a library that is not installed here) compare one static half space and one trajectory; time-varying safe sets and nonlinear drift are not covered.",
     [AF], [("asif_to_qp_update", AF)], note=ANOTE)
prop("A02", "The safety filter follows the backup trajectory and its sensitivity",
     "The constraint instants are 0, T/K, 2T/K, ...; between them the state follows dx = f(x, bu(t, x)) from x0 and its sensitivity follows dS = (-ad(f) + df/dx) S from the identity, the derivative being that of the closed loop x -> f(x, bu(t, x)), both in the same explicit Euler steps, each of positive length, "
     "at most dt and not past the next instant.",
     ["inputs", "programs"], "all groups, dynamics, backup controllers, horizons and step sizes",
     "Tests (which need a library that is not installed here) have trajectories without time dependence; the Lie bracket term and the step sizes are not visible in them.",
     [AF], [("asif_to_qp_update", AF)],
     note=ANOTE + " The sensitivity may be linearized at either end of an Euler step (both are of first order; the code uses the new state).")
prop("A03", "Relaxation, input bounds and cost of the safety filter's program",
     "Beside the barrier rows the program has the rows l <= A (u_des + mu - c) <= u of the input bounds, moved to mu around the desired input, and one that keeps the relaxation nonnegative; the relaxation enters every barrier row with coefficient one and no other row; the cost is "
     "diag(W_u) on mu and relax_cost on the relaxation, without linear part; asif_to_qp_allocate sizes everything for K nh + nu_ineq + 1 rows and nu + 1 variables and makes it zero.",
     ["inputs", "programs"], "all input bounds, weights and sizes",
     "Tests (which need a library that is not installed here) use one input bound around the origin.",
     [AF], [("asif_to_qp_update, asif_to_qp_allocate, asif_to_qp", AF)], note=ANOTE)
prop("A04", "Each call of the safety filter solves the program of that call",
     "ASIFilter fills and solves the quadratic program of asif_to_qp for the given state, desired input, safe set and backup controller and the parameters it was constructed with (horizon, weights, input bounds, differentiation method, solver parameters), whatever earlier calls left; it returns the desired input moved by "
     "the first part of the solution with the solver's status, and warm-starts from the last optimal solution, and only from that.",
     ["inputs", "histories", "programs"], "all parameters, states, desired inputs and call histories",
     "Tests (which need a library that is not installed here) call a filter a few times with default parameters.",
     [AH, AF], [("ASIFilter::operator()", AH), ("ASIFilter::ASIFilter", AH)], note=ANOTE)
MF = "include/smooth/feedback/collocation/mesh_function.hpp"
MS = "include/smooth/feedback/collocation/mesh.hpp"
DE = "include/smooth/feedback/collocation/dyn_error.hpp"
LNOTE = ("Decides, for vector states and inputs of fixed small dimensions (2, 3), a vector valued function (2 components), any number of nodes and intervals, all three orders of differentiation and fresh or reused memory (instantiated in tu/colloc.cpp), every entry of the results as a formula; nodes, weights and "
         "differentiation matrices of the mesh, the function and its derivatives (diff::dr) are uninterpreted. Real arithmetic; the smooth library is not installed: its interface is declared in stub/. Only a definite, separable difference is reported.")
LTEST = "Tests (which need a library that is not installed here) evaluate a few functions on one or two small meshes and compare with numerical derivatives."
prop("L01", "Evaluation of a function on a collocation mesh and its derivatives",
     "mesh_eval returns f(t0 + (tf - t0) tau_i, x_i, u_i) of every collocation node i in order, multiplied by the quadrature weight w_i exactly if scaling is asked for, and, as requested, the derivatives with respect to t0, tf, every x_i and u_i, and the upper triangle of the second derivatives of lambda' F, "
     "each in its documented rows and columns, zero elsewhere, also when the memory is reused.",
     ["inputs", "programs"], "all functions, meshes, times, states, inputs, multipliers and previous contents", LTEST,
     [MF, MS], [("mesh_eval", MF)], note=LNOTE)
prop("L02", "Quadrature of a function over a collocation mesh and its derivatives",
     "mesh_integrate returns (tf - t0) sum_i w_i f(t0 + (tf - t0) tau_i, x_i, u_i) over all collocation nodes and, as requested, its derivatives with respect to t0, tf (including those through the factor and the times of evaluation), every x_i and u_i, and the upper triangle of the second derivatives of "
     "lambda' F, each in its documented place, zero elsewhere, also when the memory is reused.",
     ["inputs", "programs"], "all functions, meshes, times, states, inputs, multipliers and previous contents", LTEST,
     [MF, MS], [("mesh_integrate", MF)], note=LNOTE)
prop("L03", "Dynamics constraints on a collocation mesh and their derivatives",
     "mesh_dyn returns for every collocation node i the residual w_i ((tf - t0) f(t_i, x_i, u_i) - sum_k D(k, i) x_k), where k runs over the nodes of the interval of i and its end point, which is the first node of the next interval, with the weight and differentiation matrix D of that interval, and, as "
     "requested, the derivatives with respect to t0, tf, every x_k and u_k, and the upper triangle of the second derivatives of lambda' F, each in its documented place, zero elsewhere, also when the memory is reused.",
     ["inputs", "programs"], "all functions, meshes (any number of intervals, of any degrees), times, states, inputs, multipliers and previous contents", LTEST,
     [MF, MS], [("mesh_dyn", MF)], note=LNOTE + " The linear part is decided for every step of the loop over the states, in any position of any interval (induction over the states), assuming that every interval has a node.")
prop("L04", "The relative collocation error of an interval",
     "mesh_dyn_error returns for every interval of the mesh the largest error, over its points after the first, of the states x(t_0) + (tf - t0) sum_j f(t_j, x(t_j), u(t_j)) I(j, c) obtained by integrating the dynamics inside the interval, as a Euclidean norm relative to one plus the largest norm of the "
     "trajectory at those points, the times being those of the interval's nodes.",
     ["inputs"], "all dynamics, trajectories, meshes and times", LTEST,
     [DE, MS], [("mesh_dyn_error", DE)], note=LNOTE)
OQ = "include/smooth/feedback/ocp_to_qp.hpp"
RNOTE = ("Decides, for a state in a group with inputs in R^2 and a state in R^2 with inputs in a group (both groups of dimension 3, instantiated in tu/ocp.cpp), any number of nodes and intervals and any previous content of the program, every entry of it as a formula; the problem's functions, their derivatives "
         "(diff::dr), mesh_eval and mesh_integrate (decided by L01, L02; the arguments of the calls are decided here) and the methods of Mesh are uninterpreted. Real arithmetic; the smooth library is not installed: its interface is declared in stub/. Only a definite, separable difference is reported.")
RTEST = "Tests (which need a library that is not installed here) convert one problem on one mesh around one trajectory and compare with a reference solution."
prop("R01", "Cost of an optimal control problem converted to a quadratic program",
     "ocp_to_qp and ocp_to_qp_update give a quadratic program 1/2 z' P z + q' z whose cost is the expansion of the optimal control cost in the deviations z = (x_0 .. x_N, u_0 .. u_N-1) from the linearization: the gradient is that of the end cost by x_0, x_N plus its derivative by the integral times the gradient of the integral; the upper "
     "triangle of P is the Hessian of the end cost by x_0, x_N plus the same factor times the Hessian of the integral; whatever the program contained before.",
     ["inputs", "histories", "programs"], "all problems, linearizations, meshes, horizons and previous contents", RTEST,
     [OQ, MF], [("ocp_to_qp_update_cost", OQ), ("block_add, set_zero", "include/smooth/feedback/utils/sparse.hpp")], note=RNOTE)
prop("R02", "Dynamics of an optimal control problem converted to a quadratic program",
     "The first Nx N rows of the program are, for the node i of an interval, the dynamics linearized along the linearization trajectory: tf (df/dx - 1/2 ad(f + dx_l)) x_i + tf df/du u_i - sum_k D(k, i) x_k = -tf (f - dx_l), at the time of the node, where k runs over the nodes of its interval and its end point with the "
     "differentiation matrix of that interval (ad is left out for commutative groups); all other coefficients of these rows are zero, also when the program is updated.",
     ["inputs", "histories", "programs"], "all dynamics, linearizations, meshes (any number of intervals), horizons and previous contents", RTEST,
     [OQ, MS], [("ocp_to_qp_update_dyn", OQ)], note=RNOTE + " The rows are decided for every iteration of the loop over the intervals (each adds the rows of its own nodes and leaves the others as they are).")
prop("R03", "Constraints of an optimal control problem converted to a quadratic program",
     "The rows after the dynamics are the running constraints, linearized at every node, crl <= c + dc/dx x_i + dc/du u_i <= cru, and then the end constraints, linearized in the deviations of the first and last state at the linearization's end points, cel <= c + dc/dx_0 x_0 + dc/dx_N x_N <= ceu, with bounds relative to the values; "
     "other coefficients are zero, also when the program is updated.",
     ["inputs", "histories", "programs"], "all constraints, bounds, linearizations, meshes, horizons and previous contents of the layout allocated", RTEST,
     [OQ, MF], [("ocp_to_qp_update_cr, ocp_to_qp_update_ce", OQ)], note=RNOTE + " Entries of running constraints that mesh_eval does not store are taken to be those it did not store before (its pattern does not change between calls); a mesh has a node.")
prop("R04", "Layout of the converted problem, and its solution as trajectories",
     "ocp_to_qp and ocp_to_qp_allocate size the program for Nx (N + 1) + Nu N variables and Nx N + Ncr N + Nce constraints, with one unit multiplier for the integral, and derivatives are taken with the requested method; qpsol_to_ocpsol returns, as the problem's solution type, on [0, tf] the linearization "
     "moved by the polynomials through the state and input deviations of the primal solution, at the time scaled to the mesh.",
     ["inputs", "programs"], "all problems, meshes, solutions, horizons and times", RTEST,
     [OQ], [("ocp_to_qp_allocate, ocp_to_qp, qpsol_to_ocpsol", OQ)], note=RNOTE)
HNOTE = ("Decides, for an instance with degrees 2 to 4 (tu/mesh.cpp), any number of intervals of any allowed degrees, the formulas computed for every interval and degree. The Radau nodes and weights, Lagrange bases, derivatives of monomials and their products with concrete indices come from the smooth library "
         "(not installed, its interface is declared in stub/) and are uninterpreted. Real arithmetic. Only a definite, separable difference is reported.")
HTEST = "Tests (which need a library that is not installed here) look at a few meshes that were refined a few times, mostly through constant functions."
prop("H01", "Nodes, weights and matrices of the intervals of a collocation mesh",
     "For an interval [tau_i, tau_i+1] (the last one ends at 1) with k collocation points: interval_nodes are the Radau nodes and +1, mapped from [-1, 1] onto the interval; interval_weights are the Radau weights times half its length, and a zero; interval_diffmat_unscaled is the pair of 2 / length and the derivatives at the first k "
     "nodes of the Lagrange polynomials through all k + 1, interval_diffmat is their product, and interval_intmat the inverse of its last k rows; all_nodes and all_weights are those of all intervals, the end point of an interval only for the last one.",
     ["inputs", "programs"], "all meshes (any number of intervals, of any degrees), all intervals", HTEST,
     [MS], [("interval_nodes, interval_weights, interval_diffmat, interval_diffmat_unscaled, interval_intmat, all_nodes, all_weights", MS)], note=HNOTE)
prop("H02", "Creation and refinement of a collocation mesh",
     "A mesh is created with the number of intervals asked for (at least one) of equal length and the degree asked for (the least one by default). refine_ph splits an interval into max(2, ceil(D / Kmin)) intervals of equal length and least degree when D or its degree exceeds Kmax, and otherwise raises its degree to D if that is more; "
     "refine_errors does so from the last interval to the first for those whose error exceeds the target, with D the degree plus round(log(error / target) / log(degree) + 1). Changing one or all degrees (clamped to [Kmin, Kmax + 1] by one step) changes nothing else; the numbers of intervals and points are those of the mesh.",
     ["inputs", "histories"], "all meshes, intervals, numbers of points and errors", HTEST,
     [MS], [("Mesh, refine_ph, refine_errors, set_N_colloc_ival, increase_degrees, decrease_degrees, N_ivals, N_colloc, N_colloc_ival", MS)], note=HNOTE)
prop("H03", "Evaluation of a function given by its values on a collocation mesh",
     "interval_find returns the last interval that starts at or before t, the first one for t < 0 and the last one for t > 1; eval returns the p-th derivative, with respect to the time in [0, 1], of the Lagrange polynomial through the values at the nodes of that interval and its end point, which is the first node of the next interval "
     "(in the last interval, without the end point when no value is given for it), at t.",
     ["inputs", "programs"], "all meshes, times, values, orders of the derivative", HTEST,
     [MS], [("interval_find, eval", MS)], note=HNOTE)
ON = "include/smooth/feedback/ocp_to_nlp.hpp"
NNOTE = ("Decides, for an instance with three states, four inputs, two integrals, five running and six end constraints (tu/ocpnlp.cpp), any number of nodes, the formulas computed for every element. The problem's functions and their derivatives are uninterpreted; the values and derivatives of functions on the mesh are those "
         "that mesh_dyn, mesh_integrate and mesh_eval give (L01-L03), which must be called for the point's trajectories; the evaluation of a trajectory is Mesh::eval (H03). Second derivatives are symmetric. Real arithmetic. Only a definite, separable difference is reported.")
NTEST = "Tests (which need a library that is not installed here) compare derivatives numerically at a few points of one or two problems."
prop("N01", "Optimal control problem as a nonlinear program: values and bounds",
     "The variables are the final time, the integrals, the states at all N + 1 nodes and the inputs at N; the constraints the dynamics at the nodes, the integrals, the running constraints at the nodes and the end constraints. f is theta(tf, x_0, x_N, q); g the residuals of the dynamics, the integrals minus q and the weighted running constraints, "
     "all scaled by one over the largest weight (at least 1e-6), then ce(tf, x_0, x_N, q). Bounds: tf >= 0 and no others on variables; equality for dynamics and integrals; crl and cru with the weight and scale of their node; cel and ceu. Also at a second evaluation.",
     ["inputs", "histories", "programs"], "all problems, meshes, points and bounds", NTEST,
     [ON], [("ocp_nlp_structure, OCPNLP::f, g, xl, xu, gl, gu", ON)], note=NNOTE)
prop("N02", "Optimal control problem as a nonlinear program: first derivatives",
     "df_dx and dg_dx are the derivatives of f and g by all variables at the given point, taken with the requested method: those of theta and ce by tf, x_0, x_N, q in the columns of these variables, those of dynamics, integrals and running constraints by the final time, states and inputs with the scale of their rows, and minus the scale for "
     "the integral variables; all other elements are zero, also at a second evaluation.",
     ["inputs", "histories", "programs"], "all problems, meshes and points", NTEST,
     [ON], [("OCPNLP::df_dx, dg_dx", ON), ("block_add", "include/smooth/feedback/utils/sparse.hpp")], note=NNOTE)
prop("N03", "Optimal control problem as a nonlinear program: second derivatives",
     "The upper triangles of d2f_dx2 and of d2g_dx2 are those of the second derivatives, by all variables, of f and of the sum of the constraints times their multipliers: the dynamics, integrals and running constraints with the multipliers of their rows and the scale, and the end constraints, by final time, integrals, first and last state; "
     "all other elements are zero, also at a second evaluation.",
     ["inputs", "histories", "programs"], "all problems, meshes, points and multipliers", NTEST,
     [ON], [("OCPNLP::d2f_dx2, d2g_dx2", ON), ("block_add", "include/smooth/feedback/utils/sparse.hpp")], note=NNOTE)
prop("N04", "Solutions of the nonlinear program as trajectories, and back",
     "nlpsol_to_ocpsol returns the final time, integrals and the multipliers of integrals and end constraints of the solution, and as functions of time on [0, tf] the polynomials through the states (with an end point), inputs and multipliers of dynamics and running constraints at the nodes (without one); "
     "ocpsol_to_nlpsol samples these functions at the nodes' times, the state also at tf, into the same layout, with zero bound multipliers.",
     ["inputs", "programs"], "all problems, meshes, solutions and times", NTEST,
     [ON], [("nlpsol_to_ocpsol, ocpsol_to_nlpsol", ON)], note=NNOTE)
MP = "include/smooth/feedback/mpc.hpp"
MNOTE = ("Decides, for dynamics and constraints about which nothing is known (that do or do not depend on time), any weights, desired trajectories, meshes and horizons, states in a Lie group and inputs in R^2 or states in R^2 and inputs in a Lie group, what is computed for every element (tu/mpc.cpp). "
         "The conversion to a quadratic program and its solution are taken as the properties R01-R03 and Q01-Q12 describe them: what they are called with, and in which order, is decided here. Real arithmetic. Only a definite, separable difference is reported.")
MTEST = "The tests of the controller need a library that is not installed here; they run a few steps of one system with identity weights."
prop("M01", "Model-predictive control: the cost that is minimized",
     "The second derivatives given for the integrand are Q for the state and R for the input, those for the objective Qtf for the final state, all others are zero; the first derivatives are zero, and one by the integral. Weights given to set_weights are those of the quadratic program that the next call solves, "
     "which the solver has analyzed since, and stay in force.",
     ["inputs", "histories", "programs"], "all weights, states, inputs and sequences of calls", MTEST,
     [MP], [("MPCObj, MPCIntegrand, MPC::set_weights, MPC::operator()", MP)], note=MNOTE)
prop("M02", "Model-predictive control: the constraints of the program that is solved",
     "Before a program is solved its dynamics, running constraints and end constraints are set, for the current time as start of dynamics, constraints and desired trajectories, with the given state as initial state, along this controller's desired trajectories, mesh and horizon. Dynamics and running constraints are those of the user at the absolute time, "
     "their derivatives those by state and input; the end constraint is x0 minus the given state with the inverse right-Jacobian as derivative.",
     ["inputs", "histories", "programs"], "all dynamics, constraints, times, states and desired trajectories", MTEST,
     [MP], [("MPC::operator()", MP), ("MPCDyn, MPCCR, MPCCE", MP)], note=MNOTE)
prop("M03", "Model-predictive control: results and what is kept between calls",
     "The input returned is the desired input now plus the first input of the solution, with its status; the trajectories have one element for each node (states also at the end), the desired value at its time plus the element of the solution. With warm start the solution is kept, as the start of the next solve, exactly if its status is optimal "
     "or the iterations or the time were used up, otherwise what was kept before stays; reset_warmstart drops it. set_udes and set_xdes replace the desired trajectories.",
     ["inputs", "histories", "programs"], "all times, states, solutions and sequences of calls", MTEST,
     [MP], [("MPC::operator(), set_udes, set_xdes, reset_warmstart", MP)], note=MNOTE)
prop("X01", "Convergence of the solver of quadratic programs",
     "For every feasible, bounded convex quadratic program the solver reports an optimal solution when it is given enough iterations.",
     ["inputs"], "all convex quadratic programs with a solution", "Tests solve a few small programs.",
     ["include/smooth/feedback/qp_solver.hpp"], [("QPSolver::solve", "include/smooth/feedback/qp_solver.hpp")],
     claim=False, reason="Whether and when the iterates reach the tolerances is a question of numerical convergence of an unbounded floating-point iteration: a run-time quantity that no static "
            "argument in reach bounds. That each iteration is the documented one, and each status is reported under the documented condition only, is decided by Q02, Q04, Q07.")
prop("X02", "Accuracy of collocation",
     "The solution of a collocated problem differs from the solution of the differential equation by no more than the error that mesh_dyn_error estimates.",
     ["inputs"], "all dynamics and meshes", "Tests look at a few systems.",
     [DE], [("mesh_dyn_error", DE)],
     claim=False, reason="It quantifies over the truncation error of arbitrary functions; no static argument bounds it. That the estimate is the documented formula is decided by L04.")
