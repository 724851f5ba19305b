#!/usr/bin/env python3
"""Source of properties.jsonl (run it after an edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Vector operations compute their definitions for every operand pattern",
 "Every vector operation of the library (fill, copy, scale, swap, inner products, norms, product, linear combinations of two and three vectors, import, export, peek, poke) yields exactly its mathematical definition, in single and double precision, for every length, every coefficient including the optimized 0 and ±1, and every way its operands may be the same vector. A zero coefficient means that the operand is ignored, operands that are not the destination are unchanged, and operands of different spaces are refused.",
 ["inputs", "configurations"], "all lengths up to a small bound, all coefficient combinations from {0,1,-1,others}, all aliasing patterns of the operands, owned and wrapped storage, both precisions",
 "No unit test checks a vector operation; optimizers in the tests never reach most coefficient and aliasing branches.",
 ["src/algebra.c", "src/simple_vector.c", "src/dblvector.c", "src/fltvector.c"],
 [("dispatch on coefficient values", "algebra.c: opk_vscale, opk_vaxpby, opk_vaxpbypcz"), ("specialised loops", "simple_vector.c: axpby, axpbypcz, scale")],
 ["opk_vexport / opk_vpeek after each operation", "return values"])

prop("C02", "Box-set geometry: projections, free variables and step limits are right",
 "For every kind of bounds (absent, scalar, per-variable, in any storage and precision), projecting variables yields the nearest feasible point; projecting a direction zeroes exactly the components that would leave the box at once; the free-variables mask is 1 where a non-zero direction component can move the variable and 0 where a bound blocks it. The step limits are those of the first bound reached, the first bound reached at a non-zero step, and the last bound reached, infinite when there is none, for both orientations. Volatile bounds are captured when the set is created.",
 ["inputs", "configurations"], "all bound kinds for each side, all positions of each variable relative to its bounds, all signs of each direction component, both orientations, any in-place use, both precisions",
 "The bound-constrained code is not exercised by the C tests at all, and by the Yorick tests for one or two problems only.",
 ["src/algebra.c", "src/simple_vector.c"],
 [("9-way bound dispatch", "simple_vector.c: boxprojvar, boxprojdir, boxfreevar, boxsteplim"), ("bound capture", "algebra.c: opk_new_boxset")],
 ["opk_project_variables, opk_project_direction, opk_get_free_variables, opk_get_step_limits results"])

prop("C03", "Reference counting: every object lives exactly as long as it is referenced",
 "Whatever the order in which objects are created, held, used and dropped, an object (vector, space, line search, box set, operator, optimizer) stays usable as long as somebody holds it or an object that depends on it, is finalized exactly once when the last reference goes, and then all the memory it owned is released. The reference count reported is the number of references, dropping or holding nothing is harmless, and client memory handed over for release is released once and only once.",
 ["histories"], "all sequences of create/hold/drop operations over a small graph of dependent objects up to a depth bound",
 "Tests create and drop objects in one order; a leak or a premature free in another order is not seen.",
 ["src/algebra.c", "src/simple_vector.c", "src/lnsrch.c", "src/nlcg.c", "src/vmlmb.c", "src/driver.c"],
 [("hold/drop and finalizers", "algebra.c: opk_hold_object, opk_drop_object, finalize_*"), ("optimizer finalizers", "nlcg.c, vmlmb.c, driver.c: finalize_*")],
 ["finalizer and free callbacks", "balance of malloc/free", "address sanitizer"],
 [("references", "number of owners of an object", "optimpack-private.h: struct opk_object_")])

prop("C04", "Failure of any memory allocation is reported and leaves nothing behind",
 "If any single memory allocation made by the library fails, the constructor being executed returns a null object with the error code of insufficient memory, without crashing; every block allocated before the failure is released and objects passed as arguments keep their references unchanged. The same call made again when memory is available succeeds.",
 ["fault_sequences", "configurations"], "every allocation of every constructor scenario (vectors, spaces, sets, line searches, operators, all optimizer kinds with all bound kinds, reverse-communication contexts), failed one by one and from that point on",
 "Tests never make an allocation fail.",
 ["src/algebra.c", "src/simple_vector.c", "src/lnsrch.c", "src/nlcg.c", "src/vmlmb.c", "src/driver.c", "src/newuoa.c", "src/cobyla.c"],
 [("failure branches of constructors", "opk_new_*, opk_allocate_*, newuoa_create, cobyla_create")],
 ["returned pointer and errno", "malloc/free balance", "reference counts of arguments"])

prop("C05", "Misuse of the optimizers' library is refused with the documented error",
 "Calling a routine of the library with a missing object, an object of another space or kind, an out of range index or option, or in the wrong order gives the documented error status, null result or error code, for every combination of good and bad arguments, and changes none of its arguments. Well-formed arguments are never refused.",
 ["inputs", "configurations"], "all combinations of valid and invalid values for the arguments of every public constructor, accessor and option structure",
 "Tests only make well-formed calls.",
 ["src/algebra.c", "src/simple_vector.c", "src/lnsrch.c", "src/nlcg.c", "src/vmlmb.c", "src/driver.c", "src/utils.c"],
 [("argument checks", "first lines of every public function"), ("option checks", "opk_check_nlcg_options, opk_check_vmlmb_options")],
 ["returned status/NULL/errno", "error handler calls"])

prop("C06", "Texts, names and constants are complete and never overrun the caller's buffer",
 "Copying or querying any text (status reasons, algorithm names and descriptions, arbitrary strings) into a buffer of any size writes a terminated prefix of the text, never more than the size given, and returns the size needed for the whole text, which is constant. Every status and every public named constant is known under its name with the value of the header, unknown ones are refused, system error codes map to their status, and an error is delivered to the handler in force. Printing a vector gives its name and exactly its leading elements, on the given stream or on the standard output.",
 ["inputs", "configurations"], "all buffer sizes from none to more than needed, all optimizer kinds and option combinations that have a description, all status values and constant names of the public header",
 "Tests do not query texts with other than one large buffer.",
 ["src/utils.c", "src/nlcg.c", "src/vmlmb.c", "src/driver.c"],
 [("opk_copy_string", "utils.c"), ("descriptions", "nlcg.c: opk_get_nlcg_description; vmlmb.c: opk_get_vmlmb_description")],
 ["bytes of the buffer beyond its size", "return value"])

prop("C07", "Line searches stay within bounds, end only on a legitimate condition, say which",
 "Whatever function and slope values are answered, each step proposed by a line search lies between the bounds given when it was started, and shrinks as its method prescribes. A line search reports convergence only when the last step satisfies the conditions of its method (sufficient decrease; strong curvature too for the cubic method; decrease relative to the worst of the last remembered values for the nonmonotone one), goes on when it satisfies none of the stopping conditions, and otherwise ends with the warning or error that describes the situation, which is kept until the next start.",
 ["histories", "inputs", "configurations"], "all sequences of (function, slope) answers from a finite alphabet up to a depth bound, for all methods and parameters in a small set, all initial steps and bounds, repeated use of the same object",
 "Tests run line searches on a few smooth functions, never with adversarial values, tight bounds or reuse.",
 ["src/lnsrch.c"],
 [("step bounding and status", "lnsrch.c: opk_lnsrch_start, opk_lnsrch_iterate"), ("acceptance tests", "lnsrch.c: backtrack_iterate, nonmonotone_iterate, csrch_iterate"), ("safeguarded cubic step", "lnsrch.c: opk_cstep")],
 ["returned task, status and step after each call"],
 [("finit, ginit, stpmin, stpmax, searching", "state of the current search", "optimpack-private.h: struct opk_lnsrch_"), ("fsav, mp", "memory of the nonmonotone method", "lnsrch.c")])

prop("C08", "Optimizers follow the announced dialogue and count and stop as documented",
 "Whatever values are answered by the caller, an optimizer goes through start, requests for evaluation, new iterates and one end (converged, warning or error) in the documented order, its task and status always agree with the last value returned, and its counters give the exact number of evaluations, iterations and restarts. The gradient norm reported at an iterate is that of the (projected) gradient there, convergence is declared at the first iterate, and only at an iterate, where it is at most the largest of zero, the absolute and the relative threshold, the variables are then the last ones evaluated, and an accepted iterate satisfies the sufficient decrease of the line search.",
 ["histories", "configurations"], "all sequences of answers (values and gradients from a finite alphabet) up to a depth bound, for all methods, options, line searches, bounds and precisions of a finite set",
 "Tests run a few problems to convergence with one setting and assert nothing about the dialogue.",
 ["src/nlcg.c", "src/vmlmb.c", "src/driver.c"],
 [("stage machines", "nlcg.c: opk_iterate_nlcg; vmlmb.c: opk_iterate_vmlmb"), ("convergence threshold", "nlcg.c, vmlmb.c: max3(0, gatol, grtol*ginit)")],
 ["returned task, opk_get_task/status/evaluations/iterations/restarts/gnorm/step", "variables seen by the caller"],
 [("task, stage, evaluations, iterations, restarts", "progress of the optimizer", "nlcg.c and vmlmb.c structures")])

prop("C09", "Conjugate gradients: every search direction follows the selected rule",
 "At every new iterate, the nonlinear conjugate gradient optimizer moves along the direction defined by the published formula of the selected update rule (with the non-negativity restriction when requested), from the last accepted iterate, with the documented first step length; if that direction is not a sufficient descent direction it restarts along the steepest descent and counts a restart.",
 ["histories", "configurations"], "all gradient answers from a finite alphabet along several iterations, for the 8 rules with and without the restriction and step-length options, with and without a known minimal value, all line searches",
 "The C tests do not link the nonlinear conjugate gradient driver; the Yorick ones run one or two rules on one problem.",
 ["src/nlcg.c"],
 [("update rules", "nlcg.c: update_*"), ("restart and initial step", "nlcg.c: opk_iterate_nlcg, guess_step")],
 ["difference between the variables proposed and the last iterate", "opk_get_nlcg_beta, opk_get_nlcg_step"])

prop("C10", "Quasi-Newton: every search direction is the limited-memory BFGS one",
 "At every new iterate, the variable metric optimizer moves along the direction obtained by applying to the gradient the limited-memory BFGS inverse Hessian built from the last memorized pairs of variable and gradient changes (at most the requested number, those without positive curvature being discarded, with the documented scaling), restricted to the free variables when there are bounds; if it is not a sufficient descent direction the memory is forgotten and steepest descent is used. The memorized pairs it exposes are the actual differences of variables and gradients between successive iterates, most recent first.",
 ["histories", "configurations"], "all gradient answers from a finite alphabet along several iterations, memory of 1 to 3 pairs, with and without memory saving, unconstrained and bounded, emulation of BLMVM, both precisions",
 "No test looks at a direction; a wrong pair order or a wrong memory wrap-around still converges on the test problems.",
 ["src/vmlmb.c"],
 [("two-loop recursion", "vmlmb.c: apply"), ("pair memory", "vmlmb.c: slot, update of mp/updates")],
 ["difference between the variables proposed and the last iterate", "opk_get_vmlmb_s, opk_get_vmlmb_y, opk_get_vmlmb_mp"])

prop("C11", "Bound-constrained optimization never asks for an infeasible point",
 "When bounds are given, every point at which the optimizer asks for an evaluation, every iterate and the final point satisfy all the bounds exactly, whatever the caller answers and even if the initial variables were outside. With the default method, variables at a bound with the gradient pushing outwards do not move, and the search neither fails nor stops merely because a bound is reached.",
 ["histories", "configurations"], "all answers from a finite alphabet up to a depth bound, all bound kinds and positions of the start relative to the bounds, with bounds and gradients that are not representable exactly, both precisions, both bounded methods",
 "The C tests have no bound-constrained run of this library.",
 ["src/vmlmb.c", "src/simple_vector.c", "src/driver.c"],
 [("projection of trial points", "vmlmb.c: next_step"), ("projected gradient and free variables", "vmlmb.c: opk_iterate_vmlmb")],
 ["variables seen by the caller at each evaluation request"])

prop("C12", "The limited-memory optimizers solve every small convex problem",
 "For every strictly convex quadratic (and a set of smooth convex functions), every start, every quasi-Newton method, every conjugate gradient rule that is globally convergent (with a curvature-condition line search and a positive sufficient-descent threshold but for the default rule), every suitable line search (not the one with a curvature condition when bounds bend the path) and precision, with or without bounds, the optimizer ends within a bounded number of evaluations with convergence, at a point that satisfies the first-order optimality conditions to the requested tolerance (within rounding of a bound) and with a function value not above the initial one.",
 ["inputs", "configurations"], "all quadratics with coefficients in a small grid, all starts and bounds in a grid, all methods and options",
 "Tests print the result of a few runs, nothing compares it with the solution.",
 ["src/nlcg.c", "src/vmlmb.c", "src/lnsrch.c", "src/driver.c"],
 [("whole algorithms", "nlcg.c, vmlmb.c, lnsrch.c")],
 ["final task, variables and function value"])

prop("C13", "Optimizers are deterministic, independent of each other and reusable",
 "The sequence of points an optimizer asks for depends only on its settings, on its start and on the answers given to it: it is the same when other optimizers run in between in any interleaving, when the optimizer has been used for another problem before (even one that was interrupted or failed), and when the optional memory saving is toggled. This holds for the limited-memory optimizers, for the line searches shared one after the other, and for restarted searches.",
 ["histories", "schedules"], "all interleavings of the calls of two optimizers up to a depth bound, all prefixes of a previous use before a restart, all pairs of methods",
 "Tests run one optimizer at a time, once.",
 ["src/nlcg.c", "src/vmlmb.c", "src/lnsrch.c", "src/driver.c", "src/lcg.c"],
 [("all state in the object", "structures of nlcg.c, vmlmb.c, lnsrch.c"), ("reset at start", "opk_start_nlcg, opk_start_vmlmb, *_start")],
 ["traces of variables, tasks, statuses and counters"])

prop("C14", "The simple array driver behaves as the underlying optimizers",
 "With the simple driver, the points requested, tasks, statuses and counters are those of the corresponding object-level optimizer with the same settings, for every algorithm, precision, bounds and line search; the caller's arrays are used in place, may be moved between calls, are never written outside the n variables, and the gradient is not modified. Bounds given in any of the accepted forms denote the same box.",
 ["histories", "configurations"], "all algorithms, precisions, option sets, bound forms and line searches of a finite set, all answers from a finite alphabet up to a depth bound, arrays kept or moved at each call",
 "The C tests never call the simple driver.",
 ["src/driver.c"],
 [("wrapping of arrays", "driver.c: opk_start, opk_iterate"), ("construction", "driver.c: opk_new_optimizer")],
 ["arrays of the caller", "opk_get_* of the driver"])

prop("C15", "The trust-region step solver returns a solution and multiplier as documented",
 "For every symmetric matrix, linear term, radius and initial multiplier, when the trust-region solver announces relative or absolute accuracy, the step is inside the region to the relative tolerance, the value is within that accuracy of the global minimum, and the multiplier is not negative, and is zero or the step is on the boundary to the same accuracy; it succeeds on every easy problem. In all cases the value returned is that of the quadratic at the step, the matrix and linear term are unchanged, and no iteration count above the given maximum is used.",
 ["inputs"], "all symmetric matrices of order 1 to 3 with entries in a small grid (definite, indefinite, singular, hard case), all linear terms and radii and initial multipliers in a grid, both precisions",
 "No test calls the trust-region solver.",
 ["src/gqtpar.c", "src/linalg.c"],
 [("Moré and Sorensen iteration", "gqtpar.c: opk_dgqt, opk_sgqt")],
 ["x, par, f, a, b, iter and returned code"])

prop("C16", "Linear conjugate gradients solve definite systems, obey the trust region",
 "Driven with a symmetric positive definite operator (and preconditioner), the reverse-communication conjugate gradients routines request the documented sequence of products, reach the exact solution in at most as many iterations as there are unknowns, and the residual vector and squared norms they expose are those of the current variables. A direction of non-positive curvature or a non-definite preconditioner is reported as such; the variant with a trust region never exceeds the radius, stops exactly on it when it truncates, and otherwise behaves as the plain one.",
 ["inputs", "histories"], "all small systems with entries in a grid, definite or not, zero or non-zero starts, with and without preconditioner, all radii in a grid, both precisions",
 "No test calls these routines.",
 ["src/lcg.c"],
 [("state machines", "lcg.c: plcg, lcg, trcg")],
 ["state variable, x, r, p, rho and delta after each call"])

prop("C17", "The univariate minimizer keeps a true bracket and respects limits and bounds",
 "The univariate search never evaluates outside an exclusive bound, never uses more evaluations than allowed (beyond the documented minimum), and returns as solution the best point evaluated, with its value, and an interval whose ends carry their true values (when no minimum could be bracketed, the three positions are the last ones of the search and the best value is among them); on convergence the interval contains the solution and its size is within the requested precision, or rounding prevents any further progress, hence for a unimodal function it contains the minimizer. Unless the function is declared smooth, each evaluated point is the golden section of the current bracket (or extends it by the golden ratio as long as no minimum is bracketed), so that the bracket shrinks at the published rate. Function values are numbers (possibly infinite). The code returned tells which of convergence, bracketed or not bracketed happened, and the function-call and reverse-communication forms agree. Destroying a search releases its memory.",
 ["inputs", "histories"], "all flag combinations, intervals, budgets and precisions of a finite set with all orderings of function values up to a depth bound, plus a family of unimodal functions",
 "No test calls the univariate minimizer.",
 ["src/fmin.c"],
 [("bracketing and golden section/Brent state machine", "fmin.c: opk_fmin_next")],
 ["points evaluated", "out array and returned code"])

prop("C18", "Basic linear algebra routines compute the standard results for every layout",
 "Each vector, matrix-vector and matrix-matrix routine of the linear algebra part computes its standard definition in single and double precision for every size, stride (including negative and zero where allowed), leading dimension, transposition, triangle and unit-diagonal flag and for coefficients 0, ±1 and others; it reads and writes only the elements it is supposed to, and refuses each invalid argument with the number of that argument.",
 ["inputs", "configurations"], "all flags, all sizes up to a bound beyond the unrolling of the loops, all strides and leading dimensions of a small set",
 "No test calls these routines; other code only uses unit strides and a few flags.",
 ["src/linalg.c", "src/linalg-common.h", "src/linalg-double.h", "src/linalg-single.h"],
 [("level 1 to 3 routines", "linalg.c: opk_daxpy ... opk_dsyrk")],
 ["output arrays with sentinels around each element", "returned value"])

prop("C19", "Cholesky factorizations, triangular solvers and singular value estimates hold",
 "For every symmetric matrix the factorization yields the triangular factor whose product gives back the matrix, touching only the requested triangle, and otherwise reports the order of the first leading minor that is not positive (an exactly null minor may be missed by rounding); triangular solves invert triangular products; and the smallest singular value estimate comes with a unit vector that attains it, is never below the true one and is of the right order of magnitude.",
 ["inputs"], "all symmetric matrices up to order 3 with entries in a grid, larger ones (beyond the block size) of a structured family, both triangles, both precisions, padded leading dimensions",
 "No test calls these routines.",
 ["src/linalg.c", "src/gqtpar.c"],
 [("factorization", "linalg.c: opk_dpotf2, opk_dtrsv, opk_dtrmv"), ("estimate", "gqtpar.c: opk_destsv")],
 ["factor, solution, returned value"])

prop("C20", "Derivative-free methods validate arguments and use only the memory they document",
 "NEWUOA, BOBYQA and COBYLA refuse each invalid argument (dimension, number of interpolation points, radii, bounds, scales, limits) with the documented status without calling the objective function; otherwise they use nothing outside the documented workspace size, work identically whatever that workspace contained, modify none of their input arrays but the variables, pass the caller's data untouched, and print nothing when silent.",
 ["inputs", "configurations"], "all combinations of valid, boundary and invalid arguments for small dimensions; exact documented workspace between guards, with several initial contents",
 "Tests use one valid argument set with generous static workspaces.",
 ["src/newuoa.c", "src/bobyqa.c", "src/cobyla.c"],
 [("argument checks and workspace partition", "newuoa_optimize, bobyqa_optimize, cobyla_optimize")],
 ["returned status", "guards around arrays", "stdout/stderr"])

prop("C21", "Derivative-free minimizers return the best point they evaluated, within budget",
 "Whatever finite values the objective function returns, NEWUOA and BOBYQA call it no more than the maximum number of times, and on every normal end the variables and value returned are those of an evaluated point with the least value (to rounding), never worse than the start; the status tells truly why they stopped, and the first evaluation is at the given start.",
 ["histories", "inputs"], "all sequences of objective values from a finite alphabet up to a depth bound, all numbers of interpolation points, all evaluation limits around every phase change, with and without scaling and maximization",
 "Tests run a few smooth problems to the end with a large budget.",
 ["src/newuoa.c", "src/bobyqa.c"],
 [("book-keeping of the best point", "newuoa.c: newuob; bobyqa.c: bobyqb, prelim"), ("budget", "nf >= maxfun tests")],
 ["log of the calls of the objective function", "x, work[0], status"])

prop("C22", "BOBYQA never evaluates outside the bounds",
 "Every point at which BOBYQA calls the objective function and the point it returns satisfy the bounds exactly, component by component, for any values the objective returns, with or without scaling of the variables, including when the start is at or outside the bounds.",
 ["histories", "inputs", "configurations"], "all sequences of objective values from a finite alphabet up to a depth bound plus full runs on a family of functions, all positions of start relative to bounds, scales and bounds that are not exactly representable",
 "Tests check no point; only four runs with wide bounds and no scaling.",
 ["src/bobyqa.c"],
 [("bounds at construction of every trial point", "bobyqa.c: bobyqb, prelim, trsbox, altmov, rescue"), ("scaling", "bobyqa.c: bobyqa_optimize")],
 ["arguments of the objective function", "returned x"])

prop("C23", "COBYLA reports a true evaluation and solves small constrained problems",
 "COBYLA calls the objective no more than the maximum number of times, the point, value, constraint violation and number of evaluations it returns are consistent with one another and with an actual evaluation, and for every feasible linear, quadratic or disc-constrained problem of a family it ends with success at a point feasible and optimal to an accuracy commensurate with the final trust-region radius. Without constraints it behaves as an unconstrained minimizer.",
 ["histories", "inputs"], "all sequences of (objective, constraint) answers from a finite alphabet up to a depth bound; a grid of constrained problems with known solution",
 "Tests run ten problems and only print the errors.",
 ["src/cobyla.c"],
 [("best vertex selection and merit function", "cobyla.c: cobylb"), ("linear programming step", "cobyla.c: trstlp")],
 ["log of the calls of the objective function", "x, work[0], work[1], iact[0], status"])

prop("C24", "Reverse-communication forms equal the direct ones and are independent",
 "Iterating NEWUOA or COBYLA by reverse communication asks for the same points and ends with the same point, value and status as the direct call with the same arguments, for every answer sequence; contexts are independent of one another in any interleaving, restarting a context at any moment makes it behave as a new one, and its status, evaluation count and radius always describe the current run. Misuse (null context, missing variables, iterating when finished) is refused with the documented status and code. Deleting a context at any moment releases all its memory, and creating one without enough memory fails cleanly.",
 ["histories", "schedules"], "all answer sequences from a finite alphabet up to a depth bound, all interleavings of two contexts, restart after every prefix, misuse after every prefix",
 "One test program runs COBYLA in this form alone, none runs NEWUOA so.",
 ["src/newuoa.c", "src/cobyla.c"],
 [("context save/restore", "newuoa.c, cobyla.c: SAVE/RESTORE and jump table"), ("self-inclusion to generate both forms", "newuoa.c, cobyla.c")],
 ["points requested, status, nevals, rho, last_f"])

prop("C25", "Maximizing and scaling are exact changes of problem in derivative-free methods",
 "Maximizing a function asks for the same points as minimizing its opposite and returns the same point with the opposite value, in NEWUOA, BOBYQA and COBYLA. Giving scales is the same as solving the problem expressed in scaled variables: the points requested are the scaled ones, unit scales change nothing, and the bounds and results are in the caller's units.",
 ["inputs", "histories"], "all answer sequences from a finite alphabet up to a depth bound and full runs on a family of functions, all scales in a set of powers of two and others",
 "Tests neither maximize nor scale.",
 ["src/newuoa.c", "src/bobyqa.c", "src/cobyla.c"],
 [("sign and scale handling at each evaluation", "newuoa_optimize, bobyqa_optimize, cobyla_optimize")],
 ["log of the calls of the objective function", "returned x and value"])

prop("C26", "Derivative-free methods converge on every small smooth problem",
 "For every convex quadratic of a family and a set of classical smooth functions, for every number of interpolation points, NEWUOA and BOBYQA (with any position of the bounds) end with success close to the minimizer, to an accuracy commensurate with the final trust-region radius, in a number of evaluations of the order of the published one.",
 ["inputs", "configurations"], "all quadratics with coefficients in a grid for 2 and 3 variables, all starts, bounds, radii and numbers of interpolation points of a finite set",
 "Tests print results for a few problems and compare nothing.",
 ["src/newuoa.c", "src/bobyqa.c"],
 [("initialisation, model update and trust-region steps", "newuoa.c: trsapp, biglag, bigden, update; bobyqa.c: trsbox, altmov, rescue, update")],
 ["log of the calls of the objective function", "returned x and value, number of calls"])

prop("C27", "Every step of NEWUOA and BOBYQA is that of the published method",
 "Whatever the values of the objective function, the points evaluated by NEWUOA and BOBYQA are those of Powell's published methods: the initial interpolation points; then trust-region steps which minimize, as well as the published truncated conjugate gradient procedure does and within the bounds, the quadratic model of least Frobenius norm change which interpolates the values at the current set of points, within the current radius; or steps which replace the farthest point by one for which the Lagrange function (the denominator of the update) is as large as published. The choice of the point which is dropped, the changes of the radii, the replacement of the model by the least Frobenius norm interpolant, the decision between a trust-region and an improving step, the reductions of the final radius and the end of the run (with a last step when it is too short to have been tried) obey the published rules, and the result is the best of the evaluated points.",
 ["inputs", "histories", "configurations"], "all sequences of values of the objective function from alphabets (relative to the prediction of the model), for 2 to 4 variables, 4 to 15 points, all kinds of bounds",
 "Tests run fixed functions and compare nothing; a wrong update of the model or of the radius only slows down the convergence.",
 ["src/newuoa.c", "src/bobyqa.c"],
 [("trust-region steps", "newuoa.c: trsapp; bobyqa.c: trsbox"), ("improving steps", "newuoa.c: biglag; bobyqa.c: altmov"), ("update of the model and decisions", "newuoa.c: update and main loop; bobyqa.c: prelim, update, bobyqb")],
 ["sequence of the points passed to the objective function", "returned x and value"])

prop("C28", "Every step of COBYLA is that of the published method",
 "Whatever the values of the objective function and of the constraints, the points evaluated by COBYLA are those of Powell's published method: the initial simplex; then trust-region steps (the shortest step within the radius which minimizes the greatest violation of the linear interpolants of the constraints and, with the freedom that is left, minimizes the linear interpolant of the objective) or, when the simplex is not acceptable, steps which improve it (along the direction orthogonal to the face opposite to the published vertex, on the published side). The order of the vertices for the merit function, the increase of its penalty parameter and its reduction when the radius is reduced, the vertex which is replaced, the criteria of acceptability of the simplex, the reductions of the radius and the end of the run obey the published rules; the result is the best vertex or the last full step.",
 ["inputs", "histories", "configurations"], "all sequences of values of the objective function and constraints from alphabets (relative to the predictions of the models), for 1 to 3 variables and 0 to 4 constraints; all linear programs over an alphabet of directions and levels",
 "Tests run a few fixed problems and compare nothing; a wrong penalty parameter, vertex or active set only slows down the convergence or changes the answer on other problems.",
 ["src/cobyla.c"],
 [("trust-region step", "cobyla.c: trstlp"), ("simplex, merit function, penalty, radius", "cobyla.c: cobylb")],
 ["sequence of the points passed to the objective function", "returned x and status"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
