OPK = ["opk"]
SPECS = {}
SPECS["C01"] = dict(level="model_checking",
  programs=[dict(name="vectors", src="c01.c", libs=OPK, san="a")],
  bounds=dict(quick="lengths 1..9, 4 operands, all alias partitions, 8 coefficients (6 for three-term combinations), sequences of 3 operations",
              thorough="lengths 1..33, 8 coefficients, sequences of 4 operations"),
  assumptions=["values are small integers and dyadic fractions (exact arithmetic) plus one non-dyadic pattern (compared to a few ulps)"])
SPECS["C02"] = dict(level="model_checking",
  programs=[dict(name="boxes", src="c02.c", libs=OPK, san="a")],
  bounds=dict(quick="3 variables, 8x8 bound forms, 4 boxes (with empty interiors and non-representable bounds), 7 positions, 4 direction values, 4 orientations", thorough="same with 5 direction values per component"),
  assumptions=["bounds of a single precision space are compared after rounding to single precision"])
WRAP = ["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"]
SPECS["C03"] = dict(level="model_checking",
  programs=[dict(name="lifetimes", src="c03.c", libs=OPK, san="a", ldflags=WRAP)],
  bounds=dict(quick="5 graphs of 5 to 6 objects, all drop orders with up to one additional reference, sequences of 3 re-wraps, of 7 hold/drop", thorough="sequences of 4 re-wraps, of 10 hold/drop"),
  assumptions=["the address of an object is the address of the block it was allocated in (checked at creation)"])
SPECS["C04"] = dict(level="model_checking",
  technique="exhaustive fault injection: every allocation of every constructor fails, on the real code",
  programs=[dict(name="faults", src="c04.c", libs=["opk", "newuoa", "cobyla"], san="a", ldflags=WRAP)],
  bounds=dict(quick="17 constructors with all their variants (8x8 bound kinds, 8 rules, memory of 1 to 3 pairs, options), each allocation alone and with all the following ones", thorough="same"),
  assumptions=["memory is obtained through malloc, calloc and realloc"])
SPECS["C06"] = dict(level="model_checking",
  programs=[dict(name="texts", src="c06.c", libs=OPK, san="a")],
  bounds=dict(quick="all buffer sizes from 0 to 4 more than needed, strings of 0 to 70 characters, all rules and options, all constants and their prefixes, statuses and error codes -40 to 259, sequences of 5 error-handler operations", thorough="sequences of 6 error-handler operations"),
  assumptions=["the texts of the header are the reference for statuses, by a characteristic word each"])
SPECS["C05"] = dict(level="model_checking",
  programs=[dict(name="misuse", src="c05.c", libs=OPK, san="a")],
  bounds=dict(quick="3 variables; every combination of good, missing, foreign and out-of-range arguments of each routine, 14 special values for each parameter of a line search, 11 for each pair of options, 20x20 forms of bounds", thorough="same"),
  assumptions=["when several arguments are bad, any of the applicable errors is accepted"])
SPECS["C07"] = dict(level="model_checking",
  programs=[dict(name="lnsrch", src="c07.c", libs=OPK, san="a")],
  bounds=dict(quick="53 line searches, 16 starts, all answers over 7 values x 9 slopes to depth 3 (cubic) or 7 values to depth 5; 4 searches in a row; infinities and not-a-number", thorough="depth 4 (cubic) and 7; 5 searches in a row"),
  assumptions=["an execution where a comparison is a tie to rounding is not followed further", "the first value of a search is finite"])
SPECS["C09"] = dict(level="model_checking",
  programs=[dict(name="nlcg", src="c09.c", libs=OPK, san="a")],
  bounds=dict(quick="8 rules x 4 options x 2 precisions x 3 line searches x 3 thresholds x 2 starts, in 2 and 3 variables; all sequences of 4 evaluations over 3 values x 6 to 8 gradients (5 over 2 x 6 for backtracking)", thorough="5 evaluations (6)"),
  assumptions=["step lengths are those of the line search (C07)", "an execution where a test is a tie to rounding is not followed further"])
SPECS["C10"] = dict(level="model_checking",
  programs=[dict(name="pairs", src="c10.c", libs=OPK, san="a")],
  bounds=dict(quick="L-BFGS, VMLMB, BLMVM; 2 and 3 variables, memory of 1 to 3 pairs, both memory options, 3 line searches, 2 thresholds, 9 boxes; all sequences of 4 to 5 evaluations over 2 to 3 values x 5 to 6 gradients", thorough="5 to 6 evaluations, 7 to 8 gradients"),
  assumptions=["step lengths are those of the line search (C07)", "an execution where a test is a tie to rounding is not followed further"])
SPECS["C11"] = dict(level="model_checking",
  programs=[dict(name="feasible", src="c11.c", libs=OPK, san="a")],
  bounds=dict(quick="VMLMB and BLMVM, both precisions, 3 to 4 line searches, 6 boxes (empty interiors, infinite and non-representable bounds) x 3 kinds x 2 forms, 3 starts; all sequences of 3 evaluations over 7 values x 8 gradients and of 6 evaluations over 2 values x 3 gradients", thorough="4 and 8 evaluations"),
  assumptions=["bounds of a single precision space are compared after rounding to single precision", "the function values are such that steps do not overflow (up to 1e30 in double precision, 1e12 in single precision)"])
SPECS["C08"] = dict(level="model_checking",
  programs=[dict(name="dialogue", src="c08.c", libs=OPK, san="a")],
  bounds=dict(quick="conjugate gradients (2 rules), L-BFGS, VMLMB, BLMVM, with and without bounds; 2 precisions, 4 line searches, 3 pairs of thresholds; all sequences of 4 evaluations over 7 values (including infinity) x 4 to 5 gradients, of 3 over 8 gradients, of 8 over 3 values; second start after every prefix", thorough="one to two more evaluations"),
  assumptions=["with bounds, an iterate is only required not to be worse (the sufficient decrease is relative to the unbounded step)", "convergence is not judged when the gradient norm equals the threshold to rounding"])
SPECS["C12"] = dict(level="model_checking",
  programs=[dict(name="convex", src="c12.c", libs=OPK, san="a")],
  bounds=dict(quick="quadratics of 2 (12 Hessians x 3 scales) and 3 variables (the positive definite ones among 729), 4 minimizers, 4 starts, 6 boxes x 3 kinds; 4 smooth functions of 1 to 3 variables; budget of 300 (quadratics) and 1000 evaluations", thorough="9 starts"),
  assumptions=["conjugate gradients use a line search with a curvature condition and, but for the default rule, a sufficient descent threshold of 0.01; rules known to jam (Fletcher-Reeves, conjugate descent) are judged on quadratics only", "the cubic line search is not used with bounds (the path is not smooth)"])
SPECS["C13"] = dict(level="model_checking",
  technique="exhaustive interleaving and exhaustive history exploration of the real objects, traces compared bit for bit",
  programs=[dict(name="traces", src="c13.c", libs=OPK, san="a", ldflags=["-Wl,--wrap=malloc,--wrap=realloc"])],
  bounds=dict(quick="20 settings (8 conjugate gradients, 4 L-BFGS, 4 VMLMB, 4 BLMVM) x 2 precisions; all interleavings of 6 calls of two of them; all prefixes of 4 calls over 6 kinds of answers (including infinity, NaN, opposite gradients) before a new start; prefixes of up to 50 regular calls; 5 fillings of fresh memory", thorough="8 calls, prefixes of 6 calls"),
  assumptions=["traces are made of task, status, variables, step, gradient norm, beta and counters"])
SPECS["C14"] = dict(level="model_checking",
  technique="stateless model checking: the driver and the object-level optimizer executed in lockstep on all answer sequences",
  programs=[dict(name="driver", src="c14.c", libs=OPK, san="a")],
  bounds=dict(quick="10 optimizers x 8 variants of options x 4 line searches x 2 precisions, all sequences of 4 evaluations over 3 values x 2 gradients; 7x7 forms of bounds x 4 boxes; all moves of the variables between 3 arrays at each call of 3 evaluations; second start after 1 to 4 evaluations; missing arrays", thorough="5 evaluations over 4 values x 4 gradients"),
  assumptions=["the object-level optimizers are right (C08 to C13)"])
SPECS["C15"] = dict(level="model_checking",
  technique="exhaustive enumeration of a finite family of problems on the real code, against the exact global minimum",
  programs=[dict(name="trust", src="c15.c", libs=OPK, san="a")],
  bounds=dict(quick="all matrices with entries in sets of 8 (2 variables) and 4 (3 variables) values, linear terms in sets of 8 and 4, 4 tolerances, 4 radii, 3 initial multipliers, 2 precisions; all magnitudes (1e-12 to 1e12) in 2 variables; 4 absolute tolerances, 7 limits of iterations", thorough="all the options in 3 variables"),
  assumptions=["the reference is the maximum of the dual function in extended precision"])
SPECS["C16"] = dict(level="model_checking",
  technique="stateless model checking: every call of the real state machine on all answer sequences compared with the transition of a reference model; exhaustive enumeration of small systems against the exact solution",
  programs=[dict(name="lcg", src="c16.c", libs=OPK, san="a")],
  bounds=dict(quick="2 variables: all operator and preconditioner answers over 6 (5) vectors for 4 (2 with a preconditioner) iterations, 6 right-hand sides, 5 starts, 5 radii, second start; all symmetric matrices of order 2 over 7 values and of order 3 over 4 values; definite systems of 1 to 12 variables; new start after 1 to 14 calls", thorough="one more iteration"),
  assumptions=["an execution where a tested quantity is zero to rounding is not followed further"])
SPECS["C17"] = dict(level="model_checking",
  technique="stateless model checking: the real routine executed for all weak orderings of the function values, direct and reverse forms in lockstep",
  programs=[dict(name="fmin", src="c17.c", libs=OPK, san="a", ldflags=WRAP)],
  bounds=dict(quick="all weak orderings of up to 7 values, 7 intervals, all flags, limits of 0 to 7 evaluations, 4 precisions; 6 unimodal shapes x 11 positions of the minimum x 7 precisions (0 included) x 7 limits; all interleavings of 8 calls of two searches; new start and misuse after each of 12 prefixes", thorough="orderings of 8 values"),
  assumptions=["the function is deterministic (same value when asked again at the same point) and its values are not NaN"])
SPECS["C18"] = dict(level="model_checking",
  technique="exhaustive enumeration of all flags, sizes, strides, leading dimensions and coefficients on the real code, against the definitions in exact arithmetic",
  programs=[dict(name="blas", src="c18.c", libs=OPK, san="a")],
  bounds=dict(quick="vectors of -1..22 elements, 7 strides, 5 coefficients; matrices of up to 6x6 (products 4x4x4), triangles of order 0..11, 2 to 3 leading dimensions, 4x4 coefficients, 2 sets of values, untouchable elements NaN or huge; norms of pairs for all exponents; all vectors of 5 elements over 5 values; all combinations of good and bad arguments", thorough="vectors up to 40, matrices up to 9x9 (6x6x6), triangles of order 19"),
  assumptions=["element values are such that the arithmetic is exact"])
SPECS["C19"] = dict(level="model_checking",
  technique="exhaustive enumeration of all matrices with entries in a grid on the real code, against exact minors, products and singular values in extended precision",
  programs=[dict(name="lapack", src="c19.c", libs=OPK, san="a")],
  bounds=dict(quick="all symmetric matrices of order 1 to 4 with 6 (3) diagonal and 5 (3) other values, 3 scales, 2 leading dimensions; exact factors up to order 20 with a failure at every order; all triangular systems of order 1 to 3 with 4 (2) diagonal and 4 (3) other values; singular values of all triangular matrices of order 1 to 4 with 6 (4) diagonal and 5 (3) other values and of families of order 5 to 7", thorough="more values, exact factors up to order 36"),
  assumptions=["the estimate is judged to be of the right order when less than 30 times the smallest singular value"])
POWELL = ["newuoa", "bobyqa", "cobyla"]
SPECS["C20"] = dict(level="model_checking",
  technique="exhaustive enumeration of arguments and workspace contents on the real code",
  programs=[dict(name="powell", src="c20.c", libs=POWELL, san="a")],
  bounds=dict(quick="3 methods x 5 numbers of variables x 6 numbers of points or constraints x 10 pairs of radii x 5 limits x 4 verbosities x 65 arrays of scales x 5 bounds; complete runs in 1 to 4 variables on 9 functions, 5 numbers of points or constraints, 6 limits, 4 fillings of the workspace", thorough="1 to 6 variables, 6 fillings"),
  assumptions=["when several arguments are bad, any of the applicable statuses is accepted", "the bounds and the variables are finite"])
SPECS["C21"] = dict(level="model_checking",
  programs=[dict(name="powell", src="c21.c", libs=POWELL, san="a")],
  bounds=dict(quick="2 variables: all sequences of 9 values over 3 (6 over 5 for other magnitudes), 3 variables: all sequences of 12 values over 2; all sequences of 5 values over 3 at 8 moments of runs on 6 functions; 3 to 4 numbers of points, 12 limits of evaluations around each phase; complete runs of 2 to 5 variables on 9 functions with all limits", thorough="sequences of 11, 7, 15 and 6 values, 20 moments"),
  assumptions=["the values are finite (an infinite one makes the quadratic model undefined)", "the returned variables are compared to 1e-10 of the radius (the origin is shifted)"])
SPECS["C22"] = dict(level="model_checking",
  programs=[dict(name="bobyqa", src="c22.c", libs=POWELL, san="a")],
  bounds=dict(quick="2 variables: 64 positions of the start x 25 forms of the box x 3 numbers of points x 3 scalings, all sequences of 6 values over 2; 6 boxes, all sequences of 7 values over 3 in 4 alphabets; 4 values over 3 at 8 moments of a run; complete runs on 9 functions of 2 to 5 variables, all positions, 5 widths, 3 final radii", thorough="sequences of 8, 9 and 6 values, 20 moments"),
  assumptions=["the values are finite", "the box is at least twice the initial radius wide"])
SPECS["C23"] = dict(level="model_checking",
  technique="stateless model checking: the real routine executed on all answer sequences; exhaustive enumeration of a family of problems against the solution obtained by enumerating the active sets",
  programs=[dict(name="cobyla", src="c23.c", libs=POWELL, san="a")],
  bounds=dict(quick="1 to 3 variables, 0 to 3 constraints: all sequences of 4 to 12 answers (2 to 3 values x 2 to 3 per constraint), 11 limits; 4x4 other alphabets; answers at 10 moments of a run; 9 plane regions x 16 directions, 6 plane regions x 27 quadratic objectives, 3 regions in 3 variables x 27 directions x 3 objectives, each with 6 starts, 4 pairs of radii, maximized and scaled", thorough="one or two more answers, 25 moments, 48 directions"),
  assumptions=["accuracy: objective at most 2 final radii above the optimum, violation of at most 4, variables within 60 (largest measured: 0.7, 1.5 and 18)"])
SPECS["C24"] = dict(level="model_checking",
  technique="stateless model checking: the direct and the reverse-communication forms executed in lockstep on all answer sequences; all interleavings of two contexts",
  programs=[dict(name="revcom", src="c24.c", libs=POWELL, san="a", ldflags=WRAP)],
  bounds=dict(quick="14 problems of 1 to 3 variables: all sequences of 7 values over 3 (4 and 3 with constraints), 10 limits, followed by restarts; answers of 4 alphabets at 8 moments of a run; complete runs on 9 functions with all limits and verbosities; restart after each of 9 prefixes of all answers, alone or after misuse; all interleavings of 10 steps of two contexts in 105 pairs", thorough="sequences of 9 values, 20 moments, 14 prefixes, interleavings of 16 steps"),
  assumptions=["both forms are compiled with the same floating-point options (bitwise comparison)"])
SPECS["C25"] = dict(level="model_checking",
  technique="stateless model checking: the two forms of each problem executed in lockstep on all answer sequences",
  programs=[dict(name="forms", src="c25.c", libs=POWELL, san="a")],
  bounds=dict(quick="14 problems of 1 to 3 variables x 6 scales x 4 starts x 5 limits: all sequences of 6 values over 3 (2 to 4 with constraints); 4 values over 3 at 5 moments; 20 problems of up to 4 variables on 9 functions, all limits up to 25; 36 pairs of other scales x 6 starts x 4 pairs of radii", thorough="sequences of 7, 15 moments, limits up to 150"),
  assumptions=["equality is bitwise for powers of two; for other scales the initial points are compared to rounding and the solution to 50 final radii"])
SPECS["C26"] = dict(level="model_checking",
  technique="exhaustive enumeration of finite families of problems on the real code, against the exact solution obtained by enumerating the active sets",
  programs=[dict(name="converge", src="c26.c", libs=POWELL, cflags=["-O2"])],
  bounds=dict(quick="all quadratics of a grid in 2 to 6 variables (1.6 million problems: matrices x minimizers), 17 pairs of numbers of variables and points, 4 pairs of radii, NEWUOA and BOBYQA with 6 forms of bounds; 24 classical functions x 4 numbers of points x 3 forms x 36 starts and radii", thorough="as quick"),
  assumptions=["accuracy: 25 final radii with at least 2n+1 points, 500 with fewer (largest measured: 11 and 113)", "mean numbers of evaluations and mean errors of each group of problems are compared to those of the reference tree, with margins (6% and 50%) beyond what other roundings do", "BOBYQA may end for rounding errors with a full set of points"])
SPECS["C27"] = dict(level="model_checking",
  technique="exhaustive enumeration of the answers of the objective function; a reference automaton of the published methods (extended precision, dense algebra, sets of hypotheses for ties) follows every evaluation of the real code",
  programs=[dict(name="powell", src="c27.c", libs=POWELL, cflags=["-O2", "-ffp-contract=off"])],
  bounds=dict(quick="NEWUOA and BOBYQA with 2, 3, 4 variables and 4 to 15 points: all initial values over 2 or 3, then all answers over 3 to 6 (relative to the prediction of the model) during 4, 3, 1..3 steps; BOBYQA with every kind of bounds of each of 2 or 3 variables, 3 steps; 7 steps with answers which hardly change; complete runs on 4 functions, all the deviations of one evaluation among 4", thorough="one more step, two deviations"),
  assumptions=["executions in which a decision is a matter of rounding errors (6 digits) are followed up to this decision only", "a trust-region step may reduce the model 3% less than the published one, an improving step may have a denominator 10% less"])
SPECS["C28"] = dict(level="model_checking",
  technique="exhaustive enumeration of the answers of the objective function and constraints; a reference automaton of the published method (extended precision, enumeration of the active sets, sets of hypotheses for ties) follows every evaluation of the real code",
  programs=[dict(name="steps", src="c28.c", libs=POWELL, cflags=["-O2", "-ffp-contract=off"])],
  bounds=dict(quick="1 to 3 variables, 0 to 3 constraints: all initial values over 2 or 3 and all initial constraints over 2 or 3, then all answers over 4x3 (relative to the prediction of the models) during 2 to 6 steps; complete runs on all linear programs with the gradients of the objective and of 1 to 4 constraints over 2 or 7 directions and 2 to 4 levels; complete runs with a constant objective, all the deviations of 1 or 2 evaluations; complete runs on 4 problems with 6 pairs of radii, all the deviations of one evaluation among 4x3", thorough="one more step, all the directions of the objective and 3 levels for 4 constraints, one more deviation"),
  assumptions=["executions in which a decision is a matter of rounding errors, or in which the trust-region subproblem has two solutions to rounding, are followed up to this decision only (counted as pruned)", "positions are compared within 1e-5 of the current radius (2e-6 observed)", "runs which end because of rounding errors (published safeguard) are judged up to this end"])

