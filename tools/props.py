"""The properties: text of properties.jsonl and of the checks' notes in MANIFEST.json (see gen.py)."""
INC = "include/ode_num_int/"
P = {}


def prop(id, title, statement, over, quant, tests, files, mech, note, technique, observe=()):
    P[id] = dict(title=title, statement=statement, over=over, quant=quant, tests=tests, files=[INC + f if not f.startswith(("src/", "examples/")) else f for f in files],
                 mech=[dict(name=n, where=INC + w if not w.startswith(("src/", "examples/")) else w) for n, w in mech], note=note, technique=technique, observe=list(observe))


prop("C01", "Sparse LU solve solves the system it was given",
     "For every square sparse matrix whose stored elements include the whole diagonal and whose leading principal minors do not vanish, the LU factorizer's solve returns x with A x = b to backward-error accuracy "
     "(exactly when all intermediate values are small integers), whatever the arrangement of nonzeros and fill-in and for any number of right-hand sides; element queries on the factors multiply back to A, "
     "and a matrix without a stored diagonal is refused with an exception.",
     ["inputs"], "All stencils (banded, arrow, cyclic, blocks, dense, random), sizes 1 to about 20, values and right-hand sides.",
     "The one LU test factorizes a single 3x3 matrix; fill-in above and below the diagonal and most stencils never occur in it.",
     ["lu/LUFactorizer.h", "lu/util.h"], [("profile and factorization", "lu/LUFactorizer.h"), ("forward and backward substitution", "lu/LUFactorizer.h")],
     "Backward-error bound with computed growth of |L||U|; exact comparison for integer factorizations. Explores random matrices up to about 20x20; trusts long double reference arithmetic.",
     "ASan/UBSan + online residual oracle over generated matrices")
prop("C02", "A reused LU factorizer is as good as a new one",
     "After any history of loading matrices (of the same or another size and pattern, by full or fast loading), factorizing, solving, updating, copying and assigning, "
     "solving with the factorizer gives the solution for the matrix that was loaded last, as a newly made factorizer would; copies are independent of their origin.",
     ["histories"], "All sequences of set-matrix / fast set-matrix / factorize / solve / update / copy / assign operations.",
     "The test uses each factorizer for one matrix once.",
     ["lu/LUFactorizer.h"], [("matrix loading and layout reuse", "lu/LUFactorizer.h")],
     "Histories of up to some dozens of operations mirrored in dense matrices.", "ASan/UBSan + model-based history monitor")
prop("C03", "Secant updates of a factorized matrix satisfy the secant condition",
     "After a secant update with (s, y), the factorized matrix B fulfils B s = y row by row to rounding (for the least-change update: in every row where s has a component to work with; other rows stay as they were), "
     "keeps its profile, and solving with right-hand side y returns s; the least-change update moves each row of the factors only along the secant direction and does not touch rows that are already consistent.",
     ["inputs", "histories"], "All factorized matrices, all sequences of updates with nondegenerate (s, y), including steps with zero components.",
     "No test calls the secant updates.",
     ["lu/LUFactorizer.h"], [("Hart and proportional updates", "lu/LUFactorizer.h")],
     "Degenerate updates (orthogonal or nearly singular) are left out, except for rows with no component at all.", "ASan/UBSan + algebraic oracle after every update")
prop("C04", "Sparse matrices behave as the dense matrices they represent",
     "For every history of operations on sparse matrices of both storage kinds - element access and assignment, conversion and copying between kinds, sums, differences, scaling, products with matrices and vectors on either side, "
     "transposed, block, row, column and diagonal views (read and written through), norms, clearing, iteration and text output - every observable result equals that of the same operation on the dense matrix; "
     "absent elements read as zero, and iteration yields each stored element exactly once with its own index. This holds for values of every magnitude; none is taken for zero because it is small.",
     ["inputs", "histories"], "All matrices up to moderate sizes, all sequences and nestings of operations and views.",
     "No test in the stable suite touches sparse matrices.",
     ["la/SparseMatrixTemplate.h"], [("storage kinds, proxies and operators", "la/SparseMatrixTemplate.h")],
     "Values compared to rounding; sizes up to about 8x8.", "ASan/UBSan/_GLIBCXX_ASSERTIONS + dense shadow model")
prop("C05", "Vectors and their views behave as plain arrays",
     "For every history of operations on vectors - element access, resizing, arithmetic, scaling, member-wise functions, norms, copying, cloning, swapping, and reading or writing through blocks, nested blocks and scaled views - "
     "every observable result equals that of the same operation on a plain array; new elements are zero, copies do not share elements, access beyond the end is refused with an exception, "
     "and no norm hides an element that is NaN or infinite.",
     ["inputs", "histories"], "All vectors and all sequences and nestings of operations and views.",
     "The two vector tests check that a fresh vector is zero and that construction copies its source.",
     ["la/VectorTemplate.h"], [("vector data and proxies", "la/VectorTemplate.h")],
     "Histories of up to about 15 operations on vectors of up to a dozen elements.", "ASan/UBSan/_GLIBCXX_ASSERTIONS + array shadow model")
prop("C06", "Numerically computed Jacobians agree with the true derivatives",
     "For every smooth mapping, the dense, sparse (column-grouping) and provider-computed Jacobians agree with the analytic derivative within finite-difference accuracy, "
     "have the announced structure and the announced number of mapping evaluations (at most one more than the number of columns; for the sparse one, columns that share no row are evaluated together, so at most two more than the largest number of columns any one column conflicts with), leave the argument unchanged, and stay correct when the point, the mapping (with a hard reset) "
     "or the trimmer is changed; trimmers drop exactly the elements outside their width or below their threshold and keep the others unchanged.",
     ["inputs", "histories"], "All sparse nonlinear mappings with nonvanishing structural derivatives, all points, all sequences of compute / reset / trimmer / mapping changes.",
     "No test computes a Jacobian.",
     ["alg/computeJacobian.h", "alg/SparseJacobianCalculator.h", "alg/SparseJacobianProvider.h", "alg/DefaultJacobianProvider.h", "alg/JacobianWidthBasedTrimmer.h", "alg/JacobianThresholdBasedTrimmer.h"],
     [("column groups", "alg/SparseJacobianCalculator.h"), ("providers", "alg/SparseJacobianProvider.h")],
     "The sparse provider takes its pattern at the first point; the generated mappings have no accidental zeros there.", "ASan/UBSan + analytic-derivative oracle")
prop("C07", "Mapping adaptors compute what they are defined to compute",
     "Narrowing, reordering, diagonal, inverse and normalizing adaptors of a vector mapping evaluate to the mapping composed with the declared selection, permutation or scaling, report the matching sizes and element ids, "
     "and their conversions invert each other, for all index sets, orderings and scales, re-set in any order and nested; a system's right-hand side as a mapping has the value of the right-hand side at the set time; invalid indices and unscalable mappings are refused with an exception and leave the adaptor as it was.",
     ["inputs", "histories"], "All mappings, index sets (duplicates, any order, empty, everything), permutations and scales.",
     "No test uses the adaptors.",
     ["alg/VectorNarrowingMapping.h", "alg/VectorReorderingMapping.h", "alg/DiagonalMapping.h", "alg/MappingNormalizer.h", "alg/interfaces/VectorBijectiveMapping.h"],
     [("narrowing and widening", "alg/VectorNarrowingMapping.h"), ("ordering", "alg/VectorReorderingMapping.h")],
     "Sizes up to 10.", "ASan/UBSan + definitional oracle")
prop("C08", "The Newton solver's verdict is true and it always stops",
     "For every equation (well-posed, singular, rootless, with NaN, overflow or exceptions), descent direction, Jacobian provider, tolerance and limit, a solve stops within twice the iteration limit; it reports convergence only if the residual at the "
     "returned solution and the last relative change are within the tolerances, never returns a non-finite solution from a finite guess, never lets the residual norm grow, and a regularization strategy that changes the equation is honoured; "
     "a solver that is reset behaves as a new one whatever it solved before, well-conditioned problems are solved, and a guess that is a solution already is returned as converged.",
     ["inputs", "histories", "configurations", "fault_sequences"], "All equations, guesses, configurations and sequences of solves (hard and soft resets, replaced equations) in one solver, including exceptions from the equation.",
     "No test solves an equation.",
     ["alg/NewtonSolver.h", "alg/NewtonIterationPerformerImpl.h", "alg/SimpleErrorEstimator.h", "alg/interfaces/NewtonSolverInterface.h"],
     [("iteration control", "alg/NewtonSolver.h"), ("one iteration", "alg/NewtonIterationPerformerImpl.h"), ("error estimation", "alg/SimpleErrorEstimator.h")],
     "Systems up to 8 unknowns; every iteration is checked against the equation evaluated independently.", "ASan/UBSan + per-iteration trace oracle")
prop("C09", "Descent directions solve their linear system; line search reduces the residual",
     "Every descent direction method returns a direction that solves J d = -f for the Jacobian it reports, and that Jacobian is what the method promises: fresh for Newton and after a hard reset, constant for the constant one, "
     "otherwise the documented secant update of the previous one; line search returns the best of the step ratios it tried, never a ratio that does not reduce the residual norm (zero if there is none), "
     "together with the residual at that step.",
     ["inputs", "histories"], "All mappings, points, directions (also ascent, zero, non-finite) and sequences of calls with hard/soft resets and success reports.",
     "No test runs a descent direction or a line search.",
     ["alg/SimpleNewtonLinearSearch.h", "alg/SimpleNewtonDescentDirection.h", "alg/ConstJacobianNewtonDescentDirection.h", "alg/JacobianBroydenUpdateNewtonDescentDirection.h",
      "alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h", "alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h", "alg/JacobianHartUpdateNewtonDescentDirection.h"],
     [("step truncation", "alg/SimpleNewtonLinearSearch.h"), ("secant updates", "alg/JacobianBroydenUpdateNewtonDescentDirection.h")],
     "Well-conditioned systems of up to 7 unknowns.", "ASan/UBSan + algebraic oracle on observed Jacobians, directions and residuals")
prop("C10", "Explicit Runge-Kutta solvers have the announced order and do their steps",
     "Each explicit Runge-Kutta solver (Euler, classical, and the three embedded ones in both modes) is an explicit method that fulfils all order conditions up to the order it announces, and every step of every integration - from any state, "
     "after any restart, for any mix of positions, velocities and first-order variables, with time-dependent right-hand sides - is a step of that method with the given step size; "
     "the error estimate is the difference between the two embedded solutions, and the right-hand side is notified of the step with the step's initial time, state and derivative.",
     ["inputs", "histories"], "All right-hand sides, states, step sizes, and sequences of steps and restarts.",
     "The tests integrate nothing but one registered example for few steps; a wrong coefficient changes results slightly.",
     ["ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/ExplicitRKHelper.h", "ode/OdeSolverDOPRI45.h", "ode/OdeSolverDOPRI56.h", "ode/OdeSolverDOPRI78.h", "ode/OdeSolverRK4.h", "ode/OdeSolverExplicitEuler.h"],
     [("coefficients", "ode/OdeSolverDOPRI78.h"), ("stages", "ode/OdeSolverExplicitRK.h")],
     "Order conditions for all rooted trees, to 1e-12; steps compared to rounding.", "ASan/UBSan + tableau extraction with rooted-tree order conditions + per-step reference oracle")
prop("C11", "Step size control accepts and rejects the right steps",
     "In every integration with step size control (embedded Runge-Kutta, Rosenbrock 2(4), extrapolation), an attempt is accepted exactly if the controller's rule accepts its error estimate, its successor has the step size the controller asked for, "
     "a rejected attempt leaves the time and state as they were and is repeated from there, no accepted error exceeds the tolerance, errors that are NaN are rejected, the solver stops with an exception when the step size falls below the minimum instead of going on (a step of exactly the minimum is still done), "
     "with the check disabled the step size stays as it was set, and the error norm (standard or the user's) is asked once per attempt and reported as answered.",
     ["inputs", "histories", "configurations"], "All right-hand sides (also with kinks, NaN regions and fast episodes), controller parameters and sequences of steps and restarts.",
     "No test rejects a step.",
     ["ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeStepSizeSimpleController.h", "ode/OdeSolverRosenbrock_SW2_4.h", "ode/OdeSolverExtrapolator.h"],
     [("decision", "ode/OdeStepSizeSimpleController.h"), ("rejection loop", "ode/OdeSolverExplicitEmbeddedRK.h")],
     "Every attempted step is recorded through the public observers; decisions closer than 1e-5 (relative) to the threshold are allowed either way.", "ASan/UBSan + trace monitor of all attempted steps")
prop("C12", "Rosenbrock steps solve the method's linear systems",
     "Every step of the two Rosenbrock (W) methods, and the error estimate of the 2(4) method, satisfies the method's equations (I - h d J) k = ... with J the Jacobian of the right-hand side at the last (hard) restart, for any implicitness parameter, step size history, "
     "mix of positions, velocities and first-order variables, mild or stiff; a soft restart keeps the Jacobian, a hard one renews it exactly once, before the next step, also after the system was exchanged; the system is told the right-hand side at the start of every attempt (beforeStep2).",
     ["inputs", "histories"], "All right-hand sides, parameters, sequences of accepted and rejected steps, step size changes and restarts.",
     "No test uses these solvers.",
     ["ode/OdeSolverRosenbrock_W_base.h", "ode/OdeSolverRosenbrock_W1.h", "ode/OdeSolverRosenbrock_SW2_4.h"],
     [("W matrix and its cache", "ode/OdeSolverRosenbrock_W_base.h"), ("stages", "ode/OdeSolverRosenbrock_SW2_4.h")],
     "Systems of up to about 9 variables; tolerances account for the finite-difference Jacobian and the conditioning.", "ASan/UBSan + per-step oracle with an independent dense solution")
prop("C13", "Implicit Euler steps satisfy the step equation",
     "Every completed step of the implicit (alpha) solver leaves velocities and first-order variables that satisfy x1 - x0 = h((1-alpha) f(t0,x0) + alpha f(t1,x1)) within the algebraic solver's tolerance, and positions that satisfy their equation to rounding, "
     "for every implicitness from 0 to 1, descent direction, Jacobian provider, predictor, variable order, step size change and restart, also with another system; "
     "a step that cannot be solved ends with an exception and leaves time and state as they were, and benign steps are solved. The step equation as a mapping always belongs to the system, state, step size and implicitness set last. A Jacobian that may be kept is kept from step to step and renewed after a hard restart, and with timing statistics on, every LU operation is counted once.",
     ["inputs", "histories", "configurations"], "All right-hand sides, configurations and sequences of steps, failures and restarts.",
     "No test uses the implicit solver.",
     ["ode/OdeSolverImplicitEuler.h", "ode/OdeStepMappingEuler.h"], [("step equation", "ode/OdeStepMappingEuler.h"), ("solution and state update", "ode/OdeSolverImplicitEuler.h")],
     "Systems of up to 9 variables.", "ASan/UBSan + residual oracle after every step")
prop("C14", "Gragg and extrapolation solvers do the steps they are defined to do",
     "Every step of the modified midpoint solver equals the method's recurrence (started anew after a restart, optionally smoothed), and every attempted step of the extrapolation solver equals the polynomial extrapolation (in h or h^2) of its reference solver's results for the "
     "step sequence's numbers of substeps, with the error estimate being the difference to the extrapolation without the first result - for all step sequences (romberg 1,2,4,..; bulirsch 1,2,3,4,6,8,..; harmonic 1,2,3,..), reference solvers and numbers of stages, "
     "also when these are changed between steps, the reference solver was used before, or the solver is restarted with another system.",
     ["inputs", "histories", "configurations"], "All right-hand sides, sequences, stage counts, reference solvers, histories of steps, restarts and setting changes.",
     "No test uses these solvers.",
     ["ode/OdeSolverGragg.h", "ode/OdeSolverExtrapolator.h", "ode/ExtrapolatorStepSequenceBulirsch.h", "ode/ExtrapolatorStepSequenceRomberg.h", "ode/ExtrapolatorStepSequenceHarmonic.h"],
     [("recurrence", "ode/OdeSolverGragg.h"), ("extrapolation table", "ode/OdeSolverExtrapolator.h")],
     "Two to six stages; right-hand sides without switching events.", "ASan/UBSan + per-step reference oracle (Lagrange form)")
prop("C27", "The step size controller follows its rule",
     "For every step size, error norm (also zero, infinite, NaN), order and parameter set the simple controller accepts exactly the errors within the tolerance, increases the step size only after accepted steps and within the given factors and limit, "
     "always decreases it after a rejection and by no more than the given factor, by the factor insurance*(tolerance/error)^(1/(order+1)); the norm calculator returns the largest absolute element and does not hide NaN.",
     ["inputs", "configurations"], "All arguments and parameters.",
     "No test calls the controller.",
     ["ode/OdeStepSizeSimpleController.h", "ode/ErrorInfNormCalculator.h"], [("decision", "ode/OdeStepSizeSimpleController.h")],
     "Decisions closer than 1e-5 (relative) to a threshold are allowed either way.", "ASan/UBSan + online rule checker over long runs of one controller")
prop("C15", "Events are found, placed and switched exactly once",
     "In every integration of a system with zero functions, by every solver (its inner reference solver or predictor, if any, running without event control), a step whose end finds a watched sign change is truncated at the earliest crossing of the linearly interpolated functions, "
     "the phase state is switched exactly once, there, with the transition of exactly that function and with the right direction, and integration goes on from the switched state with functions interpolated or recomputed as their flags say; a step without watched sign change is not truncated and "
     "switches nothing; every event is reported to step observers with its index and direction; a right-hand side that truncates steps itself is asked once per step and its state is taken over; a user's event controller is consulted at the start of every attempted and the end of every accepted step, with an interpolant that joins the two. A soft restart during an integration leaves event detection as it was.",
     ["inputs", "histories", "configurations"], "All hybrid systems (several functions, one or both directions, jumps, switched right-hand sides), solvers, step sizes, event sequences and restarts.",
     "No test in the stable suite has an event.",
     ["ode/LinearOdeEventController.h", "ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverGragg.h", "ode/OdeSolverImplicitEuler.h", "ode/OdeSolverExtrapolator.h",
      "ode/OdeSolverRosenbrock_W_base.h", "ode/OdeSolverRosenbrock_SW2_4.h", "ode/interfaces/OdeSolverEventController.h"],
     [("event location and phase switch", "ode/LinearOdeEventController.h"), ("truncated steps", "ode/OdeSolverExplicitEmbeddedRK.h")],
     "Up to 4 zero functions; crossings closer than rounding to each other or to zero are allowed either way.", "ASan/UBSan + trace monitor with a shadow event controller")
prop("C16", "The bundled test problems are the systems they claim to be",
     "For all parameters and states the bundled right-hand sides (oscillator, coupled nonlinear oscillators, stiff equation, sliding point with friction, bouncing ball) compute their documented equations, keep the parameters they are given and notify their observers once per evaluation; "
     "integrated with the solvers they follow the closed-form solutions, conserve energy where there is no damping, and the bouncing ball never sinks below the plane, rebounds with the recovery factor, never gains energy, "
     "and, once an impact is slower than the threshold, rests for good.",
     ["inputs", "histories"], "All parameters, states, times, and integrations by several solvers.",
     "The tests never evaluate the test problems.",
     ["ode/test_models/CoupledNonlinearOscillators.h", "ode/test_models/Oscillator.h", "ode/test_models/SlidingPoint.h", "ode/test_models/BouncingBall.h", "ode/test_models/StiffOde1D.h"],
     [("equations", "ode/test_models/CoupledNonlinearOscillators.h"), ("impact and sticking", "ode/test_models/BouncingBall.h")],
     "Equations to 1e-12 relative; closed forms to integration accuracy.", "ASan/UBSan + documented equations, closed-form and energy oracles over integrations")
prop("C18", "A restarted solver behaves as a new one",
     "Whatever a solver has been used for - other systems of other sizes, events, rejected and failed steps, exceptions thrown by the right-hand side at any evaluation, soft restarts, other solvers of the same kind working at the same time - after it is given a right-hand side, "
     "a step size and an initial state (hard) it takes exactly the steps, reports, events, failures and numbers of evaluations of a newly made solver with the same parameters.",
     ["histories", "fault_sequences", "configurations"], "All solvers and configurations, all histories including an exception at every evaluation, all interleavings with other solvers.",
     "Tests use every solver once; leftovers of a previous use show only in later uses.",
     ["ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverGragg.h", "ode/OdeSolverImplicitEuler.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverRosenbrock_W_base.h", "ode/LinearOdeEventController.h", "ode/interfaces/OdeSolver.h"],
     [("restart", "ode/interfaces/OdeSolver.h"), ("event controller restart", "ode/LinearOdeEventController.h")],
     "Histories of 1 to 4 uses with up to 12 steps each; comparison bit for bit.", "ASan/UBSan + fault injection + differential monitor (used against new solver)")

SOLVERS = ["ode/OdeSolverExplicitRK.h", "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverGragg.h", "ode/OdeSolverImplicitEuler.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverRosenbrock_W1.h", "ode/OdeSolverRosenbrock_SW2_4.h", "ode/OdeSolverRosenbrock_W_base.h"]
prop("C17", "What a solver reports while it works is what it does",
     "In every call of doStep of every solver, each attempt is announced once and reported once to every observer, in the order they were added, with the solver itself, the same step size and the state it started from; the call returns right "
     "after its only accepted attempt, in the state reported; a rejected attempt leaves time and state as they were; an accepted step ends one step size later unless it is reported as truncated, and exactly the truncated ones switched the phase state; "
     "fixed-step solvers keep the step size they started with; Jacobian refreshes begin and end alternately within attempts, and Newton iterations are numbered consecutively; the right-hand side is told of every attempt (beforeStep) and asked, like the zero functions, "
     "only for times within the step in hand (the error estimate of rosenbrock_sw2_4 looks two thirds of a step further); attaching observers changes nothing in the solution, and an exception thrown by an observer comes out of doStep and does not affect the next run.",
     ["histories", "configurations"], "All solvers, configurations, systems (with and without events) and run lengths; all points at which an observer throws.",
     "No test in the stable suite runs a solver.",
     SOLVERS + ["ode/interfaces/OdeSolver.h", "alg/NewtonSolver.h"], [("step loop and notifications", "ode/OdeSolverExplicitEmbeddedRK.h"), ("observer lists", "infra/cxx_observers.h")],
     "Runs of up to 25 steps; the trace specification is checked at every notification, transparency against a second solver without observers.", "ASan/UBSan + online trace-specification checker")
prop("C21", "A configured solution and its reports are the run that took place",
     "For every configuration of right-hand side, solver, initial state, duration and outputs, solveOde makes at least one step, stops at the first accepted step that reaches the end of the interval, and ends in the state the same steps give by hand; "
     "the statistics (right-hand side evaluations in total and for Jacobians, steps, rejections, size changes, truncations, average size, refreshes, speed), the step lines (number, time, size, error, verdict, event) and iteration lines (number, ratio, verdict, in the order they took place), the solution rows (header, initial state, "
     "accepted steps, size limit) and the solution columns (times, names, values, step limit) written to files or to the console agree with what observers see, with exactly the steps due by the output timing; they are written also when the solution "
     "fails, the failure reaches the caller, an output file that cannot be opened is refused before any step (and the outputs prepared before it are finished), and nothing is written after the solution.",
     ["configurations", "inputs", "fault_sequences"], "All configurations, output kinds and slots, output timings, and points of failure.",
     "No test in the stable suite uses the configuration or the outputs.",
     ["ode/OdeSolverConfiguration.h", "ode/ode_solver_output.h", "ode/SpecifiedOdeInitState.h", "ode/OdeVarNameGenerator.h"],
     [("solveOde and output life cycle", "ode/OdeSolverConfiguration.h"), ("report contents", "ode/ode_solver_output.h")],
     "Systems of up to about 28 variables, runs of up to some hundred steps; a file's numbers are compared to 16 digits, the console's to 6. Timings themselves are not judged.", "ASan/UBSan + offline checker of the reports against an independent event record")
prop("C29", "A step that fails leaves the solver where it was and can be repeated",
     "Whenever the right-hand side (in any of its evaluations during a step, those for Jacobians included, or in beforeStep) or, before any switch of phase, a zero function fails with an exception, the exception comes out of doStep, the solver's time, state and "
     "initial step size are as before the step, and repeating the step - after any number of failures - gives what the step gives without failure, for every solver and configuration.",
     ["fault_sequences", "histories"], "All solvers, configurations, systems, and all evaluations at which a failure can occur, singly and repeatedly.",
     "No test in the stable suite injects failures.",
     SOLVERS + ["ode/LinearOdeEventController.h"], [("initialization and commit of steps", "ode/OdeSolverRosenbrock_SW2_4.h"), ("auxiliary state", "ode/OdeSolverGragg.h")],
     "Failures after the phase state has been switched are not covered (the switch cannot be undone); implicit steps are compared to solver tolerance.", "ASan/UBSan + fault injection with a twin solver as oracle")
prop("C19", "Parameters and configurations are kept exactly as given",
     "Parameter trees keep every value: text, numbers (every finite normal floating-point value and integer in range, exactly), flags and nested parameters read back as they were stored, through copies that are independent of their origin and through dotted paths; values out of range, of the wrong kind, with "
     "unknown or malformed names or paths are refused with an exception and leave what was there. Every configurable component accepts the parameters it reports, reports what it was given, changes nothing else, gives help for the parameters it has, and a component made from "
     "reported parameters reports and behaves the same; replacing a component keeps the rest of the configuration; any component can be taken away and given back, parameters provided by an exchanged component come and go with it, and a step that needs a missing one is refused with an exception; a specified initial state holds exactly the given variables at the size of the system.",
     ["configurations", "inputs", "histories"], "All component kinds, parameter values, nesting, orders of assignment, and invalid inputs.",
     "No test in the stable suite uses parameters.",
     ["infra/OptionalParameters.h", "infra/ComponentConfiguration.h", "ode/OdeSolverConfiguration.h", "ode/SpecifiedOdeInitState.h", "ode/interfaces/OdeSolver.h"],
     [("parameter values and paths", "infra/OptionalParameters.h"), ("configurations", "infra/ComponentConfiguration.h")],
     "Denormal numbers and infinities are outside the text format. Free-text parameters and variable orders are checked by their own rules.", "ASan/UBSan + model-based monitor of parameter trees; round-trip monitor over all registered components")
prop("C20", "The factory makes exactly what it is asked for",
     "For every interface with registered implementations - those of the library and a user's own - the factory lists exactly the registered identifiers in order, makes a new, independent instance of exactly the class registered under an identifier at every request, an instance reports "
     "the identifier of its class, and unknown identifiers are refused with an exception that names them, without a change of the registry; registering under one interface does not show under another, and data kept per type is separate for every pair of types and stays in place.",
     ["histories", "configurations"], "All registered interfaces and identifiers, all sequences of registration, creation and failure.",
     "No test in the stable suite uses the factory.",
     ["infra/Factory.h", "infra/PerTypeStorage.h", "src/PerTypeStorage.cpp", "ode/reg/OdeSolverClassesRegistrator.h", "alg/reg/AlgebraicSolverClassesRegistrator.h"], [("registry", "infra/Factory.h"), ("data by type", "src/PerTypeStorage.cpp")],
     "Single-threaded; threads are the matter of another property.", "ASan/UBSan + model-based monitor of the registry")
prop("C22", "Observers and properties tell everyone, once, in order",
     "After any sequence of additions, removals, scoped additions (moved, finished early, left by scope), forwarding to another list and clearing, a notification calls exactly the observers present, once each, in the order of addition, with the arguments given; identifiers are never "
     "shared by two present observers and never change; a terminating list answers true exactly if an observer does, and still calls all of them; an exception of an observer comes out and leaves the list as it was; a property holds the value set last and a notified property "
     "tells every observer of every assignment, after it took effect.",
     ["histories"], "All sequences of list operations, notifications and faulty observers.",
     "No test in the stable suite uses observers.",
     ["infra/cxx_observers.h", "infra/def_prop_class.h", "infra/def_getset.h"], [("observer lists", "infra/cxx_observers.h"), ("notified properties", "infra/def_prop_class.h")],
     "Observers do not change the list they are called from (iteration over a changing list is not promised).", "ASan/UBSan + model-based history monitor")
prop("C23", "Measured errors and times are the errors and times",
     "Error statistics (scalar or per component) of any sequence of samples and merges give the largest and mean absolute error and the root mean square; the Richardson calculator compares two half steps with a full step from the same point, continues from the former, skips "
     "intervals with rejected or truncated steps, reports a changed step size, leaves no observer behind, and its estimate is the local error of the solver's order for every one-step solver; timing statistics add up; an interval or scope is measured between its two ends, whatever way it is left; "
     "LU operations are counted; ticks are converted to milliseconds at the measured rate or, after too short a calibration, refused.",
     ["inputs", "histories"], "All sample sequences, merges, solvers, systems, step sizes, solver reports, and measured scopes.",
     "No test in the stable suite uses error statistics or timings.",
     ["util/ErrorStats.h", "ode/util/RichardsonErrorCalculator.h", "timing/TimingStats.h", "timing/OpaqueTickCounter.h", "timing/TimerCalibrator.h", "lu/LUFactorizerTimingStats.h", "src/OpaqueTickCounter.cpp", "src/TimerCalibrator.cpp"],
     [("Richardson estimate", "ode/util/RichardsonErrorCalculator.h"), ("statistics", "util/ErrorStats.h"), ("calibration", "src/TimerCalibrator.cpp")],
     "The estimate is compared with a long double reference where the error is above rounding (median over 35 intervals within 25 to 70 percent, by order); times are bracketed by readings taken around and inside.", "ASan/UBSan + reference statistics, a scripted solver as oracle, and bracketing clocks")
prop("C24", "Small utilities compute what their names say",
     "For every text, the lexical functions accept exactly identifiers, decimal numbers (which the C library reads in full), integers and hexadecimal integers; for all integers modp is the nonnegative remainder, roundi the nearest integer (ties away from zero), modd the representative within one period of the bias; "
     "Min, Max, Sgn and sqr are what they are called; the cubic basis functions and polynomials, on the unit interval and on any interval, interpolate end values and slopes, with consistent derivatives; items are visited with their index in order; time spans and integers are formatted exactly; "
     "zero-initialised numbers and pointers start at zero whatever the memory held and otherwise behave like plain ones; "
     "the variables of a system get distinct identifiers of equal length, in the order of their indices.",
     ["inputs"], "All texts, numbers, polynomials and system sizes.",
     "No test in the stable suite uses these functions.",
     ["util/lex_idnum.h", "util/m_inline.h", "util/foreachindex.h", "util/cxx_str_fmt_num.h", "util/sys_time.h", "ode/OdeVarNameGenerator.h"], [("lexical classes", "util/lex_idnum.h"), ("arithmetic", "util/m_inline.h")],
     "Texts of up to about 20 characters; roundi within 1e-6 of a tie (but not at it) is not judged.", "ASan/UBSan + independent automata and exact arithmetic as oracles")

prop("C25", "Nothing is read before it is written, and everything is given back",
     "Whatever solvers, configurations, factorizers, Newton solvers, Jacobian providers, parameters, factories and models are made, reconfigured, run, interrupted by failures and destroyed, no result and no decision depends on uninitialised memory, repeating the same work gives the same "
     "results whatever the memory contained, no memory outside live objects is touched, and when the objects are gone all memory and files they used have been given back.",
     ["programs", "histories", "fault_sequences"], "All sequences of creation, configuration, use, failure and destruction of components.",
     "Tests do not run under instrumentation, and a value read before it is written is often harmless by luck.",
     SOLVERS + ["ode/OdeSolverConfiguration.h", "alg/NewtonSolver.h", "la/SparseMatrixTemplate.h", "la/VectorTemplate.h"], [("ownership", "infra/cxx_observers.h"), ("lifetimes in solvers", "ode/OdeSolverImplicitEuler.h"), ("storage", "math/VectorTemplate.h")],
     "Random jobs of ten kinds; tick counter data and the registries, which live as long as the process, are outside the balance.", "Valgrind memcheck (uninitialised values) + ASan/UBSan + allocation and descriptor balance + repetition with perturbed memory")
prop("C26", "Separate solvers can run in separate threads",
     "Threads that work with objects of their own - solvers, configurations, factorizers, Newton solvers, parameters, factory requests, models; including objects made in one thread and used in another, and the first use of any per-type data - never access the same data without synchronisation, "
     "and each gets exactly the results it gets when it runs alone.",
     ["schedules", "programs"], "All interleavings of threads with separate objects and shared registries and statistics.",
     "No test in the stable suite has threads; a race depends on the schedule.",
     ["infra/PerTypeStorage.h", "src/PerTypeStorage.cpp", "infra/Factory.h"] + SOLVERS, [("shared registries", "infra/PerTypeStorage.h"), ("registered types", "infra/Factory.h")],
     "2 to 4 threads per case with injected delays; registration itself is done before the threads start; tick counter data is read only by its own thread.", "ThreadSanitizer + comparison of each thread's trace with a solitary run")
prop("C28", "Solutions converge to the true solution",
     "Over an interval, the error of every fixed-step solver and variant falls with the step size at the order of the method (the extrapolator at that of its stages); with error control it follows the tolerance; through detected events it falls at least as the linear location of events allows (second order, or "
     "the solver's order if lower); implicit solvers follow the slow motion of stiff systems with steps far above the fast time scale; linear invariants of the equations are kept to rounding (implicit Euler: to its tolerance).",
     ["inputs", "configurations"], "All smooth systems, hybrid systems, initial states, step sizes, tolerances, solvers and variants.",
     "The only related test checks nothing beyond linear algebra; convergence can be judged only over families of systems and step sizes.",
     SOLVERS + ["ode/LinearOdeEventController.h", "ode/OdeStepSizeSimpleController.h"], [("methods", "ode/OdeSolverExplicitEmbeddedRK.h"), ("localization of events", "ode/LinearOdeEventController.h")],
     "Statistical: orders are medians over 15 or 25 systems and may be off by less than half an order; errors within a factor of 150 of the tolerance.", "Reference integration in long double and closed solutions as oracles of convergence, under ASan/UBSan")
prop("C30", "What a solver does depends on its configuration, not on how it got it",
     "Two solvers with the same parameters, system, step size and initial state do the same, bit for bit - states, reports, events, errors and right-hand-side evaluations - whatever the order in which parameters, system and step size were given, whether at once, key by key, as objects or "
     "by name, and whatever other parameters, components, systems, states and step sizes were set before; the same holds for Newton solvers. Every component put in later is given the equation, system and companions it needs. Exchanging the system or the parameters between two steps makes the solver go on as a new one with that system or those parameters would from there.",
     ["histories", "configurations"], "All solvers and Newton components, orders of assignment, intermediate settings, systems with and without events.",
     "No test in the stable suite configures a solver in two ways.",
     SOLVERS + ["alg/interfaces/NewtonSolverInterface.h", "ode/interfaces/OdeSolverEventController.h", "ode/interfaces/OdeSolverErrorNormCalculator.h", "ode/interfaces/OdeNewtonSolver.h"],
     [("assembly of components", "alg/interfaces/NewtonSolverInterface.h"), ("replacement of components", "ode/interfaces/OdeSolverEventController.h")],
     "Settings between steps of a running solution are the business of C18.", "Twin-execution monitor over random orders of configuration, under ASan/UBSan")
prop("C31", "The computed motion does not depend on how the model is written down",
     "A system whose variables or zero functions are renumbered, that is given variables without influence, whose variables (all by one factor, or, at a fixed step, each by its own) and time are measured in other units, whose time origin is moved, or whose second-order variables are written as pairs of "
     "first-order ones, moves the same: explicit, Gragg and extrapolation solvers give the same accepted and refused steps, events and evaluations and the same values bit for bit (factors being powers of two), with the error tolerance in the new units; implicit solvers give the same values within "
     "the accuracy of their Jacobians and tolerances.",
     ["inputs", "configurations"], "All solvers, systems with and without events, renumberings, additions, units, shifts and forms.",
     "A unit test compares one way of writing a model with a number, not with another way.",
     SOLVERS + ["ode/ExplicitRKHelper.h", "ode/LinearOdeEventController.h", "ode/OdeStepMappingEuler.h"], [("second-order variables", "ode/ExplicitRKHelper.h"), ("steps and error norms", "ode/OdeSolverExplicitEmbeddedRK.h")],
     "Of several zero functions that are past their surfaces when a step begins the first is served, so the comparison of renumbered functions ends there; units of implicit solvers within 2^-3 to 2^3, of others 2^-20 to 2^20.", "Metamorphic twin-execution monitor under ASan/UBSan")
prop("C32", "A missing component is refused and one that is not needed is not missed",
     "For every solver and configuration, taking out a component that steps need (error norm and step size controller unless the check is disabled, an extrapolator's reference solver or step sequence, the algebraic solver of implicit methods or any of its direction, line search, iteration performer, "
     "error estimator or Jacobian), before or between steps, makes doStep fail with an exception, leaving time, state and step size as they were and reporting no step; putting it back lets the integration go on as if nothing had been missing. Components that are not needed (event controller without events, "
     "trimmer, predictor, ordering, regularizer; norm and controller with the check disabled) can be taken out without effect on what does not use them. A solution without a right-hand side is refused before any output is opened, one with another missing component is reported with no steps, an equation solver "
     "and a descent direction without their components refuse too.",
     ["configurations", "histories"], "All solvers, configurations, components at any level, and moments of removal and return.",
     "No test in the stable suite takes a component out.",
     SOLVERS + ["alg/NewtonSolver.h", "ode/OdeSolverConfiguration.h"], [("initialization of steps", "ode/OdeSolverExtrapolator.h"), ("checks of the equation solver", "alg/NewtonSolver.h")],
     "One component is missing at a time; implicit steps are compared to solver tolerance, others to rounding.", "ASan/UBSan + removal of components with a twin solver as oracle")
