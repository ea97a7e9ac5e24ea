"""Property texts and their contract units. gen.py turns this into properties.jsonl and MANIFEST.json."""
P = {}


def prop(pid, title, statement, over, quant, why, files, mech, units, sizes, assumptions=(), **kw):
    P[pid] = dict(title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(), mech=mech,
                  units=units.split(), sizes=sizes, assumptions=list(assumptions), **kw)


CI = "ct_core/include/ct/core/"
OI = "ct_optcon/include/ct/optcon/"
RI = "ct_rbd/include/ct/rbd/"

prop("C01", "Fixed-step integration computes the exact method steps at the stated times",
     "Integrating any system over n steps of size dt from (x0, t0) with the Euler or 4th-order Runge-Kutta integrators returns exactly the "
     "n-fold composition of the textbook one-step map, evaluated at times t0 + k dt. When states and times are recorded, entry k is the state after k steps "
     "together with its time, and repeated calls do not see the log of earlier ones.",
     "inputs programs", "for all right-hand sides f(x,t), all x0, t0, dt > 0 and step counts",
     "tests integrate one or two concrete oscillators and compare against an analytic solution with a tolerance; they cannot separate a slightly wrong stage time or weight on a non-autonomous system",
     CI + "integration/Integrator.h " + CI + "integration/Integrator-impl.h " + CI + "integration/internal/SteppersCT.h " + CI + "integration/Observer.h",
     [("one step map and step loop", CI + "integration/internal/SteppersCT.h: StepperEulerCT/StepperRK4CT; StepperCTBase::integrate_n_steps"), ("recording", CI + "integration/Observer-impl.h")],
     "c01_integrators", "state dimension 2, right-hand side uninterpreted; the final state for any number of steps (loop contract); recorded trajectories for 0..3 (Euler) and 0..2 (RK4) steps (bounded)")

prop("C03", "Trajectory interpolation returns the stated value for every query time",
     "Evaluating a trajectory at any time returns, for zero-order hold, the sample at or before the time, and for linear interpolation the straight-line value between the two neighbouring samples; "
     "before the first and after the last sample the end values are held. The answer depends only on the data and the query time, never on earlier queries, and queries on empty or mismatched data are rejected.",
     "inputs histories", "for all strictly increasing sample times, all samples, all query times in any order, and all states of the search cache",
     "tests query a handful of monotone times on integer-spaced grids; the cached search index makes the result depend on call history, which tests do not vary",
     CI + "common/Interpolation.h " + CI + "types/trajectories/DiscreteTrajectoryBase.h",
     [("cached interval search and blending", CI + "common/Interpolation.h"), ("trajectory evaluation", CI + "types/trajectories/DiscreteTrajectoryBase.h: eval")],
     "c03_interpolation", "1..5 samples of dimension 2 and scalars, arbitrary strictly increasing times, arbitrary cached index, query sequences of length 2..3")

prop("C04", "Arrays and trajectories keep their contents exactly under every operation",
     "Element-wise array algebra acts on every element and rejects mismatched lengths; copies, erasures, swaps, time arrays, transposed arrays, and trajectory edits (push, pop, erase, shift, sub-trajectories, start/duration queries) "
     "produce exactly the elements and times the operation names and leave the rest untouched.",
     "inputs histories", "for all contents and lengths, all index arguments",
     "tests exercise a few fixed arrays; off-by-one behaviour at the ends depends on the combination of length and index",
     CI + "types/arrays/DiscreteArray.h " + CI + "types/arrays/TimeArray.h " + CI + "types/arrays/ScalarArray.h " + CI + "types/trajectories/DiscreteTrajectoryBase.h",
     [("containers", CI + "types/arrays/*.h, " + CI + "types/trajectories/*.h")],
     "c04_arrays", "arrays of 0..5 elements of dimension 2, arbitrary values, all index combinations")

prop("C05", "Switched systems follow the mode sequence exactly",
     "For any phase sequence, the mode reported at a time is that of the phase whose half-open interval contains it, and total durations, per-phase intervals and transition times are the running sums of the phase durations. "
     "Switched continuous, linear and discrete systems behave at each time exactly like the mode system active then, and invalid sequences or mode numbers are rejected.",
     "inputs configurations", "for all phase counts, durations, mode assignments, times, states and controls",
     "tests use one fixed sequence and query mid-phase times",
     "ct_core/include/ct/core/switching/Switching.h " + CI + "systems/continuous_time/SwitchedControlledSystem.h " + CI + "systems/continuous_time/linear/SwitchedLinearSystem.h " + CI + "systems/discrete_time/SwitchedDiscreteControlledSystem.h",
     [("phase lookup", CI + "switching/Switching.h: PhaseSequence::getPhaseFromTime"), ("dispatch", "Switched*System.h")],
     "c05_switching", "1..5 phases with arbitrary positive durations; three mode systems of dimension 2 with uninterpreted dynamics")

prop("C06", "Controllers evaluate exactly the feedback law they store",
     "A state-feedback controller returns uff(t) + K(t) (x - x_ref(t)) with each of the three trajectories interpolated at t (or at step index), also after updating and clearing, and rejects inconsistent lengths; "
     "constant, step-input and PID controllers return their defining law, including integral accumulation, saturation limits and derivative terms, and clones behave identically.",
     "inputs histories", "for all trajectories, gains, states, times, limits and call sequences",
     "tests evaluate single points; the PID memory and index/time lookup depend on history",
     CI + "control/StateFeedbackController.h " + CI + "control/continuous_time/siso/PIDController-impl.h " + CI + "control/continuous_time/siso/StepInputController.h " + CI + "control/continuous_time/ConstantController.h " + CI + "control/discrete_time/DiscreteController.h",
     [("feedback law", CI + "control/StateFeedbackController-impl.h"), ("PID law", CI + "control/continuous_time/siso/PIDController-impl.h")],
     "c06_controllers", "state and control dimension 2; 1..3 samples; 1..2 PID calls from an arbitrary initial PID state")

prop("C07", "Activations follow their defining time profile",
     "Single, periodic, linear, Gaussian RBF and barrier activations are active exactly on their stated time intervals (periodic ones repeating for ever), and their activation value follows the defining profile (constant one, linear ramp, Gaussian bump, exponential barriers at the active bounds), for copies too.",
     "inputs configurations", "for all parameters and times",
     "no test evaluates the activations beyond loading them",
     CI + "common/activations/SingleActivation.hpp " + CI + "common/activations/PeriodicActivation.hpp " + CI + "common/activations/LinearActivation.hpp " + CI + "common/activations/RBFGaussActivation.h " + CI + "common/activations/BarrierActivation.hpp",
     [("profiles", CI + "common/activations/*.hpp")],
     "c07_activations", "scalar; periods 0..3 after the start of the periodic activation", ["std::exp/log are uninterpreted functions (equal arguments give equal values)"])

prop("C08", "Closed-form discretisations satisfy their defining equations",
     "The discretised system matrices satisfy A = I + dt Ac, B = dt Bc (forward Euler), (I - dt Ac) A = I, (I - dt Ac) B = dt Bc with the linearisation at the next time (backward Euler), the symplectic-Euler chain rule, "
     "(I - dt/2 Ac+) A = I + dt/2 Ac (Tustin) and A = exp(dt Ac), Ac B = (A - I) Bc (matrix exponential), with the linearisation evaluated at the given state, control and time n dt. A missing linear system is rejected.",
     "inputs programs", "for all time-varying linearisations, states, controls, step indices and dt, whichever way the object was built or cloned",
     "tests compare the schemes against each other on one constant system with tolerances wide enough to hide a wrong time or factor",
     CI + "integration/sensitivity/SensitivityApproximation.h",
     [("schemes", CI + "integration/sensitivity/SensitivityApproximation.h: forwardEuler, backwardEuler, symplecticEuler, tustin, matrixExponential")],
     "c08_discretisation", "state dimension 2 (1+1 for symplectic), control dimension 1, linearisation uninterpreted",
     ["Eigen pivoting decompositions return the exact inverse/solution of a nonsingular matrix (contracts/eigen_contracts.h)", "Eigen's matrix exponential is an uninterpreted function of the matrix", "matrix exponential: Ac is nonsingular (the code's documented formula divides by it)"])

prop("C09", "Discretised dynamics and integrated sensitivities match the sampled flow",
     "Propagating a discretised continuous system by one step equals K integrator steps of size dt/K from time n dt with the control held constant, and the integrated sensitivities A, B equal the exact derivatives of that numerical step "
     "with respect to the state and control at the start of the step, for every number of substeps.",
     "inputs programs", "for all dynamics of the verified family, states, controls, step indices, dt, substep counts",
     "tests compare at one point of time-invariant systems, where wrong evaluation times are invisible",
     CI + "systems/discrete_time/SystemDiscretizer.h " + CI + "integration/sensitivity/SensitivityIntegrator.h",
     [("substeps", CI + "systems/discrete_time/SystemDiscretizer-impl.h"), ("variational integration", CI + "integration/sensitivity/SensitivityIntegrator.h")],
     "c09_sensitivity", "state dimension 2, control 1, parametric time-varying nonlinear dynamics (all parameters symbolic); 1..3 substeps (Euler), 1..2 (RK4)")

prop("C10", "Numerical differentiation is exact on affine maps, one coordinate at a time",
     "The numerical Jacobians of continuous systems, discrete systems and plain functions are exact whenever the map is affine in the differentiated argument, use a perturbation that scales with the argument, leave the operating point untouched and "
     "fill column i only from a perturbation of coordinate i, for one-sided and double-sided differences; second-order systems get the exact kinematic block.",
     "inputs programs", "for all affine maps (time-varying coefficients), operating points, both difference modes",
     "tests compare against analytic derivatives at random points with loose tolerances",
     CI + "systems/continuous_time/linear/SystemLinearizer.h " + CI + "systems/linearizer/DynamicsLinearizerNumDiff.h " + CI + "systems/discrete_time/linear/DiscreteSystemLinearizer.h " + CI + "math/DerivativesNumDiff.h",
     [("difference quotients", CI + "systems/linearizer/DynamicsLinearizerNumDiff.h, " + CI + "math/DerivativesNumDiff.h")],
     "c10_linearizers", "state dimension 2, control dimension 2")

prop("C11", "Systems compute the dynamics, outputs and matrices they represent",
     "A controlled system in closed loop evaluates its dynamics with exactly the control its controller returns for the current state and time; linear systems evaluate A x + B u (+ outputs C x + D u), hand out the stored matrices and build the controllability/observability "
     "matrices and gramians from them; second-order and symplectic systems evaluate their defining equations. Copies and clones behave identically.",
     "inputs programs histories", "for all dynamics, controllers, matrices, states, times",
     "tests check two fixed systems and simulate them",
     CI + "systems/continuous_time/ControlledSystem.h " + CI + "systems/discrete_time/DiscreteControlledSystem.h " + CI + "systems/continuous_time/linear/LTISystem.h " + CI + "systems/discrete_time/linear/DiscreteLTISystem.h " + CI + "systems/continuous_time/SecondOrderSystem.h " + CI + "systems/continuous_time/SymplecticSystem.h",
     [("closed loop", CI + "systems/continuous_time/ControlledSystem.h: computeDynamics"), ("linear systems", CI + "systems/continuous_time/linear/LTISystem.h")],
     "c11_systems", "state dimension 2 and 3, control dimension 1; gramian sums of 0..2 terms")
prop("C02", "Symplectic, event-driven and time-grid integration follow their definitions",
     "The symplectic Euler and Runge-Kutta integrators compute exactly the textbook splitting steps. Event handlers are called exactly when active, with the state and time of the step; "
     "the step limit and the kill switch stop the integration where they state; the substep recorder stores every state and control evaluation in order; "
     "constant-step and time-grid integration visit exactly the requested times; unsupported stepper/mode combinations are rejected.",
     "inputs programs histories", "for all right-hand sides, initial states, times, step sizes, event patterns",
     "tests run one pendulum and never use kill switches or partially active handlers",
     CI + "integration/IntegratorSymplectic.h " + CI + "integration/EventHandler.h " + CI + "integration/EventHandlers/MaxStepsEventHandler.h " + CI + "integration/EventHandlers/KillIntegrationEventHandler.h " + CI + "integration/EventHandlers/SubstepRecorder.h " + CI + "integration/Integrator-impl.h",
     [("symplectic step", CI + "integration/IntegratorSymplectic-impl.h"), ("event dispatch", CI + "integration/Observer-impl.h")],
     "c02_events", "1 and 2 degrees of freedom, uninterpreted right-hand sides, 0..3 steps, 2..3 grid times")

prop("C12", "Numerical helpers return exact solutions",
     "The LU- and LDLT-based inverses (also for symmetric indefinite matrices and solving against a right-hand side) return exactly the inverse, the linearly spaced grid has exact endpoints and equal spacing, signal quantisation rounds to the grid and reports its remainder, "
     "and plane heights and ellipsoid inside/boundary/axis queries follow the defining equations.",
     "inputs", "for all matrices for which the factorisation exists, all parameters",
     "tests use random well-conditioned matrices with tolerances",
     CI + "math/Inverses.h " + CI + "common/linspace.h " + CI + "common/QuantizationNoise.h " + CI + "geometry/Plane.h " + CI + "geometry/Ellipsoid.h",
     [("LDLT", CI + "math/Inverses.h"), ("helpers", CI + "common/*.h, " + CI + "geometry/*.h")],
     "c12_math", "matrices up to 3x3, grids of up to 4 points")

prop("C13", "Cost terms evaluate their defining formula and its exact derivatives",
     "Each cost term (linear, quadratic, mixed, product of quadratics, tracking, smooth absolute value, barrier) evaluates its documented formula, its analytic first and second derivatives are the derivatives of that value, clones evaluate identically, and a term contributes only while its time activation is active.",
     "inputs configurations", "for all weights, references, states, controls, times",
     "tests compare analytic with numeric derivatives at a few random points with a tolerance",
     OI + "costfunction/term/TermLinear.hpp " + OI + "costfunction/term/TermQuadratic.hpp " + OI + "costfunction/term/TermMixed.hpp " + OI + "costfunction/term/TermQuadMult.hpp " + OI + "costfunction/term/TermQuadTracking.hpp " + OI + "costfunction/term/TermSmoothAbs.hpp " + OI + "costfunction/term/TermStateBarrier.hpp",
     [("formulas", OI + "costfunction/term/*-impl.hpp")],
     "c13_terms", "state and control dimension 2; tracking trajectories of 2..3 samples", ["exp and sqrt uninterpreted with their derivative rules"])

prop("C14", "Cost functions are the weighted sum of their active terms, with derivatives",
     "Intermediate and terminal costs equal the sum over the registered terms of the term values weighted by their time activation at the (shifted) evaluation time, and every first and second derivative equals the same weighted sum of term derivatives; numerical derivatives are exact on quadratic costs and leave the evaluation point unchanged; "
     "reference updates and lookups by name reach exactly the intended terms; copies are independent and evaluate identically.",
     "inputs configurations histories", "for all terms, activations, evaluation points, time shifts, registration orders",
     "tests register at most a few terms that are always active and never shift time",
     OI + "costfunction/CostFunctionQuadratic-impl.hpp " + OI + "costfunction/CostFunctionAnalytical-impl.hpp " + OI + "costfunction/CostFunctionQuadraticSimple-impl.hpp " + OI + "costfunction/CostFunction-impl.hpp",
     [("weighted sums", OI + "costfunction/CostFunctionQuadratic-impl.hpp"), ("registration", OI + "costfunction/CostFunctionAnalytical-impl.hpp")],
     "c14_costfunctions", "state and control dimension 2; up to 2+2 terms with uninterpreted value, derivatives and activation")

prop("C15", "Constraints stack consistently: values, bounds, Jacobians, violations",
     "Box, terminal and obstacle constraints evaluate their defining expression and its exact Jacobians; invalid bounds are rejected. Constraint containers stack the values, bounds and Jacobians of all registered constraints in registration order, at the current state, control and time, "
     "the sparse Jacobian scattered onto its sparsity pattern equals the dense one, bound violations are exact, uninitialised use is rejected, switched containers use the constraints of the mode active at the current time (terminal: of the last phase), and copies behave identically.",
     "inputs configurations histories", "for all bounds, sparsity vectors, constraint functions, orders of registration, evaluation points, mode sequences",
     "tests register fixed constraint sets and compare printed patterns; the sparse and dense forms are only compared for diagonal patterns",
     " ".join(OI + "constraint/" + f for f in "term/ConstraintBase-impl.h term/BoxConstraintBase-impl.h term/StateConstraint-impl.h term/ControlInputConstraint-impl.h term/TerminalConstraint-impl.h term/ObstacleConstraint-impl.h ConstraintContainerBase-impl.h ConstraintContainerAnalytical-impl.h LinearConstraintContainer-impl.h SwitchedLinearConstraintContainer-impl.h".split()),
     [("terms", OI + "constraint/term/"), ("stacking", OI + "constraint/ConstraintContainerAnalytical-impl.h"), ("switching", OI + "constraint/SwitchedLinearConstraintContainer-impl.h: update")],
     "c15_constraints", "state and control dimension 2; two constraints per stage, each of 4 kinds (uninterpreted of size 1 or 2, state box, control box); two modes")

prop("C17", "Riccati recursions and LQR designs satisfy their defining equations",
     "One step of the dynamic Riccati recursion returns exactly the optimal cost-to-go and minimising gain of the stage (Bellman equation for every state and control; indefinite Hessians corrected as documented); the finite-horizon LQR applies it backwards along the trajectory, linearising at the state, control and time of each stage; "
     "the discrete algebraic Riccati iteration starts from Q unless told otherwise, returns the first iterate that changes by no more than the tolerance together with its gain, raises an error exactly when no iterate does, and the continuous solver's result satisfies the continuous Riccati equation and is the stabilising solution.",
     "inputs", "for all systems, weights, cost-to-go matrices, trajectories and time grids",
     "tests compare the variants of the solvers with each other on one fixed system",
     " ".join(OI + "lqr/" + f for f in "riccati/DynamicRiccatiEquation.hpp riccati/DARE-impl.hpp riccati/CARE-impl.hpp FHDTLQR-impl.hpp LQR-impl.hpp".split()),
     [("one step", OI + "lqr/riccati/DynamicRiccatiEquation.hpp"), ("finite horizon", OI + "lqr/FHDTLQR-impl.hpp: designTimeVarying*"), ("algebraic", OI + "lqr/riccati/DARE-impl.hpp CARE-impl.hpp")],
     "c17_riccati c17b_lqr", "state/control dimensions up to 2; horizons of 0 to 2 stages and DARE runs of 0 to 2 iterations (bounded); CARE in dimensions 1 and 2 with the eigenvectors as given by the eigenvalue contract")

prop("C18", "The Riccati LQOC solver returns the optimum of the linear-quadratic problem",
     "For every unconstrained LQ problem (convex after the documented Hessian correction), solve(), or the stages solved one by one from the last to the first, yields a policy u = lv + L x along whose closed-loop trajectory, from any initial state, the gradient of the total cost with respect to every control vanishes; the reported state/control solution follows that policy and the dynamics; "
     "eigenvalues below epsilon are lifted to epsilon, the smallest eigenvalue is recorded over all stages, the solver can be re-used for problems of other lengths, and constrained problems are rejected.",
     "inputs histories", "for all problem data, regularisations, horizons, initial states, orders of use",
     "tests compare two solvers on one hand-picked integrator system",
     OI + "solver/lqp/GNRiccatiSolver-impl.hpp " + OI + "solver/lqp/LQOCSolver.hpp " + OI + "problem/LQOCProblem-impl.hpp",
     [("backward pass", OI + "solver/lqp/GNRiccatiSolver-impl.hpp: designController, computeCostToGo"), ("rollout", OI + "solver/lqp/GNRiccatiSolver-impl.hpp: computeStatesAndControls")],
     "c18_lqoc", "state/control dimensions (1,1), (2,1), (1,2); 1 to 2 fully symbolic stages and 3 to 4 partly numeric ones (bounded)")

prop("C19", "LQ problems are set up exactly as requested",
     "Creating, resizing and zeroing an LQ problem keeps every per-stage quantity consistent in length; box and general constraints are stored relative to the given linearisation point (absolute bound minus reference), at the requested stages only, with the right sparsity and dimensions, and inconsistent dimensions are rejected; the time-invariant set-up discretises the given continuous system and weights identically at every stage.",
     "inputs histories", "for all bounds, reference points, stages, problem lengths, systems and weights",
     "tests set up one problem and only look at the solver's answer",
     OI + "problem/LQOCProblem-impl.hpp",
     [("constraints", OI + "problem/LQOCProblem-impl.hpp: set*Constraint*"), ("set-up", OI + "problem/LQOCProblem-impl.hpp: setFromTimeInvariantLinearQuadraticProblem")],
     "c19_lqocproblem", "state dimension 2, control dimension 2; up to 3 stages (bounded)")

prop("C21", "MPC re-plans over the right horizon from the right state and warm start",
     "In every MPC iteration the horizon handed to the solver follows the chosen strategy (constant, shrinking to the final time, shrinking down to a minimum, or a user-defined one, also when replaced later), never negative and with the end reported exactly when it is reached; the time since the last and the first solution and the delay statistics are those of the calls made; "
     "the state is predicted with the given controller over exactly the delay to be compensated; and the warm-starting policy is the previous one shifted by the elapsed time, extended by its last value or cut to the new horizon with a uniform time grid starting at zero; the policy returned is the solver's, cut at the front by the delay and time-stamped accordingly.",
     "inputs histories schedules", "for all settings, horizons, delays, call times, policies and sequences of iterations",
     "the MPC test checks one linear oscillator with one strategy per mode; horizon arithmetic at the ends and the shifting of policies is not inspected",
     OI + "mpc/MPC-impl.h " + OI + "mpc/MpcTimeKeeper.h " + OI + "mpc/timehorizon/MpcTimeHorizon.h " + OI + "mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h",
     [("horizons", OI + "mpc/timehorizon/MpcTimeHorizon.h: computeNewTimeHorizon"), ("time keeping", OI + "mpc/MpcTimeKeeper.h: computeNewTimings, stopDelayMeasurement"), ("warm start and truncation", OI + "mpc/policyhandler/default/StateFeedbackPolicyHandler-impl.h"), ("iteration", OI + "mpc/MPC-impl.h: prepareIteration, finishIteration, doForwardIntegration")],
     "c21_mpc", "policies of 1 to 3 stages, sequences of up to 3 time-keeper cycles and 2 MPC iterations with an arbitrary (mock) solver; external timing (bounded)")

prop("C24", "State estimators compute the Kalman filter equations at the right time",
     "Extended, unscented and steady-state Kalman filters propagate estimate and covariance by the textbook prediction and correction equations: the process model, its derivatives and the noise terms are evaluated at the current estimate with the given control, step and time, and the measurement model at the predicted estimate and the given time; covariances stay symmetric, a perfect measurement prediction leaves the estimate unchanged, "
     "replacing models or estimates takes effect, the unscented weights sum to one and reproduce a linear model exactly; the continuous-time system model returns the discretised dynamics and sensitivities over dt, and disturbance-augmented systems apply the disturbance to the input.",
     "inputs histories", "for all process and measurement models, noise covariances, estimates, controls, measurements, step sizes and times",
     "tests run one linear system with fixed noise and look at the final error; wrong evaluation times or gains merely degrade the estimate",
     OI + "filter/ExtendedKalmanFilter-impl.h " + OI + "filter/UnscentedKalmanFilter-impl.h " + OI + "filter/SteadyStateKalmanFilter-impl.h " + OI + "filter/CTSystemModel-impl.h " + OI + "filter/LTIMeasurementModel-impl.h " + OI + "filter/InputDisturbedSystem-impl.h " + OI + "filter/DisturbedSystemController-impl.h",
     [("predict / update", OI + "filter/*KalmanFilter-impl.h"), ("models", OI + "filter/CTSystemModel-impl.h, LTIMeasurementModel-impl.h"), ("disturbances", OI + "filter/InputDisturbedSystem-impl.h, DisturbedSystemController-impl.h")],
     "c24_filters", "state dimensions 1 and 2, output dimensions 1 and 2, control dimension 1; models uninterpreted")

prop("C20", "Nonlinear optimal control iterations are correct and report what they found",
     "In every iteration the solver rolls the nonlinear dynamics out along the current shots with the right control law, the defects are exactly the gaps between shots, the LQ problem handed to the sub-solver is the exact linear-quadratic and constraint approximation at the current trajectory and times, and the new trajectories are the algorithm's update of it (step length, closed or open loop). "
     "A line search accepts the first step length that lowers the merit (cost, defects, constraint violations) and otherwise leaves everything unchanged; reported costs, defects, violations, gains and trajectories always belong to each other; the real-time MPC iteration uses the newest initial state.",
     "inputs histories configurations", "for all discrete dynamics, linearisations, costs, constraints, guesses, LQ-solver answers, shot lengths and settings of the seven algorithms",
     "tests solve one or two fixed problems and compare the final solutions of the variants; a wrong merit, stale linearisation point or mismatched defect still converges on them",
     OI + "nloc/NLOCBackendBase-impl.hpp " + OI + "nloc/NLOCBackendST-impl.hpp " + OI + "nloc/algorithms/MultipleShooting-impl.hpp " + OI + "nloc/algorithms/SingleShooting-impl.hpp " + OI + "system_interface/OptconDiscreteSystemInterface-impl.h",
     [("rollout, defects", OI + "nloc/NLOCBackendBase-impl.hpp: rolloutSingleShot, computeSingleDefect"), ("LQ approximation", OI + "nloc/NLOCBackendBase-impl.hpp: executeLQApproximation, setBoxConstraintsForLQOCProblem"), ("step acceptance", OI + "nloc/NLOCBackendBase-impl.hpp: lineSearch, acceptStep"), ("iterations", OI + "nloc/algorithms/*-impl.hpp")],
     "c20_nloc", "state and control dimension 1 with uninterpreted dynamics, linearisation, cost and constraints; 1 to 3 stages, shots of 1 to 3 stages, up to 2 step lengths, 2 iterations (bounded)",
     ["the LQ sub-solver is represented by its contract (any answer, stages solved last to first); C18 discharges that contract for the Riccati solver"], budget=500)

prop("C22", "Direct multiple shooting poses exactly the discretised problem",
     "For every decision vector the NLP of a multiple-shooting problem has as cost the numerical quadrature of the given cost function along the shots plus the terminal cost, as constraints the initial state, the continuity of consecutive shots under the integrated dynamics and the user's constraints at every node, each with its bounds, and the cost gradient and constraint Jacobian it supplies are the derivatives of exactly those quantities at the advertised sparsity positions. "
     "Initial guesses interpolate between start and goal, splines and their derivatives agree with the piecewise constant or linear definition up to and including the last node, and changing the initial state, the horizon or settings updates everything that depends on them.",
     "inputs histories configurations", "for all dynamics, costs, constraints, decision vectors, horizons and settings",
     "the DMS tests need an external NLP solver and are not built; nothing checks gradients, node placement or sparsity",
     OI + "dms/dms_core/DmsProblem.h " + OI + "dms/dms_core/ShotContainer.h " + OI + "dms/dms_core/SensitivityIntegratorCT.h " + OI + "dms/dms_core/implementation/OptVectorDms-impl.h " + OI + "dms/dms_core/TimeGrid.h " + OI + "dms/constraints/ConstraintDiscretizer.h " + OI + "dms/constraints/ConstraintsContainerDms.h",
     [("cost", OI + "dms/dms_core/cost_evaluator/*.h"), ("shots and sensitivities", OI + "dms/dms_core/ShotContainer.h, SensitivityIntegratorCT.h"), ("decision vector", OI + "dms/dms_core/implementation/OptVectorDms-impl.h"), ("constraints", OI + "dms/constraints/*.h"), ("splines", OI + "dms/dms_core/spline/*/*.h")],
     "c22_dms", "state and control dimension 1 with uninterpreted dynamics, cost and constraints; 1 to 3 shots with up to 3 integration steps each (bounded)")

prop("C23", "Nonlinear programs hand variables, bounds and derivatives over consistently",
     "For every set of discrete constraints and every decision vector the stacked constraint values, bounds, Jacobian values with their sparsity, and the Hessian of the Lagrangian with its lower-triangular sparsity are the concatenation of the individual ones at the right offsets; decision variables, multipliers and states are stored and returned unchanged, and wrong sizes are rejected.",
     "inputs histories configurations", "for all numbers and sizes of constraints, decision vectors, bounds and multipliers",
     "no test covers the NLP interface without an external solver",
     OI + "nlp/Nlp.h " + OI + "nlp/OptVector.h " + OI + "nlp/DiscreteConstraintContainerBase.h " + OI + "nlp/DiscreteConstraintBase.h",
     [("stacking", OI + "nlp/DiscreteConstraintContainerBase.h"), ("front end", OI + "nlp/Nlp.h"), ("decision vector", OI + "nlp/OptVector.h")],
     "c23_nlp", "up to 3 constraints with sizes 0 to 2 and up to 3 variables (bounded)")

prop("C27", "Solving a linear-quadratic problem through the front end yields the optimum",
     "With the real components together (NLOptConSolver, single and multiple shooting, Riccati solver, analytic quadratic cost, system interface), one full-step iteration on a linear-quadratic problem gives a trajectory that starts at the initial state, satisfies the (integrated) dynamics and has zero cost gradient with respect to every control, the optimal feedback gains for closed-loop algorithms, and the matching reported cost; further iterations and solve() keep it; "
     "after changing the initial state, cost function, dynamics, algorithm or horizon the next iteration solves the changed problem.",
     "inputs histories configurations", "for all weights, references, dynamics, initial states and guesses, and the seven algorithms, discrete and continuous time (Euler and RK4, with substeps)",
     "tests compare the variants on fixed problems with tolerances; the exchange of problem parts after a first solution is hardly exercised",
     OI + "solver/NLOptConSolver-impl.hpp " + OI + "nloc/NLOCBackendBase-impl.hpp " + OI + "nloc/NLOCBackendST-impl.hpp " + OI + "nloc/algorithms/MultipleShooting-impl.hpp " + OI + "nloc/algorithms/SingleShooting-impl.hpp " + OI + "solver/lqp/GNRiccatiSolver-impl.hpp",
     [("front end", OI + "solver/NLOptConSolver-impl.hpp"), ("iterations", OI + "nloc/algorithms/*-impl.hpp"), ("backend", OI + "nloc/NLOCBackendBase-impl.hpp"), ("LQ solver", OI + "solver/lqp/GNRiccatiSolver-impl.hpp")],
     "c27_nlsolver", "state and control dimension 1; 1 stage fully symbolic, 2 stages with numeric weights and step; shots of 1 to 2 stages; up to 3 iterations (bounded)", budget=600)

prop("C28", "Optimal control problems and settings mean what they say",
     "An optimal control problem returns exactly the dynamics, cost, linear system, constraints, initial state and horizon it was given at construction or later, uses a numerical linearisation when none is given, and rejects incomplete or negative-horizon problems; solver settings accept exactly the meaningful parameters and derive the number of stages (rounded, at least one) and the simulation step from horizon, dt and K_sim; "
     "the interface to continuous-time systems integrates step n from n*dt over dt with K_sim substeps under a constant control and linearises it by the chosen method at the right point and time, on each thread's own copy, also after exchanging systems or settings.",
     "inputs histories configurations", "for all dynamics, linear systems, horizons, steps, substeps, discretisations and sequences of changes",
     "tests use one fixed configuration per solver",
     OI + "problem/OptConProblemBase-impl.h " + OI + "solver/NLOptConSettings.hpp " + OI + "system_interface/OptconContinuousSystemInterface-impl.h",
     [("problem", OI + "problem/OptConProblemBase-impl.h"), ("settings", OI + "solver/NLOptConSettings.hpp: computeK, parametersOk, getSimulationTimestep"), ("interface", OI + "system_interface/OptconContinuousSystemInterface-impl.h")],
     "c28_problem", "state and control dimension 1 with uninterpreted dynamics; Euler and RK4 (and their generic-integrator variants); 1 to 2 substeps; step indices 0 to 2 (bounded)")

prop("C29", "Adaptive and higher-order integration honours its tolerances and its interval",
     "With the variable-step integrators an integration step is accepted exactly when its embedded error estimate is within absTol + relTol*(|x| + |dt f|) for the tolerances in force (the defaults or the ones set), an accepted step is the Dormand-Prince step, "
     "integration starts at the given state and time and ends at the requested final time, recorded times increase and every recorded state belongs to its time, and the returned state is the last one; "
     "the fixed-step use of every higher-order integrator (midpoint, RK4, ODE45, RK5 variable, RK78) integrates right-hand sides affine in time exactly, for any start and step, with recorded states and times matching.",
     "inputs configurations", "for all right-hand sides, initial states, start times, step sizes and tolerances",
     "tests integrate a few fixed systems and compare loosely; a tolerance that is ignored or mixed up only makes integration slower or slightly less accurate",
     CI + "integration/eigenIntegration.h " + CI + "integration/internal/SteppersODEInt.h " + CI + "integration/internal/StepperBase.h " + CI + "integration/Integrator-impl.h",
     [("vector-space operations used by the error control", CI + "integration/eigenIntegration.h"), ("steppers and tolerances", CI + "integration/internal/SteppersODEInt.h"), ("entry points", CI + "integration/Integrator-impl.h: integrate_adaptive")],
     "c29_adaptive", "one state; acceptance for an uninterpreted right-hand side over one step; intervals of up to 20 initial steps and grids of up to 3 times for right-hand sides affine in time (bounded)",
     ["boost::odeint is executed, not assumed; its comparison of times with 2e-16 tolerance is part of the statement", "pow with constant exponent: positive, and above or below 1 as the base is"])

prop("C30", "What a configuration file says is what the loaded object does",
     "Every scalar, matrix (with its scaling, missing entries counting as zero), activation, cost term, analytical cost function and settings object (MPC, nonlinear optimal control, line search, LQ solver, multiple shooting, NLP solver, CppAD, filters) loaded from an info file behaves exactly like one built from the values in the file: "
     "each value goes to the parameter of that name in that namespace and nowhere else, optional values that are absent leave the default, mandatory values that are absent and inconsistent or unknown ones are rejected (an unknown time activation leaves a term always active), and loading again replaces what was loaded before.",
     "inputs configurations", "for all values in the file, and for every subset of optional keys considered",
     "tests load a few fixed files; a value that lands in the wrong field or is left uninitialised changes the result only for files that set it",
     CI + "common/InfoFileParser.h " + CI + "common/activations/BarrierActivation.hpp " + CI + "common/activations/PeriodicActivation.hpp " + OI + "costfunction/utility/utilities.hpp " + OI + "costfunction/term/TermBase-impl.hpp " + OI + "costfunction/CostFunctionAnalytical-impl.hpp " + OI + "solver/NLOptConSettings.hpp " + OI + "mpc/MpcSettings.h " + OI + "dms/dms_core/DmsSettings.h " + OI + "nlp/solver/NlpSolverSettings.h " + OI + "filter/FilterSettings.h",
     [("scalars and matrices", CI + "common/InfoFileParser.h: loadScalar, loadMatrix"), ("cost terms", OI + "costfunction/utility/utilities.hpp: loadMatrixCF, addTerm"), ("settings", OI + "solver/NLOptConSettings.hpp: load")],
     "c30_config", "two states, one control, matrices 2x3 and 2x2; files with every key, with one key, and with each optional key",
     ["boost::property_tree is represented by its contract (contracts/ptree_standin.h): a table from path to typed value; the info-file syntax itself is boost's"])

prop("C31", "The multi-threaded solver computes what the single-threaded one computes",
     "Whichever worker thread takes which stage, shot or step length, in whatever order they finish, and wherever they are preempted inside the user's dynamics, linearisation or cost functions, an iteration of the multi-threaded backend hands the LQ solver the same problem and ends with the same trajectories, gains, defects, cost and merit as the single-threaded one: "
     "the largest step length that lowers the merit is taken, or nothing changes; each thread evaluates its own copies of the user's functions; no iteration waits for ever, also with no step lengths to try, a single shot, further iterations, new guesses or initial states; and destruction ends all workers.",
     "schedules inputs histories", "for all dynamics, linearisations, costs, guesses and LQ-solver answers, and all schedules within the stated bounds",
     "a test run sees a handful of schedules, and on the tested problems the first step length is nearly always accepted",
     OI + "nloc/NLOCBackendMP-impl.hpp " + OI + "nloc/NLOCBackendMP.hpp " + OI + "nloc/NLOCBackendBase-impl.hpp",
     [("distribution of work", OI + "nloc/NLOCBackendMP-impl.hpp: computeLQProblemWorker, rolloutShotWorker, lineSearchWorker"), ("waking and waiting", OI + "nloc/NLOCBackendMP-impl.hpp: threadWork, performLineSearch, shutdownRoutine")],
     "c31_mp", "state and control dimension 1; 2 and 3 worker threads, 1 to 3 stages, up to 3 step lengths, up to 2 iterations; switches wherever a thread blocks, and up to 3 preemptions inside user functions or 2 on entry to a wait (bounded)",
     ["std::thread, std::mutex and std::condition_variable are represented by their contract (contracts/threads.h): sequentially consistent, switches only where the bounds say; races between two other instructions of the library itself are not covered",
      "the LQ sub-solver is represented by its contract (C18)"], budget=300, native_flags=["-fno-sanitize=address"])

NA = [
    dict(id="C32", title="The closed-loop simulator applies every control update in time",
         statement="A simulation with a control loop thread applies each computed control from the moment it is available, feeds each control computation the state of its time stamp, and finishes cleanly at the requested time or when asked to stop.",
         over="schedules inputs", quant="for all schedules of the system and controller threads", why="tests run one schedule",
         files=CI + "simulation/ControlSimulator.h",
         reason="its behaviour is the interplay of two threads and the wall clock (sleep, std::chrono); the threads share state without a protocol that fixes when a control takes effect, so there is no postcondition that holds for every schedule"),
    dict(id="C33", title="Generated derivative code equals the derivative of the function",
         statement="Jacobians and Hessians obtained by automatic differentiation, just in time or through generated source code, equal the derivatives of the function given.",
         over="programs inputs", quant="for all differentiable functions and evaluation points", why="tests differentiate a few functions at a few points",
         files=CI + "math/DerivativesCppadJIT.h " + CI + "math/DerivativesCppad.h " + CI + "math/DerivativesNumDiff.h",
         reason="CppAD and CppADCodeGen are not installed here, so none of this code compiles or runs in the sandbox; the numerical counterpart is part of C10, C12 and C14"),
    dict(id="C34", title="The external solver interfaces pose the problem they were given",
         statement="What HPIPM, IPOPT and SNOPT are handed is the problem given by the user, and what they return is handed back unchanged.",
         over="inputs configurations", quant="for all problems", why="tests solve a few problems and compare solutions loosely",
         files=OI + "solver/lqp/HPIPMInterface-impl.hpp " + OI + "nlp/solver/IpoptSolver.h " + OI + "nlp/solver/SnoptSolver.h",
         reason="none of the three libraries is installed, so the interfaces are compiled out; the problem data they would be given is under contract in C19 and C23"),
    dict(id="C35", title="Rigid-body kinematics and dynamics are consistent",
         statement="Forward and inverse dynamics of the rigid-body modules are inverse to each other, and kinematic quantities and constraint Jacobians agree with the derivatives of positions.",
         over="inputs", quant="for all states and robots", why="tests evaluate a few states",
         files="ct_rbd/include/ct/rbd/robot/Dynamics.h ct_rbd/include/ct/rbd/robot/Kinematics.h",
         reason="ct_rbd and ct_models need kindr, which is not installed; the modules do not compile here"),
]
