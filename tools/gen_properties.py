"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
R = "run_time_assurance/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[R + f for f in files],
                               mechanism=[dict(name=n, where=R + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

SMOKE = "The existing tests are smoke simulations from random initial states without any assertion: they only show that nothing raises. "

prop("C01", "Filtered control always respects the actuator bounds",
     "Every control returned by an enabled run-time-assurance filter lies, element by element, within the configured control bounds, "
     "whatever the state, the desired control, the algorithm, the call history and the form in which the bounds were given "
     "(one number, one value per element, one side only, or none). "
     "When no bound is configured nothing is clipped, and a desired control that already is admissible and safe comes back unchanged.",
     ["inputs", "configurations", "histories"],
     "all bound configurations (scalar, list, array, one-sided, none) x every algorithm x all states and desired controls of a grid that lies inside, on and far outside the bounds x all short call histories",
     SMOKE + "They use one bound configuration and never look at the returned value.",
     ["rta/base.py", "rta/simplex.py", "rta/asif.py"],
     [("RTAModule.filter_control clips what compute_filtered_control returns", "rta/base.py"),
      ("actuation rows of the QP", "rta/asif.py"), ("bounds handed to the discrete optimiser", "rta/asif.py")],
     ["filter_control"])
prop("C02", "A disabled filter is transparent and re-arms at once",
     "While a filter is disabled every call returns exactly the desired control, even outside the bounds or when unsafe, and reports that it is not intervening. "
     "The first call after it is enabled again is filtered exactly as by a filter that was not intervening (only the delta-v switch, which lasts until reset, survives). "
     "This holds for every algorithm and for any interleaving of enabling, disabling, filtering and resetting.",
     ["histories", "inputs"],
     "all interleavings up to the depth bound of enable, disable, reset and filter calls with safe, unsafe and out-of-bounds desired controls, for every algorithm",
     SMOKE + "No test ever disables a filter.",
     ["rta/base.py", "rta/simplex.py", "rta/asif.py"],
     [("enable branch of RTAModule.filter_control", "rta/base.py"), ("latch timer restart", "rta/simplex.py")],
     ["filter_control", "generate_info"])
prop("C03", "Filtering never mutates or aliases the caller's data",
     "A filter call leaves the state and desired-control arrays it is given unchanged, and the control it returns shares no memory with them. "
     "Overwriting those inputs or the returned control after the call changes neither what the filter reports about that call nor any later result.",
     ["inputs", "histories"],
     "all short call sequences in which the caller overwrites the state, the desired control or the returned control between calls, for every algorithm and for enabled and disabled filters",
     SMOKE + "They never reuse or overwrite an array passed to a filter.",
     ["rta/base.py", "rta/asif.py", "rta/simplex.py", "zoo/cwh/inspection_3d.py"],
     [("defensive copies in RTAModule.filter_control", "rta/base.py")], ["filter_control", "generate_info"])
prop("C04", "Filter telemetry tells the truth about the last call",
     "After every call the info record holds the desired control that was passed in, the control that was returned, the enable flag and the intervening flag of that very call. "
     "It also holds, for every constraint in use and by its name, the unbiased safety value of the state last given to an enabled filter call or a constraint update, labelled as belonging to the last (pre-step) state after a filter call and as current after an explicit constraint update. "
     "For optimisation filters the intervening flag is set exactly when the optimised control differs from the desired one by more than the configured threshold.",
     ["histories", "inputs", "configurations"],
     "all interleavings up to the depth bound of filter calls, constraint-value updates, toggles and resets over a grid of states and controls, for every algorithm and several intervention thresholds",
     SMOKE + "No test reads the info record.",
     ["rta/base.py", "rta/asif.py", "rta/simplex.py"],
     [("generate_info", "rta/base.py"), ("_update_constraint_values", "rta/base.py"), ("BaseOptimizationModule.monitor", "rta/asif.py")],
     ["generate_info", "update_constraint_values"])
prop("C05", "Explicit switching lets the desired control through iff next state is safe",
     "An unlatched explicit switching filter returns the (bounded) desired control unchanged exactly when the state predicted one step ahead under it satisfies every enabled constraint, with the boundary counted as safe, and otherwise returns the (bounded) backup control. "
     "It reports intervening exactly in the second case.",
     ["inputs", "configurations"],
     "all states x desired controls x step sizes of a lattice that hits the constraint boundary exactly, x all subsets of enabled constraints x bound configurations, on toy plants with exact arithmetic and on the supplied docking and integrator filters",
     SMOKE + "They follow one random trajectory per filter and cannot tell a wrong switch from a right one.",
     ["rta/simplex.py", "rta/base.py", "zoo/integrators/integrator_1d.py", "zoo/cwh/docking_2d.py", "zoo/cwh/docking_3d.py"],
     [("SimplexModule._filter_control", "rta/simplex.py"), ("ExplicitSimplexModule._monitor", "rta/simplex.py"), ("SimplexModule._constraint_violation", "rta/simplex.py")],
     ["filter_control", "intervening"])
prop("C06", "Implicit switching checks the whole backup trajectory",
     "An unlatched implicit switching filter returns the (bounded) desired control exactly when applying it for one step and then following the bounded backup controller for the whole backup window violates no enabled constraint at any sampled time, and otherwise returns the (bounded) backup control for the current state. "
     "A window that is a multiple of the step size is covered completely, including its last point, and a backup controller with memory is predicted from its current memory.",
     ["inputs", "configurations", "histories"],
     "all states x desired controls of an exact lattice x backup windows and step sizes (including quotients that are inexact in floating point) x enabled-constraint subsets x stateless and stateful backup controllers, plus the supplied docking and integrator filters",
     SMOKE + "They use one window and cannot see which points of the trajectory were checked.",
     ["rta/simplex.py", "rta/base.py", "controller.py"],
     [("ImplicitSimplexModule.integrate", "rta/simplex.py"), ("ImplicitSimplexModule._monitor", "rta/simplex.py")],
     ["filter_control", "intervening"])
prop("C07", "Latched backup control lasts exactly the latch time",
     "After a switching filter triggers, it keeps applying the backup control on the following calls, whatever is desired, until the time accumulated over those calls reaches the latch time, and stays reported as intervening. "
     "On the first call after that it decides afresh, releasing the desired control if it is safe and starting a complete new latch period if not; with latch time zero every call decides afresh.",
     ["histories", "configurations"],
     "all sequences up to the depth bound of safe and unsafe requests with different step sizes, disable, enable and reset, for explicit and implicit switching and latch times that are zero, multiples and non-multiples of the step",
     SMOKE + "No test uses a latch time.",
     ["rta/simplex.py"], [("latch timer in SimplexModule._filter_control", "rta/simplex.py")], ["filter_control", "intervening"])
prop("C08", "Reset makes a filter indistinguishable from a new one",
     "After a reset, a filter's subsequent outputs, flags and reports are those of a newly constructed filter with the same configuration, whatever happened before: interventions, partially elapsed latches, advanced backup-controller memory, disabling, infeasible optimisations. "
     "Composite filters (cascades and multi-agent combinations) reset all the filters they contain.",
     ["histories"],
     "all histories up to the depth bound followed by a reset and by all probe sequences up to a second bound, for every algorithm, for cascades, the combined multi-agent filter and the delta-v switching filter",
     SMOKE + "No test calls reset after an episode and compares.",
     ["rta/base.py", "rta/simplex.py", "rta/asif.py", "controller.py", "zoo/cwh/inspection_1v1.py", "zoo/cwh/inspection_3d.py"],
     [("reset methods", "rta/base.py"), ("SimplexModule.reset", "rta/simplex.py"), ("RTABackupController.reset", "controller.py")],
     ["reset", "filter_control", "generate_info"])
prop("C09", "Backup-controller memory advances only with applied backup control",
     "A backup controller's save, restore and reset follow their contract: restore brings back the memory as of the last save no matter what was generated since, reset brings back the initial memory, and computing a Jacobian changes nothing. "
     "A filter's look-ahead leaves the controller's memory unchanged, and each applied backup step advances it exactly once, so the backup control applied is the one the controller would give next.",
     ["histories", "configurations"],
     "all operation sequences up to the depth bound of generate, save, restore, reset and Jacobian for controllers with no, array and dictionary memory (also updated in place), and all call histories of switching and optimisation filters built on them",
     SMOKE + "Every backup controller in the tests is memoryless.",
     ["controller.py", "rta/simplex.py", "rta/asif.py", "rta/base.py"],
     [("save/restore/reset", "controller.py"), ("save/restore around trajectory integration", "rta/simplex.py")],
     ["RTABackupController", "filter_control"])
prop("C10", "Explicit optimisation returns the closest control meeting all barriers",
     "When an admissible control exists, the explicit optimisation filter returns the control nearest to the desired one (Euclidean) among those that satisfy the actuator bounds, every enabled barrier condition (rate of change of the constraint at least minus its strengthening function, with the recovery strengthening and bias when the constraint is already violated) and every enabled direct inequality. "
     "In particular an admissible desired control is returned unchanged.",
     ["inputs", "configurations"],
     "all states x desired controls of a grid inside, on and outside the safe set, x constraint sets, strengtheners, biases, enabled subsets, direct inequalities, one to three control dimensions and bound forms, on toy systems and on the supplied docking, integrator and inspection filters",
     SMOKE + "Returned controls are never compared with an independent optimum.",
     ["rta/asif.py", "constraint.py", "zoo/cwh/docking_2d.py", "zoo/cwh/docking_3d.py", "zoo/cwh/inspection_1v1.py", "zoo/integrators/integrator_1d.py"],
     [("ExplicitASIFModule._generate_barrier_constraint_mats", "rta/asif.py"), ("ASIFModule._update_ineq_mats", "rta/asif.py"), ("ASIFModule._optimize", "rta/asif.py")],
     ["filter_control"])
prop("C11", "Infeasible optimisation and slack are handled as configured",
     "When no control satisfies all conditions, a quadratic-programming filter raises the solver error if exceptions were requested and otherwise issues the solver warning and returns the desired control clipped to the bounds; a feasible problem never raises or warns, and an infeasible call leaves no trace on later calls. "
     "Constraints given a slack priority are relaxed, only as far as needed and higher priorities less, instead of making the problem infeasible, while constraints without slack and the bounds are still met.",
     ["inputs", "configurations", "histories"],
     "all states and desired controls of a grid with feasible and infeasible barrier sets x exception mode x slack assignments x all orders of feasible and infeasible calls up to the depth bound",
     SMOKE + "No test reaches an infeasible problem or uses slack.",
     ["rta/asif.py", "utils/utils.py"], [("ASIFModule._optimize error handling", "rta/asif.py"), ("slack columns and weights", "rta/asif.py")],
     ["filter_control", "SolverError", "SolverWarning"])
prop("C12", "Interventions are attributed to the constraints that cause them",
     "After a successful call of a quadratic-programming filter, the list of constraints causing intervention names, without duplicates, exactly the barriers, direct inequalities and actuator limits that bind (carry a multiplier) at the optimum, and is empty when the desired control is admissible. "
     "This holds for any combination of bounds, disabled constraints, slack, direct inequalities and trajectory subsampling, and after an infeasible call the list does not repeat an earlier one.",
     ["inputs", "configurations", "histories"],
     "all states and desired controls of a grid x constraint sets, bound sides, direct inequalities, subsampling settings, x all call orders up to the depth bound; degenerate ties are excluded",
     SMOKE + "The attribution is never read by a test.",
     ["rta/asif.py"], [("constraint_names bookkeeping and active set decoding", "rta/asif.py")], ["constraints_causing_intervention"])
prop("C13", "Implicit optimisation enforces barriers along the backup trajectory",
     "The implicit optimisation filter returns the control nearest to the desired one that satisfies the actuator bounds, the direct inequalities, and at every selected point of the predicted backup trajectory the barrier condition for each enabled constraint, with the effect of the present control carried to that point by the sensitivity of the closed-loop backup flow to its initial state. "
     "The selected points are exactly those described by the subsampling configuration: all points by default, the first ones plus every n-th, the least safe ones, and the first and last point when kept.",
     ["inputs", "configurations"],
     "all states x desired controls of a grid x windows, step sizes, subsampling configurations, slack, enabled subsets and bounds, on linear and nonlinear toy systems and the supplied implicit filters",
     SMOKE + "At the pinned commit every test that builds an implicit optimisation filter fails.",
     ["rta/asif.py", "constraint.py"], [("ImplicitASIFModule.integrate", "rta/asif.py"), ("invariance_constraints", "rta/asif.py"), ("subsample_constraints", "rta/asif.py")],
     ["filter_control"])
prop("C14", "Discrete optimisation satisfies discrete barriers with least change",
     "When feasible, the discrete optimisation filter returns a control inside the bounds for which every enabled constraint's discrete barrier condition over the step (finite-difference growth at least minus its strengthening) holds to solver tolerance, and no admissible control is closer to the desired one. "
     "This holds for any step size, both when the user supplies the next state and when it is integrated from the state derivative.",
     ["inputs", "configurations"],
     "all states x desired controls x step sizes of a grid x constraint sets, enabled subsets, per-element bounds and slack, for user-supplied and integrated dynamics and the supplied discrete inspection filter",
     SMOKE + "The only discrete test cannot run at the pinned commit.",
     ["rta/asif.py", "constraint.py", "zoo/cwh/inspection_1v1.py"],
     [("DiscreteASIFModule._filter_control", "rta/asif.py"), ("DiscreteCBFConstraint", "constraint.py"), ("DiscreteASIFIntegratorModule", "rta/asif.py")],
     ["filter_control"])
prop("C15", "Runtime constraint changes take effect on the very next call",
     "Changing a constraint's parameters (in place or by replacement) or enabling or disabling a barrier or direct constraint between calls affects exactly the next and later calls, as if the filter had been built with that configuration; a disabled constraint has no influence at all. "
     "Selecting a subset of constraints at construction leaves precisely those in force, and selecting none is rejected.",
     ["histories", "configurations"],
     "all interleavings up to the depth bound of parameter edits, enable toggles and filter calls, for every algorithm with compiled and uncompiled constraints, and all subsets of constraint names at construction",
     SMOKE + "One test edits a parameter but never checks the effect.",
     ["rta/base.py", "rta/asif.py", "rta/simplex.py", "constraint.py"],
     [("_update_params before each call", "rta/base.py"), ("_update_direct_inequality_params", "rta/asif.py"), ("constraints_to_use", "rta/base.py")],
     ["filter_control"])
prop("C16", "Compilation settings never change results",
     "Switching just-in-time compilation off, entirely or for individual subroutines, changes no output, flag or reported constraint value of a filter beyond floating-point tolerance, for any call sequence.",
     ["configurations", "histories", "inputs"],
     "all compilation switches x algorithms x call sequences with changing parameters, enable flags and step sizes over a grid",
     SMOKE + "Tests only run the default compilation settings.",
     ["rta/base.py", "rta/asif.py", "rta/simplex.py", "constraint.py", "controller.py"],
     [("compose methods", "rta/asif.py"), ("no-vmap variants", "rta/simplex.py")], ["filter_control"])
prop("C17", "Composite filters chain and distribute filters faithfully",
     "A cascade passes the desired control through its filters in the listed order, each receiving its predecessor's output and the same state and step, returns the last output, and reports intervening exactly when some member intervened on this call. "
     "The combined multi-agent filter gives each agent the control its own filter would give for the state seen from that agent (its own state first, the others after it in order), independently of the other agents' desired controls, and reports intervening exactly when some agent's filter intervened.",
     ["configurations", "histories", "inputs"],
     "all orderings of member filters with all on/off patterns of members and all request sequences up to the depth bound; all assignments of agents to a set of states and desired controls",
     SMOKE + "Composite filters appear in one or two random runs without checks.",
     ["rta/base.py", "zoo/cwh/inspection_3d.py", "zoo/cwh/inspection_1v1.py"],
     [("CascadedRTA.compute_filtered_control", "rta/base.py"), ("CombinedInspectionRTA", "zoo/cwh/inspection_3d.py")], ["filter_control", "intervening"])
prop("C18", "Generic constraint toolkit computes what it documents",
     "Magnitude, maximum and minimum limits are non-negative exactly on their documented sets, a bias shifts the enforced but not the reported value, gradients are the true derivatives, polynomial strengtheners evaluate their polynomial, and without a recovery strengthener ten times the normal one is used. "
     "A higher-order barrier of relative degree r is the r-1 fold recursion of drift derivative plus strengthening, reports the original constraint, and follows its parameters.",
     ["inputs", "configurations"],
     "all values of a grid including the boundaries x limits, indices, biases, polynomials, relative degrees one to three",
     SMOKE + "Constraint values are never compared with anything.",
     ["constraint.py", "utils/utils.py"], [("ConstraintModule and subclasses", "constraint.py"), ("HOCBFConstraint", "constraint.py"), ("norm_with_delta", "utils/utils.py")],
     ["ConstraintModule.__call__", "grad", "phi", "alpha"])
prop("C19", "Spacecraft safety constraints mean what they claim",
     "The supplied spacecraft constraints (speed limit growing with distance, chief and deputy collision, maximum distance, conic sun keep-out, passive safety of chief and deputies) are non-negative exactly when their documented physical condition holds, with braking margins consistent with the maximum deceleration, and their reported values have the sign of the underlying geometric condition. "
     "The passive-safety value is the least clearance along the exact unforced relative orbit over the whole horizon.",
     ["inputs", "configurations"],
     "all relative positions, velocities and sun angles of a grid around the boundaries x radii, speed laws, cone angles, horizons and deputy indices, against independent formulas and matrix-exponential propagation",
     SMOKE + "No test evaluates a constraint against its physical meaning.",
     ["zoo/cwh/docking_2d.py", "zoo/cwh/docking_3d.py", "zoo/cwh/inspection_1v1.py", "zoo/cwh/inspection_3d.py", "zoo/integrators/integrator_1d.py"],
     [("constraint classes", "zoo/cwh/inspection_1v1.py")], ["ConstraintModule.__call__", "phi"])
prop("C20", "Internal prediction models agree with the true plant dynamics",
     "Every prediction a supplied filter makes (next state, drift and input terms, discrete transition matrices, sun and fuel states) agrees with exact integration of the documented integrator or relative-orbit dynamics for the configured mass and mean motion, to the accuracy of the chosen integration method. "
     "The supplied braking controllers drive relative velocity (for the integrator, closing velocity) towards zero, and named state accessors read and write exactly their own component.",
     ["inputs", "configurations"],
     "all states, controls, step sizes, masses and mean motions of a grid for all supplied filters and both integration methods, and all accessor read/write sequences up to the depth bound",
     SMOKE + "Predictions are never compared with the simulation.",
     ["zoo/cwh/utils.py", "zoo/cwh/docking_2d.py", "zoo/cwh/docking_3d.py", "zoo/cwh/inspection_1v1.py", "zoo/cwh/inspection_3d.py", "zoo/integrators/integrator_1d.py", "state.py"],
     [("generate_cwh_matrices", "zoo/cwh/utils.py"), ("_pred_state / state_transition_*", "zoo/cwh/docking_2d.py"), ("discrete_a_mat / discrete_b_mat", "zoo/cwh/inspection_1v1.py"), ("RTAStateWrapper subclasses", "zoo/cwh/docking_3d.py")],
     ["_pred_state", "state_transition_system", "state_transition_input", "next_state_differentiable"])
prop("C21", "Filtered closed loop never leaves the safe set",
     "Starting from a safe state, the plant driven by any sequence of desired controls through a supplied filter keeps satisfying every safety constraint at every step: exactly, for the docking and integrator switching filters whose prediction is exact (implicit ones from states their backup manoeuvre keeps safe within its window); "
     "up to a discretisation tolerance that shrinks with the step size, for the docking and inspection optimisation filters, whose optimisation does not become infeasible while all constraints keep clear of their boundaries. From slightly beyond the speed limit alone the docking and single-spacecraft inspection optimisation filters drive the constraint value back up into the safe set.",
     ["inputs", "histories"],
     "all initial states of a grid near the constraint boundaries x all desired-control sequences (blocks of extreme controls) up to the depth bound, simulated with an independent plant",
     SMOKE + "One trajectory per filter is simulated and safety along it is not asserted.",
     ["rta/simplex.py", "rta/asif.py", "zoo/integrators/integrator_1d.py", "zoo/cwh/docking_2d.py", "zoo/cwh/docking_3d.py", "zoo/cwh/inspection_1v1.py", "zoo/cwh/inspection_3d.py"],
     [("whole filter stack", "rta/asif.py")], ["filter_control"])
prop("C22", "Filters are repeatable and isolated from each other",
     "The output of an unlatched filter with a memoryless backup controller depends only on the current state, step size, desired control and configuration: repeating a call or preceding it by any other calls gives the same result. "
     "Several filter instances used in any interleaving behave as if each were alone.",
     ["histories", "schedules"],
     "all permutations and repetitions of a set of calls up to the depth bound and all interleavings of call sequences on two or three instances, including different step sizes and instances of the same class with different configuration",
     SMOKE + "Tests create a single instance and call it along one trajectory.",
     ["rta/base.py", "rta/asif.py", "rta/simplex.py", "zoo/cwh/inspection_1v1.py", "zoo/cwh/inspection_3d.py"],
     [("per-call recomputation from arguments; no shared mutable state", "rta/base.py")], ["filter_control"])
prop("C23", "Sample testing reports a faithful safety verdict",
     "A sample test classifies an episode as unsafe-at-start, safe or unsafe exactly according to the constraint values along the trajectory actually produced by filter and plant (a solver error counts as unsafe), resamples unsafe starts, and writes one row per requested episode with the verdict and the initial state used. "
     "Data tracking records exactly the visited states, the applied controls and the intervention flags, and generated initial states respect the requested distribution bounds.",
     ["inputs", "histories"],
     "all initial states of a grid x plants and desired controllers x episode lengths x orders of safe and unsafe initial samples",
     SMOKE + "The only sample-testing script fails at the pinned commit.",
     ["utils/sample_testing.py", "zoo/cwh/random_sample_testing.py"],
     [("SafetyAssuranceSampleTestingModule._simulate_episode", "utils/sample_testing.py"), ("run_sample_test", "utils/sample_testing.py"), ("DataTrackingSampleTestingModule.simulate_episode", "utils/sample_testing.py")],
     ["run_sample_test", "simulate_episode"])
prop("C24", "Delta-v switching stops fuel use before the limit is exceeded",
     "The delta-v switching filter passes the desired control exactly when applying it once and then flying its backup manoeuvre over the whole prediction horizon keeps accumulated delta-v within the limit; otherwise it applies the backup control from that very step on and stays on it, reported as intervening, until reset. "
     "Look-ahead does not disturb the backup controller's error memory.",
     ["histories", "inputs", "configurations"],
     "all call sequences up to the depth bound over states with small and large accumulated delta-v, desired controls, horizons, step sizes, limits and resets",
     SMOKE + "Its only test cannot construct the filter in this environment.",
     ["zoo/cwh/inspection_1v1.py"], [("SwitchingDeltaVLimitRTA.compute_filtered_control", "zoo/cwh/inspection_1v1.py")], ["filter_control", "intervening"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
