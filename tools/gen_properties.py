"""Writes /verif/properties.jsonl (kept as a script so that the text can be reviewed as text)."""
import json, os
P = []
Q = "pyqlaw/_qlaw.py"
def add(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                    "mechanism": [dict(name=a, where=b) for a, b in mechanism],
                    "observe_at": observe, "hook_needed": hook}})

HIST = ["QLaw.times/states/masses/controls after (and, through callbacks, during) solve()"]

add("C01", "The trajectory obeys the commanded thrust and the disturbances",
    "Between consecutive recorded states the orbit changes exactly as Gauss's variational equations predict for the recorded control (acceleration tmax/mass along the recorded angles when throttle is 1, negated when time runs backward; none when throttle is 0) plus the disturbance acceleration the environment supplied for that step, the influence coefficients of the five slow elements being those at the start of the step. This holds for the Keplerian and the SMA-MEE element sets in every orientation of the orbit, for both integrators, for any positive gravitational parameter and in both time directions, as long as the orbit stays elliptic.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "every step of every mission: all orbits and orientations, thrust/coast sequences, disturbance (gust) sequences, element sets, integrators, time directions",
    "Tests solve a handful of near-equatorial prograde missions with the line of apsides near 0 and assert only that they converge; a wrong sign in one quadrant, a disturbance applied at the wrong step or a biased integrator still converges.",
    [Q, "pyqlaw/_eom.py", "pyqlaw/_integrate.py", "pyqlaw/_symbolic.py"],
    [("control held constant over the step, influence matrix psi from the feedback law passed to the equations of motion", Q + ": solve() ode_params"), ("eom_kep_gauss / eom_mee_with_a_gauss", "pyqlaw/_eom.py"), ("rk4 / rkf45", "pyqlaw/_integrate.py")],
    HIST + ["the perturbations object passed to QLaw (get_perturbations_RTN)"],
    [("oe_iter", "current osculating elements", Q)])

add("C02", "Every mission ends on time, moving monotonically at the requested step",
    "In every mission whose orbit stays elliptic, recorded time starts at 0 and moves strictly in the direction of the requested step, each step having the requested size unless it is shortened so as not to overdraw the battery. solve() returns after finitely many steps with a documented non-zero exit code, at the latest with the first step that reaches the allotted time, and no step starts at or beyond the allotted time.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "all missions, including ones whose battery, duty cycle, disturbances or feedback law misbehave",
    "Termination and step accounting are liveness claims over every mode sequence of the mission loop; tests run missions that converge.",
    [Q], [("while loop over the mission clock; battery-limited step", Q + ": solve()")], ["QLaw.times", "QLaw.exitcode"],
    [("t_step_local", "size of the current step", Q)])

add("C03", "Sundman steps advance the eccentric anomaly by the requested angle",
    "With the Sundman option every step that is not shortened by the battery lasts exactly the time in which the eccentric anomaly of the osculating orbit at the start of that step advances by the requested angle, at any eccentricity, anomaly, revolution count and gravitational parameter. A negative angle moves time backward.",
    ["histories", "inputs", "configurations"],
    "all steps of all Sundman missions, both element sets, any number of revolutions, both time directions",
    "Tests with Sundman steps only assert convergence, forward in time.",
    [Q, "pyqlaw/_elements.py"], [("Sundman block: eccentric anomaly, Kepler's equation, period", Q + ": solve()"), ("ta2ea, mee2ea", "pyqlaw/_elements.py")], ["QLaw.times", "QLaw.states"])

add("C04", "Propellant is burnt exactly while thrusting, and the mass floor stops it",
    "Recorded mass changes by exactly the mass-flow rate times the step duration on steps whose throttle is 1 and not at all on steps whose throttle is 0, throttle being always 0 or 1, so the total change equals the flow rate times the total thrusting time (signed with the direction of time). The mission stops at the first recorded mass at or below the minimum mass, unless that same state already meets a convergence criterion.",
    ["histories", "configurations", "fault_sequences"],
    "all thrust/coast sequences caused by efficiency thresholds, duty cycle, battery, failing guidance; both integrators, fixed, Sundman and battery-shortened steps",
    "No test compares the mass history with the control history; one test checks the exit code of an immediate depletion.",
    [Q], [("mass update after each integrator branch; mass_min check", Q + ": solve()")], ["QLaw.masses", "QLaw.controls", "QLaw.times", "QLaw.exitcode"],
    [("mass_iter", "current mass", Q)])

add("C05", "The reported outcome is true of the recorded history",
    "The exit code and the converged flag state what the recorded history shows: 1 exactly when the last state is the first whose weighted elements are all within tolerance (Keplerian angles compared modulo a full turn), 2 exactly when it is the state at which the relaxed tolerance has been met the configured number of times, -1 for the mass floor, -2 for the allotted time; the mission stops at the first such event. The outcome of each solve() concerns that solve alone, whatever the object solved, failed or aborted before.",
    ["histories", "inputs", "fault_sequences", "configurations"],
    "all missions and all sequences of solves, aborted solves and problem changes on one object",
    "Tests solve each object once and look at the final flag; none compares the flag with the history or solves again after a success.",
    [Q, "pyqlaw/_convergence.py"], [("exit conditions inside and after the mission loop", Q + ": solve()"), ("check_convergence_keplerian / check_convergence_mee", "pyqlaw/_convergence.py")], ["QLaw.exitcode", "QLaw.converge", "QLaw.states"],
    [("exitcode, converge", "outcome of the last solve", Q), ("n_relaxed_cleared", "times the relaxed tolerance was met", Q)])

add("C06", "Thrust respects the duty cycle and is available within it",
    "With duty cycle (ON, OFF) the thruster is never enabled for more than ON time units in a row (to within the step in progress) and, once switched off, stays off for at least OFF time units, in both time directions and together with battery limits. When nothing but the duty cycle limits thrust, the thruster is enabled at every step at which these rules allow it.",
    ["histories", "configurations"],
    "all duty cycles, step sizes (fixed, Sundman, battery-shortened), time directions, and interplay with coasting and battery cut-offs",
    "The only duty-cycle run is an example without assertions.",
    [Q], [("duty timers t_last_ON / t_last_OFF", Q + ": solve()")], ["QLaw.controls (throttle)", "QLaw.etas_bounds (not nan exactly while enabled)", "QLaw.times"],
    [("duty, t_last_ON, t_last_OFF", "thruster-enable automaton", Q)])

add("C07", "Battery energy is conserved and never overdrawn",
    "In forward missions every step on which the thruster is enabled lowers the recorded battery level by the discharge rate times the step's duration, and every other step raises it by the charge rate times the step's duration up to full capacity. The level never leaves [minimum, maximum] and the energy drawn never exceeds what was left above the minimum, the step being shortened to end exactly at the minimum when needed.",
    ["histories", "configurations"],
    "all charge/discharge rates, capacities, step schemes, integrators and cycles of depletion and recharge",
    "The two battery runs have no assertion on the battery; the level is clipped, so an overdraft does not show.",
    [Q], [("battery update and clip; shortening of the step", Q + ": solve()")], ["QLaw.battery", "QLaw.times", "QLaw.controls"],
    [("battery_iter, charging", "battery level and recharge mode", Q)])

add("C08", "No thrust on an empty battery; recharge gating is obeyed and ends",
    "In forward missions no step starting with the battery at its minimum thrusts, including the very first step. If full recharge is required, then after the minimum has been reached no step thrusts until the level has been back at maximum, and then thrust becomes available again; if it is not required, thrust becomes available again as soon as the level is above the minimum and the duty cycle allows.",
    ["histories", "configurations"],
    "all sequences of depletion and recharge, with and without required full recharge and duty cycle, from any initial level",
    "The two battery runs only show that a mission converges or does not raise.",
    [Q], [("battery checks before the feedback law", Q + ": solve()")], ["QLaw.battery", "QLaw.controls", "QLaw.etas_bounds"],
    [("charging", "whether a recharge is in progress", Q)])

add("C09", "Efficiency thresholds decide coasting, evaluated on the current state",
    "An enabled thruster fires exactly when the recorded absolute and relative effectivities reach the thresholds in force: both effectivities lie in [0, 1] and compare the current rate of decrease of Q with the best and worst around the current orbit, in both time directions. Threshold callables are called with the time, elements, mass and battery level recorded for that step and their value is the one applied and recorded; a constant c and a callable returning c give the same mission; anything that is neither a float nor a callable is rejected for both thresholds.",
    ["histories", "inputs", "configurations"],
    "all threshold histories (constant, time-, state-, mass-, battery-dependent), grids, element sets, time directions",
    "Tests use one battery-dependent callable and constants and only assert convergence.",
    [Q, "pyqlaw/_symbolic.py"], [("effectivity evaluation and throttle decision", Q + ": solve(), evaluate_osculating_qdot()")], ["QLaw.etas", "QLaw.etas_bounds", "QLaw.controls", "arguments of the eta callables"])

add("C10", "Guidance is steepest descent of the documented Lyapunov function",
    "At every recorded step Q is the documented proximity quotient of the current and target elements (weights, semi-major-axis scaling and periapsis penalty included), is non-negative, and its recorded rate has the magnitude of the fastest rate of decrease achievable with the available acceleration. On every thrusting step the recorded thrust direction is the one that decreases Q fastest, in both time directions.",
    ["histories", "inputs", "configurations"],
    "all states met on any mission, disturbed or not; all guidance parameters and weights; both element sets",
    "Tests check convergence on a few missions with default parameters; a direction that is merely a descent direction also converges.",
    ["pyqlaw/_symbolic.py", "pyqlaw/_lyapunov.py", Q], [("symbolic Q, its gradient and psi", "pyqlaw/_symbolic.py"), ("_u_to_thrust_angles, lyapunov_control_angles", "pyqlaw/_lyapunov.py")], ["QLaw.Qs", "QLaw.dQdts", "QLaw.controls"])

add("C11", "SPICE perturbations are the right physics at the right epoch and frame",
    "At every step the perturbing acceleration equals the sum of the enabled effects (exact third-body tides of the named bodies, J2 of the oblate primary in its own rotating frame, solar radiation pressure away from the Sun), evaluated at the spacecraft's current position and the epoch et_ref + t*TU, expressed along the current radial, transverse and normal directions in canonical units. Disabled effects and an empty list of third bodies contribute nothing, and when the ephemeris cannot answer (outside coverage, kernel gone) the error reaches the caller instead of a fabricated acceleration.",
    ["histories", "configurations", "fault_sequences"],
    "all epochs, orbits, unit systems, combinations of effects, and ephemeris outages at any point of a mission",
    "No stable test exercises this module: the kernels are not available to the tests.",
    ["pyqlaw/_perturbations.py", "pyqlaw/_elements.py"], [("SpicePerturbations.get_perturbations_RTN", "pyqlaw/_perturbations.py")], ["return value of get_perturbations_RTN during missions", "exceptions from solve()"])

add("C12", "A fault in a callback aborts cleanly and leaves no trace",
    "An exception raised by a threshold callable, the disturbance model, the ephemeris, or the output stream at any step of solve(), or an interrupt (Ctrl-C) between any two of its statements, reaches the caller unchanged; the history recorded so far is a consistent prefix (identical values; equal lengths, except that an interrupt may catch the last step half recorded) of the undisturbed mission and the object does not claim convergence it did not reach. A later solve() of the same problem gives exactly the result of a fresh object.",
    ["crash_points", "fault_sequences", "histories"],
    "every step, every callback site and exception type, interrupts at every line, repeated aborts, then retry or a different problem",
    "No test raises anything inside a mission.",
    [Q], [("history appended once per step after everything that can fail; state reset at the start of solve()", Q + ": solve()")], ["QLaw history lists, exitcode, converge after an exception"],
    [("times, states, masses, controls, etas, etas_bounds, Qs, dQdts, battery", "history of the current or last solve", Q)])

add("C13", "Missions do not influence each other however they interleave",
    "Missions flown by different QLaw objects give bit-identical histories whether each is solved alone, from several threads under any interleaving, or nested inside another mission's callbacks, also when they share target arrays, threshold callables or a disturbance model.",
    ["schedules", "histories"],
    "all interleavings of concurrent solves at statement granularity, and all nesting points",
    "Tests solve one mission at a time in a process.",
    [Q, "pyqlaw/_symbolic.py", "pyqlaw/_lyapunov.py", "pyqlaw/_integrate.py"], [("all mission state is local to solve() or belongs to the object; no module-level mutable state", Q)], ["QLaw histories"])

add("C14", "A mission's result depends only on its own settings",
    "Solving the same problem gives bit-identical histories and outcome whether the object is fresh or has already solved, failed or been reconfigured any number of times, whether its settings came from the constructor or were assigned to its attributes afterwards (tol_oe together with tol_oe_relaxed; the element set is fixed at construction), and in any process (any hash seed). Only the last set_problem() and the current settings matter.",
    ["histories", "configurations"],
    "all sequences of construction, reconfiguration, set_problem and solve; all interpreter hash seeds",
    "Tests use each object once.",
    [Q, "pyqlaw/_symbolic.py"], [("solve() re-initialises all mission state", Q), ("set_problem() replaces every problem field", Q)], ["QLaw histories, exitcode, converge"])

add("C15", "Caller's data are never modified and recorded history never changes",
    "set_problem() and solve() never modify arrays, lists or tuples passed in by the caller (initial and target elements, weights, tolerances, bounds, battery and duty-cycle tuples). What a mission has recorded for earlier steps never changes afterwards: not while it continues, not when the caller reuses its own arrays, and the lists of a finished mission are not altered by a later solve().",
    ["histories", "inputs"],
    "all missions (including ones starting outside the safeguarding bounds) and all later uses of the same arrays and object",
    "Tests never look at their inputs after a solve nor keep a history across solves.",
    [Q, "pyqlaw/_convergence.py"], [("fresh history lists per solve; copy of the initial state; in-place safeguarding only on the state in hand", Q)], ["caller's arrays", "QLaw.states during and after solve()"])

add("C16", "Exports are complete, faithful and fail loudly",
    "The exported dictionary, and the JSON file when a path is given, contain for every recorded time the modified equinoctial elements and mass of the recorded state (whichever element set the mission used) and the recorded control as angles or as radial-transverse-normal unit vectors with throttle, plus a final zero control. If the disk fails at any byte (full, I/O error, short writes) or the export is interrupted the call raises, an incomplete file never parses as an export, recorded history is untouched, and a retry after the fault clears produces the complete file.",
    ["crash_points", "fault_sequences", "histories"],
    "all missions (converged, failed, aborted), element sets, option values, disk faults at every byte and interrupts at every line",
    "One test calls the export twice and deletes the file unread.",
    [Q], [("save_to_dict, NumpyEncoder", Q)], ["return value and file written by save_to_dict"])

add("C17", "Keplerian safeguarding keeps guidance inside the element bounds",
    "In Keplerian missions every state on which guidance, thresholds and disturbances are evaluated has its five slow elements inside the configured minimum and maximum, whatever the initial state and disturbances: an element outside is moved to the nearest bound, an element inside is left exactly as propagated. All recorded states except possibly the last satisfy the bounds.",
    ["histories", "fault_sequences", "inputs"],
    "all initial states and disturbance sequences, default and custom bounds",
    "One test calls the clamping function once without asserting anything.",
    [Q, "pyqlaw/_convergence.py"], [("elements_safety at the start of each step", Q + ": solve()")], ["oe seen by eta callables and disturbance model", "QLaw.states"])

add("C18", "A step without valid guidance is a powered-off step, tolerated N times",
    "When the feedback law yields undefined thrust angles on an enabled step, that step is flown with zero thrust and no propellant use, and the mission goes on and recovers as soon as guidance is valid again. The mission is abandoned with exit code -3 exactly when the number of such steps exceeds the configured threshold, and never otherwise.",
    ["fault_sequences", "histories", "configurations"],
    "all patterns of guidance outages (isolated, bursts, permanent), thresholds, element sets, and combinations with duty cycle and battery",
    "The only test of this path is commented out.",
    [Q, "pyqlaw/_lyapunov.py"], [("nan check on thrust angles, n_nan_angles, nan_angles_threshold", Q + ": solve()")], ["QLaw.exitcode", "QLaw.controls", "QLaw.masses"],
    [("n_nan_angles", "undefined-guidance steps so far", Q)])

add("C19", "Cartesian and interpolated histories describe the recorded orbit",
    "The Cartesian history holds, for each recorded time, the position and velocity of exactly the recorded osculating orbit and anomaly, for both element sets and any gravitational parameter. Interpolated histories run from the first to the last recorded time with the requested number of points, pass through the recorded elements at the recorded times and convert the interpolated elements consistently, also for backward, aborted and unevenly stepped missions.",
    ["histories", "configurations"],
    "all recorded histories: both element sets, directions, step schemes, aborted missions; all interpolation options",
    "Tests plot such histories without looking at a number, apart from one conversion at one anomaly.",
    [Q, "pyqlaw/_elements.py"], [("get_cartesian_history, interpolate_states", Q), ("kep2sv, mee_with_a2sv", "pyqlaw/_elements.py")], ["return values of get_cartesian_history and interpolate_states"])

add("C20", "Reporting is passive and truthful",
    "Verbosity, print frequency, pretty-printing, plotting, exporting and extracting histories, at any time between, during or after solves, never change any mission's history or outcome. The printed results show the actual exit code, convergence flag, final elements with their distances to the target, transfer time and final mass; the printed problem and settings are those in force (initial and target elements, weights, element set, integrator, tolerances); progress rows show the time and the distances to the target of the step they are printed for. The closing message names the actual outcome, and with verbosity 0 a mission prints nothing.",
    ["histories", "configurations", "schedules"],
    "all placements of reporting calls in the life of an object, all verbosity settings",
    "Tests call these functions but compare nothing.",
    [Q, "pyqlaw/_plot_methods.py"], [("pretty, pretty_results, pretty_settings, plot_*, save_to_dict, get_cartesian_history", Q)], ["QLaw histories", "standard output"])

add("C21", "Guidance recovers from disturbances and reaches the target",
    "For well-posed low-thrust transfers in SMA-MEE elements (moderate eccentricity and inclination, adequate time and propellant, small steps), the mission converges within its allotted time, and still does when bounded bursts of disturbance acceleration or guidance outages hit it, within a bounded time after they stop. While thrusting undisturbed far from the target, Q decreases from revolution to revolution, and from step to step wherever the achievable rate of decrease is not nearly zero.",
    ["fault_sequences", "histories"],
    "all transfers of a stated well-posed family and all bounded disturbance/outage sequences",
    "Tests cover three undisturbed transfers.",
    [Q, "pyqlaw/_symbolic.py", "pyqlaw/_lyapunov.py"], [("closed-loop Lyapunov feedback re-evaluated each step", Q + ": solve()")], ["QLaw.exitcode", "QLaw.Qs", "QLaw.times"])

add("C22", "Plots show the recorded history",
    "Every plotting method draws the mission's own record, scaled by the units given: elements (as recorded, or converted to Keplerian in degrees) with target and tolerance band, mass or anomaly, periapsis radius, battery level with its limits, thrust angles and throttle in percent, effectivities with their thresholds, Q and |dQ/dt|, all against the recorded times; trajectory plots pass through the Cartesian history and show the actual initial and target orbits. This holds for both element sets and for backward, aborted, unevenly stepped and unfinished missions, and drawing changes nothing.",
    ["histories", "configurations"],
    "all recorded histories (both element sets, directions, step schemes, aborted or still flying), all plotting methods and their options",
    "Tests only check that plotting a finished mission does not raise.",
    ["pyqlaw/_plot_methods.py", "pyqlaw/_elements.py"], [("plot_elements_history, plot_battery_history, plot_controls, plot_trajectory_2d/3d, plot_efficiency, plot_Q", "pyqlaw/_plot_methods.py"), ("get_orbit_coordinates, mee_with_a2kep", "pyqlaw/_elements.py")], ["data of the drawn lines"])

add("C23", "A mission does not depend on the units it is described in",
    "Describing the same mission in other consistent units of length, time, mass and battery energy (gravitational parameter, bounds, tolerances, thrust, rates, clocks, thresholds and disturbances converted accordingly) gives the same mission: the same outcome and number of steps, the same controls and effectivities, and recorded times, elements, masses, battery levels and Q that convert into each other.",
    ["histories", "configurations", "fault_sequences"],
    "all missions (both element sets, directions, step schemes, with disturbances, outages, duty cycle, battery and thresholds) and all unit systems",
    "All tests but one work in units with mu = 1; none flies the same mission in two systems.",
    [Q, "pyqlaw/_symbolic.py", "pyqlaw/_eom.py"], [("solve(): clocks, ledgers, limits and tolerances", Q), ("quotient and its derivatives", "pyqlaw/_symbolic.py")], ["QLaw histories, exitcode, converge"])

add("C24", "A mission resumed from its record continues as if never cut",
    "If a mission without duty cycle is cut off at any step (allotted time used up, an exception or interrupt, or simply read off its record) and resumed from the recorded elements, mass and battery level as a new problem with the remaining time and the same environment, the part flown before the cut is the beginning of the uncut mission, and the resumed part repeats the rest of it: controls, effectivities, elements, masses, battery levels, Q and outcome, up to rounding. Exempt are cuts while a required full recharge is under way and the count of relaxed-tolerance hits, which start anew.",
    ["histories", "crash_points", "configurations"],
    "all missions without duty cycle, all cut steps and ways of being cut, resumed on the same or a new object, repeatedly",
    "No test resumes a mission; tests see one whole run each.",
    [Q, "pyqlaw/_symbolic.py"], [("solve(): time loop and ledgers", Q), ("set_problem()", Q)], ["QLaw histories, exitcode"])

add("C25", "Whole turns and the origin of the node do not matter",
    "A mission whose angles are described some whole turns away (anomaly or true longitude in both element sets; node and argument of periapsis of start, target and bounds in Keplerian elements), or whose node, target node and node bounds are all measured from another direction, is the same mission: same outcome, number of steps, controls, effectivities, masses, battery levels and Q, and the same elements up to those shifts and rounding (targets half a turn away from the current angle, where the shorter way round is ambiguous, and apsides exactly along or across the line of nodes, where Q has a kink, aside).",
    ["histories", "configurations", "fault_sequences"],
    "all missions (both element sets, directions, step schemes, with disturbances, outages, duty cycle, battery, bounds and thresholds), all shifts",
    "Tests use angles within one turn and one reference direction.",
    [Q, "pyqlaw/_symbolic.py", "pyqlaw/_elements.py", "pyqlaw/_convergence.py"], [("solve()", Q), ("quotient in angle differences", "pyqlaw/_symbolic.py"), ("ta2ea, mee2ea", "pyqlaw/_elements.py"), ("check_convergence_keplerian", "pyqlaw/_convergence.py")], ["QLaw histories, exitcode, converge"])

# ---- properties that hold no schedule, clock, fault or history: not simulation targets
add("C30", "Element-set conversions are mutually inverse",
    "Converting any non-singular elliptic orbit between Cartesian, Keplerian, modified equinoctial and SMA-MEE form and back returns the same orbit and anomaly (angles modulo a full turn).",
    ["inputs"], "all non-singular elliptic orbits, all conversion pairs",
    "Tests use four orbits.", ["pyqlaw/_elements.py"], [("sv2kep, kep2sv, kep2mee, mee2kep, mee_with_a conversions", "pyqlaw/_elements.py")], ["return values"])
add("C31", "The single-step integrators have their nominal order of accuracy",
    "For smooth right-hand sides the error of one rk4 step and of one rkf45 step shrinks like the fifth power of the step, and rkf45's suggested next step follows its error estimate and tolerance.",
    ["inputs"], "all smooth right-hand sides and step sizes",
    "The only test compares the two on one tiny step.", ["pyqlaw/_integrate.py"], [("Butcher tableaux", "pyqlaw/_integrate.py")], ["return values"])
add("C32", "Helper geometry lies where it claims",
    "Sphere and ellipsoid meshes lie on the stated surface, and wrap() returns the equivalent angle within one turn.",
    ["inputs"], "all radii, centres and angles",
    "Tests only check that plotting does not raise.", ["pyqlaw/_plot_methods.py", "pyqlaw/_plot_helper.py", "pyqlaw/_transformations.py"], [("plot_* methods, wrap", "pyqlaw/_plot_methods.py")], ["figure data"])
add("C33", "Symbolic code generation is equivalent with and without CSE",
    "The feedback-law functions generated with and without common-subexpression elimination return the same values.",
    ["inputs"], "all states and parameters", "No test generates without CSE.", ["pyqlaw/_symbolic.py"], [("lambdify(cse=...)", "pyqlaw/_symbolic.py")], ["return values"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
