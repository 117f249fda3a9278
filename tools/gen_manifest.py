"""Writes /verif/MANIFEST.json."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ("Seeded sample, not an enumeration. Real: the pyqlaw package as imported from /repo. Owned by the simulator: "
          "disturbances, threshold callables, guidance outages, standard output%s. ")
T = {
 "C01": ("per-step comparison with an independent integration of Gauss's equations over whole simulated missions with gusts, "
         "outages, duty cycle and battery", "Trusts the reference model (self-tested against Cartesian two-body propagation)."),
 "C02": ("simulated mission clock: step sizes, direction, end conditions and termination under fault schedules",
         "Termination is decided within a step budget derived from the allotted time."),
 "C03": ("Sundman step durations against Kepler's equation at every step of simulated missions", ""),
 "C04": ("mass conservation and mass-floor exits over simulated thrust/coast/outage schedules", ""),
 "C05": ("reference outcome automaton (first convergence, relaxed count, mass floor, time) run over recorded histories, also of objects "
         "that failed or aborted before", "Comparisons within rounding of a tolerance are accepted either way."),
 "C06": ("duty-cycle automaton checked over simulated schedules mixing coasting, outages, battery and shortened steps", ""),
 "C07": ("battery energy ledger over simulated depletion/recharge cycles", ""),
 "C08": ("recharge-gating automaton (safety and bounded progress) over simulated depletion/recharge cycles", ""),
 "C09": ("recorded effectivities and throttle against an independent evaluation, threshold callables observed at their seam", ""),
 "C10": ("recorded Q, rate and thrust direction against an independently coded Lyapunov function on all states of disturbed missions",
         "The reference gradient and influence coefficients are complex-step derivatives."),
 "C11": ("missions in a simulated solar system (synthetic SPICE kernels written by the simulator) with ephemeris outages injected at "
         "arbitrary steps", "SpiceyPy/CSPICE itself is real; its kernels are synthetic."),
 "C12": ("exceptions injected at every seam and step (crash points), then retry and comparison with the undisturbed mission", ""),
 "C13": ("seeded scheduler interleaving real threads line by line, and nesting of solves in callbacks; bit-exact comparison with "
         "solo missions", "Pre-emption inside native or numba-compiled code is not explored."),
 "C14": ("random lives of one object (reconfigure, solve, fail, abort) compared bit by bit with a fresh object and a fresh process "
         "with another hash seed", ""),
 "C15": ("aliasing watch: caller-owned arrays and recorded history snapshotted at every seam of simulated missions", ""),
 "C16": ("simulated disk (short writes, ENOSPC, EIO, open and close failures, full file-size limit) under the export", ""),
 "C17": ("states seen at the callback seams against the element bounds under gusts and infeasible starts", ""),
 "C18": ("guidance outages injected at chosen steps; outage counting and recovery automaton over recorded histories", ""),
 "C19": ("Cartesian and interpolated histories of disturbed, aborted and backward missions against the reference conversion", ""),
 "C20": ("reporting calls injected between and during solves; bit-exact comparison with silent twins, and printed values parsed", ""),
 "C21": ("closed-loop recovery: bounded time to converge after the last injected gust or outage, and decrease of Q",
         "Claimed for a calibrated family of transfers; bounds are several times the worst value seen in calibration."),
 "C22": ("line data of seeded plotting calls against the record, on disturbed, aborted, backward and still-flying missions",
         "matplotlib is real (Agg backend); labels, limits and styles are judged only where the data would be ambiguous without them."),
 "C23": ("twin missions in converted units under the same gusts, outages, duty cycle, battery and thresholds; step-by-step comparison",
         "Units differ by powers of two, so that ties stay ties."),
 "C24": ("missions cut off by the limit, an exception or an interrupt between two lines, resumed from the record; comparison with the uncut one",
         "Missions without duty cycle; thrust decisions tied to rounding are not compared."),
 "C25": ("twin missions with angles shifted by whole turns or measured from another node, under the same gusts, outages and limits",
         "Thrust decisions tied to rounding and targets half a turn away are not compared."),
}
NA = {
 "C30": "pure functions of one element set: no schedule, clock, fault, I/O or history enters, so there is nothing for a simulator to "
        "decide (the conversions used by missions are exercised through C16 and C19)",
 "C31": "pure functions of a right-hand side, a state and a step; no schedule, fault or history (what missions need of them is C01)",
 "C32": "pure geometry helpers: no schedule, clock, fault, I/O or history enters (what plots of missions show is C22)",
 "C33": "a property of symbolic code generation, with no schedule, fault or history in it",
}
PROPS = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in PROPS:
    i = p["id"]
    if i not in T:
        continue
    tech, note = T[i]
    extra = {"C11": ", SPICE kernels", "C16": ", the disk under open()", "C13": ", the thread scheduler"}.get(i, "")
    checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "deterministic simulation with fault injection: " + tech,
                   "level": "exploration", "level_note": COMMON % extra + note})
ids = {p["id"] for p in PROPS}
assert ids == set(T) | set(NA), ids ^ (set(T) | set(NA))
man = {"version": 1, "setup_cmd": "python3 tools/setup_check.py", "checks": checks,
       "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
       "notes": "No hooks in /repo: every seam needed is an argument, attribute or module the code already exposes. "
                "replay.py FILE re-executes a replay file."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks))
