"""C25: whole turns and the origin of the node do not matter.  The twin starts some whole turns away in its angles (anomaly or
true longitude; node and periapsis of start, target and bounds), and in Keplerian elements with node, target node and node bounds
turned by any angle; it must fly the same mission, turned."""
import copy
import hashlib
import math
import numpy as np
from . import gen, world, oracles, profiles, scen_units
from .oracles import V
from .scen_abort import clean

PROPS = ["C25"]
RUNS = {"C25": 1000}
TURN = 2 * math.pi
RULE = {"C25": "one case = one mission (gusts, outages, thresholds, duty cycle, battery, bounds, Sundman, both directions) flown "
               "twice, with its angles described differently; distinct by mode signature and turns; non-trivial = at least 3 steps"}
ASSUMPTIONS = {"C25": ["from the first difference on, only a jump (1e-8 relative after agreement to 1e-11) counts, and thrust "
                       "decisions tied to rounding are not compared: angles described differently round differently (rkf45, whose step "
                       "control amplifies rounding: 1e-5); at most 1e-5 from the target Q is not compared either",
                       "targets within 1e-3 rad of half a turn from the current node or periapsis are ambiguous and not compared"]}


def gen_plan(prop, r):
    m = gen.gen_mission(r, steps=(5, 50), env=0.5, eta=0.5, conv=0.45, close=0.4, nan=0.15, duty=0.3, battery=0.35,
                        massfloor=0.2, prelude=False)
    kep = m["cfg"]["elements_type"] == "keplerian"
    if kep:
        profiles.gen_bounds(r, m)
        c = m["cfg"]
        a = max(m["prob"]["oe0"][0], m["prob"]["oeT"][0])
        if not c.get("oe_min") or not c.get("oe_max"):
            c["oe_min"], c["oe_max"] = [0.05 * a, 1e-4, 1e-4, -50.0, -50.0], [20 * a, 0.95, math.pi - 1e-3, 50.0, 50.0]
    s = {"anomaly": r.choice([0, 1, -1, 3, -7]), "node": 0, "peri": 0, "targetnode": 0, "targetperi": 0, "origin": 0.0}
    if kep:
        for k in ("node", "peri", "targetnode", "targetperi"):
            s[k] = r.choice([0, 0, 1, -1, 2])
        if r.random() < 0.6:
            s["origin"] = r.choice([r.uniform(-3, 3), math.pi / 2, r.uniform(-0.01, 0.01)])
    if not any(s.values()):
        s["anomaly"] = 1
    return {"kind": "turns", "m": clean(m), "s": s}


def shrink(prop, plan):
    out = []
    for k, v in plan["s"].items():
        if v and sum(1 for x in plan["s"].values() if x) > 1:
            p = copy.deepcopy(plan)
            p["s"][k] = 0
            out.append(p)
    return out


def turned(m, s):
    m = copy.deepcopy(m)
    p, c = m["prob"], m["cfg"]
    p["oe0"][5] += s["anomaly"] * TURN
    if c["elements_type"] == "keplerian":
        dn, dp = s["node"] * TURN + s["origin"], s["peri"] * TURN
        p["oe0"][3] += dn
        p["oe0"][4] += dp
        p["oeT"][3] += s["origin"] + s["targetnode"] * TURN
        p["oeT"][4] += s["targetperi"] * TURN
        for k in ("oe_min", "oe_max"):
            c[k] = list(c[k])
            c[k][3] += dn
            c[k][4] += dp
    return m


def ambiguous(a):
    """a node or periapsis half a turn away from the target (which way round is shorter is decided by rounding), or a line of apsides
    along or exactly across the line of nodes (the documented Q has a kink there, at the zeros of sin and cos of the argument of
    periapsis, and a whole turn in double precision is not a zero of sin)"""
    if a.cfg["elements_type"] != "keplerian" or not isinstance(a.hist["states"], np.ndarray):
        return False
    S = a.hist["states"]
    w = a.prob.get("woe") or [1.0] * 5
    with np.errstate(all="ignore"):
        if (np.abs(np.sin(2 * S[:, 4])) < 1e-9).any():
            return True
        return any(w[j] != 0 and (np.abs(np.abs(np.mod(S[:, j] - float(a.prob["oeT"][j]) + math.pi, TURN) - math.pi) - math.pi) < 1e-3).any()
                   for j in (3, 4))


def at_target(a, k):
    """was the target met, up to rounding of its angles, at step k or before?  Q is then itself a rounding error"""
    d = a.hist["states"][:k + 1, :5] - np.asarray(a.prob["oeT"], dtype=float)[:5]
    if a.cfg["elements_type"] == "keplerian":
        d[:, 3:] = np.mod(d[:, 3:] + math.pi, TURN) - math.pi
    return bool((np.abs(d * (np.asarray(a.prob.get("woe") or [1.0] * 5) != 0)).max(axis=1) < 1e-5).any())


def run_plan(prop, plan, pyqlaw):
    m, s = copy.deepcopy(plan["m"]), plan["s"]
    for e in m.get("eta", {}).values():
        if e.get("oe", [0])[0] >= 3:            # a threshold that depends on an angle is another threshold
            e.pop("oe")
    a = world.run_mission(m, pyqlaw)
    b = world.run_mission(turned(m, s), pyqlaw)
    info = profiles.summarise(a)
    info["digest"] = world.digest(a.hist) + world.digest(b.hist)
    info["nontrivial"] = info["steps"] >= 3
    info["fired"]["turned_twin"] = 1
    info["sig"] = hashlib.sha256(("%s|%s" % (info.get("sig"), sorted(s.items()))).encode()).hexdigest()[:16]
    if ambiguous(a):
        info["fired"]["half_turn_skipped"] = 1
        return [], info
    return compare(a, b, s), info


def compare(a, b, s):
    what = "described with angles shifted by %s" % {k: v for k, v in s.items() if v}
    if a.status != b.status:
        return [V("outcome", "%s the mission %s instead of %s" % (what, (b.status, b.error), (a.status, a.error)))]
    if any(not isinstance(t.hist[k], np.ndarray) for t in (a, b) for k in world.HIST):
        return []
    mine = dict(b.hist)
    mine["states"] = b.hist["states"] - np.array([0, 0, 0, s["node"] * TURN + s["origin"], s["peri"] * TURN, s["anomaly"] * TURN])
    if a.cfg["elements_type"] != "keplerian":
        mine["states"] = b.hist["states"] - np.array([0, 0, 0, 0, 0, s["anomaly"] * TURN])
    d = scen_units.deviation(a.hist, mine, min(len(a.hist["times"]), len(b.hist["times"])) - 1, abs(float(a.hist["times"][-1])), tol=1e-11)
    if d and (d[2] <= (1e-5 if a.cfg.get("integrator") == "rkf45" else 1e-8) or at_target(a, d[0]) or scen_units.tied(a.hist, d[0], d[1])):
        a.probe.fired["rounding_divergence"] = 1
        return []
    if d:
        return [V("turns", "%s: %s of step %d is %s, otherwise %s" % (what, d[1], d[0], mine[d[1]][d[0]], a.hist[d[1]][d[0]]))]
    na, nb = len(a.hist["times"]) - 1, len(b.hist["times"]) - 1
    ea, eb = a.hist["exitcode"], b.hist["exitcode"]
    if na == nb and ea == eb and a.hist["converge"] == b.hist["converge"]:
        return []
    tf = abs(float(a.prob["tf_max"]))
    end = abs(float(min(a.hist["times"], b.hist["times"], key=len)[-1]))
    if at_target(a, na):
        return []
    if abs(na - nb) <= 1 and abs(end - tf) <= 1e-11 * tf and -2 in (ea, eb):
        return []
    return [V("outcome", "%s the mission makes %d steps and ends with exit code %r; otherwise %d steps, %r" % (what, nb, eb, na, ea))]
