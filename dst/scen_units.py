"""C23: a mission does not depend on the units it is described in.  The twin is the same mission with length, time, mass and
battery energy measured in units that are powers of two of the first ones, so that ties (a battery that ends exactly at its
minimum, a clock that ends exactly on the allotted time) remain ties."""
import copy
import hashlib
import math
import numpy as np
from . import gen, world, profiles
from .oracles import V
from .scen_abort import clean

PROPS = ["C23"]
RUNS = {"C23": 1000}
RULE = {"C23": "one case = one mission (gusts, outages, thresholds, duty cycle, battery, bounds, Sundman, both directions) flown "
               "in two systems of units; distinct by mode signature and units; non-trivial = at least 3 steps"}
ASSUMPTIONS = {"C23": ["units differ by powers of two (length by powers of four), where conversion is exact in floating point",
                       "from the first difference on, only a jump (1e-8 relative after agreement to 1e-12) counts: an unstable "
                       "mission may amplify rounding differences of a changed but equivalent formula"]}


def gen_plan(prop, r):
    m = gen.gen_mission(r, steps=(5, 60), env=0.5, eta=0.5, conv=0.4, close=0.35, nan=0.15, duty=0.4, battery=0.4,
                        massfloor=0.2, prelude=False)
    if m["cfg"]["elements_type"] == "keplerian" and r.random() < 0.4:
        profiles.gen_bounds(r, m)
    u = {"L": r.choice([0, 1, -1, 2, -3, 5, 8]), "T": r.choice([0, 1, -1, 3, -5, 8, 13, -12]), "M": r.choice([0, 1, 2, 5, 9]),
         "E": r.choice([0, 1, -1, 4, -6, 10])}
    if not any(u.values()):
        u["T"] = 3
    return {"kind": "units", "m": clean(m), "u": u}


def shrink(prop, plan):
    out = []
    for k in "LTME":
        if plan["u"][k] and sum(1 for v in plan["u"].values() if v) > 1:
            p = copy.deepcopy(plan)
            p["u"][k] = 0
            out.append(p)
        if plan["u"][k] not in (0, 1):
            p = copy.deepcopy(plan)
            p["u"][k] = 1
            out.append(p)
    return out


def factors(u):
    return 4.0 ** u["L"], 2.0 ** u["T"], 2.0 ** u["M"], 2.0 ** u["E"]


def converted(m, u):
    L, T, M, E = factors(u)
    m = copy.deepcopy(m)
    c, p = m["cfg"], m["prob"]
    full = world.full_cfg(m)
    c["mu"] = full["mu"] * L ** 3 / T ** 2
    c["rpmin"] = full["rpmin"] * L
    tol = full["tol_oe"] or [1e-3] * 5
    c["tol_oe"] = [tol[0] * L] + list(tol[1:])
    if c["elements_type"] == "keplerian":
        lo = full["oe_min"] or [0.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8]
        hi = full["oe_max"] or [1e2, 0.95, math.pi, math.inf, math.inf, math.inf]
        c["oe_min"], c["oe_max"] = [lo[0] * L] + list(lo[1:]), [hi[0] * L] + list(hi[1:])
    p["oe0"][0] *= L
    p["oeT"][0] *= L
    f = world.full_prob(m)
    if not c.get("use_sundman"):
        p["t_step"] *= T
    p["tf_max"] *= T
    p["mass0"] *= M
    p["mass_min"] = f["mass_min"] * M
    p["tmax"] *= M * L / T ** 2
    p["mdot"] *= M / T
    p["duty_cycle"] = [x * T for x in f["duty_cycle"]]
    p["battery_initial"] = f["battery_initial"] * E
    p["battery_capacity"] = [x * E for x in f["battery_capacity"]]
    p["battery_charge_discharge_rate"] = [x * E / T for x in f["battery_charge_discharge_rate"]]
    for s in m.get("eta", {}).values():
        if "t" in s:
            s["t"][1] /= T
        if "m" in s:
            s["m"] /= M
        if "b" in s:
            s["b"] /= E
    for s in (m.get("env") or {}).get("segs", []):
        s["t0"], s["t1"] = s["t0"] * T, s["t1"] * T
        s["acc"] = [x * L / T ** 2 for x in s["acc"]]
        if "w" in s:
            s["w"] /= T
    return m


def run_plan(prop, plan, pyqlaw):
    m = copy.deepcopy(plan["m"])
    for s in m.get("eta", {}).values():
        if s.get("oe", [1])[0] == 0:            # a threshold of its own units
            s.pop("oe")
    L, T, M, E = factors(plan["u"])
    a = world.run_mission(m, pyqlaw)
    b = world.run_mission(converted(m, plan["u"]), pyqlaw)
    info = profiles.summarise(a)
    info["digest"] = world.digest(a.hist) + world.digest(b.hist)
    info["nontrivial"] = info["steps"] >= 3
    info["fired"]["converted_twin"] = 1
    info["sig"] = hashlib.sha256(("%s|%s" % (info.get("sig"), sorted(plan["u"].items()))).encode()).hexdigest()[:16]
    vs = compare(a, b, L, T, M, E, plan["u"])
    info["fired"].update(a.probe.fired)
    return vs, info


ORDER = ("times", "states", "masses", "battery", "Qs", "dQdts", "etas", "etas_bounds", "controls")


def deviation(x, y, n, tscale, unit=None, tol=1e-12):
    """the first entry, in the order in which steps are made, at which history y (in the given units) leaves history x:
    (step, name, relative deviation), or None"""
    dev = {}
    with np.errstate(all="ignore"):
        for k in ORDER:
            p, q = x[k], y[k]
            c = min(len(p), len(q))
            if not c:
                dev[k] = np.zeros(0)
                continue
            p, q = p[:c].reshape(c, -1), q[:c].reshape(c, -1) / (unit[k] if unit else 1.0)
            if k == "controls":         # directions, not angles: pi and -pi are the same
                p, q = (np.stack([np.sin(z[:, 0]) * np.cos(z[:, 1]), np.cos(z[:, 0]) * np.cos(z[:, 1]), np.sin(z[:, 1]), z[:, 2]], axis=1)
                        for z in (p, q))
            scale = np.maximum(np.abs(p), np.abs(q))
            if k in ("states", "controls", "etas", "etas_bounds"):
                scale = np.maximum(scale, 1.0)
            if k == "states":
                scale[:, 0] = np.abs(p[:, 0])
            if k == "times":
                scale = np.maximum(scale, tscale)
            if k == "battery":
                scale = np.maximum(scale, np.abs(x[k]).max())
            d = np.abs(p - q) / np.where(scale > 0, scale, 1.0)
            d[np.isnan(p) & np.isnan(q)] = 0.0
            d[p == q] = 0.0
            d[np.isnan(d)] = np.inf
            dev[k] = d.max(axis=1)
    for k in range(n + 1):
        for name in ORDER:
            if k < len(dev[name]) and dev[name][k] > tol:
                return k, name, float(dev[name][k])
    return None


def tied(hist, k, name):
    """did the two histories part over a thrust decision in which an effectivity equals its threshold but for rounding?"""
    if name != "controls" or k >= min(len(hist["etas"]), len(hist["etas_bounds"])):
        return False
    e, b = hist["etas"][k], hist["etas_bounds"][k]
    with np.errstate(all="ignore"):
        return bool((np.abs(e - b) <= 1e-9 * np.maximum(1.0, np.abs(b))).any())


def compare(a, b, L, T, M, E, u):
    what = "in units of 4^%d length, 2^%d time, 2^%d mass, 2^%d energy" % (u["L"], u["T"], u["M"], u["E"])
    if a.status != b.status:
        return [V("outcome", "%s the mission %s instead of %s" % (what, (b.status, b.error), (a.status, a.error)))]
    unit = {"times": T, "masses": M, "battery": E, "Qs": T * T, "dQdts": T,
            "states": np.array([L, 1, 1, 1, 1, 1.0]), "controls": 1.0, "etas": 1.0, "etas_bounds": 1.0}
    for k in unit:
        if not isinstance(a.hist[k], np.ndarray) or not isinstance(b.hist[k], np.ndarray):
            return []               # histories that cannot be read are judged elsewhere
    first = deviation(a.hist, b.hist, min(len(a.hist["times"]), len(b.hist["times"])) - 1, 0, unit)
    if first:
        if first[2] <= 1e-8 or tied(a.hist, first[0], first[1]):
            a.probe.fired["rounding_divergence"] = 1
            return []
        k, name, d = first
        return [V("units", "%s: %s of step %d is %s, converted back %s"
                  % (what, name, k, a.hist[name][k], b.hist[name][k] / unit[name]))]
    if len(a.hist["times"]) != len(b.hist["times"]) or a.hist["exitcode"] != b.hist["exitcode"] or a.hist["converge"] != b.hist["converge"]:
        return [V("outcome", "%s the mission makes %d steps and ends with exit code %r, converge %s; in its own units %d steps, %r, %s"
                  % (what, len(b.hist["times"]) - 1, b.hist["exitcode"], b.hist["converge"], len(a.hist["times"]) - 1,
                     a.hist["exitcode"], a.hist["converge"]))]
    return []
