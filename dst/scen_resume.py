"""C24: a mission cut off at any step and taken up again from the recorded elements, mass and battery level continues as the
uninterrupted mission does.  What survives the cut is the recorded history and nothing else: the rest flies on a new object (or
on the old one), with the clocks of disturbances and thresholds shifted to the time of the cut."""
import copy
import hashlib
import math
import numpy as np
from . import gen, world, oracles, profiles, scen_units
from .oracles import V
from .scen_abort import clean, ASYNC, LINES_PER_STEP

PROPS = ["C24"]
RUNS = {"C24": 900}
RULE = {"C24": "one case = one mission flown to its end, and again cut off 1-3 times (allotted time used up, exception at a seam, "
               "interrupt between two lines, or simply read off its record) and each time resumed from what was recorded; distinct by "
               "mode signature and kinds of cut; non-trivial = at least one resumption with a step left to fly"}
ASSUMPTIONS = {"C24": ["missions without duty cycle; cuts while a required full recharge is under way are not resumed: those two "
                       "clocks are not part of the record", "only a jump (1e-8 relative after agreement to 1e-12) counts, since the "
                       "shifted clocks of disturbances and thresholds round differently"]}


def gen_plan(prop, r):
    m = gen.gen_mission(r, steps=(90, 260) if r.random() < 0.15 else (6, 60), env=0.5, eta=0.5, conv=0.4, close=0.4, nan=False, duty=False, battery=0.5,
                        massfloor=0.25, prelude=False)
    if m["cfg"]["elements_type"] == "keplerian" and r.random() < 0.4:
        profiles.gen_bounds(r, m)
    cuts = [{"how": r.choice(["read", "limit", "limit", "raise", "raise", "line"]), "at": r.random(),
             "exc": r.choice(ASYNC), "same_object": r.random() < 0.4} for _ in range(r.choice([1, 1, 2, 3]))]
    return {"kind": "resume", "m": clean(m), "cuts": cuts}


def shrink(prop, plan):
    out = []
    for j in range(len(plan["cuts"])):
        if len(plan["cuts"]) > 1:
            p = copy.deepcopy(plan)
            p["cuts"].pop(j)
            out.append(p)
        if plan["cuts"][j]["how"] != "read":
            p = copy.deepcopy(plan)
            p["cuts"][j]["how"] = "read"
            out.append(p)
        if plan["cuts"][j]["same_object"]:
            p = copy.deepcopy(plan)
            p["cuts"][j]["same_object"] = False
            out.append(p)
    return out


def rest_of(m, h, k):
    """the mission that remains after the first k steps recorded in h"""
    m = copy.deepcopy(m)
    p = m["prob"]
    t = float(h["times"][k])
    p["oe0"] = [float(x) for x in h["states"][k]]
    p["mass0"] = float(h["masses"][k])
    if "battery_capacity" in p:
        p["battery_initial"] = float(h["battery"][k])
    p["tf_max"] = math.copysign(abs(p["tf_max"]) - abs(t), p["tf_max"])
    for s in m.get("eta", {}).values():
        if "t" in s:
            s["t"][2] += s["t"][1] * t
    for s in (m.get("env") or {}).get("segs", []):
        s["t0"], s["t1"] = s["t0"] - t, s["t1"] - t
        if "w" in s:
            s["phi"] += s["w"] * t
    return m


def resumable(m, h, k):
    p = world.full_prob(m)
    if not (0 < k < len(h["times"])) or not np.isfinite(h["states"][k]).all():
        return False
    if p["require_full_recharge"]:
        c0, c1 = p["battery_capacity"]
        b = h["battery"][:k + 1]
        if b[k] != c1 and b.min() <= c0 + 1e-9 * abs(c1):
            return False
    return True


def cut(prob, m, c, n, ref):
    """fly m on prob until cut number c; -> (history, index of the state to resume from)"""
    k = 1 + int(c["at"] * (n - 1))
    if c["how"] == "read":
        return ref.hist, k, ref, {}
    m = copy.deepcopy(m)
    if c["how"] == "limit":
        m["prob"]["tf_max"] = math.copysign(abs(float(ref.hist["times"][k])), m["prob"]["tf_max"])
    elif c["how"] == "raise":
        site = "ptrb" if m["env"]["mode"] == "sim" else "lyap"
        m["faults"] = [{"site": site, "step": k, "exc": c["exc"]}]
    else:
        m["faults"] = [{"site": "line", "step": int(c["at"] * LINES_PER_STEP * n), "exc": c["exc"]}]
    t = world.fly(prob, m)
    lens = [len(t.hist[x]) for x in world.HIST if isinstance(t.hist[x], np.ndarray)]
    if len(lens) < len(world.HIST):
        return None, 0, t, t.probe.fired
    last = min(min(len(t.hist[x]) for x in ("times", "states", "masses", "battery")) - 1,
               min(len(t.hist[x]) for x in ("controls", "etas", "Qs", "dQdts")))
    return t.hist, last, t, t.probe.fired


def run_plan(prop, plan, pyqlaw):
    m = plan["m"]
    ref = world.run_mission(m, pyqlaw)
    info = profiles.summarise(ref)
    info["digest"] = world.digest(ref.hist)
    info["nontrivial"] = False
    n = len(ref.hist["times"]) - 1 if isinstance(ref.hist["times"], np.ndarray) else 0
    if ref.status != "ok" or n < 2 or any(not isinstance(ref.hist[k], np.ndarray) for k in world.HIST):
        return [], info
    marks = []
    for c in plan["cuts"]:
        prob = world.build(m, pyqlaw)
        h, k, t, fired = cut(prob, m, c, n, ref)
        for a, b in fired.items():
            info["fired"][a] = info["fired"].get(a, 0) + b
        if h is None or not resumable(m, h, k) or k > n:
            continue
        # the part flown is the beginning of the whole
        h = dict(h)
        if m["cfg"]["elements_type"] == "keplerian":        # the last recorded state has not been safeguarded yet
            lo, hi = oracles.bounds_of(type("v", (), {"tr": ref}))
            h["states"] = h["states"].copy()
            h["states"][k, :5] = np.minimum(np.maximum(h["states"][k, :5], lo), hi) if k < n else ref.hist["states"][k, :5]
        d = scen_units.deviation(ref.hist, h, k, 0)
        if d:
            return [V("prefix", "cut off after %d steps (%s) the mission is not the beginning of the uncut one: %s of step %d is %s instead of %s"
                      % (k, c["how"], d[1], d[0], h[d[1]][d[0]], ref.hist[d[1]][d[0]]))], info
        if c["how"] == "limit" and (k != 1 + int(c["at"] * (n - 1)) or (k < n and t.hist["exitcode"] != -2)):
            return [V("prefix", "with the allotted time %r of its step %d the mission ends after %d steps with exit code %r"
                      % (float(ref.hist["times"][1 + int(c["at"] * (n - 1))]), 1 + int(c["at"] * (n - 1)), k, t.hist["exitcode"]))], info
        if k == n:
            continue
        rest = rest_of(m, h, k)
        if not c["same_object"]:
            prob = world.build(rest, pyqlaw)
        b = world.fly(prob, rest)
        info["fired"]["resumed_after_" + c["how"]] = info["fired"].get("resumed_after_" + c["how"], 0) + 1
        info["digest"] += world.digest(b.hist)
        info["nontrivial"] = True
        marks.append(c["how"])
        vs = compare(ref, b, k, n, c)
        if vs:
            return vs, info
    info["sig"] = hashlib.sha256(("%s|%s" % (info.get("sig"), marks)).encode()).hexdigest()[:16]
    return [], info


def compare(ref, b, k, n, c):
    what = "cut off after step %d (%s) and resumed from its record" % (k, c["how"])
    if b.status != "ok":
        return [V("resume", "%s the mission %s %r" % (what, b.status, b.error))]
    if any(not isinstance(b.hist[x], np.ndarray) for x in world.HIST):
        return [V("resume", "%s the mission leaves no readable history" % what)]
    tail = {x: ref.hist[x][k:] for x in world.HIST}
    tail["times"] = tail["times"] - ref.hist["times"][k]
    mine = dict(b.hist)
    for h in (tail, mine):          # on a step without power the recorded angles are whatever they were before
        h["controls"] = h["controls"].copy().reshape(-1, 3)
        h["controls"][h["controls"][:, 2] == 0, :2] = 0.0
        if ref.cfg["elements_type"] == "keplerian":         # a last state is recorded before it is safeguarded
            lo, hi = oracles.bounds_of(type("v", (), {"tr": ref}))
            h["states"] = h["states"].copy()
            h["states"][-1, :5] = np.minimum(np.maximum(h["states"][-1, :5], lo), hi)
    d = scen_units.deviation(tail, mine, min(len(tail["times"]), len(b.hist["times"])) - 1, abs(float(ref.hist["times"][-1])))
    if d and (d[2] <= 1e-8 or scen_units.tied(tail, d[0], d[1])):
        return []                   # rounding of the shifted clocks, amplified; or a tie decided by it
    if d:
        return [V("resume", "%s: %s of step %d is %s, in the uncut mission %s" % (what, d[1], d[0], b.hist[d[1]][d[0]], tail[d[1]][d[0]]))]
    na, nb = len(tail["times"]) - 1, len(b.hist["times"]) - 1
    ea, eb = ref.hist["exitcode"], b.hist["exitcode"]
    if ea == 2:
        ok = nb >= na               # the count of relaxed hits starts anew
    else:
        ok = na == nb and ea == eb
    if not ok and abs(na - nb) <= 1:        # a step that ends within rounding of the allotted time may or may not be the last
        tf = abs(float(ref.prob["tf_max"]))
        t0 = float(ref.hist["times"][k])
        short, end = min((na, float(ref.hist["times"][-1])), (nb, t0 + float(b.hist["times"][-1])))
        ok = abs(abs(end) - tf) <= 1e-12 * tf and -2 in (ea, eb)
    if not ok:
        return [V("resume-outcome", "%s: %d more steps, exit code %r; uncut %d more steps, exit code %r" % (what, nb, eb, na, ea))]
    return []
