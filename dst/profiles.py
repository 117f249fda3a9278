"""Per-property workload mixes for single-mission properties, plus the summary of a run used for
coverage."""
import copy
import hashlib
import json
import random
import numpy as np
from . import gen, world, oracles

# (weight, wants); the generator draws everything not named here
PROFILES = {
    "C01": [(3, dict(env=0.7)), (2, dict(env=True, acc=(3e-4, 3e-2))), (1, dict(backward=True, env=0.7)),
            (1, dict(sundman=True, e_range=(0.3, 0.75))), (1, dict(units=True, env=True)),
            (1, dict(i_range=(1.5, 2.9), env=True))],
    "C02": [(3, dict()), (2, dict(duty=True, battery=True, backward=False)), (2, dict(backward=True)),
            (1, dict(battery=True, backward=False, recharge=0.3)), (1, dict(nan=True)), (1, dict(sundman=True)),
            (1, dict(snap=True, sundman=False))],
    "C03": [(3, dict(sundman=True)), (1, dict(sundman=True, battery=True, backward=False)),
            (2, dict(sundman=True, backward=True)), (1, dict(sundman=True, e_range=(0.4, 0.85), acc=(1e-4, 1e-3)))],
    "C04": [(2, dict(massfloor=True)), (2, dict(eta=True)), (1, dict(nan=True)), (1, dict(massfloor=True, conv=True, close=True)),
            (1, dict(backward=True)), (2, dict(duty=0.6, battery=0.6, backward=False)), (2, dict(massfloor=True, snap=True, sundman=False))],
    "C05": [(4, dict(conv=True, close=True)), (2, dict(conv=True, close=True, prelude=True)),
            (1, dict(massfloor=True, conv=True, close=True)), (1, dict(nan=True, conv=True, close=True)),
            (1, dict(massfloor=True, prelude=True)), (1, dict(conv=True, close=True, env=True))],
    "C06": [(3, dict(duty=True, battery=False)), (2, dict(duty=True, battery=True, backward=False)),
            (2, dict(duty=True, backward=True, battery=False)), (1, dict(duty=True, backward=True, battery=True, battback=True)), (1, dict(duty=True, sundman=True)),
            (1, dict(duty=True, prelude=True)), (2, dict(duty=True, battery=True, backward=False, recharge=True, gentle=True)),
            (1, dict(duty=True, battery=True, backward=False, gentle=True)),
            (2, dict(duty=True, battery=True, backward=False, recharge=True, steps=(60, 200))), (1, dict(duty=True, snap=True, sundman=False))],
    "C07": [(3, dict(battery=True, backward=False)), (2, dict(battery=True, backward=False, duty=True)),
            (1, dict(battery=True, backward=False, eta=True)), (1, dict(battery=True, backward=False, sundman=True)),
            (1, dict(battery=True, backward=False, nan=True)), (1, dict(battery=True, backward=False, prelude=True))],
    "C08": [(3, dict(battery=True, backward=False, recharge=True)), (3, dict(battery=True, backward=False, recharge=False)),
            (3, dict(battery=True, backward=False, duty=True)), (1, dict(battery=True, backward=False, sundman=True)),
            (1, dict(battery=True, backward=False, prelude=True, eta=0.5))],
    "C09": [(4, dict(eta=True)), (2, dict(eta=True, backward=True)), (2, dict(eta=True, battery=0.6, duty=0.6)),
            (1, dict(eta=True, env=True, nan=0.4))],
    "C10": [(4, dict()), (2, dict(et="keplerian")), (2, dict(backward=True)), (1, dict(e_range=(0.3, 0.85), acc=(1e-4, 2e-3))),
            (1, dict(env=True, acc=(1e-3, 3e-2))), (1, dict(units=True))],
    "C18": [(4, dict(nan=True, duty=False, battery=False)), (2, dict(nan=True)), (1, dict(nan=True, eta=True)),
            (1, dict(nan=True, backward=True)), (1, dict(nan=True, prelude=True)),
            (1, dict(nan=True, battery=True, backward=False))],
    "C17": [(1, dict(et="keplerian", bounds=True))],
}


def choose(r, mix):
    tot = sum(w for w, _ in mix)
    x = r.random() * tot
    for w, d in mix:
        x -= w
        if x < 0:
            return d
    return mix[-1][1]


def gen_bounds(r, m):
    """a safeguarding box around, across or beside the mission's orbits"""
    p = m["prob"]
    lu = 1.0
    a0, aT = p["oe0"][0], p["oeT"][0]
    kind = r.random()
    lo = [0.05 * min(a0, aT), 1e-4, 1e-4, 1e-4, 1e-4]
    hi = [20 * max(a0, aT), 0.95, np.pi - 1e-3, 50.0, 50.0]
    if r.random() < 0.5:
        lo[3] = lo[4] = -50.0
    for j in range(5):
        x0, xT = p["oe0"][j], p["oeT"][j]
        d = abs(x0 - xT) + (0.01 * abs(x0) + 0.003)
        if r.random() < 0.45:
            v = x0 - d * r.uniform(-0.3, 0.5)
            if j == 0:
                v = max(v, 0.3 * a0)
            if j in (1, 2):
                v = max(v, 0.01)
            lo[j] = v
        if r.random() < 0.45:
            v = x0 + d * r.uniform(-0.3, 0.5)
            if j == 1:
                v = min(max(v, 0.02), 0.9)
            if j == 2:
                v = min(v, 3.0)
            hi[j] = max(v, lo[j] + 1e-3 * (a0 if j == 0 else 1.0))
    if r.random() < 0.15:
        hi[0] = max(aT, lo[0] * 1.01)          # the target on the boundary: guidance may be undefined there
    for j in range(5):
        if hi[j] <= lo[j]:
            hi[j] = lo[j] + 1e-3 * (a0 if j == 0 else 1.0)
    m["cfg"]["oe_min"], m["cfg"]["oe_max"] = lo, hi
    if r.random() < 0.3:
        m["cfg"]["oe_min"] = lo + [1e-8]
        m["cfg"]["oe_max"] = hi + [float("inf")]
    if r.random() < 0.12:
        m["cfg"].pop("oe_min")
        m["cfg"].pop("oe_max")
        if m["cfg"].get("mu", 1.0) == 1.0 and r.random() < 0.5:         # around the default upper bound of 100
            s = 100.0 / a0 * r.uniform(0.985, 1.01)
            p["oe0"][0] *= s
            p["oeT"][0] *= s
            p["tmax"] /= s ** 2
            p["tf_max"] *= s ** 1.5
            if "rpmin" in m["cfg"]:
                m["cfg"]["rpmin"] *= s
            if not m["cfg"].get("use_sundman"):
                p["t_step"] *= s ** 1.5
            for g in (m.get("env") or {}).get("segs", []):
                g["t0"], g["t1"], g["acc"] = g["t0"] * s ** 1.5, g["t1"] * s ** 1.5, [x / s ** 2 for x in g["acc"]]
            if m["cfg"].get("tol_oe"):
                m["cfg"]["tol_oe"][0] *= s
        if m["cfg"].get("mu") == 398600.4418:
            m["cfg"]["oe_max"] = [1e7, .95, np.pi, np.inf, np.inf, np.inf]
            m["cfg"]["oe_min"] = [0.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8]


def gen_plan(prop, r):
    want = dict(choose(r, PROFILES[prop]))
    if prop == "C09":
        x = r.random()
        if x < 0.08:
            return gen_twin(r, want)
        if x < 0.14:
            return gen_reject(r, want)
    k = getattr(r, "index", 10 ** 9)
    if prop == "C02" and (k < 4 or k % 500 == 4 and k > 1500):       # missions of tens of thousands of steps
        want = dict(steps=(11000, 26000) if k < 4 else (26000, 60000), acc=(1e-7, 1e-6), dt=(0.005, 0.05), env=False, nan=False,
                    massfloor=False, prelude=False, conv=False, close=False, eta=False, sundman=False, snap=False,
                    battery=k == 1, duty=k in (1, 2), backward=k == 3)
        want["e_range"] = (0.05, 0.3)
    m = gen.gen_mission(r, **want)
    if prop == "C17":
        if r.random() < 0.6:
            m["prob"]["tmax"] *= 5
        gen_bounds(r, m)
    return {"kind": "mission", "m": m}


# ---------------------------------------------------------------------------- summaries
def summarise(tr):
    """mode signature, counters and simulated time of one mission"""
    h = tr.hist
    out = {"steps": 0, "sim_time": 0.0, "fired": dict(tr.probe.fired), "exit": h["exitcode"], "modes": 0}
    try:
        v = oracles.View(tr)
        if not v.ok or v.n == 0 or v.consistent():
            out["sig"] = "none/%s" % (h["exitcode"],)
            return out
        en = v.enabled()
        n = v.n
        inj = oracles.injected_steps(v)
        floor = (v.b[:-1] <= v.c0 + 1e-12)
        req, tol = oracles.nominal_steps(v)
        short = np.abs(v.h) < np.abs(req) - tol
        gust = np.zeros(n, dtype=bool)
        if tr.m["env"]["mode"] == "sim":
            gust = np.array([bool(np.any(world.env_value(tr.m["env"]["segs"], float(t)))) for t in v.t[:n]])
        words = []
        clampw = np.zeros(n, dtype=int)
        if v.et == "keplerian":
            lo, hi = oracles.bounds_of(v)
            clampw = ((v.S[:-1, :5] <= lo) | (v.S[:-1, :5] >= hi)).sum(axis=1)
        for k in range(n):
            w = "%d%d%d%d%d%d%d" % (en[k] == 1, v.C[k, 2], inj[k], floor[k], short[k], gust[k], min(clampw[k], 3))
            if not words or words[-1] != w:
                words.append(w)
        out["steps"] = n
        tu = 1.0
        out["sim_time"] = float(abs(v.t[-1]) / (2 * np.pi * np.sqrt(abs(v.S[0, 0]) ** 3 / v.mu)))   # revolutions
        out["modes"] = len(words)
        out["sig"] = hashlib.sha256(("|".join(gen.features(tr.m)) + "#" + ",".join(words) + "#" +
                                     str(h["exitcode"])).encode()).hexdigest()[:16]
        f = out["fired"]
        for name, c in (("duty_off_transitions", int(((en[1:] == 0) & (en[:-1] == 1)).sum())),
                        ("battery_floor_steps", int(floor.sum())), ("shortened_steps", int(short.sum())),
                        ("clamped_states", int((clampw > 0).sum())), ("coast_steps", int(((en == 1) & (v.C[:, 2] == 0)).sum())),
                        ("left_elliptic_domain", int(v.trunc))):
            if c:
                f[name] = f.get(name, 0) + c
    except Exception as e:
        out["sig"] = "summary-error:%r" % (e,)
    return out


# ---- C09: a constant and a callable returning it; things that are no threshold
def gen_twin(r, want):
    m = gen.gen_mission(r, **dict(want, steps=(15, 60)))
    m["eta"] = {}
    for w in r.choice(["a", "r", "ar"]):
        m["eta"][w] = {"k": "const", "v": r.choice([0.0, 1.0, round(r.uniform(-0.1, 1.0), 3), round(r.uniform(0, 0.6), 3)])}
    return {"kind": "twin", "m": m, "ret": r.choice(["float", "np"])}


RAW = ["int0", "int1", "str", "none", "list", "arr", "npint", "complex", "tuple", "dict"]


def gen_reject(r, want):
    m = gen.gen_mission(r, **dict(want, steps=(5, 15), prelude=r.random() < 0.3))
    w = r.choice("ar")
    m["eta"] = {w: {"k": "raw", "v": r.choice(RAW)}}
    if r.random() < 0.7:
        m["eta"]["r" if w == "a" else "a"] = r.choice([{"k": "const", "v": 0.0}, {"k": "const", "v": 0.3},
                                                       {"k": "fn", "c": 0.2}, {"k": "raw", "v": r.choice(RAW)}])
    return {"kind": "reject", "m": m}


def run_twin(plan, pyqlaw):
    m = plan["m"]
    tr = world.run_mission(copy.deepcopy(m), pyqlaw)
    vs = oracles.ORACLE["C09"](tr)
    m2 = copy.deepcopy(m)
    for w, s in m2["eta"].items():
        m2["eta"][w] = {"k": "fn", "c": s["v"], "ret": plan["ret"]}
    t2 = world.run_mission(m2, pyqlaw)
    if not vs:
        bad = world.diff_hist(tr.hist, t2.hist)
        if bad or tr.status != t2.status:
            vs = [oracles.V("const-callable", "thresholds %s as constants and as callables returning them give different missions: %s"
                            % (json.dumps(m["eta"]), bad or [tr.status, t2.status]))]
    info = summarise(tr)
    info["fired"]["twin_constant_callable"] = 1
    return vs, tr, info


def run_reject(plan, pyqlaw):
    m = plan["m"]
    tr = world.run_mission(copy.deepcopy(m), pyqlaw)
    vs = []
    if tr.status != "raised" or not isinstance(tr.error, (ValueError, TypeError, AssertionError)) or \
            getattr(tr.error, "__traceback__", None) is None:
        vs = [oracles.V("not-rejected", "thresholds %s were accepted (%s, exit code %r)"
                        % (json.dumps(m["eta"]), tr.error if tr.status == "raised" else tr.status, tr.hist["exitcode"]))]
    info = {"steps": 0, "sim_time": 0.0, "fired": {"invalid_threshold": 1}, "exit": tr.hist["exitcode"], "modes": 1,
            "sig": "reject/" + json.dumps(m["eta"], sort_keys=True), "nontrivial": True, "digest": repr(tr.error)}
    return vs, tr, info


def run_plan(prop, plan, pyqlaw):
    if plan["kind"] in ("twin", "reject"):
        vs, tr, info = (run_twin if plan["kind"] == "twin" else run_reject)(plan, pyqlaw)
        if plan["kind"] == "twin":
            info["digest"] = world.digest(tr.hist)
            info["nontrivial"] = info["steps"] >= 3
        return vs, info
    tr = world.run_mission(plan["m"], pyqlaw)
    vs = oracles.ORACLE[prop](tr)
    info = summarise(tr)
    info["digest"] = world.digest(tr.hist)
    info["nontrivial"] = info["steps"] >= 3 and (info["modes"] >= 2 or prop in ("C01", "C02", "C03", "C10", "C04"))
    return vs, info
