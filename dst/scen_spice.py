"""C11: SpicePerturbations against an independent evaluation of a synthetic solar system, with the ephemeris failing."""
import copy
import hashlib
import math
import os
import shutil
import tempfile
import numpy as np
from . import gen, world, oracles, profiles, spicekit, refmodel as rm
from .oracles import V
from .scen_abort import clean, prefix_violations, first_diff

PROPS = ["C11"]
RUNS = {"C11": 800}
RULE = {"C11": "one case = one mission flown through SpicePerturbations on a synthetic solar system (seeded kernels written with "
               "CSPICE), every returned acceleration compared with an independent evaluation; faults: end of coverage, kernels "
               "unloaded at a step, ephemeris call raising; distinct by (primary, frames, effects, fault, mode signature); "
               "non-trivial = at least 3 steps compared or an outage reached"}
STUBS = {"C11": {"real": ["pyqlaw.SpicePerturbations", "spiceypy and the CSPICE library", "pyqlaw.QLaw mission loop"],
                 "stub": ["solar system: seeded Chebyshev kernels (SPK type 2, PCK type 2, text constants)",
                          "spiceypy.spkpos/pxform wrapped only to raise at a chosen call"]}}


DEFAULTS = {"obs_id": ("obs", "399"), "frame_qlaw": ("frame_qlaw", "J2000"), "frame_PA": ("frame_PA", "ITRF93"),
            "third_bodies_names": ("third", ["301", "10"]), "J2": ("J2", 0.00108263), "Re_km": ("Re_km", 6378.0),
            "P_SRP_SI": ("P", 4.56e-6), "Cr_SRP": ("Cr", 1.2), "Am_SI": ("Am", 0.01), "use_J2": ("use_J2", True),
            "use_SRP": ("use_SRP", True)}


def gen_plan(prop, r):
    obs = r.choice(["399", "399", "399", "499", "301"])
    m = gen.gen_mission(r, env=False, steps=(3, 25), prelude=False, eta=0.3, nan=0.1, conv=0.2, units=0.25)
    m["env"] = {"mode": "spice"}
    p, c = m["prob"], m["cfg"]
    mu = c.get("mu", 1.0)
    gm = 10 ** r.uniform(2, 7)
    LU = 10 ** r.uniform(2.5, 5.5)
    if mu > 1e3:                           # kilometres and seconds
        LU, gm = 1.0, mu
    TU = math.sqrt(mu * LU ** 3 / gm)
    et_ref = r.choice([0.0, r.uniform(-1e9, 1e9), r.uniform(5e8, 9e8)])
    sg = -1.0 if p["t_step"] < 0 else 1.0
    dur = abs(p["tf_max"]) + 3 * abs(p["t_step"]) * (1 if not c.get("use_sundman") else math.sqrt(p["oe0"][0] ** 3 / mu) * 3)
    dur *= TU
    a, b = (et_ref, et_ref + dur) if sg > 0 else (et_ref - dur, et_ref)
    pad = dur * r.uniform(0.05, 2.0)
    fault = None
    x = r.random()
    if x < 0.15:
        cut = r.uniform(0.1, 0.9) * abs(p["tf_max"]) * TU
        if sg > 0:
            a, b, = a - pad, et_ref + cut
        else:
            a, b = et_ref - cut, b + pad
        fault = {"kind": "coverage"}
    else:
        a, b = a - pad, b + pad
    a, b = math.floor(a * 4096) / 4096, math.ceil(b * 4096) / 4096     # exact in binary, so that intervals add up
    w = spicekit.gen_world(r, obs, 4.0 * p["oe0"][0] * LU, [a, b])
    third = []
    pool = [x for x in w["bodies"] if x != obs and x not in ("3", "4")]
    k = r.random()
    if k < 0.1:
        third = None
    elif k < 0.2:
        third = []
    else:
        third = r.sample(pool, r.randint(1, min(3, len(pool))))
    for x in w["bodies"]:
        w["gm"][x] = gm * 10 ** r.uniform(-2, 5)
    w["gm"][obs] = gm
    gms = None
    if third and r.random() < 0.3:
        gms = [10 ** r.uniform(-3, 4) for _ in third]
    frames = {"399": ["ITRF93", "ITRF93", "IAU_EARTH"], "499": ["IAU_MARS", "ITRF93"], "301": ["IAU_MOON"]}[obs]
    sp = {"et_ref": et_ref, "LU": LU, "TU": TU, "obs": obs, "third": third, "gms": gms,
          "frame_qlaw": r.choice(["J2000", "J2000", "ECLIPJ2000"]), "frame_PA": r.choice(frames + ["J2000"]),
          "J2": r.choice([0.00108263, 10 ** r.uniform(-4, -0.5)]), "Re_km": LU * r.choice([1.0, r.uniform(0.2, 1.2)]),
          "P": 4.56e-6 * r.choice([1, 1e2, 1e4]), "Cr": r.uniform(1, 2), "Am": 10 ** r.uniform(-3, 1),
          "use_J2": r.random() < 0.65, "use_SRP": r.random() < 0.6, "by_name": r.random() < 0.3}
    sp["omit"] = []
    if r.random() < 0.25:                   # documented defaults
        for k, (key, v) in DEFAULTS.items():
            if r.random() < 0.5 and (k != "Re_km" or 3e3 < LU < 3e5) and (k != "obs_id" or obs == "399") \
                    and (k != "third_bodies_names" or gms is None and "301" in pool and "10" in pool):
                sp[key] = copy.copy(v)
                sp["omit"].append(k)
    if fault is None and r.random() < 0.3:
        fault = r.choice([{"kind": "unload", "step": r.randint(0, 8), "what": r.choice(["spk", "pck", "all"])},
                          {"kind": "raise", "call": r.randint(0, 20), "site": r.choice(["spkpos", "pxform"]),
                           "exc": r.choice(["SimFault", "OSError", "ValueError", "KeyboardInterrupt", "RuntimeError", "ZeroDivisionError", "KeyError"])},
                          {"kind": "nokernel", "what": r.choice(["spk", "pck", "gm_obs", "gm_third"])}])
    return {"kind": "spice", "m": m, "w": w, "sp": sp, "fault": fault}


def shrink(prop, plan):
    out = []
    if plan["fault"]:
        p = copy.deepcopy(plan)
        p["fault"] = None
        out.append(p)
    sp = plan["sp"]
    for k, v in (("use_J2", False), ("use_SRP", False), ("third", []), ("frame_qlaw", "J2000"), ("by_name", False)):
        if sp[k] != v and not (k == "third" and sp[k] is None):
            p = copy.deepcopy(plan)
            p["sp"][k] = v
            if k == "third":
                p["sp"]["gms"] = None
            out.append(p)
    if sp["third"] and len(sp["third"]) > 1 and sp["gms"] is None:
        for b in sp["third"]:
            p = copy.deepcopy(plan)
            p["sp"]["third"] = [b]
            out.append(p)
    if "unload" == (plan["fault"] or {}).get("kind") and plan["fault"]["step"] > 0:
        p = copy.deepcopy(plan)
        p["fault"]["step"] = 0
        out.append(p)
    return out


def nm(sp, b):
    return spicekit.NAMES.get(b, b) if sp["by_name"] else b


def make(pyqlaw, sp):
    kw = dict(et_ref=sp["et_ref"], LU=sp["LU"], TU=sp["TU"], obs_id=sp["obs"], frame_qlaw=sp["frame_qlaw"], frame_PA=sp["frame_PA"],
              third_bodies_names=None if sp["third"] is None else [nm(sp, b) for b in sp["third"]],
              third_bodies_gms=None if sp["gms"] is None else list(sp["gms"]), J2=sp["J2"], Re_km=sp["Re_km"], P_SRP_SI=sp["P"],
              Cr_SRP=sp["Cr"], Am_SI=sp["Am"], use_J2=sp["use_J2"], use_SRP=sp["use_SRP"])
    for k in sp.get("omit", []):
        if sp[DEFAULTS[k][0]] == DEFAULTS[k][1]:
            kw.pop(k)
    return pyqlaw.SpicePerturbations(**kw)


class Recorder:
    def __init__(self, inner, probe):
        self.inner, self.probe = inner, probe

    def get_perturbations_RTN(self, t, oe, elements_type):
        p = self.probe
        p.tick()
        t_, o_ = float(t), np.array(oe, dtype=float)
        p.maybe_fault("ptrb", p.step_of("ptrb", t_))
        p.asked = (t_, o_, elements_type)
        acc = self.inner.get_perturbations_RTN(t, oe, elements_type)
        p.ptrb_log.append((t_, o_, elements_type, np.array(acc, dtype=float)))
        return acc


def fly(m, prob, pert, hooks=None):
    probe = world.Probe(m, hooks)
    prob.perturbations = Recorder(pert, probe)
    return world.fly(prob, m, probe=probe)


def warm(pyqlaw):
    from pyqlaw import _perturbations as P, _elements as E
    r, s = np.array([1.0, 0.2, 0.1]), np.array([10.0, 0.2, 0.1])
    oe = np.array([1.0, 0.1, 0.2, 0.1, 0.1, 0.3])
    for f in (lambda: P.perturbation_third_body_battin(r, s, 1.0), lambda: P.perturbation_J2(r, np.eye(3), 1.0, 1e-3, 1.0),
              lambda: P.pxformECI2RTN(r, s), lambda: E.kep2sv(oe, 1.0), lambda: E.mee_with_a2sv(oe, 1.0)):
        try:
            f()
        except Exception:
            pass


def run_plan(prop, plan, pyqlaw):
    import spiceypy as spice
    root = tempfile.mkdtemp(prefix="pyqlaw-spice-")
    try:
        return body(plan, pyqlaw, spice, root)
    finally:
        try:
            spice.kclear()
        except Exception:
            pass
        shutil.rmtree(root, ignore_errors=True)


def body(plan, pyqlaw, spice, root):
    m, w, sp, fault = clean(plan["m"]), plan["w"], plan["sp"], plan["fault"]
    files = spicekit.install(spice, w, root)
    ref = spicekit.Reference(w)
    info = {"fired": {}, "steps": 0, "sim_time": 0.0, "exit": None, "nontrivial": False, "sig": "none", "digest": "none"}
    need_spk = bool(sp["third"]) or sp["use_SRP"]
    need_pck = sp["use_J2"] and sp["frame_PA"] == "ITRF93"
    kind = fault["kind"] if fault else None
    # -- disabled effects must not even be asked for
    if not need_pck and kind is None:
        spice.unload(files["pck"])
    if not need_spk and kind is None:
        spice.unload(files["spk"])
    if kind == "nokernel":
        info["fired"]["missing_at_construction:" + fault["what"]] = 1
        bad = {"spk": need_spk, "pck": need_pck, "gm_obs": True, "gm_third": bool(sp["third"]) and sp["gms"] is None}[fault["what"]]
        if fault["what"] in ("spk", "pck"):
            spice.unload(files[fault["what"]])
        elif fault["what"] == "gm_obs":
            spice.dvpool("BODY%s_GM" % sp["obs"])
        else:
            for b in (sp["third"] or []):
                spice.dvpool("BODY%s_GM" % b)
    try:
        pert = make(pyqlaw, sp)
    except Exception as e:
        if kind == "nokernel" and fault["what"].startswith("gm") and bad:
            info.update(nontrivial=True, sig="gm")
            return [], info
        return [V("constructor", "SpicePerturbations(%s) raised %r" % ({k: sp[k] for k in ("obs", "third", "gms")}, e))], info
    if kind == "nokernel" and fault["what"].startswith("gm") and bad:
        return [V("fabricated", "the GM of %s is not available, yet SpicePerturbations() succeeded" % fault["what"])], info
    prob = world.build(m, pyqlaw)
    hooks = []
    state = {"calls": {"spkpos": 0, "pxform": 0}, "err": None, "lost": False}
    saved = (spice.spkpos, spice.pxform)
    if kind == "unload":
        def hook(probe, site, step):
            if site == "lyap" and step == fault["step"] and not state["lost"]:
                state["lost"] = True
                if fault["what"] == "all":
                    spice.kclear()
                else:
                    spice.unload(files[fault["what"]])
                info["fired"]["kernel_lost:" + fault["what"]] = 1
        hooks.append(hook)
    if kind == "raise":
        def wrap(site, inner):
            def f(*a, **k):
                i = state["calls"][site]
                state["calls"][site] += 1
                if i == fault["call"] and site == fault["site"]:
                    state["err"] = world.EXC[fault["exc"]]("injected %s@%d" % (site, i))
                    info["fired"]["ephemeris_raises:" + fault["exc"]] = 1
                    raise state["err"]
                return inner(*a, **k)
            return f
        spice.spkpos, spice.pxform = wrap("spkpos", saved[0]), wrap("pxform", saved[1])
    try:
        t = fly(m, prob, pert, hooks)
    finally:
        spice.spkpos, spice.pxform = saved
    f0 = info["fired"]
    info = dict(profiles.summarise(t))
    info["fired"].update(f0)
    info["digest"] = world.digest(t.hist)
    info["sig"] = hashlib.sha256(repr((sp["obs"], sp["frame_qlaw"], sp["frame_PA"], sp["use_J2"], sp["use_SRP"], sp["third"] and len(sp["third"]),
                                       sp["gms"] is None, kind, info.get("sig"))).encode()).hexdigest()[:16]
    out = []
    # -- when should the mission have failed?
    log = t.probe.ptrb_log
    info["nontrivial"] = len(log) >= 3
    for tt, oe, et, acc in log:
        if et != m["cfg"]["elements_type"]:
            return [V("elements-type", "perturbations asked for %r in a %r mission" % (et, m["cfg"]["elements_type"]))], info
        ec = oe[1] if et == "keplerian" else math.hypot(oe[1], oe[2])
        if not np.isfinite(oe).all() or not ec < 0.97 or oe[0] <= 0 or np.abs(oe[2:]).max() > 1e6:
            break
        eph = sp["et_ref"] + tt * sp["TU"]
        margin = 1e-9 * (abs(eph) + 1)
        if (need_spk or need_pck) and not ref.covered(eph):
            if ref.first - margin <= eph <= ref.last + margin:
                continue
            return [V("fabricated", "t=%r (ephemeris time %r) is outside coverage [%r, %r], yet an acceleration %s was returned"
                      % (tt, eph, ref.first, ref.last, acc))], info
        want, size = ref.acceleration(tt, oe, et, sp)
        if acc.shape != (3,) or not np.abs(acc - want).max() <= 1e-8 * size + 1e-300:
            one = {}
            for nme, sub in (("third bodies", dict(use_J2=False, use_SRP=False)), ("J2", dict(third=[], gms=None, use_SRP=False)),
                             ("SRP", dict(third=[], gms=None, use_J2=False))):
                one[nme] = ref.acceleration(tt, oe, et, dict(sp, **sub))[0].tolist()
            return [V("acceleration", "t=%r elements %s: returned %s, expected %s = sum of %s" % (tt, oe.tolist(), acc.tolist(), want.tolist(), one))], info
    if t.status == "budget" and not oracles.left_domain(t):
        return [V("no-termination", "mission did not end")], info
    if kind == "raise" and state["err"] is not None:
        if t.status != "raised" or t.error is not state["err"]:
            return [V("swallowed", "spiceypy.%s raised %r at call %d; solve() %s %r" % (fault["site"], state["err"], fault["call"],
                                                                                      t.status, t.error))], info
    elif t.status == "raised":
        if not isinstance(t.error, spice.exceptions.SpiceyError):
            return [V("unexpected-exception", "solve() raised %r" % (t.error,))], info
        legit = False
        if kind == "coverage" and hasattr(t.probe, "asked"):
            eph = sp["et_ref"] + t.probe.asked[0] * sp["TU"]
            legit = not (ref.first + 1e-9 * (abs(eph) + 1) <= eph <= ref.last - 1e-9 * (abs(eph) + 1))
        if kind == "unload":
            legit = state["lost"]
        if kind == "nokernel":
            legit = bad
        if not (need_spk or need_pck or (sp["use_J2"] and sp["frame_PA"] != "J2000")):
            legit = False
        if not legit:
            return [V("needless-ephemeris", "solve() raised %s although everything the enabled effects need was available"
                      % (str(t.error).splitlines()[-8:],))], info
    elif t.status == "ok" and len(log) and kind in ("unload", "nokernel"):
        # the ephemeris was gone for at least one later step
        gone = (fault["what"] == "all" and (need_spk or need_pck)) or (fault["what"] == "spk" and need_spk) or \
            (fault["what"] == "pck" and need_pck)
        if kind == "unload" and not state["lost"]:
            gone = False
        later = kind == "nokernel" or (state["lost"] and len(log) > fault["step"] + 1)
        if gone and later and not (kind == "nokernel" and fault["what"].startswith("gm")):
            return [V("fabricated", "kernel '%s' was gone from step %s on, yet %d steps were answered"
                      % (fault["what"], fault.get("step", 0), len(log)))], info
    if t.status == "raised":
        info["fired"]["aborted_by_ephemeris"] = 1
        if not isinstance(t.hist["times"], np.ndarray) or t.hist["times"][-1] != t.probe.asked[0]:
            return [V("lost-history", "ephemeris failed at t=%r; recorded history ends at %r" % (t.probe.asked[0], t.hist["times"][-1:]))], info
        if t.hist["converge"]:
            return [V("false-claim", "aborted mission claims convergence")], info
    # -- every recorded step was disturbed by exactly what was returned
    if t.status == "ok" and isinstance(t.hist["times"], np.ndarray):
        asked = {x[0] for x in log}
        miss = [k for k in range(len(t.hist["times"]) - 1) if float(t.hist["times"][k]) not in asked]
        if miss:
            return [V("environment-ignored", "step %d at t=%r never asked for perturbations" % (miss[0], t.hist["times"][miss[0]]))], info
    # -- after the outage: reload, and the whole mission must equal the undisturbed one
    if kind in ("unload", "raise") and t.status == "raised":
        spice.kclear()
        spice.furnsh(files["spk"])
        spice.furnsh(files["pck"])
        spicekit.pool(spice, w)
        t2 = fly(m, prob, pert)
        t3 = fly(m, world.build(m, pyqlaw), make(pyqlaw, sp))
        d = world.diff_hist(t2.hist, t3.hist)
        if t2.status != t3.status or d:
            return [V("retry", "after the ephemeris came back the mission differs from a fresh one: %s" % first_diff(t3.hist, t2.hist, d))], info
        pv = prefix_violations(t3.hist, t.hist, t, "ephemeris outage")
        if pv:
            return pv, info
    # -- anything but the two element sets is refused
    if plan["m"]["prob"]["oe0"] and hash_bit(plan):
        try:
            a = pert.get_perturbations_RTN(0.0, np.array(m["prob"]["oe0"]), "mee")
            out.append(V("elements-type", "elements_type 'mee' accepted, returned %s" % (a,)))
        except Exception:
            pass
    return out, info


def hash_bit(plan):
    return plan["w"]["pole"]["ra"][0] > 5.0
