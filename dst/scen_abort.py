"""C12: an exception at any seam, at any step, reaches the caller unchanged and leaves no trace."""
import copy
import hashlib
import sys
import numpy as np
from . import gen, world, oracles, profiles
from .oracles import V

PROPS = ["C12"]
RUNS = {"C12": 1600}
KINDS = sorted(world.EXC)
RULE = {"C12": "one case = one mission flown fault-free on a fresh object, then aborted 1-4 times on another object (site x "
               "step x exception kind drawn from the seed), retried, then used for a different mission; distinct by (mission "
               "mode signature, sites and relative positions of the faults that fired); non-trivial = at least one fault fired"}


LINES_PER_STEP = 100         # roughly, in pyqlaw's own files
ASYNC = ["KeyboardInterrupt", "KeyboardInterrupt", "KeyboardInterrupt", "SystemExit", "TimeoutError", "SimBaseFault", "MemoryError"]


def pick_fault(r, m, nsteps, lines=0.0):
    if lines and r.random() < lines:            # an interrupt between any two lines
        k = r.choice([r.randint(0, 60), r.randint(0, 4 * LINES_PER_STEP), r.randint(0, LINES_PER_STEP * (nsteps + 1)),
                      r.randint(0, LINES_PER_STEP * (nsteps + 1))])
        return {"site": "line", "step": k, "exc": r.choice(ASYNC)}
    sites = ["lyap"]
    if m["env"]["mode"] == "sim":
        sites += ["ptrb", "ptrb"]
    for w in "ar":
        s = m["eta"].get(w)
        if s and s["k"] == "fn":
            sites += ["eta_" + w] * 2
    if m["cfg"].get("verbosity", 0) > 0:
        sites += ["stdout"] * 2
    site = r.choice(sites)
    step = r.choice([0, 0, 1, r.randint(0, 8), r.randint(0, nsteps), r.randint(0, nsteps)])
    if site == "stdout":
        step = r.choice([0, 1, r.randint(0, 30), r.randint(0, 2 * nsteps + 3)])
    return {"site": site, "step": step, "exc": r.choice(KINDS)}


def gen_plan(prop, r):
    if r.random() < 0.12:               # the ephemeris is the callback that fails
        from . import scen_spice
        for _ in range(50):
            p = scen_spice.gen_plan("C11", r)
            if p["fault"] and p["fault"]["kind"] in ("raise", "unload", "coverage"):
                return p
    want = dict(env=0.75, gust=0.7, eta=0.7, steps=(6, 45), prelude=0.15, conv=0.35, close=0.35, nan=0.15,
                massfloor=0.15)
    m = gen.gen_mission(r, **want)
    if r.random() < 0.5:
        m["cfg"]["verbosity"] = r.choice([1, 2, 3])
        m["cfg"]["print_frequency"] = r.choice([1, 1, 2, 5])
    for w in "ar":          # mostly callable thresholds, so that there is something to fail
        if m["eta"] and m["eta"].get(w, {}).get("k") == "const" and r.random() < 0.5:
            m["eta"][w] = {"k": "fn", "c": m["eta"][w]["v"]}
    n = max(3, int(abs(m["prob"]["tf_max"] / m["prob"]["t_step"])))
    other = gen.gen_mission(r, et=m["cfg"]["elements_type"], steps=(4, 15), prelude=False, eta=0.4, env=0.4)
    return {"kind": "abort", "m": m, "rounds": [pick_fault(r, m, n, 0.3) for _ in range(r.choice([1, 1, 2, 3, 4]))],
            "again": r.choice(["set", "keep"]), "other": other}


def shrink(prop, plan):
    if plan["kind"] == "spice":
        from . import scen_spice
        return [p for p in scen_spice.shrink("C11", plan) if p["fault"]]
    out = []
    for j in range(len(plan["rounds"])):
        if len(plan["rounds"]) > 1:
            p = copy.deepcopy(plan)
            p["rounds"].pop(j)
            out.append(p)
        f = plan["rounds"][j]
        for step in {0, f["step"] // 2, f["step"] - 1} - {f["step"]}:
            if 0 <= step < f["step"]:
                p = copy.deepcopy(plan)
                p["rounds"][j]["step"] = step
                out.append(p)
        if f["exc"] != "SimFault":
            p = copy.deepcopy(plan)
            p["rounds"][j]["exc"] = "SimFault"
            out.append(p)
    if plan["again"] == "keep":
        p = copy.deepcopy(plan)
        p["again"] = "set"
        out.append(p)
    return out


def prefix_violations(full, part, tr, what, torn=False):
    """part (history dict) must be a consistent prefix of full; torn: the step being recorded may be in part of the lists only"""
    out = []
    for k in world.HIST:
        if not isinstance(part[k], np.ndarray):
            return [V("prefix", "%s: history %s not readable after the abort: %s" % (what, k, part[k]))]
    n = len(part["times"]) - 1
    want = {k: n for k in ("controls", "etas", "etas_bounds", "Qs", "dQdts")}
    want.update({k: n + 1 for k in ("times", "states", "masses", "battery")})
    if torn:
        n = min(len(part[k]) - (k in ("times", "states", "masses", "battery")) for k in want)
        want = {k: n + (k in ("times", "states", "masses", "battery")) for k in want}
        want = {k: w + (len(part[k]) == w + 1) for k, w in want.items()}
    bad = {k: (len(part[k]), w) for k, w in want.items() if len(part[k]) != w}
    if bad or n < 0:
        return [V("ragged", "%s: history lengths inconsistent after the abort (have, want): %s" % (what, bad))]
    if n >= len(full["times"]):
        return [V("prefix", "%s: %d steps recorded, the undisturbed mission has %d" % (what, n, len(full["times"]) - 1))]
    for k in world.HIST:
        a, b = part[k], full[k][:len(part[k])]
        if len(part[k]) > len(full[k]):
            return [V("prefix", "%s: %d entries of %s, the undisturbed mission has %d" % (what, len(part[k]), k, len(full[k])))]
        if a.size == 0 and len(b) == 0:
            continue
        if k == "states" and tr.cfg["elements_type"] == "keplerian" and not world.same(a, b):
            # the last recorded state may not have been safeguarded yet
            v = oracles.bounds_of(type("v", (), {"tr": tr}))
            a = a.copy()
            a[-1, :5] = np.minimum(np.maximum(a[-1, :5], v[0]), v[1])
        if not world.same(a, b):
            eq = [i for i in range(len(a)) if not np.array_equal(a[i], b[i], equal_nan=True)]
            return [V("prefix", "%s: %s recorded at entry %s differs from the undisturbed mission (%s instead of %s)"
                      % (what, k, eq[:1], a[eq[0]] if eq else "", b[eq[0]] if eq else ""))]
    return out


def clean(m):
    m = copy.deepcopy(m)
    m.pop("faults", None)
    m.pop("prelude", None)
    return m


def guard_state():
    import warnings
    return (repr(np.geterr()), len(warnings.filters), id(sys.stdout), sys.gettrace() is None)


MINE = ("swallowed", "lost-history", "false-claim", "retry", "prefix", "ragged", "unexpected-exception")


def warm(pyqlaw):
    from . import scen_spice
    scen_spice.warm(pyqlaw)


def run_plan(prop, plan, pyqlaw):
    if plan["kind"] == "spice":
        from . import scen_spice
        vs, info = scen_spice.run_plan("C11", plan, pyqlaw)
        return [v for v in vs if v["cls"] in MINE], info
    m = plan["m"]
    out = []
    ref = world.fly(world.build(m, pyqlaw), clean(m))
    info = profiles.summarise(ref)
    info["digest"] = world.digest(ref.hist)
    if ref.status != "ok":
        # a mission that cannot finish undisturbed says nothing here (other properties judge it)
        info["nontrivial"] = False
        return out, info
    pres = m.get("prelude", [])
    prob = world.build(pres[0] if pres else m, pyqlaw)
    for i, pre in enumerate(pres):
        world.assign_cfg(prob, pre)
        world.fly(prob, pre)
    world.assign_cfg(prob, m)
    fired = 0
    marks = []
    g0 = guard_state()
    for j, f in enumerate(plan["rounds"]):
        mm = clean(m)
        mm["faults"] = [f]
        t = world.fly(prob, mm, set_problem=(j == 0 or plan["again"] == "set"))
        what = "abort %d (%s at %s step %d)" % (j + 1, f["exc"], f["site"], f["step"])
        if t.probe.raised is None:
            if t.status != "ok" or world.diff_hist(ref.hist, t.hist):
                out.append(V("spurious", "%s: no fault fired, but the mission differs from the undisturbed one: %s %s"
                             % (what, t.status if t.status != "raised" else repr(t.error), world.diff_hist(ref.hist, t.hist))))
                break
            continue
        fired += 1
        for k, c in t.probe.fired.items():
            info["fired"][k] = info["fired"].get(k, 0) + c
        n = len(t.hist["times"]) if isinstance(t.hist["times"], np.ndarray) else -1
        marks.append("%s/%d" % (f["site"], min(f["step"], 3)))
        if t.status != "raised":
            out.append(V("swallowed", "%s: the exception never reached the caller; solve() %s with exit code %r"
                         % (what, t.status, t.hist["exitcode"])))
            break
        if t.error is not t.probe.raised:
            out.append(V("changed-exception", "%s: the caller received %r instead" % (what, t.error)))
            break
        cut = f["site"] == "line"
        if cut and t.probe.calls == 0:          # interrupted before the first step began
            continue
        out += prefix_violations(ref.hist, t.hist, t, what, cut)
        if out:
            break
        # every step completed before the fault is recorded
        log = {"ptrb": t.probe.ptrb_log, "eta_a": t.probe.eta_log["a"], "eta_r": t.probe.eta_log["r"]}.get(f["site"])
        if log and t.hist["times"][-1] != log[-1][0]:
            out.append(V("lost-history", "%s: fault hit at t=%r but the history recorded ends at t=%r"
                         % (what, log[-1][0], t.hist["times"][-1])))
            break
        whole = len(t.hist["times"]) >= len(ref.hist["times"]) - cut
        if (t.hist["converge"] or t.hist["exitcode"] in (1, 2)) and not (whole and ref.hist["converge"]):
            out.append(V("false-claim", "%s: aborted after %d of %d steps, yet converge=%s exit code %r"
                         % (what, n - 1, len(ref.hist["times"]) - 1, t.hist["converge"], t.hist["exitcode"])))
            break
        if guard_state() != g0:
            out.append(V("process-state", "%s: process-wide state changed: %s -> %s" % (what, g0, guard_state())))
            break
    if not out:
        t = world.fly(prob, clean(m), set_problem=plan["again"] == "set")
        d = world.diff_hist(ref.hist, t.hist)
        if t.status != "ok" or d:
            out.append(V("retry", "after %d aborted attempts the same problem gives a different result: %s %s"
                         % (fired, t.status if t.status == "ok" else repr(t.error), first_diff(ref.hist, t.hist, d))))
    if not out:
        o = clean(plan["other"])
        fresh = world.fly(world.build(o, pyqlaw), o)
        world.assign_cfg(prob, o)
        t = world.fly(prob, o)
        d = world.diff_hist(fresh.hist, t.hist)
        if t.status != fresh.status or d:
            out.append(V("other", "after aborts a different problem gives a result different from a fresh object's: %s"
                         % first_diff(fresh.hist, t.hist, d)))
        info["digest"] += world.digest(t.hist)
    info["nontrivial"] = fired > 0
    info["sig"] = hashlib.sha256((str(info.get("sig")) + "|" + ",".join(marks)).encode()).hexdigest()[:16]
    return out, info


def first_diff(h1, h2, names):
    """short text on where two histories part"""
    for k in names:
        a, b = h1[k], h2[k]
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
            return "%s: %s vs %s" % (k, a, b)
        n = min(len(a), len(b))
        for i in range(n):
            if not np.array_equal(a[i], b[i], equal_nan=True):
                return "%s differ first at entry %d: %s vs %s (all differing: %s)" % (k, i, a[i], b[i], names)
        return "%s: lengths %d vs %d (all differing: %s)" % (k, len(a), len(b), names)
    return "none"
