"""C15: the caller's data are never modified, and what has been recorded never changes."""
import copy
import hashlib
import numpy as np
from . import gen, world, oracles, profiles
from .oracles import V
from .scen_abort import clean, pick_fault

PROPS = ["C15"]
RUNS = {"C15": 800}
RULE = {"C15": "one case = one mission whose argument containers, recorded history and callback arguments are fingerprinted at "
               "every seam crossing, followed by caller-side reuse of its arrays (at a step during the mission or after it) and by "
               "another solve of the same object; distinct by mode signature and plan shape; non-trivial = at least 3 steps"}


def gen_plan(prop, r):
    want = dict(steps=(4, 40), env=0.75, eta=0.6, conv=0.3, close=0.3, prelude=False)
    m = gen.gen_mission(r, **want)
    if r.random() < 0.3:
        m["cfg"]["verbosity"] = 2
        m["cfg"]["print_frequency"] = 1
    if m["cfg"]["elements_type"] == "keplerian" and r.random() < 0.6:
        profiles.gen_bounds(r, m)
    c = m["cfg"]
    if c["elements_type"] != "keplerian" and r.random() < 0.3:         # given, though without effect
        c["oe_min"], c["oe_max"] = [0.05] + [r.choice([-np.inf, -2.0, 0.0]) for _ in range(4)], [1e9, 10.0, 10.0, np.inf, np.inf]
    elif c.get("oe_min") and r.random() < 0.4:      # unusual values that code may be tempted to tidy up
        for j in r.sample(range(5), 2):
            c["oe_min"][j] = r.choice([1e-7, 1e-9, c["oe_min"][j]])
        if c.get("oe_max"):
            j = r.randrange(5)
            c["oe_max"][j] = r.choice([np.inf, 0.999999, 1.0, 7.0, c["oe_max"][j]]) if j else 1e300
    if r.random() < 0.2:
        tol = list(c.get("tol_oe") or [1e-3] * 5)
        tol[r.randrange(5)] = r.choice([0.0, 1e-14, 5.0])
        c["tol_oe"] = tol
    other = gen.gen_mission(r, et=m["cfg"]["elements_type"], steps=(3, 20), prelude=False)
    kinds = {k: r.choice(["array", "array", "list", "tuple", "view", "int"]) for k in ("oe0", "woe")}
    kinds["oeT"] = r.choice(["array", "view"])
    kinds["duty_cycle"] = r.choice(["tuple", "list", "array"])
    kinds["battery_capacity"] = r.choice(["tuple", "list", "array"])
    kinds["battery_charge_discharge_rate"] = r.choice(["tuple", "list", "array"])
    kinds["cfg"] = r.choice(["array", "array", "list"])
    mut = None
    if r.random() < 0.5:
        mut = {"step": r.choice([0, 1, r.randint(0, 20)]), "what": r.choice(["oe0", "oe0", "oe0", "oeT", "woe"])}
    f = pick_fault(r, m, 20) if r.random() < 0.15 else None
    return {"kind": "alias", "m": m, "other": other, "kinds": kinds, "mutate": mut, "same_again": r.random() < 0.3, "fault": f}


def shrink(prop, plan):
    out = []
    for k in ("mutate", "fault"):
        if plan[k]:
            p = copy.deepcopy(plan)
            p[k] = None
            out.append(p)
    for k, v in plan["kinds"].items():
        std = "array" if k in ("oe0", "woe", "oeT", "cfg") else "tuple"
        if v != std:
            p = copy.deepcopy(plan)
            p["kinds"][k] = std
            out.append(p)
    return out


def make(x, kind):
    """(argument, owner): owner is what the caller still holds and may reuse"""
    if x is None:
        return None, None
    if kind == "list":
        a = [float(v) for v in x]
        return a, a
    if kind == "tuple":
        a = tuple(float(v) for v in x)
        return a, a
    if kind == "view":
        big = np.zeros((len(x) + 4,))
        big[2:2 + len(x)] = x
        return big[2:2 + len(x)], big
    a = np.array(x, dtype=float)
    return a, a


def finger(x):
    if x is None:
        return None
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes())
    return (type(x).__name__, tuple(repr(v) for v in x))


def snapshot(prob):
    """deep copies of the recorded lists"""
    return {k: [np.array(x, dtype=float) for x in getattr(prob, k, [])] for k in world.HIST}


def changed(old, prob, last_open):
    """name of the first recorded entry that differs from the snapshot; the last recorded state may still be
    safeguarded (Keplerian elements) when the next step begins"""
    for k in world.HIST:
        now = getattr(prob, k, [])
        if len(now) < len(old[k]):
            return "%s lost entries: %d -> %d" % (k, len(old[k]), len(now))
        for i, a in enumerate(old[k]):
            b = np.array(now[i], dtype=float)
            if a.shape != b.shape or not np.array_equal(a, b, equal_nan=True):
                if k == "states" and last_open and i == len(old[k]) - 1:
                    continue
                return "%s[%d] changed from %s to %s" % (k, i, a, b)
    return None


def run_plan(prop, plan, pyqlaw):
    m = clean(plan["m"])
    if plan.get("fault"):
        m["faults"] = [plan["fault"]]
    kinds = plan["kinds"]
    p = world.full_prob(m)
    c = world.full_cfg(m)
    out = []
    # ---- arguments
    kw = {k: v for k, v in p.items() if k != "container"}
    args, owners = {}, {}
    for k in ("oe0", "oeT", "woe", "duty_cycle", "battery_capacity", "battery_charge_discharge_rate"):
        kind = kinds.get(k, "array")
        if kind == "int":
            kind = "array"
        args[k], owners[k] = make(p[k], kind)
    kw.update(args)
    ckw = {k: v for k, v in c.items() if k not in ("tol_oe", "oe_min", "oe_max")}
    for k in ("tol_oe", "oe_min", "oe_max"):
        if c[k] is not None:
            a, o = make(c[k], kinds["cfg"])
            ckw[k], owners[k], args[k] = a, o, a
    before = {k: (finger(args[k]), finger(owners[k])) for k in args}

    def untouched(when):
        for k in args:
            if (finger(args[k]), finger(owners[k])) != before[k]:
                return V("argument", "%s: the caller's %s was modified: now %s" % (when, k, args[k]))
        return None

    kep = c["elements_type"] == "keplerian"
    st = {"snap": None, "open": False, "viol": None, "n": 0, "mut": False, "refs": [], "lens": set()}

    def hook(probe, site, step):
        prob = probe.obj
        st["n"] += 1
        if st["viol"] is None and hasattr(prob, "times"):
            if not st["mut"]:
                v = untouched("during the mission (%s, step %d)" % (site, step))
                if v:
                    st["viol"] = v
            if st["snap"] is not None:
                c_ = changed(st["snap"], prob, st["open"])
                if c_:
                    st["viol"] = V("history", "during the mission (%s, step %d): recorded %s" % (site, step, c_))
            if st["n"] % 3 == 0 or st["snap"] is None:
                st["snap"] = snapshot(prob)
                st["open"] = kep and site == "stdout"
        mu = plan.get("mutate")
        if mu and site != "stdout" and step == mu["step"] and not st["mut"]:
            o = owners[mu["what"]]
            if isinstance(o, np.ndarray):
                st["mut"] = True
                if hasattr(prob, "times"):
                    st["snap"] = snapshot(prob)
                    st["open"] = False
                if mu["what"] == "oe0":
                    o[...] = 0.123456
                else:
                    o[...] = o * (1 + 1e-3)

    prob = pyqlaw.QLaw(**ckw)
    probe = world.Probe(m, [hook])
    v = untouched("QLaw()")
    if v:
        return [v], {"fired": {}, "sig": "x", "nontrivial": True, "digest": "x"}
    # callbacks keep the very arrays they are given
    env_inner = None
    t = None
    keep = []
    orig_env, orig_eta = world.SimEnv.get_perturbations_RTN, probe.eta

    class KeepEnv(world.SimEnv):
        def get_perturbations_RTN(self, tt, oe, et):
            keep.append((oe, np.array(oe, dtype=float)))
            return super().get_perturbations_RTN(tt, oe, et)
    probe.env = lambda: KeepEnv(probe)
    mutates_problem = plan.get("mutate") and plan["mutate"]["what"] != "oe0"
    t = world.fly(prob, m, kwargs=kw, probe=probe)
    info = profiles.summarise(t) if not st["mut"] else {"fired": {}, "steps": len(t.hist["times"] or []) if isinstance(
        t.hist["times"], list) else len(t.hist["times"]) - 1 if isinstance(t.hist["times"], np.ndarray) else 0,
        "sim_time": 0.0, "exit": t.hist["exitcode"], "sig": "mutated"}
    info["digest"] = world.digest(t.hist)
    info["nontrivial"] = info["steps"] >= 3
    if st["mut"]:
        info["fired"]["caller_reused_array_mid_mission"] = 1
    if st["viol"]:
        return [st["viol"]], info
    if t.status == "raised" and t.error is not probe.raised:
        return [V("unexpected-exception", "solve() raised %r" % (t.error,))], info
    if not st["mut"]:
        v = untouched("after solve()")
        if v:
            return [v], info
    for a, b in keep:
        if not np.array_equal(np.asarray(a, dtype=float), b, equal_nan=True):
            return [V("callback-argument", "elements handed to the disturbance model changed afterwards: %s -> %s" % (b, a))], info
    if st["snap"] is not None:
        c_ = changed(st["snap"], prob, st["open"])
        if c_:
            return [V("history", "by the end of the mission recorded %s" % c_)], info
    # ---- a mission whose initial elements were reused by the caller half way is the same mission
    if st["mut"] and plan["mutate"]["what"] == "oe0" and t.status == "ok":
        ref = world.fly(world.build(m, pyqlaw), m)
        bad = world.diff_hist(ref.hist, t.hist)
        if bad:
            return [V("live-argument", "reusing the caller's oe0 array during the mission changed it: %s" % bad)], info
    # ---- the caller reuses its arrays
    snap = snapshot(prob)
    lists = {k: getattr(prob, k, None) for k in world.HIST}
    for k, o in owners.items():
        if isinstance(o, np.ndarray):
            o[...] = 7.77
        elif isinstance(o, list):
            o[:] = [7.77] * len(o)
    c_ = changed(snap, prob, False)
    if c_:
        return [V("aliased", "after the caller reused its arrays: recorded %s" % c_)], info
    # ---- another solve
    o2 = clean(m if plan["same_again"] else plan["other"])
    o2.pop("faults", None)
    world.assign_cfg(prob, o2)
    prob2_args = world.problem_kwargs(o2)
    b2 = {k: finger(v) for k, v in prob2_args.items() if isinstance(v, (list, tuple, np.ndarray))}
    world.fly(prob, o2, kwargs=prob2_args)
    for k, f in b2.items():
        if finger(prob2_args[k]) != f:
            return [V("argument", "second solve modified the caller's %s" % k)], info

    class Old:
        pass
    old = Old()
    for k, l in lists.items():
        setattr(old, k, l)
    for k in world.HIST:
        if lists[k] is not None and len(lists[k]) != len(snap[k]):
            return [V("old-lists", "a later solve() changed the length of the finished mission's %s: %d -> %d"
                      % (k, len(snap[k]), len(lists[k])))], info
    c_ = changed(snap, old, False)
    if c_:
        return [V("old-lists", "a later solve() altered the finished mission's lists: %s" % c_)], info
    for k in world.HIST:
        if isinstance(lists[k], list) and getattr(prob, k, None) is lists[k]:
            return [V("old-lists", "a later solve() records into the finished mission's %s list" % k)], info
    return out, info
