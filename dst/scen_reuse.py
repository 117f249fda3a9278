"""C14: a mission's result depends only on its own settings: not on what the object did before, not on how the
settings were given, not on the process."""
import copy
import hashlib
import json
import os
import subprocess
import sys
import numpy as np
from . import gen, world, profiles, engine
from .oracles import V
from .scen_abort import pick_fault, first_diff, clean

PROPS = ["C14"]
RUNS = {"C14": 700}
TIMEOUT = 300.0
N_PROC = 3           # runs with index < N_PROC compare across processes
RULE = {"C14": "one case = one sequence of operations on one object (solve / aborted solve / abandoned set_problem / "
               "reconfiguration by assignment / reports), ending in a mission compared with a fresh object's; or one list of "
               "missions flown in fresh processes with different hash seeds and in different orders; distinct by (operation "
               "kinds, mode signature of the final mission); non-trivial = at least one earlier operation"}
OPS = ["solve", "solve", "abort", "set", "config", "report", "twice", "variant", "variant"]


def gen_plan(prop, r):
    if getattr(r, "index", N_PROC) < N_PROC:
        ms = []
        for i in range(16):
            ms.append(gen.gen_mission(r, steps=(8, 40), prelude=False, eta=0.5, env=0.4))
        return {"kind": "process", "ms": ms, "hashseed": r.choice(["1", "77", "4242", "31337"])}
    want = dict(steps=(5, 40), prelude=False, env=0.4, eta=0.45, conv=0.4, close=0.35, nan=0.25, massfloor=0.25, duty=0.4,
                battery=0.45)
    m = gen.gen_mission(r, **want)
    et = m["cfg"]["elements_type"]
    ops = []
    n = r.randint(1, 5)
    for j in range(n):
        k = r.choice(OPS)
        if j == n - 1 and r.random() < 0.35:
            k = "variant"
        o = {"op": k}
        if k == "variant":              # the final mission itself but for a few settings
            o["m"] = gen.variant(r, m, r.choice([None, None, ["woe", "wp", "rpmin", "petro"]]))
            if r.random() < 0.4:        # cut short: what it leaves behind is close to where the final mission starts
                o["m"]["prob"]["tf_max"] = abs(o["m"]["prob"]["t_step"]) * r.choice([0.5, 0.5, 1.5, 3.5])
        if k in ("solve", "abort", "set", "config"):
            o["m"] = gen.gen_mission(r, et=et, **dict(want, steps=(4, 25)))
            if r.random() < 0.3:        # same settings, another problem: stale configuration would not show
                o["m"]["cfg"] = copy.deepcopy(m["cfg"])
            if k == "abort":
                o["fault"] = pick_fault(r, o["m"], 12, 0.25)
        ops.append(o)
    return {"kind": "reuse", "m": m, "ops": ops, "reset": r.random() < 0.5, "ctor": r.choice(["default", "first", "same"]),
            "own": r.random() < 0.7}


def shrink(prop, plan):
    out = []
    if plan["kind"] == "process":
        n = len(plan["ms"])
        if n > 1:
            for part in (plan["ms"][:n // 2], plan["ms"][n // 2:]):
                p = copy.deepcopy(plan)
                p["ms"] = copy.deepcopy(part)
                out.append(p)
        return out
    for j in range(len(plan["ops"])):
        p = copy.deepcopy(plan)
        p["ops"].pop(j)
        out.append(p)
    if plan["ctor"] != "same":
        p = copy.deepcopy(plan)
        p["ctor"] = "same"
        out.append(p)
    return out


def report_op(prob):
    for f in (lambda: prob.pretty(), lambda: prob.pretty_results(), lambda: prob.pretty_settings(),
              lambda: prob.get_cartesian_history(), lambda: prob.save_to_dict(None),
              lambda: prob.get_cartesian_history(interpolate=True, steps=7, kind="linear")):
        try:
            with world.contextlib.redirect_stdout(world.SimOut()):
                f()
        except Exception:
            pass


def run_plan(prop, plan, pyqlaw):
    if plan["kind"] == "process":
        return run_process(plan, pyqlaw)
    m = clean(plan["m"])
    et = m["cfg"]["elements_type"]
    # the reference flies in its own forked process
    ref = engine.in_child(lambda: ref_run(m, pyqlaw), 120.0)
    if "d" not in ref:
        raise RuntimeError("reference failed in the harness: %s" % ref)
    if plan["ctor"] == "same":
        prob = world.build(m, pyqlaw)
    elif plan["ctor"] == "first" and any("m" in o for o in plan["ops"]):
        prob = world.build([o for o in plan["ops"] if "m" in o][0]["m"], pyqlaw)
    else:
        prob = pyqlaw.QLaw(elements_type=et)
    names = []
    fired = {}
    for o in plan["ops"]:
        names.append(o["op"])
        if o["op"] in ("solve", "abort", "variant"):
            world.assign_cfg(prob, o["m"])
            mm = clean(o["m"])
            if o["op"] == "abort":
                mm["faults"] = [o["fault"]]
            t = world.fly(prob, mm)
            for k, c in t.probe.fired.items():
                fired[k] = fired.get(k, 0) + c
        elif o["op"] == "set":
            prob.set_problem(**world.problem_kwargs(o["m"]))
        elif o["op"] == "config":
            world.assign_cfg(prob, o["m"])
        elif o["op"] == "report":
            report_op(prob)
        elif o["op"] == "twice" and getattr(prob, "ready", False):
            prob.perturbations = None
            with world.contextlib.redirect_stdout(world.SimOut()):
                try:
                    prob.solve()
                except Exception:
                    pass
        fired["op:" + o["op"]] = fired.get("op:" + o["op"], 0) + 1
    out = []
    # settings and problem in either order
    if plan["reset"]:
        world.assign_cfg(prob, m)
        t = world.fly(prob, m, own_seams=plan["own"] or bool(m.get("nan")))
    else:
        prob.set_problem(**world.problem_kwargs(m))
        world.assign_cfg(prob, m)
        t = world.fly(prob, m, set_problem=False, own_seams=plan["own"] or bool(m.get("nan")))
    info = profiles.summarise(t)
    d = dig(t)
    info["digest"] = world.digest(t.hist)
    for k, c in fired.items():
        info["fired"][k] = info["fired"].get(k, 0) + c
    info["nontrivial"] = len(plan["ops"]) > 0
    info["sig"] = hashlib.sha256((str(info.get("sig")) + "|" + ",".join(names) + plan["ctor"]).encode()).hexdigest()[:16]
    bad = [k for k in d if d[k] != ref["d"][k]]
    if bad:
        f = world.fly(world.build(m, pyqlaw), m)
        out.append(V("reuse", "after %s (object constructed with %s settings) the mission differs from a fresh object's: %s"
                     % (names, plan["ctor"], first_diff(f.hist, t.hist, world.diff_hist(f.hist, t.hist)) + " " + str(bad))))
    if not out:
        # once more without touching anything
        t2 = world.fly(prob, m, set_problem=False, own_seams=plan["own"] or bool(m.get("nan")))
        d2 = dig(t2)
        bad = [k for k in d2 if d2[k] != ref["d"][k]]
        if bad:
            out.append(V("again", "solving the same problem again on the same object gives another result: %s"
                         % first_diff(t.hist, t2.hist, world.diff_hist(t.hist, t2.hist))))
    return out, info


def dig(t):
    from .scen_threads import digests
    d = digests(t.hist)
    d["status"] = t.status if t.status != "raised" else "raised %s: %s" % (type(t.error).__name__, t.error)
    return d


def ref_run(m, pyqlaw):
    t = world.fly(world.build(m, pyqlaw), m)
    return {"d": dig(t)}


# --------------------------------------------------------------------------- across processes
def run_process(plan, pyqlaw):
    ms = [clean(m) for m in plan["ms"]]
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=plan["hashseed"], VERIF_CHILD="1")
    args = [sys.executable, "-W", "ignore", "-m", "dst.scen_reuse"]
    order = list(range(len(ms)))[::-1]
    p = subprocess.run(args, input=json.dumps({"ms": ms, "order": order}), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       universal_newlines=True, cwd=engine.VERIF, env=env, timeout=250)
    if p.returncode != 0:
        raise RuntimeError("fresh process failed: %s" % p.stderr[-2000:])
    got = json.loads(p.stdout.splitlines()[-1])
    out = []
    steps = 0
    for i, m in enumerate(ms):
        ref = engine.in_child(lambda m=m: ref_run(m, pyqlaw), 120.0)
        d = got[str(i)]
        bad = [k for k in d if d[k] != ref["d"][k]]
        if bad:
            out.append(V("process", "mission %d flown in a fresh process (PYTHONHASHSEED=%s, missions in reverse order) differs: %s"
                         % (i, plan["hashseed"], bad)))
            break
    info = {"fired": {"fresh_process": 1}, "steps": steps, "sim_time": 0.0, "exit": None, "nontrivial": True,
            "sig": "process:" + plan["hashseed"], "digest": hashlib.sha256(json.dumps(got, sort_keys=True).encode()).hexdigest()[:16]}
    return out, info


def main():
    body = json.load(sys.stdin)
    pyqlaw = engine.load()
    res = {}
    for i in body["order"]:
        t = world.fly(world.build(body["ms"][i], pyqlaw), body["ms"][i])
        res[str(i)] = dig(t)
    print(json.dumps(res))


if __name__ == "__main__":
    sys.path.insert(0, engine.VERIF)
    main()
