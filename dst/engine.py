"""Batches of simulated runs: warm-up, a hermetic forked process per run, minimisation, replay files,
evidence.  The verdict depends only on (VERIF_SEED, tier, code); worker count and timing do not enter."""
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", VERIF)       # evidence/ and replays/ go here
KNOWN = os.path.join(VERIF, "known_findings.txt")

SCENARIOS = {}        # property -> module providing gen_plan(prop, r), run_plan(prop, plan, pyqlaw)


def scenario(prop):
    if not SCENARIOS:
        from . import profiles
        for p in profiles.PROFILES:
            SCENARIOS[p] = profiles
        for name in ("scen_spice", "scen_abort", "scen_threads", "scen_reuse", "scen_alias", "scen_export",
                     "scen_cart", "scen_report", "scen_plot", "scen_converge", "scen_units", "scen_resume", "scen_turns"):
            try:
                mod = importlib.import_module("dst." + name)
            except ModuleNotFoundError as e:
                if e.name != "dst." + name:
                    raise
                continue
            for p in mod.PROPS:
                SCENARIOS[p] = mod
    return SCENARIOS[prop]


# ----------------------------------------------------------------------------- process set-up
def load():
    """import pyqlaw from the working tree, with the symbolic derivation memoised per process"""
    warnings.filterwarnings("ignore")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all="ignore")
    import matplotlib
    matplotlib.use("Agg")
    import pyqlaw
    if not os.path.abspath(pyqlaw.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("pyqlaw came from %s, not from %s" % (pyqlaw.__file__, REPO))
    warnings.filterwarnings("ignore")
    memoise(pyqlaw)
    return pyqlaw


def memoise(pyqlaw):
    """symbolic_qlaw_*() takes seconds and is a pure function of its arguments: derive once per process"""
    from pyqlaw import _symbolic
    for name in ("symbolic_qlaw_keplerian", "symbolic_qlaw_mee_with_a"):
        orig = getattr(_symbolic, name, None)
        if orig is None or getattr(orig, "_memo", None) is not None:
            continue
        memo = {}

        def wrapper(*a, __o=orig, __m=memo, **k):
            key = (a, tuple(sorted(k.items())))
            if key not in __m:
                __m[key] = __o(*a, **k)
            return __m[key]
        wrapper._memo = memo
        for modname, mod in list(sys.modules.items()):
            if modname.startswith("pyqlaw") and getattr(mod, name, None) is orig:
                setattr(mod, name, wrapper)


WARM = [
    {"cfg": {"elements_type": "mee_with_a", "integrator": i, "use_sundman": True},
     "prob": {"oe0": [1.0, 0.1, 0.2, 0.1, 0.1, 0.3], "oeT": [1.2, 0.1, 0.2, 0.15, 0.1], "mass0": 1.0, "tmax": 1e-3,
              "mdot": 1e-3, "tf_max": 0.5, "t_step": 0.1}, "eta": {"a": {"k": "const", "v": 0.1}},
     "env": {"mode": "sim", "segs": []}} for i in ("rk4", "rkf45")] + [
    {"cfg": {"elements_type": "keplerian", "integrator": i, "use_sundman": True},
     "prob": {"oe0": [1.0, 0.1, 0.2, 0.5, 0.5, 0.3], "oeT": [1.2, 0.1, 0.2, 0.6, 0.7], "mass0": 1.0, "tmax": 1e-3,
              "mdot": 1e-3, "tf_max": 0.5, "t_step": 0.1}, "eta": {"a": {"k": "const", "v": 0.1}},
     "env": {"mode": "sim", "segs": []}} for i in ("rk4", "rkf45")]


def warm(pyqlaw, prop):
    from . import world
    for m in WARM:
        # in this process nothing may raise through: a broken tree is judged by the runs
        try:
            world.run_mission(copy.deepcopy(m), pyqlaw)
        except BaseException:
            pass
    mod = scenario(prop)
    if hasattr(mod, "warm"):
        try:
            mod.warm(pyqlaw)
        except BaseException:
            traceback.print_exc()


# ----------------------------------------------------------------------------- one run
def one(prop, plan, pyqlaw):
    """-> JSON-able result of one run; exceptions in here are errors of the harness"""
    try:
        vs, info = scenario(prop).run_plan(prop, plan, pyqlaw)
        return {"v": vs, "info": info}
    except BaseException as e:
        where = escaped(e)
        if where:
            return {"v": [{"cls": "unexpected-exception", "step": None, "msg": "%s: %s escaped from pyqlaw (%s) where nothing "
                           "was injected" % (type(e).__name__, str(e)[:200], where)}], "info": {}}
        return {"harness": traceback.format_exc()[-3000:]}


def escaped(e):
    """name of the pyqlaw function an exception came out of: its innermost frames, back to the last frame of this
    framework, include code of the repository (a wrong call made by the framework itself raises in a framework frame)"""
    res = None
    pkg = os.path.join(os.path.abspath(REPO), "pyqlaw") + os.sep
    for f, _ in traceback.walk_tb(e.__traceback__):
        name = os.path.abspath(f.f_code.co_filename)
        if name.startswith(VERIF + os.sep):
            res = None
        elif name.startswith(pkg):
            res = f.f_code.co_name
    return res


def plan_for(prop, seed, i):
    from . import gen
    r = random.Random(gen.derive(seed, prop, i))
    r.index = i
    return scenario(prop).gen_plan(prop, r)


def in_child(fn, timeout):
    """run fn() in a forked child; returns its JSON result, {'hang':..} or {'crash':..}"""
    rfd, wfd = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            gc.disable()
            data = json.dumps(fn(), default=str).encode()
            with os.fdopen(wfd, "wb") as f:
                f.write(data)
        except BaseException:
            try:
                sys.stderr.write(traceback.format_exc())
            except BaseException:
                pass
        finally:
            os._exit(0)
    os.close(wfd)
    buf = b""
    deadline = time.monotonic() + timeout
    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        ready, _, _ = select.select([rfd], [], [], min(left, 5))
        if ready:
            x = os.read(rfd, 1 << 16)
            if not x:
                break
            buf += x
    os.close(rfd)
    if hang:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        return {"hang": timeout}
    _, st = os.waitpid(pid, 0)
    if not buf:
        return {"crash": st}
    return json.loads(buf)


def workers():
    try:
        return max(1, min(int(os.environ.get("VERIF_WORKERS", "0")) or len(os.sched_getaffinity(0)), 16))
    except Exception:
        return 4


def pmap(jobs, fn, timeout, wall=None):
    """[(key, arg)] -> {key: result}; fn(arg) runs in a hermetic forked child of a forked worker"""
    W = min(workers(), max(1, len(jobs)))
    pipes = []
    t0 = time.monotonic()
    for w in range(W):
        rfd, wfd = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                for fd, _ in pipes:
                    os.close(fd)
                with os.fdopen(wfd, "wb") as f:
                    for key, arg in jobs[w::W]:
                        if wall is not None and time.monotonic() - t0 > wall:
                            break
                        res = in_child(lambda: fn(arg), timeout)
                        f.write(json.dumps([key, res]).encode() + b"\n")
                        f.flush()
            finally:
                os._exit(0)
        os.close(wfd)
        pipes.append((rfd, pid))
    bufs = {fd: b"" for fd, _ in pipes}
    open_ = set(bufs)
    while open_:
        ready, _, _ = select.select(list(open_), [], [], 10)
        for fd in ready:
            x = os.read(fd, 1 << 16)
            if x:
                bufs[fd] += x
            else:
                open_.discard(fd)
    out = {}
    for fd, pid in pipes:
        os.close(fd)
        os.waitpid(pid, 0)
        for line in bufs[fd].splitlines():
            try:
                key, res = json.loads(line)
                out[key if not isinstance(key, list) else tuple(key)] = res
            except ValueError:
                pass
    return out


# ----------------------------------------------------------------------------- minimisation
def missions_of(plan):
    """every mission description inside a plan (dict reference)"""
    res = []

    def walk(x):
        if isinstance(x, dict):
            if "cfg" in x and "prob" in x:
                res.append(x)
            for k in sorted(x):
                walk(x[k])
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(plan)
    return res


def mission_edits(m):
    """(name, edit) simplifications of a mission description"""
    ed = []

    def drop(d, k):
        return lambda mm: mm[d].pop(k, None) if d else mm.pop(k, None)
    if m.get("prelude"):
        ed.append(("no prelude", drop(None, "prelude")))
    if m.get("nan"):
        ed.append(("no outages", drop(None, "nan")))
        for i in range(len(m["nan"])):
            if len(m["nan"]) > 1:
                ed.append(("drop outage", lambda mm, i=i: mm["nan"].pop(i)))
            if m["nan"][i][1] - m["nan"][i][0] > 1:
                ed.append(("shorten outage", lambda mm, i=i: mm["nan"].__setitem__(
                    i, [mm["nan"][i][0], (mm["nan"][i][0] + mm["nan"][i][1]) // 2])))
    env = m.get("env") or {}
    if env.get("mode") == "sim":
        if env["segs"]:
            ed.append(("no gusts", lambda mm: mm["env"].__setitem__("segs", [])))
        for i in range(len(env["segs"])):
            if len(env["segs"]) > 1:
                ed.append(("drop gust", lambda mm, i=i: mm["env"]["segs"].pop(i)))
            if "w" in env["segs"][i]:
                ed.append(("steady gust", lambda mm, i=i: (mm["env"]["segs"][i].pop("w"), mm["env"]["segs"][i].pop("phi"))))
        ed.append(("no environment", lambda mm: mm.__setitem__("env", {"mode": "none"})))
    if m.get("eta"):
        ed.append(("no thresholds", lambda mm: mm.__setitem__("eta", {})))
        for w in "ar":
            s = m["eta"].get(w)
            if s and s["k"] == "fn":
                ed.append(("constant threshold", lambda mm, w=w: mm["eta"].__setitem__(w, {"k": "const", "v": max(0.0, mm["eta"][w].get("c", 0.1))})))
                for k in ("t", "oe", "b", "m", "ret"):
                    if k in s:
                        ed.append(("simpler threshold", lambda mm, w=w, k=k: mm["eta"][w].pop(k)))
            if s and s["k"] == "const" and s["v"] != 0.0:
                ed.append(("zero threshold", lambda mm, w=w: mm["eta"].__setitem__(w, {"k": "const", "v": 0.0})))
    c, p = m["cfg"], m["prob"]
    for k in ("duty_cycle", "woe", "container", "require_full_recharge"):
        if k in p:
            ed.append(("default " + k, drop("prob", k)))
    if "battery_capacity" in p:
        ed.append(("no battery", lambda mm: [mm["prob"].pop(k, None) for k in (
            "battery_capacity", "battery_initial", "battery_charge_discharge_rate", "require_full_recharge")]))
    for k in ("integrator", "verbosity", "print_frequency", "k_petro", "wp", "m_petro", "n_petro", "r_petro",
              "b_petro", "anomaly_grid_size", "tol_oe", "relaxed_tol_factor", "exit_at_relaxed",
              "nan_angles_threshold", "oe_min", "oe_max", "use_sundman"):
        if k in c:
            ed.append(("default " + k, drop("cfg", k)))
    if len(p["oeT"]) == 6:
        ed.append(("five target elements", lambda mm: mm["prob"]["oeT"].pop()))
    for j in range(len(m.get("faults", []))):
        if len(m["faults"]) > 1:
            ed.append(("drop fault", lambda mm, j=j: mm["faults"].pop(j)))
    if p.get("mdot"):
        ed.append(("no propellant use", lambda mm: mm["prob"].__setitem__("mdot", 0.0)))
    tf = p.get("tf_max")
    if tf:
        for q in (0.1, 0.3, 0.6, 0.85):
            ed.append(("shorter", lambda mm, q=q: mm["prob"].__setitem__("tf_max", mm["prob"]["tf_max"] * q)))
    for key in ("oe0", "oeT"):
        for j in range(len(p[key])):
            x = p[key][j]
            y = float("%.3g" % x)
            if y != x:
                ed.append(("round " + key, lambda mm, key=key, j=j, y=y: mm["prob"][key].__setitem__(j, y)))
    return ed


def size(plan):
    return len(json.dumps(plan))


def minimise(prop, plan, cls, pyqlaw, budget_s=60.0, timeout=60.0):
    t0 = time.monotonic()
    mod = scenario(prop)
    tried = 0

    def candidates(pl):
        res = []
        if hasattr(mod, "shrink"):
            for cand in mod.shrink(prop, copy.deepcopy(pl)):
                res.append(cand)
        n = len(missions_of(pl))
        for mi in range(n):
            for name, ed in mission_edits(missions_of(pl)[mi]):
                c2 = copy.deepcopy(pl)
                try:
                    ed(missions_of(c2)[mi])
                except Exception:
                    continue
                res.append(c2)
        return res

    seen = {json.dumps(plan, sort_keys=True)}
    progress = True
    while progress and time.monotonic() - t0 < budget_s:
        progress = False
        cands = []
        for c2 in candidates(plan):
            key = json.dumps(c2, sort_keys=True)
            if key not in seen:
                seen.add(key)
                cands.append(c2)
        W = workers() * 2
        for b in range(0, len(cands), W):
            if time.monotonic() - t0 > budget_s:
                break
            chunk = cands[b:b + W]
            res = pmap([(i, c2) for i, c2 in enumerate(chunk)], lambda pl: one(prop, pl, pyqlaw), timeout)
            tried += len(chunk)
            hit = [i for i in range(len(chunk)) if any(v["cls"] == cls for v in res.get(i, {}).get("v", []))]
            if hit:
                plan = chunk[hit[0]]
                progress = True
                break
    return plan, tried


# ----------------------------------------------------------------------------- known findings
def known_findings(prop):
    """lines 'finding: property=<id> key=<violation class>/<plan digest> <what fails>' suppress exactly
    that run's violation; 'fixed:' lines suppress nothing"""
    res = {}
    try:
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:") and ("property=%s " % prop) in line:
                key = [w for w in line.split() if w.startswith("key=")][0][4:]
                res[key] = line[len("finding:"):].strip()
    except FileNotFoundError:
        pass
    return res


def plan_key(plan, cls):
    return cls + "/" + hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:16]


# ----------------------------------------------------------------------------- the check
TIERS = {"quick": 1.0, "thorough": 12.0}
DEFAULT_RUNS = 1500


def check(prop, tier, seed, runs=None):
    t_start = time.monotonic()
    pyqlaw = load()
    mod = scenario(prop)
    warm(pyqlaw, prop)
    t_warm = time.monotonic() - t_start
    n = runs or int(getattr(mod, "RUNS", {}).get(prop, DEFAULT_RUNS) * TIERS[tier])
    timeout = getattr(mod, "TIMEOUT", 120.0)
    wall = 620.0 if tier == "quick" else 6 * 3600.0
    res = pmap([(i, i) for i in range(n)], lambda i: one(prop, plan_for(prop, seed, i), pyqlaw), timeout, wall)
    # a run that met its wall-clock limit (or was ended) is repeated alone before it counts: the limit is real time, on a machine
    # that may be busy
    for i in [i for i, r in sorted(res.items()) if "hang" in r or "crash" in r]:
        left = wall + 100.0 - (time.monotonic() - t_start)
        if left < 10.0:
            break
        res[i] = in_child(lambda: one(prop, plan_for(prop, seed, i), pyqlaw), min(2 * timeout, left))
        if "hang" in res[i]:
            res[i]["confirmed"] = True
            break
    t_runs = time.monotonic() - t_start - t_warm

    harness = [(i, r) for i, r in sorted(res.items()) if "harness" in r or "crash" in r]
    hangs = [(i, r) for i, r in sorted(res.items()) if "hang" in r]
    hangs.sort(key=lambda x: not x[1].get("confirmed"))
    viol = [(i, r["v"]) for i, r in sorted(res.items()) if r.get("v")]
    known = known_findings(prop)
    fresh, listed = [], []
    for i, vs in viol:
        plan = plan_for(prop, seed, i)
        for v in vs:
            key = plan_key(plan, v["cls"])
            (listed if key in known else fresh).append((i, plan, v, key))
    for i, plan, v, key in listed:
        print("KNOWN-FINDING: %s" % known[key])

    code = 0
    replay_path = None
    note = ""
    if fresh:
        first, runs_seen = fresh[0][0], []
        for i, plan, v, key in fresh:
            if i in runs_seen:
                continue
            runs_seen.append(i)
            if len(runs_seen) > 5 or replay_path:
                break
            print("run %d (seed %d): %s: %s" % (i, seed, v["cls"], v["msg"]))
            if i == first:
                small, tried = minimise(prop, plan, v["cls"], pyqlaw, 45.0 if tier == "quick" else 300.0)
            else:
                small, tried = plan, 0
            for cand in ([small, plan] if small != plan else [plan]):
                got = in_child(lambda: one(prop, cand, pyqlaw), timeout)
                vv = [x for x in got.get("v", []) if x["cls"] == v["cls"]]
                if not vv:
                    continue
                path = write_replay(prop, seed, i, cand, vv[0], tried)
                if reproduces(path):
                    replay_path = path
                    print("minimised with %d candidate runs from %d to %d characters: %s"
                          % (tried, size(plan), size(cand), vv[0]["msg"]))
                    break
        if replay_path:
            code = 1
        else:
            code = 2
            note = "violations in runs %s did not reproduce in a fresh process" % runs_seen
    elif hangs:
        i = hangs[0][0]
        if prop == "C02" and hangs[0][1].get("confirmed"):
            plan = plan_for(prop, seed, i)
            replay_path = write_replay(prop, seed, i, plan, {"cls": "hang", "msg": "run did not finish within %g s of wall time, twice"
                                                              % timeout, "step": None}, 0)
            code = 1
        else:
            code, note = 2, "run %d hung (wall timeout)" % i
    elif harness:
        code = 2
        note = "harness error in run %d:\n%s" % (harness[0][0], harness[0][1])
    elif not res:
        code, note = 2, "nothing ran"

    write_evidence(prop, tier, seed, mod, res, n, t_warm, t_runs, time.monotonic() - t_start, len(fresh), code, pyqlaw)
    done = len(res)
    print("%s %s seed=%d: %d/%d runs, %d violating, %d hung, %d harness errors, warm-up %.1fs, runs %.1fs"
          % (prop, tier, seed, done, n, len(viol), len(hangs), len(harness), t_warm, t_runs))
    if code == 1:
        print("VIOLATION property=%s replay=%s" % (prop, replay_path))
    elif code == 2:
        print("ERROR: " + note)
    sys.stdout.flush()
    return code


def write_replay(prop, seed, i, plan, v, tried):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "cls": v["cls"], "msg": v["msg"], "seed": seed, "run": i, "plan": plan,
            "minimiser_runs": tried}
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(plan, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def reproduces(path):
    import subprocess
    r = subprocess.run([sys.executable, "-W", "ignore", os.path.join(VERIF, "replay.py"), path],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    return r.returncode == 1


def replay(path):
    body = json.load(open(path))
    prop = body["property"]
    pyqlaw = load()
    mod = scenario(prop)
    if hasattr(mod, "warm"):
        mod.warm(pyqlaw)
    res = in_child(lambda: one(prop, body["plan"], pyqlaw), 600.0)
    if "harness" in res or "crash" in res:
        print("ERROR: %s" % res)
        return 2
    if "hang" in res:
        print("reproduced: hang")
        return 1 if body["cls"] == "hang" else 2
    for v in res["v"]:
        if v["cls"] == body["cls"]:
            print("reproduced: %s: %s" % (v["cls"], v["msg"]))
            print("same message as recorded: %s" % (v["msg"] == body["msg"]))
            return 1
    print("not reproduced (violations: %s)" % res["v"])
    return 0


# ----------------------------------------------------------------------------- evidence
def write_evidence(prop, tier, seed, mod, res, planned, t_warm, t_runs, wall, nviol, code, pyqlaw):
    infos = {i: r["info"] for i, r in res.items() if "info" in r}
    sigs = {}
    fired = {}
    steps = simt = 0
    nontrivial = set()
    sched = set()
    exits = {}
    for i, x in sorted(infos.items()):
        steps += x.get("steps", 0)
        simt += x.get("sim_time", 0.0)
        sigs[x.get("sig")] = sigs.get(x.get("sig"), 0) + 1
        if x.get("nontrivial"):
            nontrivial.add(x.get("sig"))
        if x.get("sched"):
            sched.add(x["sched"])
        for k, c in x.get("fired", {}).items():
            fired[k] = fired.get(k, 0) + c
        exits[str(x.get("exit"))] = exits.get(str(x.get("exit")), 0) + 1
    alldig = hashlib.sha256("".join("%d:%s;" % (i, x.get("digest")) for i, x in sorted(infos.items())).encode()).hexdigest()[:16]
    samples = []
    for i in sorted(infos)[:2]:
        plan = plan_for(prop, seed, i)
        samples.append({"run": i, "plan": plan, "result": {k: infos[i].get(k) for k in ("sig", "exit", "steps", "digest", "fired")}})
    stubs = getattr(mod, "STUBS", {}).get(prop, DEFAULT_STUBS)
    cov = {
        "evaluations": len(infos),
        "distinct_nontrivial": len(nontrivial),
        "rule": getattr(mod, "RULE", {}).get(prop, DEFAULT_RULE),
        "samples": samples,
        "runs_planned": planned,
        "simulated_runs_per_hour": int(len(infos) / max(t_runs, 1e-9) * 3600),
        "seeds_per_hour": int(len(infos) / max(t_runs, 1e-9) * 3600),
        "simulated_steps": steps,
        "simulated_time_orbit_revolutions": round(simt, 2),
        "fault_kinds_injected": dict(sorted(fired.items())),
        "exit_codes_seen": dict(sorted(exits.items())),
        "distinct_signatures": len(sigs),
        "distinct_interleavings": len(sched),
        "event_log_digest": alldig,
        "real_components": stubs["real"],
        "stubbed_components": stubs["stub"],
        "workers": workers(),
    }
    body = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
            "assumptions": getattr(mod, "ASSUMPTIONS", {}).get(prop, DEFAULT_ASSUMPTIONS),
            "wall_s": round(wall, 2), "violations": nviol}
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, "%s.json" % prop)
    with open(tmp, "w") as f:
        json.dump(body, f, indent=1, default=str)


DEFAULT_RULE = ("one case = one seeded simulated mission (plan: settings, problem, thresholds, disturbance schedule, "
                "guidance outages, earlier missions of the same object); counted distinct by mode signature = features + "
                "run-length-reduced sequence of (enabled, throttle, outage, battery floor, shortened, gust, clamped) + exit "
                "code; non-trivial = at least 3 steps and, for scheduling properties, at least 2 mode changes")
DEFAULT_STUBS = {
    "real": ["pyqlaw.QLaw (set_problem, solve, guidance, integrators, safeguarding, convergence)", "sympy/numba/numpy"],
    "stub": ["disturbance model (SpicePerturbations interface) driven by the plan", "eta_a/eta_r callables driven by the plan",
             "stdout", "guidance seam lyap_fun wrapped to inject undefined directions", "symbolic derivation memoised per process"],
}
DEFAULT_ASSUMPTIONS = [
    "histories are judged while the orbit stays elliptic (e < 0.97)",
    "comparisons whose outcome rounding could decide are accepted either way",
    "missions are sampled, not enumerated",
]
