"""C13: missions on different objects, interleaved by a seeded line-level scheduler or nested in one
another's callbacks, must each equal the same mission flown alone."""
import copy
import hashlib
import os
import sys
import random
import threading
import numpy as np
from . import gen, world, oracles, profiles, engine
from .oracles import V

PROPS = ["C13"]
RUNS = {"C13": 700}
TIMEOUT = 200.0
RULE = {"C13": "one case = 2-4 missions on separate objects, flown alone (each in its own forked process) and then together: "
               "threads interleaved at every source line of pyqlaw and of its generated feedback law by a seeded scheduler, or "
               "nested inside callbacks; distinct by the sequence of context switches (thread, file, line); non-trivial = at "
               "least 4 switches between unfinished missions or at least one nested solve"}
STUBS = {"C13": {"real": ["pyqlaw.QLaw end to end", "generated feedback law functions", "CPython threads (one runnable at a time)"],
                 "stub": ["thread scheduler (settrace baton, seeded)", "disturbance models, threshold callables", "stdout"]}}
ASSUMPTIONS = {"C13": ["switches happen between source lines of Python code; numba-compiled functions are atomic because they "
                       "hold the GIL", "missions on different objects; one object is not shared between threads"]}


class Deadlock(Exception):
    pass


class Scheduler:
    """cooperative: exactly one thread holds the baton; at every traced line the seeded policy may pass it on"""

    def __init__(self, seed, policy, root):
        self.r = random.Random(seed)
        self.policy = policy
        self.root = root
        self.sems = []
        self.alive = []
        self.trace_log = hashlib.sha256()
        self.switches = 0
        self.lines = 0
        self.cur = None
        self.burst = 0

    def next_burst(self):
        p = self.policy
        if p["kind"] == "random":
            return 1 + int(self.r.expovariate(1.0 / p["mean"]))
        if p["kind"] == "rr":
            return p["mean"]
        # mostly long stretches, with storms of tiny ones
        return self.r.choice([1, 1, 2, 3, 5, p["mean"] * 10])

    def pick(self):
        live = [i for i, a in enumerate(self.alive) if a]
        if not live:
            return None
        if self.policy["kind"] == "rr":
            later = [i for i in live if i > (self.cur if self.cur is not None else -1)]
            return (later or live)[0]
        w = self.policy.get("weights")
        if w:
            return self.r.choices(live, [w[i % len(w)] for i in live])[0]
        return self.r.choice(live)

    def tracer(self, me):
        root = self.root

        def local(frame, event, arg):
            if event == "line":
                self.lines += 1
                self.burst -= 1
                if self.burst <= 0:
                    self.hand(me, frame.f_code.co_name, frame.f_lineno)
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(root) or fn.startswith("<lambdify"):
                return local
            return None
        return glob

    def hand(self, me, name, line):
        self.burst = self.next_burst()
        nxt = self.pick()
        if nxt is None or nxt == me:
            return
        self.switches += 1
        self.trace_log.update(("%d>%d@%s:%d;" % (me, nxt, name, line)).encode())
        self.cur = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()

    def run(self, fns):
        n = len(fns)
        self.sems = [threading.Semaphore(0) for _ in range(n)]
        self.alive = [True] * n
        errs = [None] * n
        done = threading.Semaphore(0)

        def body(i):
            self.sems[i].acquire()
            sys.settrace(self.tracer(i))
            try:
                fns[i]()
            except BaseException as e:       # harness errors only: fly() catches the mission's
                errs[i] = e
            finally:
                sys.settrace(None)
                self.alive[i] = False
                nxt = self.pick()
                if nxt is None:
                    done.release()
                else:
                    self.cur = nxt
                    self.burst = self.next_burst()
                    self.sems[nxt].release()
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in ths:
            t.start()
        self.cur = self.pick()
        self.burst = self.next_burst()
        self.sems[self.cur].release()
        if not done.acquire(timeout=150):
            raise Deadlock()
        for t in ths:
            t.join()
        for e in errs:
            if e is not None:
                raise e


def gen_plan(prop, r):
    mode = "nested" if r.random() < 0.35 else "threads"
    k = r.choice([2, 2, 2, 3, 4]) if mode == "threads" else r.choice([2, 2, 3])
    et = r.choice([None, None, "mee_with_a", "keplerian"])
    steps = (4, 14) if mode == "threads" else (5, 25)
    ms = []
    for i in range(k):
        m = gen.gen_mission(r, et=et, steps=steps, env=0.7 if mode == "threads" else 0.85, eta=0.6, prelude=False, nan=0.1)
        ms.append(m)
    share = {"target": r.random() < 0.5, "eta": r.random() < 0.5, "env": r.random() < 0.5, "all": r.random() < 0.25}
    if share["all"]:
        for i in range(1, k):            # the same problem flown several times at once
            keep = ms[i]["prob"]["oe0"], ms[i]["cfg"].get("rpmin")
            ms[i] = copy.deepcopy(ms[0])
            x = r.random()
            if x < 0.35:
                ms[i]["prob"]["tmax"] *= r.choice([1.0, 0.5, 2.0])
            elif x < 0.85:
                ms[i] = gen.variant(r, ms[i])
    if share["target"]:
        for m in ms[1:]:
            if m["cfg"]["elements_type"] == ms[0]["cfg"]["elements_type"]:
                m["prob"]["oeT"] = list(ms[0]["prob"]["oeT"])
    plan = {"kind": mode, "ms": ms, "share": share}
    if mode == "threads":
        plan["sched"] = {"seed": r.getrandbits(48),
                         "policy": {"kind": r.choice(["random", "random", "rr", "storm"]),
                                    "mean": r.choice([1, 2, 3, 7, 20, 60, 200]),
                                    "weights": r.choice([None, None, [5, 1, 1, 1]])}}
    else:
        plan["nest"] = [{"in": 0, "site": r.choice(["eta_a", "eta_r", "ptrb", "ptrb", "lyap"]),
                         "step": r.choice([0, 1, r.randint(0, 10)]), "run": r.randint(1, k - 1)}
                        for _ in range(r.choice([1, 2, 3]))]
        if k == 3 and r.random() < 0.6:
            plan["nest"].append({"in": 1, "site": r.choice(["ptrb", "lyap"]), "step": r.randint(0, 4), "run": 2})
    return plan


def shrink(prop, plan):
    out = []
    if len(plan["ms"]) > 2:
        for i in range(len(plan["ms"])):
            p = copy.deepcopy(plan)
            p["ms"].pop(i)
            if plan["kind"] == "nested":
                p["nest"] = [n for n in p["nest"] if n["in"] != i and n["run"] != i]
                for n in p["nest"]:
                    for kk in ("in", "run"):
                        n[kk] -= n[kk] > i
                if not p["nest"]:
                    continue
            out.append(p)
    if plan["kind"] == "nested":
        for j in range(len(plan["nest"])):
            if len(plan["nest"]) > 1:
                p = copy.deepcopy(plan)
                p["nest"].pop(j)
                out.append(p)
            if plan["nest"][j]["step"] > 0:
                p = copy.deepcopy(plan)
                p["nest"][j]["step"] //= 2
                out.append(p)
    else:
        for mean in (10000, 1000, 200, 60, 20):
            if mean > plan["sched"]["policy"]["mean"]:
                p = copy.deepcopy(plan)
                p["sched"]["policy"].update(kind="random", mean=mean)
                out.append(p)
        if plan["sched"]["policy"]["kind"] != "rr":
            p = copy.deepcopy(plan)
            p["sched"]["policy"].update(kind="rr", weights=None)
            out.append(p)
    for k in ("target", "eta", "env", "all"):
        if plan["share"][k]:
            p = copy.deepcopy(plan)
            p["share"][k] = False
            out.append(p)
    return out


# --------------------------------------------------------------------------- flying with shared pieces
class PureEnv:
    """a disturbance model without per-mission state, so that it can be shared"""

    def __init__(self, segs, tick=None):
        self.segs = segs

    def get_perturbations_RTN(self, t, oe, elements_type):
        return world.env_value(self.segs, float(t)) * (1.0 + 0.1 * float(oe[1]))


def pure_eta(s):
    if s is None or s["k"] == "const":
        return None if s is None else float(s["v"])
    import math

    def fun(t, oe, mass, battery):
        import math
        v = float(s.get("c", 0.0))
        if s.get("t"):
            w = s["t"]
            v += w[0] * math.sin(w[1] * float(t) + w[2])
        v += s.get("m", 0.0) * float(mass) + s.get("b", 0.0) * float(battery)
        if s.get("oe"):
            v += s["oe"][1] * math.sin(float(oe[s["oe"][0]]))
        return min(max(v, -0.2), 1.2)
    return fun


class Fleet:
    """objects and arguments of one plan; sharing as the plan says"""

    def __init__(self, plan, pyqlaw, only=None):
        self.plan = plan
        sh = plan["share"]
        ms = plan["ms"]
        envs, etas, targets = {}, {}, {}
        self.objs, self.kw, self.eta = [], [], []
        for i, m in enumerate(ms):
            env = None
            if m["env"]["mode"] == "sim":
                key = "shared" if sh["env"] else i
                env = envs.setdefault(key, PureEnv(m["env"]["segs"]))
                env = HookEnv(env, self, i) if plan["kind"] == "nested" else env
            self.objs.append(world.build(m, pyqlaw, perturbations=env) if only in (None, i) else None)
            kw = world.problem_kwargs(m)
            if sh["target"]:
                key = tuple(m["prob"]["oeT"])
                kw["oeT"] = targets.setdefault(key, kw["oeT"])
            self.kw.append(kw)
            e = {}
            for w in "ar":
                s = m["eta"].get(w)
                if s is None:
                    continue
                key = ("shared", w) if sh["eta"] else (i, w)
                v = etas.setdefault(key, pure_eta(s))
                if plan["kind"] == "nested" and callable(v):
                    v = HookEta(v, self, i, "eta_" + w)
                e["eta_" + w] = v
            self.eta.append(e)
        self.count = {}
        self.hist = {}
        self.err = {}
        self.nested = []
        self.depth = 0

    # -- nested solves
    def at(self, i, site):
        k = self.count.get((i, site), -1) + 1
        self.count[(i, site)] = k
        if k > 200000:
            raise world.Budget()
        for j, nst in enumerate(self.plan.get("nest", [])):
            if nst["in"] == i and nst["site"] == site and nst["step"] == k and j not in self.nested and self.depth < 3:
                self.nested.append(j)
                self.depth += 1
                try:
                    self.fly(nst["run"], ("nested", j))
                finally:
                    self.depth -= 1

    def fly(self, i, key=None, flying=None):
        key = key if key is not None else i
        m = self.plan["ms"][i]
        prob = self.objs[i]
        if isinstance(key, tuple):        # the mission may be flown more than once: use its own object
            prob = world.build(m, sys.modules["pyqlaw"], perturbations=None if m["env"]["mode"] != "sim" else self.objs[i].perturbations)
        if self.plan["kind"] == "nested":
            inner = prob.lyap_fun
            fleet = self

            def lyap(*a, **k):
                fleet.at(i, "lyap")
                return inner(*a, **k)
            prob.lyap_fun = lyap
        status = "ok"
        try:
            prob.set_problem(**self.kw[i])
            prob.solve(**self.eta[i])
        except BaseException as e:
            status = "raised %s: %s" % (type(e).__name__, e)
        finally:
            if self.plan["kind"] == "nested":
                prob.lyap_fun = inner
        self.hist[key] = (status, world.history(prob), i)


class HookEnv:
    def __init__(self, env, fleet, i):
        self.env, self.fleet, self.i = env, fleet, i

    def get_perturbations_RTN(self, t, oe, elements_type):
        self.fleet.at(self.i, "ptrb")
        return self.env.get_perturbations_RTN(t, oe, elements_type)


class HookEta:
    def __init__(self, f, fleet, i, site):
        self.f, self.fleet, self.i, self.site = f, fleet, i, site

    def __call__(self, t, oe, mass, battery):
        self.fleet.at(self.i, self.site)
        return self.f(t, oe, mass, battery)


def digests(h):
    d = {k: hashlib.sha256((h[k].tobytes() + repr((h[k].shape, str(h[k].dtype))).encode()) if isinstance(h[k], np.ndarray)
                           else repr(h[k]).encode()).hexdigest()[:16] for k in world.HIST}
    d["outcome"] = repr((h["exitcode"], h["converge"]))
    return d


def run_plan(prop, plan, pyqlaw):
    n = len(plan["ms"])
    quiet = world.SimOut()

    def solo(i):
        p = copy.deepcopy(plan)
        p["nest"] = []
        with world.contextlib.redirect_stdout(world.SimOut()):
            f = Fleet(p, pyqlaw, only=i)
            f.fly(i)
        st, h, _ = f.hist[i]
        return {"st": st, "d": digests(h), "n": len(h["times"]) if isinstance(h["times"], np.ndarray) else 0,
                "tf": float(abs(h["times"][-1])) if isinstance(h["times"], np.ndarray) else 0.0}
    alone = [engine.in_child(lambda i=i: solo(i), 60.0) for i in range(n)]
    for a in alone:
        if "d" not in a:
            raise RuntimeError("solo mission failed in the harness: %s" % a)
    out = []
    info = {"fired": {}, "exit": None, "steps": sum(a["n"] for a in alone), "sim_time": sum(
        a["tf"] / (2 * np.pi * np.sqrt(abs(m["prob"]["oe0"][0]) ** 3 / m["cfg"].get("mu", 1.0))) for a, m in zip(alone, plan["ms"]))}
    with world.contextlib.redirect_stdout(quiet):
        fleet = Fleet(plan, pyqlaw)
        if plan["kind"] == "threads":
            root = os.path.dirname(os.path.abspath(pyqlaw.__file__)) + os.sep
            s = Scheduler(plan["sched"]["seed"], plan["sched"]["policy"], root)
            try:
                s.run([lambda i=i: fleet.fly(i) for i in range(n)])
            except Deadlock:
                return [V("deadlock", "the missions never finished when run together")], info
            info["fired"]["context_switches"] = s.switches
            info["fired"]["traced_lines"] = s.lines
            info["sched"] = s.trace_log.hexdigest()[:16]
            info["nontrivial"] = s.switches >= 4
        else:
            fleet.fly(0)
            info["fired"]["nested_solves"] = len(fleet.nested)
            info["sched"] = "nest:%s:%s" % (sorted(fleet.nested), hashlib.sha256(repr(plan["nest"]).encode()).hexdigest()[:12])
            info["nontrivial"] = len(fleet.nested) > 0
    for key in sorted(fleet.hist, key=str):
        st, h, i = fleet.hist[key]
        d = digests(h)
        if st != alone[i]["st"]:
            out.append(V("status", "mission %d %s when flown with others, %s alone" % (i, st, alone[i]["st"])))
            break
        bad = [k for k in d if d[k] != alone[i]["d"][k]]
        if bad:
            out.append(V("interference", "mission %d (%s) differs from the same mission flown alone: %s; %d steps recorded, %d alone"
                         % (i, plan["kind"], bad, len(h["times"]) - 1, alone[i]["n"] - 1)))
            break
    info["sig"] = info.get("sched")
    info["digest"] = hashlib.sha256((repr(sorted((str(k), digests(v[1])) for k, v in fleet.hist.items())) + str(info.get("sched"))).encode()).hexdigest()[:16]
    return out, info
