"""The simulated world around pyqlaw: one mission = one JSON description, flown through the public
API, with every callback, the disturbance environment, the guidance seam and stdout owned here.

Nothing in this file draws random numbers or reads a clock: a mission is a pure function of its
description (the plan) and of the code in /repo.
"""
import io
import math
import os
import sys
import contextlib
import numpy as np

HIST = ("times", "states", "masses", "controls", "etas", "etas_bounds", "Qs", "dQdts", "battery")
CFG_ATTRS = ("mu", "rpmin", "k_petro", "m_petro", "n_petro", "r_petro", "b_petro", "wp", "integrator",
             "verbosity", "anomaly_grid_size", "nan_angles_threshold", "print_frequency", "use_sundman",
             "exit_at_relaxed")
DEFAULT_CFG = dict(mu=1.0, rpmin=0.1, k_petro=1.0, m_petro=3.0, n_petro=4.0, r_petro=2.0, b_petro=0.01,
                   wp=1.0, elements_type="mee_with_a", integrator="rk4", verbosity=0, anomaly_grid_size=5,
                   tol_oe=None, oe_min=None, oe_max=None, nan_angles_threshold=10, print_frequency=200,
                   use_sundman=False, relaxed_tol_factor=10, exit_at_relaxed=100)
DEFAULT_PROB = dict(tf_max=100000.0, t_step=0.1, mass_min=0.1, woe=None, duty_cycle=[1e16, 0.0],
                    battery_initial=1.0, battery_capacity=[0.2, 1.0],
                    battery_charge_discharge_rate=[0.0, 0.0], require_full_recharge=False)


class Budget(BaseException):
    """step budget exceeded: the mission does not end"""


class SimFault(Exception):
    """the kind of exception user code raises"""


class SimBaseFault(BaseException):
    pass


EXC = {c.__name__: c for c in (SimFault, SimBaseFault, ValueError, KeyError, RuntimeError, ZeroDivisionError,
                               FloatingPointError, OSError, MemoryError, KeyboardInterrupt, SystemExit,
                               StopIteration, GeneratorExit, AssertionError, BrokenPipeError, TypeError,
                               IndexError, AttributeError, ArithmeticError, TimeoutError, NotImplementedError,
                               EOFError, RecursionError)}


# ------------------------------------------------------------------------- environment
def env_value(segs, t):
    acc = np.zeros(3)
    for s in segs:
        if s["t0"] <= t < s["t1"]:
            k = math.sin(s.get("w", 0.0) * t + s.get("phi", math.pi / 2))
            acc = acc + k * np.array(s["acc"], dtype=float)
    return acc


class Probe:
    """Everything the simulator sees of one mission while it runs."""

    def __init__(self, mission, hooks=None, obj=None):
        self.m = mission
        self.hooks = hooks or []
        self.ptrb_log = []      # (t, oe copy, etype, acc)
        self.eta_log = {"a": [], "r": []}   # (t, oe, mass, battery, value)
        self.lyap_log = []      # (oe copy, injected?)
        self.fired = {}         # fault kind -> count
        self.raised = None
        self.calls = 0
        self.budget = int(mission.get("budget", 100000))
        self.obj = obj
        self._lyap_last = None
        self._lyap_idx = -1
        self._idx = {}
        self.nan_idx = set()
        for lo, hi in mission.get("nan", []):
            self.nan_idx.update(range(lo, hi))

    # -- shared bookkeeping
    def tick(self):
        self.calls += 1
        if self.calls > self.budget * 4:
            raise Budget()

    def step_of(self, site, key):
        """index of the simulated step at a seam, counting distinct keys (time or state), so that
        calling a seam twice for one step does not shift the schedule"""
        last, n = self._idx.get(site, (None, -1))
        if key != last:
            n += 1
            self._idx[site] = (key, n)
        return n

    def maybe_fault(self, site, step):
        for h in self.hooks:
            h(self, site, step)
        for f in self.m.get("faults", []):
            if f["site"] == site and f["step"] == step and not f.get("_done"):
                e = EXC[f["exc"]]("injected %s@%d" % (site, step))
                self.raised = e
                self.fired["raise:%s:%s" % (site, f["exc"])] = self.fired.get("raise:%s:%s" % (site, f["exc"]), 0) + 1
                raise e

    # -- seams
    def eta(self, which, spec):
        if spec is None:
            return None
        k = spec["k"]
        if k == "const":
            return float(spec["v"])
        if k == "raw":
            return {"int0": 0, "int1": 1, "str": "0.3", "none": None, "list": [0.1],
                    "np32": np.float32(0.25), "npint": np.int64(1), "arr": np.array([0.2]),
                    "bool": True, "complex": 0.1 + 0j, "tuple": (0.1,), "dict": {}}[spec["v"]]

        def fun(t, oe, mass, battery):
            self.tick()
            t_ = float(t)
            v = float(spec.get("c", 0.0))
            w = spec.get("t")
            if w:
                v += w[0] * math.sin(w[1] * t_ + w[2])
            v += spec.get("m", 0.0) * float(mass) + spec.get("b", 0.0) * float(battery)
            oi = spec.get("oe")
            if oi:
                v += oi[1] * math.sin(float(oe[oi[0]]))
            v = min(max(v, -0.2), 1.2)
            if spec.get("ret") == "np":
                v = np.float64(v)
            self.eta_log[which].append((t_, np.array(oe, dtype=float), float(mass), float(battery), float(v)))
            self.maybe_fault("eta_" + which, self.step_of("eta_" + which, t_))
            return v
        return fun

    def env(self):
        return SimEnv(self)

    def wrap_lyap(self, prob):
        """own the guidance seam; returns False when the attribute is not there to be owned"""
        inner = getattr(prob, "lyap_fun", None)
        if inner is None or not callable(inner):
            return False
        got = _SEAMS.get(id(prob))
        if got is None or got[0] is not prob or got[1].inner is not inner:
            got = _SEAMS[id(prob)] = (prob, LyapSeam(inner))
        got[1].probe = self
        prob.lyap_fun = got[1]
        return True


_SEAMS = {}        # one seam per object, so that the callable keeps its identity from one solve to the next


class LyapSeam:
    """stands in front of an object's feedback law; equal to every other seam of the same law"""

    def __init__(self, inner):
        self.inner = inner
        self.probe = None

    def __eq__(self, other):
        return isinstance(other, LyapSeam) and other.inner is self.inner

    def __hash__(self):
        return hash(self.inner)

    def __call__(self, *args, **kw):
        probe = self.probe
        probe.tick()
        oe = None
        for x in args[:4]:
            if isinstance(x, np.ndarray) and x.shape == (6,):
                oe = x
                break
        if oe is None:
            oe = kw.get("oe")
        key = None if oe is None else np.asarray(oe, dtype=float).tobytes()
        if key is None or key != probe._lyap_last:
            probe._lyap_idx += 1
            probe._lyap_last = key
        i = probe._lyap_idx
        probe.maybe_fault("lyap", i)
        out = self.inner(*args, **kw)
        inj = False
        if i in probe.nan_idx and isinstance(out, (tuple, list)) and len(out) == 4:
            kind = probe.m.get("nan_kind", "nan")
            nan, inf = float("nan"), float("inf")
            # four ways in which the raw direction can leave the thrust angles undefined
            out = ({"zero": [0.0] * 3, "normal": [0.25, 0.5, inf], "one": [nan, 0.5, 0.25]}.get(kind, [nan] * 3),) + tuple(out[1:])
            probe.fired["nan_guidance:" + kind] = probe.fired.get("nan_guidance:" + kind, 0) + 1
            inj = True
            probe.fired["nan_guidance"] = probe.fired.get("nan_guidance", 0) + 1
        probe.lyap_log.append((None if oe is None else np.array(oe, dtype=float), inj))
        return out


class SimEnv:
    """stands where a SpicePerturbations object stands"""

    def __init__(self, probe):
        self.probe = probe

    def get_perturbations_RTN(self, t, oe, elements_type):
        p = self.probe
        p.tick()
        t_ = float(t)
        acc = env_value(p.m["env"]["segs"], t_)
        if np.any(acc):
            p.fired["gust_steps"] = p.fired.get("gust_steps", 0) + 1
        p.ptrb_log.append((t_, np.array(oe, dtype=float), elements_type, acc.copy()))
        p.maybe_fault("ptrb", p.step_of("ptrb", t_))
        return acc


class SimOut(io.StringIO):
    """stdout of the simulated process; may fail at the k-th write"""

    def __init__(self, probe=None):
        super().__init__()
        self.probe = probe
        self.n = 0

    def write(self, s):
        if self.probe is not None and s:
            k = self.n
            self.n += 1
            self.probe.maybe_fault("stdout", k)
        return super().write(s)


class Lines:
    """counts the source lines executed in the given packages while active; raises at the line numbered `at`
    (an interrupt: Ctrl-C, an alarm's handler, an asynchronous exception)"""

    def __init__(self, roots, at=None, make=None):
        self.roots = tuple(roots)
        self.at, self.make = at, make
        self.n = 0
        self.raised = None

    def local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.at is not None and self.n > self.at and self.raised is None:
                self.raised = self.make(frame)
                raise self.raised
        return self.local

    def glob(self, frame, event, arg):
        if self.raised is None and frame.f_code.co_filename.startswith(self.roots):
            return self.local
        return None

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.glob)
        return self

    def __exit__(self, *a):
        sys.settrace(self.old)
        return False


def line_faults(probe, prob):
    """the interrupt of this mission, if it has one"""
    root = os.path.dirname(sys.modules[type(prob).__module__].__file__) + os.sep
    for f in probe.m.get("faults", []):
        if f["site"] == "line":
            def make(frame, f=f):
                e = EXC[f["exc"]]("injected at line %d of solve()" % f["step"])
                probe.raised = e
                probe.fired["interrupt:%s" % f["exc"]] = probe.fired.get("interrupt:%s" % f["exc"], 0) + 1
                return e
            return Lines([root], f["step"], make)
    return contextlib.nullcontext()


# ------------------------------------------------------------------------- building and flying
def jarr(x):
    return None if x is None else np.array(x, dtype=float)


def full_cfg(m):
    c = dict(DEFAULT_CFG)
    c.update(m.get("cfg", {}))
    return c


def full_prob(m):
    p = dict(DEFAULT_PROB)
    p.update(m["prob"])
    return p


def build(m, pyqlaw, perturbations=None):
    c = full_cfg(m)
    kw = {k: v for k, v in c.items() if k not in ("tol_oe", "oe_min", "oe_max")}
    for k in ("tol_oe", "oe_min", "oe_max"):
        if c[k] is not None:
            kw[k] = np.array(c[k], dtype=float)
    prob = pyqlaw.QLaw(perturbations=perturbations, **kw)
    return prob


def assign_cfg(prob, m):
    """reconfigure an existing object by assignment (the documented attributes only)"""
    c = full_cfg(m)
    for k in CFG_ATTRS:
        setattr(prob, k, c[k])
    tol = np.array([1e-3] * 5) if c["tol_oe"] is None else np.array(c["tol_oe"], dtype=float)
    prob.tol_oe = tol
    prob.tol_oe_relaxed = c["relaxed_tol_factor"] * tol
    kep = c["elements_type"] == "keplerian"
    if c["oe_min"] is not None:
        prob.oe_min = np.array(c["oe_min"], dtype=float)
    elif kep:
        prob.oe_min = np.array([0.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8])
    if c["oe_max"] is not None:
        prob.oe_max = np.array(c["oe_max"], dtype=float)
    elif kep:
        prob.oe_max = np.array([1e2, 0.95, np.pi, np.inf, np.inf, np.inf])


def container(x, kind):
    if x is None:
        return None
    if kind == "list":
        return [float(v) for v in x]
    if kind == "tuple":
        return tuple(float(v) for v in x)
    return np.array(x, dtype=float)


def problem_kwargs(m):
    p = full_prob(m)
    ck = p.pop("container", "array")
    # lists are only accepted where the code documents sequences (targets must be arrays for numba)
    kw = dict(p)
    kw["oe0"] = container(p["oe0"], ck)
    kw["oeT"] = np.array(p["oeT"], dtype=float)
    kw["woe"] = container(p["woe"], ck)
    kw["duty_cycle"] = tuple(p["duty_cycle"])
    kw["battery_capacity"] = tuple(p["battery_capacity"])
    kw["battery_charge_discharge_rate"] = tuple(p["battery_charge_discharge_rate"])
    return kw


def history(prob):
    h = {}
    for k in HIST:
        v = getattr(prob, k, None)
        try:
            if v is None:
                h[k] = None
            elif k == "states":
                h[k] = np.array([np.array(s, dtype=float) for s in v])
            else:
                h[k] = np.array([np.array(s, dtype=float) for s in v])
        except Exception as e:      # ragged or non-numeric history is itself an observation
            h[k] = "unreadable: %r" % (e,)
    h["exitcode"] = getattr(prob, "exitcode", None)
    h["converge"] = bool(getattr(prob, "converge", False))
    return h


class Trace:
    """what one solve() did"""
    __slots__ = ("m", "cfg", "prob", "hist", "status", "error", "probe", "out", "seam_ok", "obj", "extra")

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw.get(k))


def fly(prob, m, hooks=None, catch=True, set_problem=True, kwargs=None, own_seams=True, out=None, probe=None):
    """set the problem and solve it on an existing object, under the simulator's seams"""
    probe = probe or Probe(m, hooks)
    probe.obj = prob
    seam = True
    saved = getattr(prob, "lyap_fun", None)
    if own_seams:
        seam = probe.wrap_lyap(prob)
    env = m.get("env") or {"mode": "none"}
    if env["mode"] == "sim":
        prob.perturbations = probe.env()
    elif env["mode"] == "none":
        prob.perturbations = None
    out = out or SimOut(probe)
    status, error = "ok", None
    eta = m.get("eta", {})
    ekw = {}
    for w in ("a", "r"):
        if eta.get(w) is not None:
            ekw["eta_" + w] = probe.eta(w, eta[w])
    try:
        with contextlib.redirect_stdout(out):
            if set_problem:
                prob.set_problem(**(kwargs if kwargs is not None else problem_kwargs(m)))
            with line_faults(probe, prob):
                prob.solve(**ekw)
    except Budget:
        status = "budget"
    except BaseException as e:      # noqa: the harness must see everything
        if not catch:
            raise
        status, error = "raised", e
    finally:
        if own_seams and saved is not None:
            prob.lyap_fun = saved
    return Trace(m=m, cfg=full_cfg(m), prob=full_prob(m), hist=history(prob), status=status, error=error,
                 probe=probe, out=out.getvalue(), seam_ok=seam, obj=prob)


def run_mission(m, pyqlaw, hooks=None):
    """fresh object, optional preludes (other missions the same object flew before), then m"""
    pres = m.get("prelude", [])
    prob = build(pres[0] if pres else m, pyqlaw)
    for i, pre in enumerate(pres):
        if i:
            assign_cfg(prob, pre)
        t = fly(prob, pre)
        if t.status == "budget":
            return t
    if pres:
        assign_cfg(prob, m)
    return fly(prob, m, hooks)


# ------------------------------------------------------------------------- comparing histories
def same(a, b):
    """exact equality of every entry (NaN equals NaN)"""
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a is b or (isinstance(a, str) and a == b)
    a = np.asarray(a)
    b = np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True)


def diff_hist(h1, h2, outcome=True):
    """names of histories that differ"""
    bad = [k for k in HIST if not same(h1[k], h2[k])]
    if outcome:
        bad += [k for k in ("exitcode", "converge") if h1[k] != h2[k]]
    return bad


def digest(h):
    import hashlib
    s = hashlib.sha256()
    for k in HIST:
        v = h[k]
        s.update(k.encode())
        s.update(v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
    s.update(repr((h["exitcode"], h["converge"])).encode())
    return s.hexdigest()[:16]
