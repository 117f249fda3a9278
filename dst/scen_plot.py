"""C22: what the plotting methods draw is the mission's own record."""
import copy
import hashlib
import random
import numpy as np
from . import gen, world, oracles, profiles, refmodel as rm
from .oracles import V
from .scen_abort import clean, pick_fault
from .scen_cart import elliptic

PROPS = ["C22"]
RUNS = {"C22": 600}
RULE = {"C22": "one case = one mission (forward/backward, aborted, disturbed, unevenly stepped, both element sets) drawn by seeded "
               "plotting methods with seeded options, during or after the mission; the data of the drawn lines are compared with the "
               "record; distinct by mode signature and the plots made; non-trivial = at least 3 recorded steps"}
STUBS = {"C22": {"real": ["pyqlaw plotting methods", "matplotlib (Agg)", "pyqlaw.QLaw mission loop"], "stub": ["mission seams as elsewhere"]}}
PLOTS = ["elements", "battery", "controls", "2d", "3d", "efficiency", "Q"]
TWO_PI = 2 * np.pi


def draw_options(r, name):
    """options of one plotting call, drawn from r"""
    o = {}
    if name in ("elements", "battery", "controls", "efficiency", "Q"):
        o["TU"] = r.choice([1.0, 1.0, 2.5, 0.125, 806.8])
    if name == "elements":
        o.update(to_keplerian=r.random() < 0.5, plot_mass=r.random() < 0.5, plot_periapsis=r.random() < 0.4)
    elif name == "battery":
        o["BU"] = r.choice([1.0, 2.0, 100.0, 0.5])
    elif name == "controls":
        o["show_anomaly"] = r.random() < 0.6
    elif name in ("2d", "3d"):
        o["interpolate"] = r.random() < 0.35
        if o["interpolate"]:
            o["steps"] = r.choice([2, 5, 20, 33])
        if name == "3d":
            o["plot_sphere"] = r.random() < 0.4
            o["sphere_radius"] = r.choice([0.35, 0.1])
    return {k: v for k, v in o.items() if r.random() < 0.9 or k in ("interpolate", "steps")}


METHOD = {"elements": "plot_elements_history", "battery": "plot_battery_history", "controls": "plot_controls",
          "2d": "plot_trajectory_2d", "3d": "plot_trajectory_3d", "efficiency": "plot_efficiency", "Q": "plot_Q"}


def call(prob, name, opts):
    return getattr(prob, METHOD[name])(**opts)


def gen_plan(prop, r):
    want = r.choice([dict(), dict(backward=True), dict(sundman=True), dict(battery=True, backward=False), dict(units=True), dict(nan=True)])
    m = gen.gen_mission(r, **dict(dict(steps=(1, 35), env=0.4, eta=0.4, prelude=0.1, battery=0.5, duty=0.3), **want))
    f = pick_fault(r, m, 15) if r.random() < 0.15 else None
    ps = []
    for _ in range(r.choice([1, 2, 2, 3])):
        n = r.choice(PLOTS + ["elements"])
        ps.append([n, draw_options(r, n)])
    return {"kind": "plot", "m": m, "fault": f, "plots": ps, "mid": r.choice([None, None, r.randint(3, 40)])}


def shrink(prop, plan):
    out = []
    for j in range(len(plan["plots"])):
        if len(plan["plots"]) > 1:
            p = copy.deepcopy(plan)
            p["plots"].pop(j)
            out.append(p)
    for k in ("fault", "mid"):
        if plan[k] is not None:
            p = copy.deepcopy(plan)
            p[k] = None
            out.append(p)
    for j, (n, o) in enumerate(plan["plots"]):
        for k in o:
            if k not in ("interpolate", "steps"):
                p = copy.deepcopy(plan)
                p["plots"][j][1].pop(k)
                out.append(p)
    return out


# ---------------------------------------------------------------------------- reading a figure
def lines_of(ax):
    out = []
    for ln in ax.get_lines():
        if hasattr(ln, "get_data_3d"):
            d = [np.asarray(x, dtype=float).ravel() for x in ln.get_data_3d()]
        else:
            d = [np.asarray(x, dtype=float).ravel() for x in (ln.get_xdata(), ln.get_ydata())]
        out.append((str(ln.get_label()), d))
    return out


def same(a, b, mod=None, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    nan = np.isnan(a) & np.isnan(b)
    with np.errstate(all="ignore"):
        d = np.abs(a - b)
        if mod:
            d = np.abs((a - b + mod / 2) % mod - mod / 2)
        t = tol * (1 + np.abs(a) + np.abs(b)) if mod else tol * np.maximum(np.abs(a), np.abs(b)) + 1e-300
        return bool((nan | (d <= t) | (a == b)).all())


def has(axes, x, y, label=None, mod=None, tol=1e-9, mask=None):
    """is there a line through (x, y)?  Only the points in mask count."""
    for ax in axes:
        for lab, d in lines_of(ax):
            if label is not None and label not in lab:
                continue
            if len(d[0]) == len(x) and same(d[0], x):
                yy, y0 = d[1], np.asarray(y, dtype=float)
                if mask is not None:
                    yy, y0 = yy[mask], y0[mask]
                if same(yy, y0, mod, tol):
                    return True
    return False


def level(ax, y, mod=None, tol=1e-9):
    """is there a horizontal line at y?"""
    for lab, d in lines_of(ax):
        if len(d[1]) == 2 and d[1][0] == d[1][1] and same([d[1][0]], [y], mod, tol):
            return True
    return False


def band(ax, lo, hi, x):
    for c in ax.collections:
        for p in c.get_paths():
            v = np.asarray(p.vertices)
            if len(v) and same([v[:, 1].min(), v[:, 1].max(), v[:, 0].min(), v[:, 0].max()], [lo, hi, min(x), max(x)]):
                return True
    return False


def to_kep(S):
    a, f, g, h, k, L = S.T
    e, i, O = np.hypot(f, g), 2 * np.arctan(np.hypot(h, k)), np.arctan2(k, h)
    w = np.arctan2(g, f) - O
    return np.stack([a, e, i, O, w, L - np.arctan2(g, f)], 1)


def on_orbit(pts, oe, mu, et, flat):
    """do the points lie on the orbit, all the way round?"""
    th = np.linspace(0, TWO_PI, 7)
    S = np.array([list(oe[:5]) + [x] for x in th])
    pos, vel = rm.oe2rv(S, mu, et)
    h = np.cross(pos[0], vel[0])
    n = h / np.linalg.norm(h)
    ev = np.cross(vel[0], h) / mu - pos[0] / np.linalg.norm(pos[0])
    e = np.linalg.norm(ev)
    p = h @ h / mu
    a = p / (1 - e * e)
    if flat:
        if abs(n[2]) < 0.1:
            return True
        pts = np.stack([pts[0], pts[1], -(n[0] * pts[0] + n[1] * pts[1]) / n[2]], 0)
    r = np.linalg.norm(pts, axis=0)
    bad = np.abs(r + ev @ pts - p).max() > 1e-7 * a or np.abs(n @ pts).max() > 1e-7 * a
    return not bad and r.max() > a * (1 + e) * (1 - 0.02) and r.min() < a * (1 - e) + 0.02 * a


def check_plot(prob, t, name, opts, when):
    """draw one plot and compare its lines with the record"""
    import matplotlib.pyplot as plt
    from mpl_toolkits.mplot3d import Axes3D  # noqa: F401
    T = np.array(prob.times, dtype=float)
    S = np.array([np.array(s, dtype=float) for s in prob.states])
    n = len(T) - 1
    et, mu = prob.elements_type, float(prob.mu)
    if n < 1 or not np.isfinite(S).all():
        return [], 0
    good = elliptic(S, et)
    if name in ("2d", "3d"):
        oT = np.append(np.asarray(prob.oeT, dtype=float)[:5], 0.0)
        if not good.all() or not elliptic(np.array([oT]), et).all():
            return [], 0
        h = np.abs(np.diff(T))
        if opts.get("interpolate", name == "3d") and (n < 3 or h.max() > 1e3 * h.min() or "steps" not in opts):
            return [], 0
    dig = world.digest(world.history(prob))
    try:
        with world.contextlib.redirect_stdout(world.SimOut()):
            try:
                fig, _ = call(prob, name, opts)
            except Exception as e:
                return [V("plot-raised", "%s: %s(%s) raised %r" % (when, METHOD[name], opts, e))], 0
        axes = list(fig.axes)
        what = "%s: %s(%s)" % (when, METHOD[name], ", ".join("%s=%r" % kv for kv in sorted(opts.items())))
        v = CHECKS[name](prob, T, S, n, et, mu, axes, opts, good, t)
        if v:
            return [V("plot", "%s: %s" % (what, v))], 1
    finally:
        plt.close("all")
    if world.digest(world.history(prob)) != dig:
        return [V("plot-not-passive", "%s changed the recorded history" % what)], 1
    return [], 1


def c_elements(prob, T, S, n, et, mu, axes, o, good, t):
    TU = o.get("TU", 1.0)
    kep = o.get("to_keplerian", False) and et == "mee_with_a"
    E, mult, mods = S, np.ones(6), [None] * 6
    target = np.asarray(prob.oeT, dtype=float)[:5]
    ok = np.ones(n + 1, dtype=bool)
    okT = True
    if kep:
        ok = good & (np.hypot(S[:, 1], S[:, 2]) > 1e-5) & (np.hypot(S[:, 3], S[:, 4]) > 1e-5)
        E = to_kep(S)
        deg = 180 / np.pi
        mult, mods = np.array([1, 1, deg, deg, deg, deg]), [None, None, None, 360.0, 360.0, 360.0]
        okT = np.hypot(*target[1:3]) > 1e-5 and np.hypot(*target[3:5]) > 1e-5
        target = to_kep(np.array([np.append(target, 0.0)]))[0, :5]
    x = T * TU
    for j in range(5):
        ax = [axes[j]]
        if not has(ax, x, E[:, j] * mult[j], mod=mods[j], tol=1e-7 if kep else 1e-9, mask=ok):
            return "no line shows the recorded element %d (%s)" % (j, "Keplerian" if kep else prob.element_names[j])
        if kep:
            if okT and not level(axes[j], target[j] * mult[j], mods[j], 1e-7):
                return "no line at the target of element %d" % j
        else:
            tol = np.asarray(prob.tol_oe, dtype=float)[j]
            if not band(axes[j], target[j] - tol, target[j] + tol, x):
                return "no band of the tolerance around the target of element %d" % j
    if o.get("plot_periapsis", False):
        e = S[:, 1] if et == "keplerian" else np.hypot(S[:, 1], S[:, 2])
        if not has([axes[0]], x, S[:, 0] * (1 - e), tol=1e-9, mask=good):
            return "no line shows the periapsis radius of the recorded orbits"
    if o.get("plot_mass", True):
        if not has([axes[5]], x, np.array(prob.masses, dtype=float)):
            return "no line shows the recorded mass"
    else:
        y = E[:, 5] * 180 / np.pi
        # an angle of many turns is known to its rounding
        if not has([axes[5]], x, y, mod=360.0, tol=1e-9 * (1 + np.abs(E[:, 5]).max()) if kep else 1e-9, mask=ok):
            return "no line shows the recorded anomaly in degrees"
    return None


def c_battery(prob, T, S, n, et, mu, axes, o, good, t):
    TU, BU = o.get("TU", 1.0), o.get("BU", 1.0)
    if not has(axes, T * TU, np.array(prob.battery, dtype=float) * BU):
        return "no line shows the recorded battery level"
    for c in prob.battery_capacity:
        if not any(level(ax, c * BU) for ax in axes):
            return "no line at the capacity limit %r" % (c * BU)
    return None


def c_controls(prob, T, S, n, et, mu, axes, o, good, t):
    TU = o.get("TU", 1.0)
    C = np.array(prob.controls, dtype=float)
    x = T[:-1] * TU
    for lab, y in (("alpha", C[:, 0] * 180 / np.pi), ("beta", C[:, 1] * 180 / np.pi), ("throttle", C[:, 2] * 100)):
        if not has(axes, x, y, label=lab):
            return "no line labelled %s shows the recorded control" % lab
    if o.get("show_anomaly", True):
        if not has(axes, T * TU, S[:, 5] * 180 / np.pi, label="nomaly", mod=360.0, tol=1e-9):
            return "no line shows the recorded anomaly"
        for ax in axes:
            for lab, d in lines_of(ax):
                if "nomaly" in lab and np.abs(d[1]).max() > 180 * (1 + 1e-9):
                    return "the anomaly is not wrapped to one turn"
    return None


def c_traj(prob, T, S, n, et, mu, axes, o, good, t, flat=True):
    pos, _ = rm.oe2rv(S, mu, et)
    dim = 2 if flat else 3
    ecc = S[:, 1] if et == "keplerian" else np.hypot(S[:, 1], S[:, 2])
    tol = (1e-9 + 4e-15 * np.abs(S[:, 5])) / (1 - ecc) ** 2 * np.linalg.norm(pos, axis=1)
    ends = [0, n]
    interp = o.get("interpolate", not flat)
    found = False
    for lab, d in [x for ax in axes for x in lines_of(ax)]:
        if lab != "transfer":
            continue
        P = np.stack(d[:dim], 1)
        if interp:
            if len(P) != o["steps"]:
                return "the drawn transfer has %d points, %d were requested" % (len(P), o["steps"])
            sub, want, tl = P[[0, -1]], pos[ends, :dim], 1e4 * tol[ends]
        else:
            if len(P) != n + 1:
                return "the drawn transfer has %d points for %d recorded states" % (len(P), n + 1)
            sub, want, tl = P, pos[:, :dim], tol
        if not (np.abs(sub - want).max(axis=1) <= tl).all():
            return "the drawn transfer does not pass through the recorded positions"
        found = True
    if not found:
        return "no line is labelled transfer"
    targ = np.asarray(prob.oeT, dtype=float)[:5]
    first = np.asarray(prob.oe0, dtype=float)[:5]
    for lab, oe in (("Initial", first), ("Final", targ)):
        hit = [d for ax in axes for (l, d) in lines_of(ax) if l == lab]
        e0 = oe[1] if et == "keplerian" else np.hypot(oe[1], oe[2])
        if not hit or not e0 < 0.97:
            continue
        if et == "mee_with_a" and np.hypot(oe[3], oe[4]) > 20:
            continue
        if not any(on_orbit(np.stack(d[:dim], 0), oe, mu, et, flat) for d in hit):
            return "the curve labelled %s is not that orbit" % lab
    return None


def c_traj3(*a):
    return c_traj(*a, flat=False)


def c_efficiency(prob, T, S, n, et, mu, axes, o, good, t):
    x = T[:-1] * o.get("TU", 1.0)
    A, B = np.array(prob.etas, dtype=float), np.array(prob.etas_bounds, dtype=float)
    for lab, y in (("eta_a", A[:, 0]), ("eta_a_min", B[:, 0]), ("eta_r", A[:, 1]), ("eta_r_min", B[:, 1])):
        if not has(axes, x, y, label=lab):
            return "no line labelled %s shows the record" % lab
    return None


def c_Q(prob, T, S, n, et, mu, axes, o, good, t):
    x = T[:-1] * o.get("TU", 1.0)
    q, d = np.array(prob.Qs, dtype=float), np.array(prob.dQdts, dtype=float)
    if not has(axes, x, q):
        return "no line shows the recorded Q"
    if not has(axes, x, np.abs(d)):
        return "no line shows the magnitude of the recorded rate of Q"
    return None


CHECKS = {"elements": c_elements, "battery": c_battery, "controls": c_controls, "2d": c_traj, "3d": c_traj3,
          "efficiency": c_efficiency, "Q": c_Q}


def run_plan(prop, plan, pyqlaw):
    m = dict(clean(plan["m"]), prelude=plan["m"].get("prelude", []))
    if plan["fault"]:
        m["faults"] = [plan["fault"]]
    viol, made, n = [], [], [0]

    def examine(prob, when):
        for name, opts in plan["plots"]:
            v, k = check_plot(prob, None, name, opts, when)
            if k:
                made.append(name)
            if v:
                viol.extend(v)
                return

    def hook(probe, site, step):
        n[0] += 1
        if n[0] == plan["mid"] and not viol and hasattr(probe.obj, "times") and hasattr(probe.obj, "controls"):
            examine(probe.obj, "mid-mission")
    t = world.run_mission(m, pyqlaw, [hook])
    info = profiles.summarise(t)
    info["digest"] = world.digest(t.hist)
    if not viol and t.hist["times"] is not None and t.status != "budget":
        examine(t.obj, "after the mission")
    for x in made:
        info["fired"]["plot:" + x] = info["fired"].get("plot:" + x, 0) + 1
    info["nontrivial"] = info["steps"] >= 3 and bool(made)
    info["sig"] = hashlib.sha256(repr((info.get("sig"), sorted(made))).encode()).hexdigest()[:16]
    return viol[:1], info


def warm(pyqlaw):
    from . import scen_cart, engine
    scen_cart.warm(pyqlaw)
    for m in engine.WARM[::2]:
        m = copy.deepcopy(m)
        prob = world.build(m, pyqlaw)
        world.fly(prob, m)
        for name in PLOTS:
            try:
                check_plot(prob, None, name, draw_options(random.Random(1), name), "warm")
            except Exception:
                pass
