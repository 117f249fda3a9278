"""C19: Cartesian and interpolated histories of missions of every shape."""
import copy
import hashlib
import numpy as np
from . import gen, world, oracles, profiles, refmodel as rm
from .oracles import V
from .scen_abort import clean, pick_fault

PROPS = ["C19"]
RUNS = {"C19": 1400}
RULE = {"C19": "one case = one mission (forward/backward, aborted, disturbed, unevenly stepped by battery or Sundman) whose Cartesian "
               "and interpolated histories are extracted with seeded options and compared with independent conversions; distinct by "
               "mode signature and options; non-trivial = at least 4 recorded states"}


def gen_plan(prop, r):
    want = r.choice([dict(), dict(sundman=True), dict(backward=True), dict(battery=True, backward=False), dict(units=True),
                     dict(sundman=True, e_range=(0.4, 0.8), acc=(1e-4, 1e-3)),
                     dict(dt=(0.3, 1.5), sundman=False, acc=(1e-5, 1e-3)), dict(i_range=(1.5, 2.8))])
    m = gen.gen_mission(r, **dict(dict(steps=(1, 40), env=0.4, eta=0.3, prelude=0.1), **want))
    if r.random() < 0.3 and m["cfg"]["elements_type"] == "keplerian":
        m["prob"]["oe0"][5] = r.choice([0.0, np.pi, 50.0, -30.0, r.uniform(0, 6)])
    f = pick_fault(r, m, 15) if r.random() < 0.2 else None
    return {"kind": "cart", "m": m, "fault": f, "steps": r.choice([2, 3, 5, 17, r.randint(2, 60)]),
            "interp": r.choice(["linear", "quadratic", "quadratic"]), "when": r.choice(["after", "after", "mid"])}


def shrink(prop, plan):
    out = []
    for k, v in (("fault", None), ("when", "after"), ("steps", 2), ("interp", "linear")):
        if plan[k] != v:
            p = copy.deepcopy(plan)
            p[k] = v
            out.append(p)
    return out


def elliptic(S, et):
    with np.errstate(all="ignore"):
        e = S[:, 1] if et == "keplerian" else np.hypot(S[:, 1], S[:, 2])
        ok = np.isfinite(S).all(axis=1) & (e < 0.97) & (S[:, 0] > 0)
        if et == "keplerian":
            ok &= (S[:, 1] >= 0)
    return ok


def conv_check(cart, S, et, mu, what):
    ok = elliptic(S, et)
    if cart.shape != (6, len(S)):
        return [V("cart-shape", "%s: shape %s for %d states" % (what, cart.shape, len(S)))]
    idx = np.nonzero(ok)[0]
    if not len(idx):
        return []
    pos, vel = rm.oe2rv(S[idx], mu, et)
    R = np.linalg.norm(pos, axis=1)
    W = np.linalg.norm(vel, axis=1)
    # an anomaly of many turns is only known to its rounding
    tol = 1e-10 + 4e-16 * np.abs(S[idx]).sum(axis=1) * 4
    ecc = S[idx, 1] if et == "keplerian" else np.hypot(S[idx, 1], S[idx, 2])
    tol = tol / (1 - ecc) ** 2
    dr = np.abs(cart[:3, idx].T - pos).max(axis=1) / R
    dv = np.abs(cart[3:, idx].T - vel).max(axis=1) / W
    bad = ~((dr <= tol) & (dv <= tol))
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        i = int(idx[k])
        return [V("cartesian", "%s %d: elements %s give %s, expected position %s velocity %s"
                  % (what, i, S[i].tolist(), cart[:, i].tolist(), pos[k].tolist(), vel[k].tolist()))]
    return []


def examine(prob, tr, plan, when):
    """all checks on the object as it stands"""
    try:
        T = np.array(prob.times, dtype=float)
        S = np.array([np.array(s, dtype=float) for s in prob.states])
    except Exception as e:
        return [V("unreadable-history", "%s: %r" % (when, e))]
    et, mu = tr["et"], tr["mu"]
    n = len(T)
    out = world.SimOut()
    with world.contextlib.redirect_stdout(out):
        try:
            c = prob.get_cartesian_history()
        except Exception as e:
            return [V("cart-raised", "%s: get_cartesian_history() raised %r" % (when, e))]
        v = conv_check(np.asarray(c, dtype=float), S, et, mu, "%s: state" % when)
        if v:
            return v
        order = {"linear": 2, "quadratic": 3}[plan["interp"]]
        if n < order or not np.isfinite(S).all() or not (np.diff(T) * np.sign(T[-1] if T[-1] else 1) > 0).all():
            return []
        h = np.abs(np.diff(T))
        uneven = h.max() / h.min()
        if uneven > 1e4:
            return []
        try:
            fs = prob.interpolate_states(kind=plan["interp"])
            cart, te = prob.get_cartesian_history(interpolate=True, steps=plan["steps"], kind=plan["interp"], get_t_evals=True)
            cart2 = prob.get_cartesian_history(interpolate=True, steps=plan["steps"], kind=plan["interp"])
        except Exception as e:
            return [V("interp-raised", "%s: interpolated history (%s, %d steps) raised %r" % (when, plan["interp"], plan["steps"], e))]
    if len(fs) != 6:
        return [V("interp", "%s: %d interpolants" % (when, len(fs)))]
    for j in range(6):
        y = np.array([float(fs[j](t)) for t in T])
        span = np.abs(S[:, j]).max() + 1e-12
        d = np.abs(y - S[:, j])
        if not (d <= 1e-9 * span * uneven).all():
            k = int(np.argmax(d))
            return [V("nodes", "%s: interpolated element %d is %.12g at recorded time %d, recorded %.12g" % (when, j, y[k], k, S[k, j]))]
    te = np.asarray(te, dtype=float)
    cart = np.asarray(cart, dtype=float)
    if not np.array_equal(cart, np.asarray(cart2), equal_nan=True):
        return [V("interp", "%s: the interpolated history depends on get_t_evals" % when)]
    if te.shape != (plan["steps"],) or cart.shape != (6, plan["steps"]):
        return [V("interp-shape", "%s: %d points requested, got times %s history %s" % (when, plan["steps"], te.shape, cart.shape))]
    if te[0] != T[0] or abs(te[-1] - T[-1]) > 1e-12 * abs(T[-1]):
        return [V("interp-ends", "%s: interpolated times run %r .. %r, recorded %r .. %r" % (when, te[0], te[-1], T[0], T[-1]))]
    if not (np.diff(te) * np.sign(T[-1] - T[0]) > 0).all():
        return [V("interp-ends", "%s: interpolated times not monotone" % when)]
    lo, hi = min(T[0], T[-1]), max(T[0], T[-1])
    tt = np.clip(te, lo, hi)
    E = np.array([[float(f(t)) for f in fs] for t in tt])
    if plan["interp"] == "linear":
        o = np.argsort(T)
        Eref = np.stack([np.interp(tt, T[o], S[o, j]) for j in range(6)], 1)
        d = np.abs(E - Eref)
        if not (d <= 1e-9 * (1e-12 + np.abs(S).max(axis=0)) * uneven).all():
            return [V("linear", "%s: linear interpolation off by %s" % (when, d.max(axis=0)))]
        E = Eref
    ok = elliptic(E, et)
    if et == "keplerian":
        ok &= (E[:, 2] > 0)
    v = conv_check(np.where(ok, cart, 0), np.where(ok[:, None], E, np.nan), et, mu, "%s: interpolated point" % when)
    return v


def run_plan(prop, plan, pyqlaw):
    m = dict(clean(plan["m"]), prelude=plan["m"].get("prelude", []))
    if plan["fault"]:
        m["faults"] = [plan["fault"]]
    tr = {"et": m["cfg"]["elements_type"], "mu": float(m["cfg"].get("mu", 1.0))}
    viol = []
    n = [0]

    def hook(probe, site, step):
        n[0] += 1
        if plan["when"] == "mid" and not viol and n[0] % 7 == 0 and hasattr(probe.obj, "times"):
            viol.extend(examine(probe.obj, tr, plan, "mid-mission"))
    t = world.run_mission(m, pyqlaw, [hook])
    info = profiles.summarise(t)
    info["digest"] = world.digest(t.hist)
    info["nontrivial"] = info["steps"] >= 3
    info["sig"] = hashlib.sha256(repr((info.get("sig"), plan["interp"], plan["steps"], bool(plan["fault"]), plan["when"])).encode()).hexdigest()[:16]
    if viol:
        return viol[:1], info
    if t.hist["times"] is None:
        return [], info
    return examine(t.obj, tr, plan, "after the mission"), info


def warm(pyqlaw):
    from pyqlaw import _elements as E
    oe = np.array([1.0, 0.1, 0.2, 0.1, 0.1, 0.3])
    for f in (E.kep2sv, E.mee_with_a2sv):
        try:
            f(oe, 1.0)
        except Exception:
            pass
