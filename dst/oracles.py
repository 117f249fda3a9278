"""Oracles over recorded histories.  Each takes a Trace and returns a list of Violation dicts:
{"cls": violation class (used by the minimiser), "msg": text, "step": k}.

Tolerances: a comparison is only made where the reference is well conditioned; where rounding could
decide, both answers are accepted.
"""
import math
import numpy as np
from . import refmodel as rm
from .world import HIST

EPS = 1e-12


def V(cls, msg, step=None):
    return {"cls": cls, "msg": msg, "step": step}


class View:
    """convenient arrays of one finished (or aborted) mission"""

    def __init__(self, tr):
        h = tr.hist
        self.tr = tr
        self.ok = all(isinstance(h[k], np.ndarray) for k in HIST)
        if not self.ok:
            return
        self.lens = {k: len(h[k]) for k in HIST}
        self.t = np.asarray(h["times"], dtype=float)
        self.n = len(self.t) - 1
        self.full_n = self.n
        self.trunc = False
        self.lost = None
        self.S = np.asarray(h["states"], dtype=float)
        self.m = np.asarray(h["masses"], dtype=float)
        self.b = np.asarray(h["battery"], dtype=float)
        self.C = np.asarray(h["controls"], dtype=float).reshape(-1, 3) if self.n else np.zeros((0, 3))
        self.E = np.asarray(h["etas"], dtype=float).reshape(-1, 2) if self.n else np.zeros((0, 2))
        self.B = np.asarray(h["etas_bounds"], dtype=float).reshape(-1, 2) if self.n else np.zeros((0, 2))
        self.Q = np.asarray(h["Qs"], dtype=float)
        self.dQ = np.asarray(h["dQdts"], dtype=float)
        self.et = tr.cfg["elements_type"]
        self.mu = float(tr.cfg["mu"])
        p = tr.prob
        self.req = float(p["t_step"])
        self.sg = -1.0 if self.req < 0 else 1.0
        self.c0, self.c1 = [float(x) for x in p["battery_capacity"]]
        self.c, self.d = [float(x) for x in p["battery_charge_discharge_rate"]]
        self.ON, self.OFF = [float(x) for x in p["duty_cycle"]]
        self.full = bool(p["require_full_recharge"])
        self.woe = [1.0] * 5 if p["woe"] is None else [float(x) for x in p["woe"]]
        self.oeT = [float(x) for x in p["oeT"][:5]]
        self.P = {"rpmin": tr.cfg["rpmin"], "k": tr.cfg["k_petro"], "m": tr.cfg["m_petro"],
                  "n": tr.cfg["n_petro"], "r": tr.cfg["r_petro"], "b": tr.cfg["b_petro"], "wp": tr.cfg["wp"]}
        if not self.consistent():
            self.leave_ellipses()
        self.h = np.diff(self.t)
        # rounding of a recorded time difference
        self.ht = 4e-16 * (np.abs(self.t[1:]) + np.abs(self.t[:-1]))

    def leave_ellipses(self):
        """disturbances may drive an orbit out of the elliptic domain, where neither the elements nor
        the guidance are defined; the history is judged up to there"""
        with np.errstate(all="ignore"):
            e = self.S[:, 1] if self.et == "keplerian" else np.hypot(self.S[:, 1], self.S[:, 2])
            good = np.isfinite(self.S).all(axis=1) & (self.S[:, 0] > 0) & (e < 0.97)
            good &= np.abs(self.S[:, 2:]).max(axis=1) < 1e5         # angles (or h, k) blown up at a singularity
            fin = np.isfinite(self.S).all(axis=1)
        k = 0
        while k < self.n and good[k] and fin[k + 1]:
            k += 1
        if k < self.n and good[k]:
            self.lost = k               # the first state that is not finite comes from a regular orbit
            self.raw = (self.t, self.S, self.m, self.b, self.C)
        if k < self.n or not good[self.n]:
            self.trunc = True
            self.n = k
            self.t, self.S, self.m, self.b = [x[:k + 1] for x in (self.t, self.S, self.m, self.b)]
            self.C, self.E, self.B, self.Q, self.dQ = [x[:k] for x in (self.C, self.E, self.B, self.Q, self.dQ)]

    def consistent(self):
        n = self.full_n
        want = {k: n for k in ("controls", "etas", "etas_bounds", "Qs", "dQdts")}
        want.update({k: n + 1 for k in ("times", "states", "masses", "battery")})
        return {k: (self.lens[k], w) for k, w in want.items() if self.lens[k] != w}

    # ---- which steps had the thruster enabled
    def enabled(self):
        """(n,) array: 1 enabled, 0 not, -1 unknown (guidance outage whose battery change says nothing)"""
        n = self.n
        out = np.zeros(n, dtype=int)
        known = np.isfinite(self.B).any(axis=1) | (self.C[:, 2] == 1)
        out[known] = 1
        inj = injected_steps(self)
        nanstep = (inj | ~np.isfinite(self.dQ)) & ~known
        for k in np.nonzero(nanstep)[0]:
            out[k] = -1
            db = self.b[k + 1] - self.b[k]
            tol = 1e-12 + 1e-9 * abs(self.d * self.h[k])
            if self.sg < 0:       # backward, drawing energy raises the level and charging lowers it
                if self.d > 0 and db > tol:
                    out[k] = 1
                elif self.c > 0 and db < -tol or self.d > 0 and self.b[k] < self.c1 - 1e-9 * (1 + self.c1):
                    out[k] = 0
            elif self.d > 0 and db < -tol:
                out[k] = 1
            elif self.c > 0 and db > tol:
                out[k] = 0
            elif self.d > 0 and self.c >= 0 and self.b[k] > self.c0 + 1e-9 and abs(db) <= tol:
                out[k] = 0        # an enabled step would have drawn energy
        return out


def injected_steps(v):
    """mask of recorded steps whose guidance was undefined by injection (matched by state, so the
    number of times the guidance seam is called does not matter)"""
    mask = np.zeros(v.n, dtype=bool)
    inj = {x[0].tobytes() for x in v.tr.probe.lyap_log if x[1] and x[0] is not None}
    if inj:
        for k in range(v.n):
            if v.S[k].tobytes() in inj:
                mask[k] = True
    return mask


def left_domain(tr):
    """the orbit was driven out of the elliptic domain, where steps may become arbitrarily short"""
    v = View(tr)
    return bool(v.ok and not v.consistent() and v.trunc)


def basic(tr, v=None):
    """common to every mission oracle: it ended, with readable, equally long histories"""
    out = []
    if tr.status == "budget" and not left_domain(tr):
        return None, [V("no-termination", "mission did not end within %d simulated steps" % tr.probe.budget)]
    if tr.status == "raised" and tr.error is not tr.probe.raised and not left_domain(tr):
        return None, [V("unexpected-exception", "solve() raised %s: %s" % (type(tr.error).__name__, tr.error))]
    v = View(tr)
    if not v.ok:
        bad = {k: tr.hist[k] for k in HIST if not isinstance(tr.hist[k], np.ndarray)}
        return None, [V("unreadable-history", "history not readable: %s" % (bad,))]
    bad = v.consistent()
    if bad:
        return None, [V("ragged-history", "history lengths inconsistent (have, want): %s" % (bad,))]
    return v, out


def finite_steps(v, emax=0.97):
    """steps whose start state is a usable elliptic orbit"""
    S = v.S[:-1]
    with np.errstate(all="ignore"):
        ok = np.isfinite(S).all(axis=1) & np.isfinite(v.S[1:]).all(axis=1) & (S[:, 0] > 0)
        e = S[:, 1] if v.et == "keplerian" else np.hypot(S[:, 1], S[:, 2])
        ok &= (e < emax)
        if v.et == "keplerian":
            ok &= (S[:, 1] > 1e-7) & (np.sin(S[:, 2]) > 1e-6)
    return ok


# ============================================================================ C01
def env_acc(v):
    """disturbance the environment supplied for each recorded step, matched by time"""
    env = v.tr.m.get("env") or {"mode": "none"}
    if env["mode"] != "sim":
        return np.zeros((v.n, 3)), []
    by_t = {}
    for t, oe, et, acc in v.tr.probe.ptrb_log:
        by_t[t] = acc
    out = np.zeros((v.n, 3))
    miss = []
    for k in range(v.n):
        a = by_t.get(float(v.t[k]))
        if a is None:
            miss.append(k)
        else:
            out[k] = a
    return out, miss


def thrust_acc(v):
    al, be, th = v.C[:, 0], v.C[:, 1], v.C[:, 2]
    mag = v.sg * float(v.tr.prob["tmax"]) / v.m[:-1]
    u = np.stack([np.cos(be) * np.sin(al), np.cos(be) * np.cos(al), np.sin(be)], 1)
    return u * (mag * th)[:, None]


def predict(v):
    ptrb, miss = env_acc(v)
    acc = thrust_acc(v) + ptrb
    ok = finite_steps(v)
    ok[miss] = False
    nxt = np.full((v.n, 6), np.nan)
    tol = np.full((v.n, 6), np.inf)
    idx = np.nonzero(ok)[0]
    if len(idx):
        with np.errstate(all="ignore"):
            p, tf, rate = rm.propagate_step(v.S[idx], acc[idx], v.h[idx], v.mu, v.et)
        nxt[idx] = p
        dv = np.abs(rate) * np.abs(v.h[idx])[:, None]
        slow = 1e-8 * dv + 1e-11 * (1 + np.abs(v.S[idx, :5])) + np.abs(rate) * v.ht[idx][:, None]
        slow[:, 0] = 1e-8 * dv[:, 0] + 1e-11 * np.abs(v.S[idx, 0]) + np.abs(rate[:, 0]) * v.ht[idx]
        tol[idx, :5] = slow
        with np.errstate(all="ignore"):
            ang = np.abs(rm.anomaly_rate(v.S[idx], acc[idx], v.mu, v.et)) * v.ht[idx]
        tol[idx, 5] = tf + ang
        # the shape may leave the elliptic domain within the step
        pe = p[:, 1] if v.et == "keplerian" else np.hypot(p[:, 1], p[:, 2])
        bad = ~np.isfinite(p).all(axis=1) | (pe > 0.97) | (p[:, 0] <= 0)
        if v.et == "keplerian":
            bad |= (p[:, 1] < 1e-3)
        tol[idx[bad]] = np.inf
    return nxt, tol, miss, ok


def lost_state(v, zero=False):
    """the step on which a regular orbit became undefined although the recorded control (or none) and the disturbance lead to
    another regular orbit; None when there is no such step"""
    if v.lost is None:
        return None
    import copy
    k = v.lost
    w = copy.copy(v)
    t, S, m, b, C = v.raw
    w.n, w.t, w.S, w.m, w.b, w.C = 1, t[k:k + 2], np.array([S[k], S[k]]), m[k:k + 2].copy(), b[k:k + 2], C[k:k + 1].copy()
    if zero:
        w.C[:] = 0.0
    w.m[1] = w.m[0]
    if not np.isfinite(w.C).all() or not np.isfinite(w.t).all():
        return None
    w.h = np.diff(w.t)
    w.ht = 4e-16 * (np.abs(w.t[1:]) + np.abs(w.t[:-1]))
    nxt, tol, miss, ok = predict(w)
    e = nxt[0, 1] if v.et == "keplerian" else math.hypot(nxt[0, 1], nxt[0, 2])
    if np.isfinite(tol).all() and e < 0.9 and nxt[0, 0] > 0.3 * S[k, 0]:
        return k
    return None


def bounds_of(v):
    c = v.tr.cfg
    lo, hi = c["oe_min"], c["oe_max"]
    if lo is None:
        lo = [0.05, 1e-4, 1e-4, 1e-4, 1e-4]
    if hi is None:
        hi = [1e2, .95, np.pi, np.inf, np.inf]
    return np.array(lo[:5], dtype=float), np.array(hi[:5], dtype=float)


def c01(tr):
    v, out = basic(tr)
    if not out and lost_state(v) is not None:
        out.append(V("not-finite", "step %d: a regular orbit and a finite control lead to the state %s" % (v.lost, v.raw[1][v.lost + 1]), v.lost))
    if out or v.n == 0:
        return out
    if not set(np.unique(v.C[:, 2])) <= {0.0, 1.0}:
        out.append(V("throttle-value", "throttle not 0/1: %s" % np.unique(v.C[:, 2])))
        return out
    nxt, tol, miss, ok = predict(v)
    if miss:
        out.append(V("environment-ignored", "step %d at t=%r: the disturbance environment was not consulted"
                     % (miss[0], v.t[miss[0]]), miss[0]))
        return out
    pred = nxt.copy()
    if v.et == "keplerian":
        lo, hi = bounds_of(v)
        cl = np.minimum(np.maximum(nxt[:, :5], lo), hi)
        pred[:-1, :5] = cl[:-1]           # every recorded state but the last has been safeguarded
        d = np.abs(v.S[1:] - pred)
        d2 = np.abs(v.S[1:][-1:, :5] - cl[-1:])   # the last one may or may not be
        d[-1:, :5] = np.minimum(d[-1:, :5], d2)
    else:
        d = np.abs(v.S[1:] - pred)
    bad = d > tol
    if bad.any():
        k, j = [int(x) for x in np.argwhere(bad)[0]]
        which = "fast" if j == 5 else "slow"
        out.append(V("dynamics-" + which, "step %d element %d: recorded %.15g, predicted %.15g (tol %.2g) "
                     "dt=%.6g throttle=%g" % (k, j, v.S[k + 1, j], pred[k, j], tol[k, j], v.h[k], v.C[k, 2]), k))
    return out


# ============================================================================ C02 / C03
def nominal_steps(v):
    """requested duration of every step, and its tolerance"""
    if v.tr.cfg["use_sundman"]:
        with np.errstate(all="ignore"):
            ref = rm.sundman_dt(v.S[:-1], v.req, v.mu, v.et)
            per = rm.TWO_PI * np.sqrt(v.S[:-1, 0] ** 3 / v.mu)
        # conditioning: the anomaly is only known to its rounding
        ang = 1e-15 * (10 + np.abs(v.S[:-1, 5])) * per
        return ref, 1e-9 * np.abs(ref) + 4 * ang + v.ht
    return np.full(v.n, v.req), 1e-12 * abs(v.req) + v.ht


def shortened(v, req, tol):
    """steps shorter than requested, and whether the battery justifies exactly that length"""
    short = np.abs(v.h) < np.abs(req) - tol
    just = np.zeros(v.n, dtype=bool)
    for k in np.nonzero(short)[0]:
        if v.sg > 0 and v.d > 0:
            lim = (v.b[k] - v.c0) / v.d
            just[k] = abs(v.h[k] - lim) <= 1e-9 * abs(lim) + v.ht[k] + 1e-13 and \
                v.b[k] - v.d * req[k] < v.c0 + 1e-9 * (abs(v.c0) + v.c1)
    return short, just


def c02(tr):
    v, out = basic(tr)
    if out:
        return out
    if v.t[0] != 0.0:
        out.append(V("start", "recorded time starts at %r" % v.t[0]))
    if v.n:
        if not (v.h * v.sg > 0).all():
            k = int(np.nonzero(~(v.h * v.sg > 0))[0][0])
            out.append(V("monotone", "time not strictly monotone: t[%d]=%r t[%d]=%r" % (k, v.t[k], k + 1, v.t[k + 1]), k))
            return out
        if not tr.cfg["use_sundman"]:
            req, tol = nominal_steps(v)
            short, just = shortened(v, req, tol)
            long_ = np.abs(v.h) > np.abs(req) + tol
            bad = long_ | (short & ~just)
            # only a step on which the thruster is enabled may be shortened
            en = v.enabled()
            bad |= short & (en == 0)
            if bad.any():
                k = int(np.nonzero(bad)[0][0])
                out.append(V("step-size", "step %d lasts %.15g, requested %.15g; battery %.9g floor %.9g rate %.6g"
                             % (k, v.h[k], req[k], v.b[k], v.c0, v.d), k))
        late = np.abs(v.t[:-1]) >= abs(float(tr.prob["tf_max"]))
        if late.any():
            k = int(np.nonzero(late)[0][0])
            out.append(V("past-end", "a step started at |t|=%r >= tf_max=%r" % (abs(v.t[k]), tr.prob["tf_max"]), k))
    if tr.status == "ok" and not v.trunc:
        code = tr.hist["exitcode"]
        if code not in (1, 2, -1, -2, -3):
            out.append(V("exit-code", "solve() returned with exit code %r" % (code,)))
        if code == -2 and abs(v.t[-1]) < abs(float(tr.prob["tf_max"])):
            out.append(V("early-timeout", "exit -2 at |t|=%r < tf_max=%r" % (abs(v.t[-1]), tr.prob["tf_max"])))
    return out


def c03(tr):
    v, out = basic(tr)
    if out or not tr.cfg["use_sundman"] or v.n == 0:
        return out
    ok = finite_steps(v)
    req, tol = nominal_steps(v)
    short, just = shortened(v, req, tol)
    with np.errstate(all="ignore"):
        bad = ok & (np.abs(v.h - req) > tol) & ~(short & just)
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        E0, e = rm.ecc_anomaly(v.S[k], v.et)
        out.append(V("sundman", "step %d lasts %.15g; the eccentric anomaly advances by %.9g in %.15g (e=%.4g E=%.4g)"
                     % (k, v.h[k], v.req, req[k], e, E0), k))
    return out


# ============================================================================ C04
def c04(tr):
    v, out = basic(tr)
    if out:
        return out
    th = v.C[:, 2] if v.n else np.zeros(0)
    if not set(np.unique(th)) <= {0.0, 1.0}:
        out.append(V("throttle-value", "throttle not 0/1: %s" % np.unique(th)))
        return out
    md = float(tr.prob["mdot"])
    dm = v.m[1:] - v.m[:-1]
    want = -md * v.h * th
    tol = 4e-16 * (np.abs(v.m[1:]) + np.abs(v.m[:-1])) + md * v.ht + 1e-12 * np.abs(want)
    bad = np.abs(dm - want) > tol
    bad |= (th == 0) & (dm != 0)
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        out.append(V("propellant", "step %d: mass changed by %.12g, flow rate x duration x throttle is %.12g (throttle %g)"
                     % (k, dm[k], want[k], th[k]), k))
    if v.m[0] != float(tr.prob["mass0"]):
        out.append(V("initial-mass", "initial mass %r recorded as %r" % (tr.prob["mass0"], v.m[0])))
    tot = v.m[-1] - v.m[0]
    if abs(tot + md * float(np.sum(v.h * th))) > 1e-9 * (abs(v.m[0]) + abs(tot)):
        out.append(V("propellant-total", "total mass change %r, flow x thrust time %r" % (tot, md * np.sum(v.h * th))))
    floor = float(tr.prob["mass_min"])
    under = v.m[1:-1] <= floor
    if under.any():
        k = int(np.nonzero(under)[0][0]) + 1
        out.append(V("mass-floor", "mission continued after mass[%d]=%r <= mass_min=%r" % (k, v.m[k], floor), k))
    if tr.status == "ok" and not v.trunc:
        if v.n and v.m[-1] <= floor and tr.hist["exitcode"] not in (-1, 1, 2):
            out.append(V("mass-floor-code", "last mass %r <= mass_min=%r but exit code %r" % (v.m[-1], floor, tr.hist["exitcode"])))
        if tr.hist["exitcode"] == -1 and not v.m[-1] <= floor:
            out.append(V("mass-floor-code", "exit -1 with mass %r > mass_min=%r" % (v.m[-1], floor)))
    return out


# ============================================================================ C05
def within(v, tol):
    """per recorded state: 1 converged, 0 not, -1 decided by rounding"""
    T = np.array(v.oeT)
    d = np.abs(T - v.S[:, :5])
    if v.et == "keplerian":
        d[:, 3:5] = np.abs(rm.wrap_pi(v.S[:, 3:5] - T[3:5]))
    tol = np.asarray(tol, dtype=float)
    res = np.ones(len(v.S), dtype=int)
    for j in range(5):
        if v.woe[j] == 0.0:
            continue
        band = 1e-12 * (np.abs(T[j]) + np.abs(v.S[:, j])) + 1e-12
        if v.et == "keplerian" and j >= 3:
            band = band + 1e-14 / max(tol[j], 1e-8) + 1e-11
            # arccos(cos(x)) of the tolerance itself is only known to ~1e-8 near zero
            if tol[j] < 1e-6:
                band = band + 1e-7
        inn = d[:, j] <= tol[j] - band
        outn = ~(d[:, j] <= tol[j] + band)
        res = np.where(outn, 0, np.where(inn, res, np.where(res == 0, 0, -1)))
    return res


def last_unclamped(v):
    """Keplerian: the state in which convergence was judged is the one recorded before safeguarding; if
    it lay outside the bounds, the recorded one is the safeguarded one.  True where they may differ."""
    if v.et != "keplerian":
        return np.zeros(len(v.S), dtype=bool)
    lo, hi = bounds_of(v)
    on = (v.S[:, :5] <= lo) | (v.S[:, :5] >= hi)
    r = on.any(axis=1)
    r[-1] = False
    return r


def c05(tr, expect_fresh=True):
    v, out = basic(tr)
    if out:
        return out
    if tr.status != "ok" or v.trunc:
        return out
    code, conv = tr.hist["exitcode"], tr.hist["converge"]
    if conv != (code in (1, 2)):
        out.append(V("flag", "exit code %r with converge=%r" % (code, conv)))
    cfg = tr.cfg
    tol = np.array([1e-3] * 5 if cfg["tol_oe"] is None else cfg["tol_oe"], dtype=float)
    s1 = within(v, tol)
    s2 = within(v, tol * cfg["relaxed_tol_factor"])
    amb = last_unclamped(v)
    s1[amb & (s1 == 1)] = -1      # judged before safeguarding moved it
    s1[amb & (s1 == 0)] = -1
    s2[amb] = -1
    # possible outcomes along the history
    need = int(cfg["exit_at_relaxed"])
    floor = float(tr.prob["mass_min"])
    tf = abs(float(tr.prob["tf_max"]))
    cmin = cmax = 0
    n = v.n
    for j in range(1, n + 1):
        opts = set()
        if s1[j] != 0:
            opts.add(1)
        if s1[j] != 1:
            if s2[j] == 1:
                cmin += 1
                cmax += 1
            elif s2[j] == -1:
                cmax += 1
            if cmax >= need and s2[j] != 0:
                opts.add(2)
            if not (cmin >= need and s2[j] == 1):
                if v.m[j] <= floor:
                    opts.add(-1)
                elif abs(v.t[j]) >= tf:
                    opts.add(-2)
                else:
                    opts.add("go")
        if j < n:
            if "go" not in opts and "go" not in {str(o) for o in opts}:
                out.append(V("missed-event", "state %d already decides the outcome (%s) but the mission went on "
                             "to state %d" % (j, sorted(opts, key=str), n), j))
                return out
        else:
            good = (code in opts) or ("go" in opts and code == -3)
            if not good:
                out.append(V("outcome", "exit code %r, but the recorded history says %s at its last state %d"
                             % (code, sorted(opts, key=str), j), j))
                return out
    if n == 0 and code not in (-3, -2):
        out.append(V("outcome", "exit code %r with nothing flown" % (code,)))
    if n == 0 and code == -2 and tf > 0:
        out.append(V("outcome", "exit -2 with nothing flown"))
    if code == -3:
        inj = sum(1 for x in tr.probe.lyap_log if x[1])
        if not inj and np.isfinite(v.dQ).all() and natural_ok(v):
            out.append(V("nan-code", "exit -3 although guidance was defined at every step"))
    return out


def natural_ok(v):
    """guidance at the last recorded state is well defined according to the reference"""
    s = v.S[-1:]
    if not np.isfinite(s).all():
        return False
    e = s[0, 1] if v.et == "keplerian" else math.hypot(s[0, 1], s[0, 2])
    if not e < 0.95 or s[0, 0] <= 0:
        return False
    if v.et == "keplerian" and e < 5e-5:
        return False
    st = s.copy()
    if v.et == "keplerian":
        lo, hi = bounds_of(v)
        st[:, :5] = np.minimum(np.maximum(st[:, :5], lo), hi)
        if not np.sin(st[0, 2]) > 1e-6:
            return False
    f = float(v.tr.prob["tmax"]) / v.m[-1]
    q, D, S = rm.descent(st, v.oeT, f, v.mu, v.P, v.woe, v.et)
    return bool(np.isfinite(D).all() and np.linalg.norm(D) > 1e-8 * S[0] and S[0] > 0)


# ============================================================================ C06
def runs(mask):
    """[(start, end)) of maximal runs of equal values"""
    res = []
    s = 0
    for k in range(1, len(mask) + 1):
        if k == len(mask) or mask[k] != mask[s]:
            res.append((s, k, mask[s]))
            s = k
    return res


def c06(tr):
    v, out = basic(tr)
    if out or v.n == 0:
        return out
    en = v.enabled()
    if (en == -1).any():
        en = fill_unknown(v, en)
        if en is None:
            return out
    tol = 1e-9 * (np.max(np.abs(v.t)) + 1e-300)
    for s, e, on in runs(en):
        if on:
            for k in range(s + 1, e):
                if abs(v.t[k] - v.t[s]) > v.ON + tol:
                    out.append(V("on-too-long", "thruster enabled at step %d, %.9g after it was switched on at step %d; "
                                 "the duty cycle allows %.9g" % (k, abs(v.t[k] - v.t[s]), s, v.ON), k))
                    return out
        elif s > 0 and e < v.n:
            if abs(v.t[e] - v.t[s]) < v.OFF - tol:
                out.append(V("off-too-short", "thruster off for %.9g (steps %d..%d); the duty cycle demands %.9g"
                             % (abs(v.t[e] - v.t[s]), s, e, v.OFF), e))
                return out
    if v.sg < 0 or not (v.b <= v.c0 + 1e-9 * (1 + abs(v.c0))).any():       # the battery never was at its minimum
        bad = unavailable(v, en, tol)
        if bad is not None:
            k, why = bad
            out.append(V("not-available", "thruster off at step %d (t=%.9g) although the duty cycle allows it: %s"
                         % (k, v.t[k], why), k))
    return out


def fill_unknown(v, en):
    """histories with guidance outages whose steps do not reveal whether the thruster was enabled are
    not judged, unless nothing but guidance limits thrust"""
    if v.ON > 1e15 and v.d == 0 and v.b[0] > v.c0 + 1e-9:
        en = en.copy()
        en[en == -1] = 1
        return en
    return None


def unavailable(v, en, tol):
    """first step at which the thruster is off although floor, recharge gate and duty cycle allow it"""
    floor = v.b[:-1] <= v.c0 + 1e-12
    nearfloor = v.b[:-1] <= v.c0 + 1e-9 * (1 + abs(v.c0))
    gate = False
    on_since = 0 if en[0] else None
    off_since = None if en[0] else 0
    last_floor = None
    for k in range(v.n):
        if k > 0:
            if en[k] and not en[k - 1]:
                on_since = k
            if not en[k] and en[k - 1]:
                off_since = k
        if floor[k]:
            last_floor = k
            gate = True
        if gate and v.b[k] >= v.c1:
            gate = False
        if en[k]:
            continue
        if nearfloor[k]:
            continue
        if v.full and gate:
            continue
        if k > 0 and en[k - 1]:
            if abs(v.t[k] - v.t[on_since]) >= v.ON - tol:
                continue
            return k, "only %.9g since switched on (ON=%.9g)" % (abs(v.t[k] - v.t[on_since]), v.ON)
        if k == 0:
            return k, "first step, battery above its minimum"
        ref = v.t[off_since]
        if last_floor is not None and abs(v.t[last_floor]) > abs(ref):
            ref = v.t[last_floor]
        if abs(v.t[k] - ref) > v.OFF + tol:
            return k, "off for %.9g (OFF=%.9g)" % (abs(v.t[k] - ref), v.OFF)
    return None


# ============================================================================ C07 / C08
def c07(tr):
    v, out = basic(tr)
    if out or v.sg < 0:
        return out
    if v.b[0] != float(tr.prob["battery_initial"]):
        out.append(V("initial-level", "initial level %r recorded as %r" % (tr.prob["battery_initial"], v.b[0])))
        return out
    tol0 = 1e-11 * (abs(v.c1) + abs(v.c0)) + 1e-15
    oob = (v.b < v.c0 - 1e-12 - 1e-15 * abs(v.c0)) | (v.b > v.c1 + 1e-12)
    if oob.any():
        k = int(np.nonzero(oob)[0][0])
        out.append(V("range", "battery level %r at state %d outside [%r, %r]" % (v.b[k], k, v.c0, v.c1), k))
        return out
    en = v.enabled()
    for k in range(v.n):
        h = v.h[k]
        drawn = v.d * h
        tol = tol0 + 1e-9 * max(drawn, v.c * h) + max(v.d, v.c) * v.ht[k]
        dn = max(v.c0, v.b[k] - drawn)
        up = min(v.c1, v.b[k] + v.c * h)
        opts = {1: [dn], 0: [up], -1: [dn, up]}[int(en[k])]
        if min(abs(v.b[k + 1] - o) for o in opts) > tol:
            out.append(V("energy-balance", "step %d (%s, %.9g long): level %.12g -> %.12g, expected %s"
                         % (k, {1: "thruster enabled", 0: "off", -1: "?"}[int(en[k])], h, v.b[k], v.b[k + 1],
                            " or ".join("%.12g" % o for o in opts)), k))
            return out
        if en[k] == 1 and v.b[k] - drawn < v.c0 - tol - 1e-12:
            out.append(V("overdraft", "step %d draws %.9g but only %.9g was left above the minimum"
                         % (k, drawn, v.b[k] - v.c0), k))
            return out
        # shortened more than needed: it must end exactly at the minimum
        if en[k] == 1 and v.d > 0 and not tr.cfg["use_sundman"]:
            if h < v.req - 1e-9 * v.req - v.ht[k] and abs(v.b[k + 1] - v.c0) > tol + 1e-12:
                out.append(V("short-step", "step %d was shortened to %.9g but ends at level %.12g, not at the minimum %.12g"
                             % (k, h, v.b[k + 1], v.c0), k))
                return out
    return out


def c08(tr):
    v, out = basic(tr)
    if out or v.sg < 0 or v.n == 0:
        return out
    en = v.enabled()
    th = v.C[:, 2] == 1
    floor = v.b[:-1] <= v.c0 + 1e-13
    bad = floor & (th | (en == 1))
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        out.append(V("thrust-on-empty", "step %d starts with battery %.15g at its minimum %.15g but the thruster is %s"
                     % (k, v.b[k], v.c0, "firing" if th[k] else "enabled"), k))
        return out
    if v.full:
        gate = False
        since = None
        for k in range(v.n):
            if floor[k]:
                gate, since = True, k
            if gate and v.b[k] >= v.c1 * (1 - 1e-12) - 1e-13:
                gate = False
            if gate and (th[k] or en[k] == 1):
                out.append(V("recharge-gate", "step %d: thruster %s at level %.9g although the minimum was reached at "
                             "step %d and the level has not been back at %.9g" %
                             (k, "fires" if th[k] else "enabled", v.b[k], since, v.c1), k))
                return out
    if (en == -1).any():
        en = fill_unknown(v, en)
        if en is None:
            return out
    tol = 1e-9 * (np.max(np.abs(v.t)) + 1e-300)
    bad = unavailable(v, en, tol)
    if bad is not None:
        k, why = bad
        out.append(V("not-available", "thruster off at step %d (t=%.9g, level %.9g of [%.9g, %.9g]%s): %s"
                     % (k, v.t[k], v.b[k], v.c0, v.c1, ", full recharge" if v.full else "", why), k))
    return out


# ============================================================================ C09
def thresholds(v):
    """value in force per step as the caller's specification gives it (None when not decidable)"""
    return None


def c09(tr):
    v, out = basic(tr)
    if out or v.n == 0:
        return out
    eta = tr.m.get("eta") or {}
    en = v.enabled()
    inj = injected_steps(v)
    valid = np.isfinite(v.dQ) & ~inj
    act = (en == 1) & valid
    # thresholds recorded = the caller's
    for col, w in ((0, "a"), (1, "r")):
        spec = eta.get(w) or {"k": "const", "v": 0.0}
        for k in np.nonzero(act)[0]:
            got = v.B[k, col]
            if spec["k"] == "const":
                if got != float(spec["v"]):
                    out.append(V("threshold-value", "step %d: eta_%s is %r, recorded %r" % (k, w, spec["v"], got), int(k)))
                    return out
        if spec["k"] == "fn":
            log = {}
            for t, oe, ma, ba, val in tr.probe.eta_log[w]:
                log[t] = (oe, ma, ba, val)
            for k in np.nonzero(act)[0]:
                k = int(k)
                x = log.get(float(v.t[k]))
                if x is None:
                    out.append(V("callable-time", "step %d at t=%r: eta_%s was not called with that time" % (k, v.t[k], w), k))
                    return out
                oe, ma, ba, val = x
                if not np.array_equal(oe, v.S[k]):
                    out.append(V("callable-args", "step %d: eta_%s saw elements %s, recorded %s" % (k, w, oe, v.S[k]), k))
                    return out
                if ma != v.m[k] or ba != v.b[k]:
                    out.append(V("callable-args", "step %d: eta_%s saw mass %r battery %r, recorded %r %r"
                                 % (k, w, ma, ba, v.m[k], v.b[k]), k))
                    return out
                if v.B[k, col] != val:
                    out.append(V("threshold-value", "step %d: eta_%s returned %r, recorded %r" % (k, w, val, v.B[k, col]), k))
                    return out
    # firing decision
    ea, er = v.E[:, 0], v.E[:, 1]
    ba, br = v.B[:, 0], v.B[:, 1]
    for k in np.nonzero(act)[0]:
        k = int(k)
        gated = ba[k] > 0 or br[k] > 0
        fire = v.C[k, 2] == 1
        if not gated:
            if not fire:
                out.append(V("coasting", "step %d: thresholds %r, %r do not gate but the thruster coasts" % (k, ba[k], br[k]), k))
                return out
            continue
        if not np.isfinite(ea[k]):
            out.append(V("eta-missing", "step %d: thresholds in force but no effectivity recorded" % k, k))
            return out
        if np.isfinite(er[k]):
            want = ea[k] >= ba[k] and er[k] >= br[k]
            if want != fire:
                out.append(V("firing", "step %d: effectivities (%.9g, %.9g), thresholds (%.9g, %.9g) but throttle %g"
                             % (k, ea[k], er[k], ba[k], br[k], v.C[k, 2]), k))
                return out
    # values
    idx = np.array([k for k in np.nonzero(act & finite_steps(v))[0] if np.isfinite(ea[k])], dtype=int)
    if len(idx) > 60:
        idx = idx[np.unique(np.linspace(0, len(idx) - 1, 60).astype(int))]
    if len(idx):
        n = int(tr.cfg["anomaly_grid_size"])
        f = v.sg * float(tr.prob["tmax"]) / v.m[idx]
        st = v.S[idx]
        cond = well_conditioned(v, st)
        R = rm.orbit_rates(st, v.oeT, f, v.mu, v.P, v.woe, v.et, n)
        q, D, S = rm.descent(st, v.oeT, f, v.mu, v.P, v.woe, v.et)
        cur = np.linalg.norm(D, axis=1) * np.abs(f)
        best, worst = R.max(axis=1), R.min(axis=1)
        for i, k in enumerate(idx):
            k = int(k)
            if not cond[i] or not np.isfinite(R[i]).all() or S[i] * abs(f[i]) > 1e5 * best[i]:
                continue
            gap = (best[i] - worst[i]) / best[i]
            ra = cur[i] / best[i]
            tol = 1e-6 + 1e-9 * S[i] * abs(f[i]) / best[i]
            if abs(ea[k] - ra) > tol:
                out.append(V("eta-a-value", "step %d: absolute effectivity %.9g, reference %.9g" % (k, ea[k], ra), k))
                return out
            if not (-1e-9 <= ea[k] <= 1 + 1e-7):
                out.append(V("eta-range", "step %d: absolute effectivity %.12g outside [0,1]" % (k, ea[k]), k))
                return out
            if gap > 1e-3:
                rr = (cur[i] - worst[i]) / (best[i] - worst[i])
                if abs(er[k] - rr) > 4 * tol / gap:
                    out.append(V("eta-r-value", "step %d: relative effectivity %.9g, reference %.9g" % (k, er[k], rr), k))
                    return out
                if not (-1e-9 <= er[k] <= 1 + 1e-7 / gap):
                    out.append(V("eta-range", "step %d: relative effectivity %.12g outside [0,1]" % (k, er[k]), k))
                    return out
    return out


# ============================================================================ C10
def well_conditioned(v, st):
    """states at which pyqlaw's closed-form guidance is not dominated by rounding"""
    ok = np.ones(len(st), dtype=bool)
    with np.errstate(all="ignore"):
        e = st[:, 1] if v.et == "keplerian" else np.hypot(st[:, 1], st[:, 2])
        ok &= (e < 0.95) & ((e > 5e-5) | ((v.et != 'keplerian') & (e == 0)))
        if v.et == "keplerian":
            ok &= np.sin(st[:, 2]) > 1e-4
            for j in (3, 4):        # the shorter way round is ambiguous half a turn away
                if v.woe[j] != 0:
                    ok &= np.abs(rm.wrap_pi(st[:, j] - v.oeT[j])) < np.pi - 1e-6
            ok &= (np.abs(np.sin(st[:, 4])) > 1e-9) & (np.abs(np.cos(st[:, 4])) > 1e-9)
            # |cos i| in the weight of the out-of-plane drift
            ok &= np.abs(np.cos(st[:, 2])) > 1e-9
    return ok


def c10(tr):
    v, out = basic(tr)
    if out or v.n == 0:
        return out
    inj = injected_steps(v)
    sel = finite_steps(v) & ~inj
    sel &= well_conditioned(v, v.S[:-1])
    # natural outages (undefined direction) are not judged here
    idx = np.nonzero(sel)[0]
    if not len(idx):
        return out
    f = v.sg * float(tr.prob["tmax"]) / v.m[:-1][idx]
    st = v.S[idx]
    q, D, S = rm.descent(st, v.oeT, f, v.mu, v.P, v.woe, v.et)
    nd = np.linalg.norm(D, axis=1)
    cancel = S / np.maximum(nd, 1e-300)
    for i, k in enumerate(idx):
        k = int(k)
        if not np.isfinite(q[i]):
            continue
        qt = 1e-7 * abs(q[i])
        if not abs(v.Q[k] - q[i]) <= qt:
            out.append(V("q-value", "step %d: recorded Q %.12g, documented quotient %.12g" % (k, v.Q[k], q[i]), k))
            return out
        if v.Q[k] < 0:
            out.append(V("q-negative", "step %d: Q=%r" % (k, v.Q[k]), k))
            return out
        if not np.isfinite(nd[i]) or nd[i] == 0 or cancel[i] > 1e5:
            continue
        rt = 1e-6 + 1e-10 * cancel[i]
        want = nd[i] * abs(f[i])
        if not abs(abs(v.dQ[k]) - want) <= rt * want:
            out.append(V("rate", "step %d: recorded |dQ/dt| %.12g, fastest achievable %.12g" % (k, abs(v.dQ[k]), want), k))
            return out
        if v.C[k, 2] == 1:
            al, be = v.C[k, 0], v.C[k, 1]
            u = np.array([np.cos(be) * np.sin(al), np.cos(be) * np.cos(al), np.sin(be)])
            d = float(np.abs(u + D[i] / nd[i]).max())
            if not d <= 1e-6 + 1e-9 * cancel[i]:        # agreement is 1e-11 or better in calibration
                out.append(V("direction", "step %d: thrust direction %s, steepest descent %s (off by %.3g)"
                             % (k, u, -D[i] / nd[i], d), k))
                return out
    return out


# ============================================================================ C17
def c17(tr):
    v, out = basic(tr)
    if out or v.et != "keplerian":
        return out
    lo, hi = bounds_of(v)

    def inside(s):
        return np.isfinite(s[:5]).all() is np.False_ or ((s[:5] >= lo) & (s[:5] <= hi)).all()

    seen = [("guidance", x[0]) for x in tr.probe.lyap_log if x[0] is not None]
    seen += [("disturbance", x[1]) for x in tr.probe.ptrb_log]
    for w in "ar":
        seen += [("eta_" + w, x[1]) for x in tr.probe.eta_log[w]]
    for who, s in seen:
        if np.isfinite(s).all() and not ((s[:5] >= lo) & (s[:5] <= hi)).all():
            out.append(V("evaluated-outside", "%s evaluated on %s outside [%s, %s]" % (who, s[:5], lo, hi)))
            return out
    for k in range(v.n):
        s = v.S[k]
        if np.isfinite(s).all() and not ((s[:5] >= lo) & (s[:5] <= hi)).all():
            out.append(V("recorded-outside", "recorded state %d is %s, bounds [%s, %s]" % (k, s[:5], lo, hi), k))
            return out
    s0 = np.minimum(np.maximum(np.array(tr.prob["oe0"][:5], dtype=float), lo), hi)
    if v.n and not np.array_equal(v.S[0, :5], s0):
        out.append(V("initial", "initial state recorded as %s, safeguarded initial elements are %s" % (v.S[0, :5], s0), 0))
        return out
    if v.n and v.S[0, 5] != float(tr.prob["oe0"][5]):
        out.append(V("initial", "initial anomaly %r recorded as %r" % (tr.prob["oe0"][5], v.S[0, 5]), 0))
        return out
    if v.n > 1:
        nxt, tol, miss, ok = predict(v)
        cl = np.minimum(np.maximum(nxt[:, :5], lo), hi)
        d = np.abs(v.S[1:-1, :5] - cl[:-1])
        bad = d > tol[:-1, :5]
        if bad.any():
            k, j = [int(x) for x in np.argwhere(bad)[0]]
            out.append(V("clamp", "state %d element %d: propagated %.12g, bounds [%.6g, %.6g], recorded %.12g"
                         % (k + 1, j, nxt[k, j], lo[j], hi[j], v.S[k + 1, j]), k + 1))
            return out
        d5 = np.abs(v.S[1:, 5] - nxt[:, 5])
        bad = d5 > tol[:, 5]
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            out.append(V("anomaly", "state %d: propagated anomaly %.12g, recorded %.12g" % (k + 1, nxt[k, 5], v.S[k + 1, 5]), k + 1))
    return out


# ============================================================================ C18
def c18(tr):
    v, out = basic(tr)
    if out:
        return out
    if v.lost is not None and any(x[1] and x[0] is not None and x[0].tobytes() == v.raw[1][v.lost].tobytes() for x in tr.probe.lyap_log) \
            and lost_state(v, zero=True) is not None:
        return [V("nan-leak", "step %d: undefined guidance led from a regular orbit to the state %s (control %s)"
                  % (v.lost, v.raw[1][v.lost + 1], v.raw[4][v.lost]), v.lost)]
    if tr.status != "ok" or v.trunc:
        return out
    inj = injected_steps(v)
    en = v.enabled()
    if v.n:
        bad = inj & (v.C[:, 2] != 0)
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            out.append(V("thrust-on-nan", "step %d: thrust angles undefined but throttle %g" % (k, v.C[k, 2]), k))
            return out
        bad = inj & (v.m[1:] != v.m[:-1])
        if bad.any():
            k = int(np.nonzero(bad)[0][0])
            out.append(V("propellant-on-nan", "step %d: thrust angles undefined but mass changed by %r"
                         % (k, v.m[k + 1] - v.m[k]), k))
            return out
        if not np.isfinite(v.C).all() or not (np.isfinite(v.S).all() if not wild(v) else True):
            k = int(np.nonzero(~np.isfinite(v.C).all(axis=1) | ~np.isfinite(v.S[:-1]).all(axis=1))[0][0]) \
                if (~np.isfinite(v.C).all(axis=1) | ~np.isfinite(v.S[:-1]).all(axis=1)).any() else v.n
            out.append(V("nan-leak", "undefined guidance leaked into the recorded history at step %d" % k, k))
            return out
        # flown ballistically (plus disturbances)
        if inj.any():
            nxt, tol, miss, ok = predict(v)
            if v.et == "keplerian":
                lo, hi = bounds_of(v)
                raw = nxt.copy()
                nxt[:, :5] = np.minimum(np.maximum(nxt[:, :5], lo), hi)
            d = np.abs(v.S[1:] - nxt)
            if v.et == "keplerian":
                d[-1] = np.minimum(d[-1], np.abs(v.S[-1] - raw[-1]))
            bad = (d > tol).any(axis=1) & inj
            if bad.any():
                k = int(np.nonzero(bad)[0][0])
                out.append(V("powered-nan", "step %d without valid guidance was not flown unpowered: recorded %s, ballistic %s"
                             % (k, v.S[k + 1], nxt[k]), k))
                return out
    # natural outages make the count unknowable from outside
    nat = (~np.isfinite(v.dQ) & ~inj).any() if v.n else False
    if nat:
        return out
    thr = int(tr.cfg["nan_angles_threshold"])
    always = v.ON > 1e15 and (v.d == 0 or v.sg < 0) and v.b[0] > v.c0 + 1e-9
    code = tr.hist["exitcode"]
    if always:
        cnt = int(inj.sum())
        ambiguous = False
    else:
        x = en[inj] if v.n else np.zeros(0)
        cnt = int((x == 1).sum())
        ambiguous = bool((x == -1).any())
    last = tr.probe.lyap_log[-1] if tr.probe.lyap_log else None
    if code == -3:
        injected_end = bool(last and last[1])
        if not injected_end:
            if natural_ok(v):
                out.append(V("abandoned", "exit -3 although guidance was valid at the last evaluation"))
            return out
        if not ambiguous and cnt != thr:
            out.append(V("threshold", "abandoned with %d recorded outages, configured threshold %d" % (cnt, thr)))
    else:
        if not ambiguous and cnt > thr:
            out.append(V("threshold", "%d outages flown although only %d are tolerated (exit %r)" % (cnt, thr, code)))
        if v.n and always:
            # recovery: after an outage an enabled step with valid guidance and no thresholds thrusts
            eta = tr.m.get("eta") or {}
            if not eta:
                off = (~inj) & (v.C[:, 2] == 0) & np.isfinite(v.dQ)
                if off.any():
                    k = int(np.nonzero(off)[0][0])
                    out.append(V("no-recovery", "step %d: guidance valid, thruster enabled, but throttle 0" % k, k))
    return out


def wild(v):
    """the history legitimately contains non-finite states (disturbed out of the elliptic domain)"""
    with np.errstate(all="ignore"):
        e = v.S[:, 1] if v.et == "keplerian" else np.hypot(v.S[:, 1], v.S[:, 2])
        return bool(np.nanmax(e) > 0.9 or np.nanmin(v.S[:, 0]) <= 0.05 or
                    (v.et == "keplerian" and np.nanmin(e) < 2e-2))


ORACLE = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08,
          "C09": c09, "C10": c10, "C17": c17, "C18": c18}
