"""C21: the closed loop reaches the target, in bounded time after disturbances and outages stop."""
import copy
import hashlib
import math
import numpy as np
from . import gen, world, oracles, profiles, refmodel as rm
from .oracles import V

PROPS = ["C21"]
RUNS = {"C21": 600}
TIMEOUT = 300.0
FACTOR = 4.0            # allowed time to converge after the last disturbance, in units of the minimum-time estimate sqrt(Q) (the
FACTOR_SLOW = 6.0       # larger of the one at the start and the one then), per unit of available thrust time
RULE = {"C21": "one case = one transfer of the calibrated SMA-MEE family (e < 0.4, i < 1 rad, steps of at most 0.12 rad of mean "
               "anomaly), undisturbed or hit by seeded bursts of acceleration, guidance outages, duty cycle or coasting thresholds "
               "that end; distinct by mode signature; non-trivial = a disturbance was injected or at least 50 thrusting steps"}
ASSUMPTIONS = {"C21": ["well-posed family only: all weights 1, default Q-law shape, periapsis limit half the smallest periapsis, "
                       "adequate propellant and time", "step-to-step decrease of Q is claimed where the achievable rate is at "
                       "least 40 % of 2 sqrt(Q) and the target is at least 20 steps away"]}


def gen_plan(prop, r):
    a, e, i = r.uniform(0.8, 2.0), r.uniform(0.02, 0.4), r.uniform(0.02, 1.0)
    O, w, th = [r.uniform(0, 6.28) for _ in range(3)]
    t = math.tan(i / 2)
    oe0 = [a, e * math.cos(O + w), e * math.sin(O + w), t * math.cos(O), t * math.sin(O), O + w + th]
    x = r.random()
    if x < 0.06:
        oe0[1] = oe0[2] = 0.0                       # circular start
    elif x < 0.10:
        oe0[3] = oe0[4] = 0.0                       # equatorial start
    elif x < 0.13:
        oe0[r.choice([1, 2, 3, 4])] = 0.0
    oeT = [a * r.uniform(0.75, 1.35), oe0[1] + r.uniform(-.12, .12), oe0[2] + r.uniform(-.12, .12),
           oe0[3] + r.uniform(-.1, .1), oe0[4] + r.uniform(-.1, .1)]
    if 0.04 < x < 0.08 and math.hypot(oe0[1], oe0[2]) < 0.15:
        oeT[1] = oeT[2] = 0.0                       # circular target (geostationary when equatorial too)
    if 0.06 < x < 0.11 and math.hypot(oe0[3], oe0[4]) < 0.13:
        oeT[3] = oeT[4] = 0.0
    if 0.11 < x < 0.16:
        for j in r.sample(range(5), r.randint(1, 3)):
            oeT[j] = oe0[j]
    if oe0[1] == oe0[2] == 0.0:
        e = 0.0
    n = a ** -1.5
    dt = r.uniform(0.04, 0.12) / n
    acc = 10 ** r.uniform(-2.7, -2.0) / a ** 2
    mu, LU = 1.0, 1.0
    if r.random() < 0.25:
        mu, LU = gen.logu(r, 1e-2, 1e2), gen.logu(r, 0.2, 5.0)
    TU = math.sqrt(LU ** 3 / mu)
    back = r.random() < 0.2
    rp = min(a * (1 - e), oeT[0] * (1 - math.hypot(oeT[1], oeT[2])))
    oe0[0] *= LU
    oeT[0] *= LU
    mass0 = r.choice([1.0, gen.logu(r, 0.5, 2000)])
    cfg = {"elements_type": "mee_with_a", "integrator": r.choice(["rk4", "rkf45"]), "tol_oe": [0.01 * a * LU] + [0.01] * 4,
           "exit_at_relaxed": 10 ** 9, "rpmin": 0.5 * rp * LU, "mu": mu}
    step = dt * TU
    prob = {"oe0": oe0, "oeT": oeT, "mass0": mass0, "tmax": acc * LU / TU ** 2 * mass0, "t_step": -step if back else step,
            "mass_min": 0.01, "tf_max": 1.0, "mdot": 0.0}
    if r.random() < 0.2:
        cfg["use_sundman"] = True
        dE = dt * n * 0.8
        prob["t_step"] = -dE if back else dE
    m = {"cfg": cfg, "prob": prob, "eta": {}, "env": {"mode": "none"}, "budget": 10 ** 6}
    q0, _ = rm.qlaw(np.array([oe0]), oeT, prob["tmax"] / mass0, mu, shape(cfg), [1] * 5, "mee_with_a")
    T = math.sqrt(float(q0[0]))
    prob["mdot"] = mass0 * r.choice([0.0, 0.01, 0.1]) / (20 * T)
    prob["tf_max"] = 25 * T
    kind = r.choice(["calm", "gust", "gust", "gust", "outage", "duty", "eta", "both"])
    if kind in ("gust", "both"):
        segs, imp = [], r.uniform(0.1, 0.35) * T
        k = r.randint(1, 4)
        for _ in range(k):
            amp = r.uniform(0.3, 1.0)
            dur = imp / k / amp
            t0 = r.uniform(0, 1.2) * T
            u = [r.gauss(0, 1) for _ in range(3)]
            nn = math.sqrt(sum(x * x for x in u))
            x = {"t0": t0, "t1": t0 + dur, "acc": [amp * prob["tmax"] / mass0 * y / nn for y in u]}
            if back:
                x["t0"], x["t1"] = -x["t1"], -x["t0"]
            if r.random() < 0.5:
                x["w"], x["phi"] = r.uniform(0.5, 3) * n / TU, r.uniform(0, 6)
            segs.append(x)
        m["env"] = {"mode": "sim", "segs": segs}
    if kind in ("outage", "both"):
        steps = max(20, int(T / step))
        rng, tot, pos = [], 0, r.randint(0, 10)
        for _ in range(r.randint(1, 6)):
            k = r.randint(1, max(2, steps // 15))
            rng.append([pos, pos + k])
            tot += k
            pos += k + r.randint(1, max(2, steps // 6))
        m["nan"] = rng
        cfg["nan_angles_threshold"] = tot
    if kind == "duty":
        per = 2 * math.pi / n * TU
        on = r.uniform(0.05, 1.5) * per
        prob["duty_cycle"] = [on, on * r.uniform(0.05, 0.8)]
    if kind == "eta":
        m["eta"] = {r.choice("ar"): {"k": "const", "v": round(r.uniform(0.02, 0.3), 3)}}
        cfg["anomaly_grid_size"] = r.choice([5, 8, 12])
    return {"kind": "converge", "m": m, "mode": kind, "T": T}


def shape(cfg):
    return {"rpmin": cfg["rpmin"], "k": 1.0, "m": 3.0, "n": 4.0, "r": 2.0, "b": 0.01, "wp": 1.0}


def shrink(prop, plan):
    return []


def run_plan(prop, plan, pyqlaw):
    m = copy.deepcopy(plan["m"])
    t = world.run_mission(m, pyqlaw)
    v, out = oracles.basic(t)
    info = profiles.summarise(t)
    info["digest"] = world.digest(t.hist)
    info["nontrivial"] = info["steps"] >= 50
    info["sig"] = hashlib.sha256((str(info.get("sig")) + plan["mode"]).encode()).hexdigest()[:16]
    info["fired"]["mode:" + plan["mode"]] = 1
    if out:
        return out, info
    env = m["env"]
    gust = np.zeros(v.n, dtype=bool)
    if env["mode"] == "sim":
        for s in env["segs"]:
            gust |= (v.t[:-1][:v.n] >= s["t0"] - 1e-12) & (v.t[:-1][:v.n] < s["t1"])
    inj = oracles.injected_steps(v)
    if v.trunc:
        return [V("left-domain", "a well-posed transfer was driven out of the elliptic domain (%s)" % plan["mode"])], info
    dist = np.nonzero(gust | inj)[0]
    ks = int(dist[-1]) + 1 if len(dist) else 0
    ks = min(ks, v.n - 1)
    sq = np.sqrt(np.maximum(v.Q, 0))
    frac = 1.0
    fac = FACTOR
    if "duty_cycle" in m["prob"]:
        on, off = m["prob"]["duty_cycle"]
        st = float(np.median(np.abs(v.h)))
        frac = on / (on + off + 2 * st)
    if plan["mode"] == "eta":
        fac = FACTOR_SLOW
    ref = max(float(sq[ks]), float(sq[0]))
    spent = abs(float(v.t[-1] - v.t[ks]))
    info["ratio"] = spent * frac / max(ref, 1e-9)
    limit = fac * ref / frac + 30 * float(np.median(np.abs(v.h)))
    if t.hist["exitcode"] != 1 or not t.hist["converge"]:
        return [V("not-reached", "transfer (%s) did not converge: exit code %r after %.3g time units (minimum-time estimate sqrt(Q) = %.3g at "
                  "the start, %.3g when the last disturbance ended)" % (plan["mode"], t.hist["exitcode"], abs(v.t[-1]), sq[0], ref))], info
    if spent > limit:
        return [V("too-slow", "transfer (%s) took %.4g after the last disturbance, minimum-time estimate sqrt(Q) = %.4g, allowed %.4g"
                  % (plan["mode"], spent, ref, limit))], info
    # Q decreases
    dt = np.abs(v.h[:-1])
    with np.errstate(all="ignore"):
        eff = np.abs(v.dQ[:-1]) / (2 * sq[:-1])
    on = (v.C[:-1, 2] == 1) & ~gust[:-1] & np.isfinite(eff)
    far = sq[:-1] > 20 * dt
    up = on & far & (eff > 0.4) & ~(np.diff(v.Q) < 0)
    if up.any():
        k = int(np.nonzero(up)[0][0])
        return [V("q-increases", "step %d: thrusting undisturbed, far from the target, Q went from %.9g to %.9g (recorded rate %.4g)"
                  % (k, v.Q[k], v.Q[k + 1], v.dQ[k]), k)], info
    # and over a revolution of undisturbed thrusting
    per = 2 * np.pi * np.sqrt(v.S[:, 0] ** 3 / v.mu)
    j = 0
    T = np.abs(v.t)
    bad_after = np.concatenate([[0], np.cumsum(~((v.C[:, 2] == 1) & ~gust))])
    for k in range(0, v.n, 7):
        while j < v.n and T[j] - T[k] < 1.05 * per[k]:
            j += 1
        if j >= v.n:
            break
        if bad_after[j] == bad_after[k] and sq[k] > 20 * dt[min(k, len(dt) - 1)] and not v.Q[j] < v.Q[k]:
            return [V("q-revolution", "from step %d to %d, one revolution of undisturbed thrusting, Q went from %.9g to %.9g"
                      % (k, j, v.Q[k], v.Q[j]), k)], info
    return [], info
