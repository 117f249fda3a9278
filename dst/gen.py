"""Seeded generation of missions (swarm style: every run enables its own subset of features)."""
import math
import random

TWO_PI = 2 * math.pi


def derive(seed, *names):
    """a child seed, stable across processes and hash seeds"""
    import hashlib
    h = hashlib.sha256(("%d|" % seed + "|".join(str(n) for n in names)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def logu(r, lo, hi):
    return 10 ** r.uniform(math.log10(lo), math.log10(hi))


def pick(r, want, key, p):
    """feature switch: forced by `want`, otherwise on with probability p"""
    v = want.get(key)
    if v is None:
        return r.random() < p
    if isinstance(v, float):
        return r.random() < v
    return bool(v)


def gen_eta(r, level=None):
    """threshold specification"""
    kind = r.random()
    if kind < 0.3:
        return {"k": "const", "v": 0.0}
    if kind < 0.55:
        return {"k": "const", "v": round(r.uniform(0.02, 0.95), 3)}
    if kind < 0.6:
        return {"k": "const", "v": r.choice([1.0, -0.1, 0.999])}
    s = {"k": "fn", "c": round(r.uniform(-0.1, 0.6), 3)}
    if r.random() < 0.6:
        s["t"] = [round(r.uniform(0.1, 0.5), 3), r.uniform(0.1, 3.0), r.uniform(0, 6.3)]
    if r.random() < 0.3:
        s["b"] = round(r.uniform(-0.5, 0.5), 3)
    if r.random() < 0.3:
        s["oe"] = [r.randrange(6), round(r.uniform(0.1, 0.4), 3)]
    if r.random() < 0.3:
        s["ret"] = "np"
    return s


def gen_mission(r, **want):
    """One mission.  `want` forces or weights features; everything else is drawn from r."""
    et = want.get("et") or ("keplerian" if r.random() < 0.4 else "mee_with_a")
    kep = et == "keplerian"
    cfg = {"elements_type": et}
    prob = {}
    m = {"cfg": cfg, "prob": prob, "eta": {}, "env": {"mode": "none"}}

    # ---- units
    mu, LU = 1.0, 1.0
    if pick(r, want, "units", 0.3):
        if r.random() < 0.3:
            mu, LU = 398600.4418, 6378.0
        else:
            mu, LU = logu(r, 1e-2, 1e2), logu(r, 0.2, 5.0)
        cfg["mu"] = mu
    TU = math.sqrt(LU ** 3 / mu)
    AU_ = LU / TU ** 2

    # ---- orbit
    a = r.uniform(0.7, 3.0)
    e = r.uniform(*want.get("e_range", (0.02, 0.65)))
    i = r.uniform(*want.get("i_range", (0.05, 1.6)))
    if want.get("i_range") is None and r.random() < 0.25:
        i = r.uniform(1.6, 2.7)
    x = r.random()
    if want.get("e_range") is None and x < 0.1:
        e = logu(r, 3e-4, 0.02)                   # near-circular
    elif want.get("e_range") is None and x < 0.18:
        e = r.uniform(0.65, 0.88)                 # very eccentric
    if want.get("i_range") is None and 0.05 < x < 0.13:
        i = logu(r, 2e-3, 0.05)                   # near-equatorial
    O, w, th = (r.uniform(0.1, 6.1) for _ in range(3))
    if r.random() < 0.3:
        th = r.choice([0.0, math.pi, -math.pi, r.uniform(-40, 40), 1e-3, TWO_PI * r.randint(1, 30) + 1.0])
    if kep and r.random() < 0.2:
        O += r.choice([-TWO_PI, TWO_PI])
    if kep and r.random() < 0.2:
        w += r.choice([-TWO_PI, TWO_PI])
    n = math.sqrt(1.0 / a ** 3)                   # rad per TU

    def tomee(a, e, i, O, w, th=None):
        t = math.tan(i / 2)
        x = [a, e * math.cos(O + w), e * math.sin(O + w), t * math.cos(O), t * math.sin(O)]
        if th is not None:
            x.append(O + w + th)
        return x

    close = pick(r, want, "close", 0.15)
    sc = logu(r, 0.002, 0.05) if close else logu(r, 0.05, 0.6)

    def near(x, s, lo, hi):
        return min(max(x + s * sc * r.choice([-1, 1]) * r.uniform(0.3, 1.0), lo), hi)
    aT = max(0.4, a * (1 + 1.2 * sc * r.choice([-1, 1]) * r.uniform(.3, 1)))
    eT = near(e, 0.5, 0.001, 0.8)
    iT = near(i, 1.0, 0.01, 2.8)
    OT = O + r.choice([-1, 1]) * r.uniform(0.3, 1.0) * sc * 2
    wT = w + r.choice([-1, 1]) * r.uniform(0.3, 1.0) * sc * 2
    if kep and r.random() < 0.3:
        OT += r.choice([-TWO_PI, TWO_PI])
    if kep and r.random() < 0.3:
        wT += r.choice([-TWO_PI, TWO_PI])
    if kep:
        oe0, oeT = [a, e, i, O, w, th], [aT, eT, iT, OT, wT]
    else:
        oe0, oeT = tomee(a, e, i, O, w, th), tomee(aT, eT, iT, OT, wT)
    x = r.random()
    if x < 0.12:                                   # round orbits people really start from and go to
        if kep:
            oe0[r.choice([3, 4])] = 0.0
        else:
            for j in r.choice([[1], [2], [1, 2], [3], [4], [3, 4], [1, 2, 3, 4]]):
                oe0[j] = 0.0
    if 0.08 < x < 0.2:
        if kep:
            oeT[r.choice([3, 4])] = 0.0
        else:
            for j in r.choice([[1], [2], [1, 2], [3], [4], [3, 4], [1, 2, 3, 4]]):
                oeT[j] = 0.0
    if 0.16 < x < 0.28:
        for j in range(5):
            if r.random() < 0.5:
                oeT[j] = oe0[j]
    if r.random() < 0.25:
        oeT = oeT + [r.uniform(-3, 3)]
    oe0[0] *= LU
    oeT[0] *= LU
    prob["oe0"], prob["oeT"] = oe0, oeT
    if r.random() < 0.35:
        wo = [r.choice([0.0, 1.0, 1.0, r.uniform(0.1, 10)]) for _ in range(5)]
        if not any(wo):
            wo[0] = 1.0
        prob["woe"] = wo
        prob["container"] = r.choice(["array", "list", "tuple"])
        if r.random() < 0.5:
            prob["container"] = "array"
    if kep and want.get("bounds") is None:
        # keep the default box out of the way when the length unit is not canonical
        if LU != 1.0 or r.random() < 0.5:
            cfg["oe_min"] = [0.05 * LU, 1e-4, 1e-4, -20.0, -20.0]
            cfg["oe_max"] = [1e2 * LU, 0.95, math.pi - 1e-3, 20.0, 20.0]

    # ---- Q-law shape
    if r.random() < 0.6:
        rp = a * (1 - e)
        cfg["rpmin"] = rp * r.uniform(0.2, 1.2) * LU
        cfg["k_petro"] = r.choice([1.0, r.uniform(0.1, 5)])
        cfg["wp"] = r.choice([1.0, 0.0, r.uniform(0, 2)])
    else:
        cfg["rpmin"] = 0.1 * LU
    if r.random() < 0.4:
        cfg["m_petro"] = r.uniform(1.0, 5.0)
        cfg["n_petro"] = r.choice([2.0, 3.0, 4.0, r.uniform(2.0, 5.0)])
        cfg["r_petro"] = r.uniform(1.0, 4.0)
        cfg["b_petro"] = r.choice([0.01, 0.0, r.uniform(0, 1)])

    # ---- time
    back = pick(r, want, "backward", 0.25)
    nsteps = r.randint(*want.get("steps", (20, 120)))
    if "steps" not in want and not want.get("_inner") and r.random() < 0.03:
        nsteps = int(logu(r, 300, 1500))              # long missions
    if pick(r, want, "sundman", 0.25):
        cfg["use_sundman"] = True
        dE = logu(r, 0.03, 0.6)
        prob["t_step"] = -dE if back else dE
        dt = dE / n * TU
        short = dt * max(0.05, 1 - e - 0.2)
    else:
        dt = logu(r, *want.get("dt", (0.02, 0.4))) / n * TU
        if r.random() < 0.2:
            dt = float(2 ** round(math.log2(dt)))        # exactly representable multiples
        prob["t_step"] = -dt if back else dt
        short = dt
    tf = nsteps * dt * r.uniform(0.9, 1.0)
    if r.random() < 0.15:
        tf = nsteps * dt                                   # a whole number of steps
    prob["tf_max"] = -tf if r.random() < (0.5 if back else 0.1) else tf
    if r.random() < 0.5:
        cfg["integrator"] = "rkf45"

    # ---- thrust and mass
    mass0 = r.choice([1.0, 1.0, logu(r, 0.5, 2000.0)])
    acc = logu(r, *want.get("acc", (1e-4, 1e-2)))
    prob["mass0"] = mass0
    prob["tmax"] = acc * AU_ * mass0
    burn = r.choice([0.0, r.uniform(0.01, 0.5), r.uniform(0.01, 0.1)])
    prob["mdot"] = burn * mass0 / tf
    prob["mass_min"] = 0.01
    if pick(r, want, "massfloor", 0.1):
        frac = r.uniform(0.1, 0.9)
        prob["mdot"] = 0.6 * mass0 / tf / frac
        prob["mass_min"] = max(0.01, 0.4 * mass0)

    # ---- duty cycle
    if pick(r, want, "duty", 0.3):
        on = r.choice([r.uniform(0.3, 15), r.uniform(0.3, 15), float(r.randint(1, 10)), 0.0])
        off = r.choice([r.uniform(0.3, 10), r.uniform(0.3, 10), float(r.randint(1, 8)), 0.0])
        prob["duty_cycle"] = [on * dt, off * dt]

    # ---- battery
    if pick(r, want, "battery", 0.3) and (not back or pick(r, want, "battback", 0.4)):
        scale = r.choice([1.0, 1.0, logu(r, 0.1, 100.0)])
        c0 = r.choice([0.0, 0.2, r.uniform(0, 0.5)]) * scale
        c1 = c0 + r.choice([0.8, r.uniform(0.1, 1.0)]) * scale
        prob["battery_capacity"] = [c0, c1]
        prob["battery_initial"] = r.choice([c1, c1, c0, r.uniform(c0, c1), c0 + 0.01 * (c1 - c0)])
        d = (c1 - c0) / (r.choice([r.uniform(0.4, 6), r.uniform(3, 25), float(r.randint(1, 8))]) * dt)
        c = (c1 - c0) / (r.choice([r.uniform(0.4, 6), r.uniform(3, 25), float(r.randint(1, 8))]) * dt)
        if r.random() < 0.07:
            c = 0.0
        if r.random() < 0.05:
            d = 0.0
        if pick(r, want, "gentle", 0.08):
            d = (c1 - c0) / (r.uniform(0.8, 8) * nsteps * dt)     # a battery that (hardly ever) runs empty
            prob["battery_initial"] = r.choice([c1, r.uniform(c0 + 0.5 * (c1 - c0), c1)])
        prob["battery_charge_discharge_rate"] = [c, d]
        prob["require_full_recharge"] = pick(r, want, "recharge", 0.5)

    # ---- thresholds
    if pick(r, want, "eta", 0.35):
        m["eta"] = {"a": gen_eta(r), "r": gen_eta(r)}
        if r.random() < 0.4:
            m["eta"][r.choice("ar")] = {"k": "const", "v": 0.0}
        cfg["anomaly_grid_size"] = r.choice([3, 4, 5, 7, 12])

    # ---- disturbances
    if pick(r, want, "env", 0.5):
        segs = []
        if pick(r, want, "gust", 0.8):
            for _ in range(r.randint(1, 4)):
                amp = acc * AU_ * logu(r, 0.05, 3.0)
                u = [r.gauss(0, 1) for _ in range(3)]
                nn = math.sqrt(sum(x * x for x in u)) or 1.0
                t0 = r.uniform(0, 0.8) * tf
                t1 = t0 + r.choice([r.uniform(0.02, 0.2), r.uniform(0.2, 1.0)]) * tf
                if back:
                    t0, t1 = -t1, -t0
                s = {"t0": t0, "t1": t1, "acc": [amp * x / nn for x in u]}
                if r.random() < 0.4:
                    s["w"], s["phi"] = r.uniform(0.1, 5) / TU, r.uniform(0, 6)
                segs.append(s)
        m["env"] = {"mode": "sim", "segs": segs}

    # ---- guidance outages
    if pick(r, want, "nan", 0.1):
        thr = r.choice([0, 1, 3, 10, r.randint(0, 15)])
        cfg["nan_angles_threshold"] = thr
        total = max(0, r.choice([thr, thr + 1, thr - 1, thr + 3, thr // 2, r.randint(0, 2 * thr + 2)]))
        rng = []
        left = total
        pos = r.choice([0, r.randint(0, max(1, nsteps // 3))])
        while left > 0:
            k = r.randint(1, left)
            rng.append([pos, pos + k])
            left -= k
            pos += k + r.randint(1, 8)
        m["nan"] = rng
        m["nan_kind"] = r.choice(["nan", "nan", "zero", "normal", "one"])

    # ---- convergence settings
    if pick(r, want, "conv", 0.3):
        tol = logu(r, 0.2, 1.2) * sc
        cfg["tol_oe"] = [tol * (LU if j == 0 else 1.0) * r.uniform(0.6, 1.5) for j in range(5)]
        cfg["relaxed_tol_factor"] = r.choice([1, 1.5, 3, 10])
        cfg["exit_at_relaxed"] = r.choice([1, 2, 5, 10, r.randint(1, 30)])
    if r.random() < 0.2:
        cfg["verbosity"] = r.choice([0, 1, 2, 3])
        cfg["print_frequency"] = r.choice([1, 2, 7, 50, 200])

    if not cfg.get("use_sundman") and pick(r, want, "snap", 0.12):
        snap(r, m, nsteps)
        dt = short = abs(prob["t_step"])
        tf = abs(prob["tf_max"])

    m["budget"] = int(20 * tf / short) + 3000
    # ---- the object may have flown before
    if pick(r, want, "prelude", 0.12) and not want.get("_inner"):
        w2 = dict(want)
        w2.update(et=et, _inner=True, steps=(5, 40), units=False)
        m["prelude"] = [gen_mission(r, **w2)]
    return m


def variant(r, m, keys=None):
    """the same mission with one to three settings changed"""
    import copy
    m = copy.deepcopy(m)
    c, p = m["cfg"], m["prob"]
    for _ in range(r.randint(1, 3)):
        k = r.choice(keys or ["woe", "woe", "wp", "rpmin", "petro", "petro", "tmax", "mdot", "oeT", "oe0", "mass0", "integrator", "grid", "tol", "mu",
                      "duty", "battery", "eta", "env", "t_step", "tf"])
        if k == "woe":
            p["woe"] = [r.uniform(0.1, 10) for _ in range(5)]
        elif k == "wp":
            c["wp"] = r.uniform(0.1, 5)
        elif k == "rpmin":
            c["rpmin"] = c.get("rpmin", 0.1) * r.uniform(0.5, 2.0)
        elif k == "petro":
            c[r.choice(["m_petro", "n_petro", "r_petro", "b_petro", "k_petro"])] = r.uniform(1.0, 4.0)
        elif k in ("tmax", "mdot", "mass0"):
            p[k] *= r.uniform(0.7, 1.4)
        elif k == "oeT":
            j = r.randrange(5)
            p["oeT"][j] += (0.05 * p["oe0"][0] if j == 0 else 0.02) * r.choice([-1, 1])
        elif k == "oe0":
            p["oe0"][5] += r.uniform(-1, 1)
        elif k == "integrator":
            c["integrator"] = "rk4" if c.get("integrator") == "rkf45" else "rkf45"
        elif k == "grid":
            c["anomaly_grid_size"] = r.choice([3, 4, 6, 9])
        elif k == "tol":
            c["tol_oe"] = [x * r.uniform(0.3, 3) for x in c.get("tol_oe", [1e-3] * 5)]
        elif k == "mu":
            c["mu"] = c.get("mu", 1.0) * r.uniform(0.95, 1.05)
        elif k == "duty":
            p["duty_cycle"] = [abs(p["t_step"]) * r.uniform(1, 6), abs(p["t_step"]) * r.uniform(1, 6)]
        elif k == "battery" and "battery_capacity" in p:
            p["battery_initial"] = r.uniform(*p["battery_capacity"])
            p["require_full_recharge"] = not p.get("require_full_recharge", False)
        elif k == "eta":
            m["eta"] = {"a": gen_eta(r), "r": gen_eta(r)}
        elif k == "env":
            for s in m["env"].get("segs", []):
                s["acc"] = [-x for x in s["acc"]]
        elif k == "t_step":
            p["t_step"] *= r.uniform(0.7, 1.3)
        elif k == "tf":
            p["tf_max"] *= r.uniform(0.6, 1.2)
    return m


def p2(x):
    """nearest power of two"""
    return float(2.0 ** round(math.log2(x)))


def snap(r, m, nsteps):
    """exactly representable steps, limits and rates, so that clocks, ledgers and levels land exactly on their limits"""
    p = m["prob"]
    sg = 1.0 if p["t_step"] > 0 else -1.0
    dt = p2(abs(p["t_step"]))
    p["t_step"] = sg * dt
    k = max(4, nsteps)
    p["tf_max"] = math.copysign(r.choice([k, k, k - 0.5, k - 0.25]) * dt, p["tf_max"])
    if p["mdot"] > 0:
        acc = p["tmax"] / p["mass0"]
        p["mass0"] = p2(p["mass0"])
        p["tmax"] = acc * p["mass0"]
        q = min(p2(0.5 / k), max(p2(p["mdot"] * dt / p["mass0"]), 2.0 ** -30)) * p["mass0"]
        p["mdot"] = q / dt
        if p["mass_min"] > 0.01 or r.random() < 0.15:
            p["mass_min"] = max(0.03125, p["mass0"] - r.randint(1, k) * q * r.choice([1, 1, 1, 0.5]))
    if "duty_cycle" in p:
        p["duty_cycle"] = [max(0, round(2 * x / dt)) / 2 * dt for x in p["duty_cycle"]]
    if "battery_capacity" in p:
        c0, c1 = p["battery_capacity"]
        f = (p["battery_initial"] - c0) / (c1 - c0)
        D = p2(c1 - c0)
        c0 = r.choice([0.0, D / 4, D / 2])
        c1 = c0 + D
        p["battery_capacity"] = [c0, c1]
        p["battery_initial"] = c0 + round(16 * f) / 16 * D
        p["battery_charge_discharge_rate"] = [0.0 if x == 0 else D / dt * r.choice([2.0 ** -r.randint(0, 4), r.randint(1, 16) / 16.0])
                                              for x in p["battery_charge_discharge_rate"]]


def features(m):
    """feature tags of a mission (for coverage signatures)"""
    c, p = m["cfg"], m["prob"]
    f = [("kep" if c["elements_type"] == "keplerian" else "mee"), c.get("integrator", "rk4")]
    if c.get("use_sundman"):
        f.append("sundman")
    if p["t_step"] < 0:
        f.append("backward")
    if "duty_cycle" in p:
        f.append("duty")
    if "battery_capacity" in p:
        f.append("battery")
        if p.get("require_full_recharge"):
            f.append("recharge")
    if m.get("eta"):
        f.append("eta")
    if m["env"]["mode"] == "sim" and m["env"]["segs"]:
        f.append("gust")
    if m.get("nan"):
        f.append("nan")
    if "mu" in c:
        f.append("units")
    if m.get("prelude"):
        f.append("prelude")
    if m.get("faults"):
        f.append("faults")
    return f
