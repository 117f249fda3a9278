"""Reference physics, written independently of pyqlaw (numpy only, vectorised).

Everything here is derived from first principles rather than from the formulas in /repo:
Cartesian states by the perifocal/equinoctial bases, influence coefficients of the orbit
elements by complex-step differentiation of Cartesian->element maps, Kepler's equation,
the documented proximity quotient and its gradient by complex steps.

Arrays are (..., 6) with the last axis the element index.  KEP = [a,e,i,raan,aop,ta],
MEE = [a,f,g,h,k,L].
"""
import numpy as np

TWO_PI = 2 * np.pi
CS = 1e-200     # complex step


# --------------------------------------------------------------------------- basics
def cdot(u, v):
    return np.sum(u * v, axis=-1)


def cnorm(u):
    return np.sqrt(cdot(u, u))


def catan2(y, x):
    """arctan2 whose complex part carries the first derivative (complex-step safe)."""
    y = np.asarray(y, dtype=complex)
    x = np.asarray(x, dtype=complex)
    yr, xr = y.real, x.real
    return np.arctan2(yr, xr) + 1j * (xr * y.imag - yr * x.imag) / (xr * xr + yr * yr)


def wrap_pi(x):
    """difference of angles in [-pi, pi)"""
    return (np.asarray(x) + np.pi) % TWO_PI - np.pi


def kep2rv(oe, mu):
    oe = np.asarray(oe, dtype=float)
    a, e, i, O, w, th = np.moveaxis(oe, -1, 0)
    p = a * (1 - e * e)
    r = p / (1 + e * np.cos(th))
    u = w + th
    cO, sO, ci, si = np.cos(O), np.sin(O), np.cos(i), np.sin(i)
    P = np.stack([cO, sO, np.zeros_like(O)], -1)                     # node direction
    R = np.stack([-sO * ci, cO * ci, si], -1)                        # in-plane, 90 deg ahead
    pos = r[..., None] * (np.cos(u)[..., None] * P + np.sin(u)[..., None] * R)
    s = np.sqrt(mu / p)
    vel = s[..., None] * (-(np.sin(u) + e * np.sin(w))[..., None] * P
                          + (np.cos(u) + e * np.cos(w))[..., None] * R)
    return pos, vel


def mee2rv(oe, mu):
    oe = np.asarray(oe, dtype=float)
    a, f, g, h, k, L = np.moveaxis(oe, -1, 0)
    p = a * (1 - f * f - g * g)
    s2 = 1 + h * h + k * k
    F = np.stack([1 - k * k + h * h, 2 * h * k, -2 * k], -1) / s2[..., None]
    G = np.stack([2 * h * k, 1 + k * k - h * h, 2 * h], -1) / s2[..., None]
    cL, sL = np.cos(L), np.sin(L)
    r = p / (1 + f * cL + g * sL)
    pos = (r * cL)[..., None] * F + (r * sL)[..., None] * G
    q = np.sqrt(mu / p)
    vel = (-q * (g + sL))[..., None] * F + (q * (f + cL))[..., None] * G
    return pos, vel


def oe2rv(oe, mu, et):
    return kep2rv(oe, mu) if et == "keplerian" else mee2rv(oe, mu)


def rtn_basis(pos, vel):
    er = pos / np.linalg.norm(pos, axis=-1)[..., None]
    hv = np.cross(pos, vel)
    en = hv / np.linalg.norm(hv, axis=-1)[..., None]
    return er, np.cross(en, er), en


def ccross(u, v):
    return np.stack([u[..., 1] * v[..., 2] - u[..., 2] * v[..., 1],
                     u[..., 2] * v[..., 0] - u[..., 0] * v[..., 2],
                     u[..., 0] * v[..., 1] - u[..., 1] * v[..., 0]], -1)


def rv2kep_c(r, v, mu):
    """Cartesian -> Keplerian, complex-step friendly."""
    R = cnorm(r)
    hv = ccross(r, v)
    H = cnorm(hv)
    ev = ccross(v, hv) / mu - r / R[..., None]
    a = 1.0 / (2.0 / R - cdot(v, v) / mu)
    e = cnorm(ev)
    inc = catan2(np.sqrt(hv[..., 0] ** 2 + hv[..., 1] ** 2), hv[..., 2])
    n = np.stack([-hv[..., 1], hv[..., 0], np.zeros_like(H)], -1)
    O = catan2(n[..., 1], n[..., 0])
    N = cnorm(n)
    nh = n / N[..., None]
    mh = ccross(hv, nh) / H[..., None]
    w = catan2(cdot(ev, mh), cdot(ev, nh))
    th = catan2(cdot(r, v) * H / mu, H * H / mu - R)      # r e sin, r e cos
    return np.stack([a, e, inc, O, w, th], -1)


def rv2mee_c(r, v, mu):
    R = cnorm(r)
    hv = ccross(r, v)
    H = cnorm(hv)
    ev = ccross(v, hv) / mu - r / R[..., None]
    a = 1.0 / (2.0 / R - cdot(v, v) / mu)
    W = hv / H[..., None]
    h = -W[..., 1] / (1 + W[..., 2])
    k = W[..., 0] / (1 + W[..., 2])
    s2 = 1 + h * h + k * k
    F = np.stack([1 - k * k + h * h, 2 * h * k, -2 * k], -1) / s2[..., None]
    G = np.stack([2 * h * k, 1 + k * k - h * h, 2 * h], -1) / s2[..., None]
    f = cdot(ev, F)
    g = cdot(ev, G)
    L = catan2(cdot(r, G), cdot(r, F))
    return np.stack([a, f, g, h, k, L], -1)


def influence(oe, mu, et):
    """(n,6,3): d(elements)/dt per unit RTN acceleration, by complex-step differentiation of the
    Cartesian -> element map with respect to velocity (osculating orbit unchanged in position)."""
    oe = np.atleast_2d(np.asarray(oe, dtype=float))
    pos, vel = oe2rv(oe, mu, et)
    B = rtn_basis(pos, vel)
    fun = rv2kep_c if et == "keplerian" else rv2mee_c
    out = np.zeros((oe.shape[0], 6, 3))
    scale = np.linalg.norm(vel, axis=-1)
    for j in range(3):
        dv = B[j] * scale[:, None]
        el = fun(pos.astype(complex), vel + 1j * CS * dv, mu)
        out[:, :, j] = el.imag / CS / scale[:, None]
    return out


def anomaly_rate(oe, acc, mu, et):
    """rate of the fast variable at elements oe (n,6) under RTN acceleration acc (n,3)"""
    if et == "keplerian":
        a, e, i, O, w, th = np.moveaxis(oe, -1, 0)
        p = a * (1 - e * e)
        H = np.sqrt(mu * p)
        r = p / (1 + e * np.cos(th))
        return H / r ** 2 + (p * np.cos(th) * acc[..., 0] - (p + r) * np.sin(th) * acc[..., 1]) / (e * H)
    a, f, g, h, k, L = np.moveaxis(oe, -1, 0)
    p = a * (1 - f * f - g * g)
    w = 1 + f * np.cos(L) + g * np.sin(L)
    return np.sqrt(mu * p) * (w / p) ** 2 + np.sqrt(p / mu) / w * (h * np.sin(L) - k * np.cos(L)) * acc[..., 2]


def propagate_step(oe, acc, dt, mu, et, nsub=16):
    """Elements after dt: slow ones linear (influence coefficients frozen at the start), fast one
    integrated finely.  Returns (oe_next, tol_fast): tol_fast bounds what a 4th order one-step
    method may deviate."""
    oe = np.atleast_2d(oe)
    acc = np.atleast_2d(acc)
    dt = np.atleast_1d(dt)
    J = influence(oe, mu, et)
    rate = np.einsum("nij,nj->ni", J[:, :5, :], acc)

    def rhs(tau, ang):
        st = np.concatenate([oe[:, :5] + rate * tau[:, None], ang[:, None]], 1)
        return anomaly_rate(st, acc, mu, et)

    def rk4(t0, y, hh):
        k1 = rhs(t0, y)
        k2 = rhs(t0 + hh / 2, y + hh / 2 * k1)
        k3 = rhs(t0 + hh / 2, y + hh / 2 * k2)
        k4 = rhs(t0 + hh, y + hh * k3)
        return y + hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4)

    def rkf4(t0, y, hh):
        c = [hh * rhs(t0, y)]
        c.append(hh * rhs(t0 + hh / 4, y + c[0] / 4))
        c.append(hh * rhs(t0 + 3 * hh / 8, y + 3 / 32 * c[0] + 9 / 32 * c[1]))
        c.append(hh * rhs(t0 + 12 / 13 * hh, y + (1932 * c[0] - 7200 * c[1] + 7296 * c[2]) / 2197))
        c.append(hh * rhs(t0 + hh, y + 439 / 216 * c[0] - 8 * c[1] + 3680 / 513 * c[2] - 845 / 4104 * c[3]))
        return y + 25 / 216 * c[0] + 1408 / 2565 * c[2] + 2197 / 4104 * c[3] - c[4] / 5

    with np.errstate(all="ignore"):
        y = oe[:, 5].copy()
        t = np.zeros_like(dt)
        for _ in range(nsub):
            y = rk4(t, y, dt / nsub)
            t = t + dt / nsub
        z = np.zeros_like(dt)
        err = np.maximum(np.abs(rk4(z, oe[:, 5], dt) - y), np.abs(rkf4(z, oe[:, 5], dt) - y))
    nxt = np.concatenate([oe[:, :5] + rate * dt[:, None], y[:, None]], 1)
    return nxt, 5 * err + 1e-9 * (1 + np.abs(y)), rate


# --------------------------------------------------------------------------- Kepler
def ecc_anomaly(oe, et):
    """eccentric anomaly in (-pi, pi]"""
    oe = np.asarray(oe, dtype=float)
    if et == "keplerian":
        e, th = oe[..., 1], oe[..., 5]
        return np.arctan2(np.sqrt(1 - e * e) * np.sin(th), e + np.cos(th)), e
    f, g, L = oe[..., 1], oe[..., 2], oe[..., 5]
    e = np.hypot(f, g)
    th = L - np.arctan2(g, f)
    return np.arctan2(np.sqrt(1 - e * e) * np.sin(th), e + np.cos(th)), e


def sundman_dt(oe, dE, mu, et):
    E0, e = ecc_anomaly(oe, et)
    n = np.sqrt(mu / oe[..., 0] ** 3)
    # dE - e (sin(E0+dE) - sin E0), without cancellation
    return (dE - 2 * e * np.cos(E0 + dE / 2) * np.sin(dE / 2)) / n


# --------------------------------------------------------------------------- Q-law
def q_kep(slow, oeT, f, mu, P, woe):
    """documented Q for Keplerian elements; slow: list of five complex arrays"""
    a, e, i, O, w = slow
    aT, eT, iT, OT, wT = [float(x) for x in oeT[:5]]
    p = a * (1 - e * e)
    H = np.sqrt(mu * p)
    si, ci = np.sin(i), np.cos(i)

    def cabs(z):
        return np.where(z.real < 0, -z, z)

    adot = 2 * f * np.sqrt(a ** 3 * (1 + e) / (mu * (1 - e)))
    edot = 2 * p * f / H
    idot = p * f / (H * (np.sqrt(1 - e * e * np.sin(w) ** 2) - e * cabs(np.cos(w))))
    odot = p * f / (H * si * (np.sqrt(1 - e * e * np.cos(w) ** 2) - e * cabs(np.sin(w))))
    A = (1 - e * e) / (2 * e ** 3)
    S = np.sqrt(A * A + 1 / 27.)
    t1 = (A + S) ** (1 / 3.)
    t2 = ((1 / 27.) / (A + S)) ** (1 / 3.)          # = (S - A)^(1/3) without cancellation
    cx = t1 - t2 - 1 / e
    rx = p / (1 + e * cx)
    wdi = f / (e * H) * np.sqrt(p * p * cx * cx + (p + rx) ** 2 * (1 - cx * cx))
    wdo = odot * cabs(ci)
    wdot = (wdi + P["b"] * wdo) / (1 + P["b"])

    def dang(x, xT):
        d = x - xT
        return d - TWO_PI * np.round(d.real / TWO_PI)

    d = [a - aT, e - eT, i - iT, dang(O, OT), dang(w, wT)]
    return _quotient(d, [adot, edot, idot, odot, wdot], a, a * (1 - e), aT, P, woe)


def q_mee(slow, oeT, acc, mu, P, woe):
    a, f, g, h, k = slow
    aT = float(oeT[0])
    e = np.sqrt(f * f + g * g)
    p = a * (1 - f * f - g * g)
    s = np.sqrt(p / mu)
    s2 = 1 + h * h + k * k
    rates = [2 * acc * a * np.sqrt(a / mu) * np.sqrt((1 + e) / (1 - e)),
             2 * acc * s, 2 * acc * s,
             0.5 * acc * s * s2 / (np.sqrt(1 - g * g) + f),
             0.5 * acc * s * s2 / (np.sqrt(1 - f * f) + g)]
    d = [x - float(xT) for x, xT in zip(slow, oeT[:5])]
    return _quotient(d, rates, a, a * (1 - e), aT, P, woe)


def _quotient(d, rates, a, rp, aT, P, woe):
    da = np.where((a - aT).real < 0, aT - a, a - aT)
    sa = (1 + (da / (P["m"] * aT)) ** P["n"]) ** (1 / P["r"])
    tot = 0.0
    for j in range(5):
        if float(woe[j]) == 0.0:
            continue
        s = sa if j == 0 else 1.0
        tot = tot + float(woe[j]) * s * (d[j] / rates[j]) ** 2
    return (1 + P["wp"] * np.exp(P["k"] * (1 - rp / P["rpmin"]))) * tot


def qlaw(oe, oeT, f, mu, P, woe, et):
    """Returns Q (n), gradient (n,5) wrt the slow elements."""
    oe = np.atleast_2d(np.asarray(oe, dtype=float))
    f = np.broadcast_to(np.asarray(f, dtype=float), (oe.shape[0],))
    fun = q_kep if et == "keplerian" else q_mee
    base = [oe[:, j].astype(complex) for j in range(5)]
    with np.errstate(all="ignore"):
        q = np.broadcast_to(fun(base, oeT, f, mu, P, woe), (oe.shape[0],)).real
        grad = np.zeros((oe.shape[0], 5))
        for j in range(5):
            x = list(base)
            x[j] = x[j] + 1j * CS
            grad[:, j] = np.broadcast_to(fun(x, oeT, f, mu, P, woe), (oe.shape[0],)).imag / CS
    return q, grad


def descent(oe, oeT, f, mu, P, woe, et):
    """Q, D = gradient mapped to RTN (n,3), and the size of the terms summed into D"""
    q, grad = qlaw(oe, oeT, f, mu, P, woe, et)
    with np.errstate(all="ignore"):
        J = influence(oe, mu, et)[:, :5, :]
    D = np.einsum("ni,nij->nj", grad, J)
    S = np.einsum("ni,nij->nj", np.abs(grad), np.abs(J))
    return q, D, np.linalg.norm(S, axis=1)


def orbit_rates(oe, oeT, f, mu, P, woe, et, ngrid):
    """|dQ/dt| of the best control on the documented anomaly grid: (n, ngrid)"""
    oe = np.atleast_2d(oe)
    out = np.zeros((oe.shape[0], ngrid))
    for j in range(ngrid):
        o = oe.copy()
        o[:, 5] = oe[:, 5] + TWO_PI * (j + 1) / ngrid
        _, D, _ = descent(o, oeT, f, mu, P, woe, et)
        out[:, j] = np.linalg.norm(D, axis=1) * np.abs(f)
    return out


# --------------------------------------------------------------------------- exports
def to_mee_p(oe, et):
    """[p,f,g,h,k,L] of a recorded state"""
    oe = np.asarray(oe, dtype=float)
    if et == "keplerian":
        a, e, i, O, w, th = oe
        t = np.tan(i / 2)
        return np.array([a * (1 - e * e), e * np.cos(O + w), e * np.sin(O + w),
                         t * np.cos(O), t * np.sin(O), O + w + th])
    a, f, g, h, k, L = oe
    return np.array([a * (1 - f * f - g * g), f, g, h, k, L])


# --------------------------------------------------------------------------- disturbances
def third_body(r, s, mu3):
    d = (np.asarray(s, dtype=np.longdouble) - np.asarray(r, dtype=np.longdouble))
    s = np.asarray(s, dtype=np.longdouble)
    acc = mu3 * (d / np.sqrt((d * d).sum()) ** 3 - s / np.sqrt((s * s).sum()) ** 3)
    return np.asarray(acc, dtype=float)


def j2_accel(r, T, mu, J2, Re):
    """-grad of the J2 potential term, about axis T[2] (unit pole in the inertial frame)"""
    z = T[2]
    R = np.linalg.norm(r)
    s = np.dot(r, z) / R
    # U = mu J2 Re^2/(2 R^3) (3 s^2 - 1);  a = -grad U
    c = 1.5 * mu * J2 * Re ** 2 / R ** 4
    return c * ((5 * s * s - 1) * r / R - 2 * s * z)


def srp_accel(r_sun2sc, AU, k):
    d = np.linalg.norm(r_sun2sc)
    return k * (AU / d) ** 2 * r_sun2sc / d


def selftest():
    """consistency of the reference with itself (run by setup): returns the worst deviations"""
    rng = np.random.default_rng(0)
    worst = {}
    n = 50
    kep = np.stack([rng.uniform(.5, 3, n), rng.uniform(.02, .8, n), rng.uniform(.05, 3, n),
                    rng.uniform(-3, 3, n), rng.uniform(-3, 3, n), rng.uniform(-3, 3, n)], 1)
    mu = 1.7
    r, v = kep2rv(kep, mu)
    back = rv2kep_c(r.astype(complex), v.astype(complex), mu).real
    d = back - kep
    d[:, 3:] = wrap_pi(d[:, 3:])
    worst["kep"] = float(np.abs(d).max())
    mee = rv2mee_c(r.astype(complex), v.astype(complex), mu).real
    r2, v2 = mee2rv(mee, mu)
    worst["mee"] = float(max(np.abs(r2 - r).max(), np.abs(v2 - v).max()))
    acc = rng.normal(size=(n, 3))
    for et, oe in (("keplerian", kep), ("mee_with_a", mee)):
        J = influence(oe, mu, et)
        z = np.zeros_like(acc)
        fast = np.einsum("nj,nj->n", J[:, 5, :], acc)
        ana = anomaly_rate(oe, acc, mu, et) - anomaly_rate(oe, z, mu, et)
        # the complex-step L/ta rate excludes the two-body motion
        worst["fast_" + et] = float(np.abs(fast - ana).max() / np.abs(fast).max())
    return worst


if __name__ == "__main__":
    print(selftest())
