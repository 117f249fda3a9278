"""Synthetic solar systems: kernels written with the real CSPICE writer, read back by the code under test through
the real CSPICE reader, and evaluated independently here from the same Chebyshev coefficients."""
import math
import os
import numpy as np
from numpy.polynomial import chebyshev as cheb
from . import refmodel as rm

OBLIQ = math.radians(84381.448 / 3600.0)
ECL = np.array([[1, 0, 0], [0, math.cos(OBLIQ), math.sin(OBLIQ)], [0, -math.sin(OBLIQ), math.cos(OBLIQ)]])
AU_KM = 149597870.7
NAMES = {"399": "EARTH", "301": "MOON", "10": "SUN", "499": "MARS", "5": "JUPITER BARYCENTER", "299": "VENUS", "0": "SSB"}


def gen_world(r, obs, extent_km, span):
    """bodies on smooth paths around the observer; extent_km: largest distance of the spacecraft from the primary;
    span: (first, last) ephemeris time covered"""
    w = {"span": span, "bodies": {}, "gm": {}, "obs": obs}

    def path(size, wobble, deg):
        u = np.array([r.gauss(0, 1) for _ in range(3)])
        u /= np.linalg.norm(u)
        co = []
        for j in range(3):
            c = [size * float(u[j])]
            for d in range(1, deg + 1):
                c.append(size * wobble * r.uniform(-1, 1) / (2.0 ** d))
            co.append(c)
        return co
    # chain: primary relative to a local barycentre, the Sun at a distance
    if obs == "399":
        tree = {"399": "3", "301": "3", "3": "0", "10": "0", "5": "0", "299": "0"}
    elif obs == "499":
        tree = {"499": "4", "4": "0", "10": "0", "5": "0", "399": "0"}
    else:
        tree = {"301": "3", "399": "3", "3": "0", "10": "0", "5": "0"}
    for b, c in tree.items():
        if b == obs:
            size = extent_km * r.uniform(0.1, 3)
        elif c in ("3",):
            size = extent_km * 10 ** r.uniform(0.9, 2.0) * 4
        elif b == "10":
            size = extent_km * 10 ** r.uniform(2.2, 4.0)
        elif b in ("3", "4"):
            size = extent_km * 5
        else:
            size = extent_km * 10 ** r.uniform(1.6, 3.5)
        w["bodies"][b] = {"center": c, "co": path(size, r.choice([0.0, 0.05, 0.2]), r.randint(2, 7))}
    w["pole"] = {"ra": [r.uniform(0, 6), r.uniform(-0.5, 0.5), r.uniform(-.2, .2)],
                 "dec": [r.uniform(-1.2, 1.2), r.uniform(-0.2, 0.2)],
                 "w": [r.uniform(0, 6), r.uniform(-20, 20), r.uniform(-1, 1)]}
    w["text"] = {"ra": [r.uniform(0, 360), r.uniform(-50, 50), 0.0], "dec": [r.uniform(-80, 80), r.uniform(-20, 20), 0.0],
                 "pm": [r.uniform(0, 360), r.uniform(-400, 400), 0.0]}
    return w


def install(spice, w, root):
    """write and load the kernels; returns {part: path}"""
    first, last = w["span"]
    mid, half = (first + last) / 2, (last - first) / 2
    spk = os.path.join(root, "world.bsp")
    h = spice.spkopn(spk, "sim", 0)
    for b in sorted(w["bodies"], key=int):
        e = w["bodies"][b]
        deg = len(e["co"][0]) - 1
        cd = np.array([x for comp in e["co"] for x in comp], dtype=float)
        spice.spkw02(h, int(b), int(e["center"]), "J2000", first, last, "seg" + b, last - first, 1, deg, cd, first)
    spice.spkcls(h)
    pck = os.path.join(root, "world.bpc")
    h = spice.pckopn(pck, "sim", 0)
    deg = max(len(w["pole"][k]) for k in w["pole"]) - 1
    cd = []
    for k in ("ra", "dec", "w"):
        cd += list(w["pole"][k]) + [0.0] * (deg + 1 - len(w["pole"][k]))
    spice.pckw02(h, 3000, "J2000", first, last, "pole", last - first, 1, deg, np.array(cd, dtype=float), first)
    spice.pckcls(h)
    spice.furnsh(spk)
    spice.furnsh(pck)
    pool(spice, w)
    return {"spk": spk, "pck": pck}


def pool(spice, w):
    for b, gm in w["gm"].items():
        spice.pdpool("BODY%s_GM" % b, [gm])
    b = w["obs"]
    spice.pdpool("BODY%s_POLE_RA" % b, w["text"]["ra"])
    spice.pdpool("BODY%s_POLE_DEC" % b, w["text"]["dec"])
    spice.pdpool("BODY%s_PM" % b, w["text"]["pm"])


def r3(a):
    return np.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1]])


def r1(a):
    return np.array([[1, 0, 0], [0, math.cos(a), math.sin(a)], [0, -math.sin(a), math.cos(a)]])


class Reference:
    def __init__(self, w):
        self.w = w
        self.first, self.last = w["span"]

    def x(self, et):
        return (et - (self.first + self.last) / 2) / ((self.last - self.first) / 2)

    def covered(self, et):
        return self.first <= et <= self.last

    def ssb(self, b, et):
        p = np.zeros(3, dtype=np.longdouble)
        while b != "0":
            e = self.w["bodies"][b]
            p += np.array([cheb.chebval(self.x(et), c) for c in e["co"]], dtype=np.longdouble)
            b = e["center"]
        return p

    def rel(self, b, et):
        """position of b relative to the observer, J2000, km (common centres cancel exactly)"""
        up = []
        o = self.w["obs"]
        chain_o = []
        while o != "0":
            chain_o.append(o)
            o = self.w["bodies"][o]["center"]
        p = np.zeros(3, dtype=np.longdouble)
        while b != "0" and b not in chain_o:
            p += self.leg(b, et)
            b = self.w["bodies"][b]["center"]
        for o in chain_o:
            if o == b:
                break
            p -= self.leg(o, et)
        return p

    def leg(self, b, et):
        return np.array([cheb.chebval(self.x(et), c) for c in self.w["bodies"][b]["co"]], dtype=np.longdouble)

    def frame(self, name, et):
        """rotation from J2000 to the named frame"""
        if name == "J2000":
            return np.eye(3)
        if name == "ECLIPJ2000":
            return ECL
        if name == "ITRF93":
            x = self.x(et)
            ra, dec, wa = [cheb.chebval(x, self.w["pole"][k]) for k in ("ra", "dec", "w")]
            return r3(wa) @ r1(dec) @ r3(ra)
        T = et / (86400.0 * 36525.0)
        d = et / 86400.0
        t = self.w["text"]
        ra = math.radians(t["ra"][0] + t["ra"][1] * T)
        dec = math.radians(t["dec"][0] + t["dec"][1] * T)
        pm = math.radians((t["pm"][0] + t["pm"][1] * d) % 360.0)
        return r3(pm) @ r1(math.pi / 2 - dec) @ r3(math.pi / 2 + ra)

    def acceleration(self, t, oe, et_type, sp):
        """(RTN acceleration, sum of the magnitudes of the effects), canonical units"""
        LU, TU = sp["LU"], sp["TU"]
        et = sp["et_ref"] + t * TU
        mu_ref = LU ** 3 / TU ** 2
        mu = self.w["gm"][self.w["obs"]] / mu_ref
        pos, vel = rm.oe2rv(np.array([oe], dtype=float), mu, et_type)
        r = pos[0]
        B = rm.rtn_basis(pos, vel)
        F = self.frame(sp["frame_qlaw"], et)
        acc = np.zeros(3)
        size = 0.0
        names = sp["third"]
        if names:
            for j, b in enumerate(names):
                s = np.asarray(F @ self.rel(b, et) / LU)
                mu3 = sp["gms"][j] if sp["gms"] is not None else self.w["gm"][b] / mu_ref
                x = rm.third_body(r, s, mu3)
                acc += x
                size += float(np.linalg.norm(x))
        if sp["use_J2"]:
            T = self.frame(sp["frame_PA"], et) @ F.T
            x = rm.j2_accel(r, T, mu, sp["J2"], sp["Re_km"] / LU)
            acc += x
            size += float(np.linalg.norm(x))
        if sp["use_SRP"]:
            s = np.asarray(F @ self.rel("10", et) / LU, dtype=float)
            k = sp["P"] * sp["Cr"] * sp["Am"] * 1e-3 * TU ** 2 / LU
            x = rm.srp_accel(r - s, AU_KM / LU, k)
            acc += x
            size += float(np.linalg.norm(x))
        return np.array([float(b[0] @ acc) for b in B]), size
