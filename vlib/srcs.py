"""Point sources: generator, command line arguments and an independent evaluation (moment tensor / force vector algebra)."""
import numpy as np
from .gen import rnd


def gen_source(rng, kinds=("EX", "M", "MT", "T", "F")):
    """EX explosion; M shear fault; MT tensile fault; T moment tensor; F force"""
    k = str(rng.choice(kinds))
    s = dict(kind=k)
    if k in ("M", "MT"):
        s["v"] = [rnd(rng.uniform(0, 360), 3), rnd(rng.choice([0.0, 90.0, rng.uniform(0, 90), rng.uniform(0, 90)]), 3)]
        if rng.random() < 0.1:
            s["v"][0] = float(rng.choice([0, 90, 180, 360]))
        if k == "M":
            s["v"].append(rnd(rng.choice([0.0, 90.0, -90.0, 180.0, rng.uniform(-180, 180), rng.uniform(-180, 180)]), 3))
    elif k == "T":
        s["v"] = [0.0 if rng.random() < 0.25 else rnd(rng.normal(), 3) for _ in range(6)]
        if not any(s["v"]):
            s["v"][2] = 1.0
    elif k == "F":
        s["v"] = [0.0 if rng.random() < 0.25 else rnd(rng.normal(), 3) for _ in range(3)]
        if not any(s["v"]):
            s["v"][0] = 1.0
    return s


def ok(s):
    v = s.get("v")
    k = s["kind"]
    if k == "EX":
        return True
    n = dict(M=3, MT=2, T=6, F=3)[k]
    if len(v) != n or not any(v) and k in "TF":
        return False
    if k in ("M", "MT"):
        return 0 <= v[0] <= 360 and 0 <= v[1] <= 90 and (k == "MT" or -180 <= v[2] <= 180)
    return True


def args(s):
    if s["kind"] == "EX":
        return []
    return [{"M": "-M", "MT": "-M", "T": "-T", "F": "-F"}[s["kind"]] + "/".join(repr(float(x)) for x in s["v"])]


def tensor(s, vp=None, vs=None):
    """moment tensor (north, east, down), unit scale; None for forces. Tensile faults need the medium at the source."""
    k = s["kind"]
    if k == "EX":
        return np.eye(3)
    if k == "T":
        a, b, c, d, e, f = s["v"]
        return np.array([[a, b, c], [b, d, e], [c, e, f]])
    if k in ("M", "MT"):
        st, di = np.radians(s["v"][0]), np.radians(s["v"][1])
        # normal of the hanging wall side of the plane and slip vector (Aki & Richards), x north, y east, z down
        n = np.array([-np.sin(di) * np.sin(st), np.sin(di) * np.cos(st), -np.cos(di)])
        if k == "M":
            ra = np.radians(s["v"][2])
            d = np.array([np.cos(ra) * np.cos(st) + np.cos(di) * np.sin(ra) * np.sin(st),
                          np.cos(ra) * np.sin(st) - np.cos(di) * np.sin(ra) * np.cos(st),
                          -np.sin(di) * np.sin(ra)])
            return np.outer(d, n) + np.outer(n, d)
        lam_mu = (vp / vs) ** 2 - 2.0
        return lam_mu * np.eye(3) + 2 * np.outer(n, n)
    return None


GFS = ["EXZ", "EXR", "VFZ", "VFR", "HFZ", "HFR", "HFT", "DDZ", "DDR", "DSZ", "DSR", "DST", "SSZ", "SSR", "SST"]


def synth(s, g, az, vp=None, vs=None, pre=""):
    """displacement (Z, R, T) of source s from the Green's functions g (mapping name -> value), receiver azimuth az (radians).
    Derived by rotating tensor and force into the frame (radial, transverse, down)."""
    ca, sa = np.cos(az), np.sin(az)
    Rm = np.array([[ca, sa, 0], [-sa, ca, 0], [0, 0, 1]])        # rows: radial, transverse (clockwise), down
    G = lambda n: g[pre + n]
    if s["kind"] == "F":
        fr, ft, fd = Rm @ np.array(s["v"])
        return (fd * G("VFZ") + fr * G("HFZ"), fd * G("VFR") + fr * G("HFR"), ft * G("HFT"))
    M = Rm @ tensor(s, vp, vs) @ Rm.T
    ex = np.trace(M) / 3
    dd = (2 * M[2, 2] - M[0, 0] - M[1, 1]) / 6
    ds, ds_t = -M[0, 2], -M[1, 2]
    ss, ss_t = (M[0, 0] - M[1, 1]) / 2, M[0, 1]
    Z = ex * G("EXZ") + dd * G("DDZ") + ds * G("DSZ") + ss * G("SSZ")
    R = ex * G("EXR") + dd * G("DDR") + ds * G("DSR") + ss * G("SSR")
    return Z, R, ds_t * G("DST") + ss_t * G("SST")
