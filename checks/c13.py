"""Finite faults: the static field is the sum of the point sources of the tiles of every record of a Coulomb file."""
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, faults as F
from vlib.stlib import Lib, gen_axis
from checks.c12 import lib_ok, depths

PROP = "C13"
LEVEL = "exploration"
ASSUMPTIONS = ["libraries are filled with arbitrary numbers in the documented NetCDF layout",
               "receivers at the very distance limits of the library seen from a tile are left out (rounding decides whether they are inside)"]

BIG = 0.04


def gen(rng):
    rows = N.model(rng, 1, 4, q=False, hmax=4, many=0.1)
    kind = str(rng.choice(["even", "any", "log", "grid"]))
    far = rng.random() < 0.85
    big = rng.random() < BIG
    n, e = gen_axis(rng, kind)
    if far:                                     # wide enough for most of the fault
        hi = N.rnd(rng.uniform(8, 30), 3)
        if kind == "grid":
            n, e = sorted(set(n) | {0.0}), sorted(set(e) | {0.0, hi})
        else:
            e = sorted({0.0, hi} | {x for x in e if x < hi - 0.01})
    S = depths(rng, int(rng.choice([2, 2, 3, 4])))
    while S[-1] - S[0] < 0.5 or len(S) < 2:
        S = sorted(S + [N.rnd(S[-1] + rng.uniform(0.5, 4), 4)])[-4:]
    R = depths(rng, int(rng.choice([1, 1, 2, 3])))
    fs = [F.gen_fault(rng, S[0], S[-1]) for _ in range(int(rng.integers(8, 25)) if big else int(rng.choice([1, 1, 2, 3])))]
    c = dict(model=rows, S=S, R=R, n=n, e=e, upar=bool(rng.random() < 0.7), seed=int(rng.integers(1 << 30)), faults=fs,
             div=[N.rnd(rng.uniform(0.15, 4), 2), N.rnd(rng.uniform(0.15, 4), 2)] if rng.random() < 0.7 else [round(float(rng.choice([0.1, 0.2, 0.5])), 1)] * 2 if rng.random() < 0.8 else None,
             inr=bool(rng.random() < 0.2), lay=str(rng.choice(["grid", "points"])), zne=bool(rng.random() < 0.5), deriv=bool(rng.random() < 0.7), noise=bool(rng.random() < 0.3))
    if c["inr"]:
        for f in fs:
            f.update(kode=100, rake=N.rnd(rng.uniform(-180, 180), 3), slip=N.rnd(rng.uniform(0.1, 5), 3))
    P = [[N.rnd(rng.normal() * 6, 4), N.rnd(rng.normal() * 6, 4)] for _ in range(int(rng.integers(10, 30) if big else rng.integers(1, 5)))]
    if rng.random() < 0.15:
        P[0] = [0.0, 0.0]
    zr = [round(float(rng.uniform(R[0], R[-1])), 4) for _ in P]
    c["pts"] = [p + [z] for p, z in zip(P, zr)]
    c["ax"] = [[N.rnd(rng.uniform(-6, 4), 3), N.rnd(rng.uniform(0.5, 4), 3), int(rng.integers(1, 3))] for _ in range(2)]
    return c


def default_div(c):
    d = np.unique(np.hypot(np.array(c["n"])[:, None], np.array(c["e"])[None, :]).ravel())
    s = [x for a in (d, np.array(c["S"])) for x in np.diff(a) if x > 1e-8]
    return min(s)


def run(c, wd):
    lib_ok(c)
    fs = c["faults"]
    if not fs or not all(F.ok(f) for f in fs) or len(c["S"]) < 2:
        raise Skip
    if c["inr"]:
        for f in fs:
            if f["kode"] != 100 or "rake" not in f:
                raise Skip
            f["a"], f["b"] = -f["slip"] * np.cos(np.radians(f["rake"])), f["slip"] * np.sin(np.radians(f["rake"]))
    div = c["div"]
    if div and min(div) <= 0:
        raise Skip
    dL, dW = div or [default_div(c)] * 2
    if sum(np.ceil(F.size(f)[0] / dL) * np.ceil(F.size(f)[1] / dW) for f in fs if f["kode"] < 400) > 400:
        raise Skip
    tl = [(F.mechanisms(f), F.tiles(f, dL, dW)) for f in fs]
    nt = sum(len(t) for m, t in tl)
    if nt > 400 or any(t[2] < c["S"][0] - 1e-9 or t[2] > c["S"][-1] + 1e-9 for m, tt in tl for t in tt):
        raise Skip
    deriv = c["deriv"] and c["upar"]
    L = Lib(c["seed"], c["S"], c["R"], c["n"], c["e"], c["model"], c["upar"])
    L.save("g.nc")
    fn = "f.inr" if c["inr"] else "f.inp"
    F.write(fn, fs, c["inr"], c["noise"])
    a = ["static", "syn", "-Gg.nc", f"-C{fn}" + (f"+i{dL!r}/{dW!r}" if div else ""), "-Oo.nc", "-s"] + ["-N"] * c["zne"] + ["-e"] * deriv
    if c["lay"] == "points":
        P = c["pts"]
        if any(len(p) != 3 or p[2] < 0 or L.weights(L.R, p[2]) is None for p in P) or not P:
            raise Skip
        with open("q", "w") as f:
            f.writelines(f"{p[0]!r} {p[1]!r} {p[2]!r}\n" for p in P)
        a.append("-Qq")
    else:
        zr = c["pts"][0][2] if len(c["R"]) > 1 else c["R"][0]
        if L.weights(L.R, zr) is None:
            raise Skip
        v = []
        for o, (x0, h, n) in zip("XY", c["ax"]):
            if h <= 0 or n < 1:
                raise Skip
            a.append(f"-{o}{x0!r}/{x0 + h * (n - 0.5)!r}/{h!r}")
            v.append([x0 + h * i for i in range(n)])
        if len(c["R"]) > 1:
            a.append(f"-Dr{zr!r}")
        P = [(x, y, zr) for x in v[0] for y in v[1]]
    # a tile at its rounded limit of the distances would be in or out by rounding
    for m, tt in tl:
        for t in tt:
            for p in P:
                d = np.hypot(p[0] - t[0], p[1] - t[1])
                if any(abs(d - b) < 1e-6 for b in (L.d[0], L.d[-1]) if b > 0) or 0 < d < 1e-6:
                    raise Skip
    G.run(a, env={"OMP_NUM_THREADS": str(1 + c["seed"] % 4)})
    d = G.Nc("o.nc")
    chs = "ZNE" if c["zne"] else "ZRT"
    names = set(chs) | ({x.lower() + y for x in chs for y in chs} if deriv else set())
    G.must({k for k in d.v if len(k) <= 2} == names, "variables", f"{sorted(d.v)}")
    ct = d.attr["computeType"]
    inside, worst = 0, 0
    for p, (x, y, z) in enumerate(P):
        u, D, mu, mD = np.zeros(3), np.zeros((3, 3)), 0, 0
        for mech, tt in tl:
            for s, q in mech:
                if q == 0:
                    continue
                for tn, te, tz, area in tt:
                    r = L.point(s, min(max(tz, c["S"][0]), c["S"][-1]), z, x - tn, y - te, True, q * area * 1e6, True)
                    u += r[0]
                    D += r[1]
                    mu += r[2]
                    mD += r[3]
        if not c["zne"]:
            dist = np.hypot(x, y)
            az = np.arctan2(y, x) if dist > 0 else 0.0
            co, t = np.cos(az), np.sin(az)
            B = np.array([[1, 0, 0], [0, co, t], [0, -t, co]])       # ZRT from ZNE
            u = B @ u
            D = np.einsum("ai,bj,ij->ab", B, B, D)
            # the file holds (1/r) d/dtheta of the components: add back the connection terms
            if dist > 0:
                D[2, 1] += u[2] / dist * 1e-5
                D[2, 2] -= u[1] / dist * 1e-5
                mD += mu / dist * 1e-5
        inside += int(mu > 0)
        for i, ch in enumerate(chs):
            v = float(d[ch].ravel()[p])
            worst = max(worst, abs(v - u[i]) / (mu * 1e-8)) if mu else worst
            if not abs(v - u[i]) <= 1e-8 * mu:
                raise Violation("value", f"{ch} at {(x, y, z)}: {v:.10g}, expected {u[i]:.10g} (sum of magnitudes {mu:.3g}, {nt} tiles)")
            if deriv:
                for q, cq in enumerate(chs):
                    if not c["zne"] and i == 2 and q > 0 and np.hypot(x, y) < 1e-6:
                        continue
                    v = float(d[ch.lower() + cq].ravel()[p])
                    if not abs(v - D[i][q]) <= 1e-7 * mD:
                        raise Violation("deriv", f"{ch.lower() + cq} at {(x, y, z)}: {v:.10g}, expected {D[i][q]:.10g} (sum of magnitudes {mD:.3g}, {nt} tiles)")
    return dict(nontrivial=inside > 0 and nt > 1, tags=[c["lay"], chs] + [str(f["kode"]) for f in fs] + ["inr"] * c["inr"] + ["default"] * (not div) + ["partial"] * (0 < inside < len(P)), metric=dict(err=worst, tiles=nt))


SUBS = [Sub("tiles", gen, run, 1200, 9000, rule="more than one tile, a receiver within the distances of the library")]
