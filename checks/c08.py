"""Synthesis: any point source is the documented linear combination of the Green's functions for its azimuth."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, srcs
from checks.c07 import valid_static

PROP = "C08"
LEVEL = "exploration"
ASSUMPTIONS = ["sub synth feeds arbitrary traces as Green's functions (documented SAC names and headers)",
               "moment tensors, shear and tensile faults are evaluated from their definition (vlib/srcs.py) in a frame rotated to the receiver azimuth"]
UNIT = {"F": 1e-15}


def cyl(s, g, gz, gr, az, r, vp, vs):
    """(u [Z,R,T], D[dir][comp]) from the Green's functions and their z- and r-derivatives; r > 0; km and cm as in the files.
    D along T holds (1/r) d/dtheta of the components."""
    u = np.array(srcs.synth(s, g, az, vp, vs))
    if gz is None:
        return u, None
    h = 1e-3
    f = [np.array(srcs.synth(s, g, az + k * h, vp, vs)) for k in (-2, -1, 1, 2)]
    dth = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * h)
    D = np.array([np.array(srcs.synth(s, gz, az, vp, vs)), np.array(srcs.synth(s, gr, az, vp, vs)), dth / r]) * 1e-5
    return u, D


def to_zne(u, D, az, r):
    c, s = np.cos(az), np.sin(az)
    B = np.array([[1, 0, 0], [0, c, -s], [0, s, c]])            # ZNE from ZRT
    un = np.tensordot(B, u, 1)
    if D is None:
        return un, None
    g = D.copy()
    g[2, 1] = g[2, 1] - u[2] / r * 1e-5
    g[2, 2] = g[2, 2] + u[1] / r * 1e-5
    return un, np.einsum("ai,bj,ij...->ab...", B, B, g)


# ---------------------------------------------------------------- dynamic, arbitrary traces
def gen_syn(rng):
    n = int(rng.choice([1, 2, 3, 7, 16, 33, 64, 100]))
    liquid = rng.random() < 0.08
    med = N.liquid(rng, False) if liquid else N.solid(rng, q=False)
    s = dict(kind="EX") if liquid else srcs.gen_source(rng)
    return dict(n=n, dt=N.rnd(N.log_uniform(rng, 0.01, 2), 3), b=N.rnd(rng.uniform(-20, 50), 3),
                dist=0.0 if rng.random() < 0.1 else N.rnd(N.log_uniform(rng, 0.05, 2000)), med=med, src=s,
                az=float(rng.choice([0, 90, 180, 270, 360])) if rng.random() < 0.15 else N.rnd(rng.uniform(0, 360), 4),
                S=N.rnd(N.log_uniform(rng, 1e-3, 1e28), 3) * (-1 if rng.random() < 0.1 else 1), su=bool(rng.random() < 0.25) and not liquid,
                zne=bool(rng.random() < 0.5), e=bool(rng.random() < 0.6), only=bool(rng.random() < 0.3), seed=int(rng.integers(1 << 30)))


def need(kind):
    return {"EX": ["EX"], "F": ["VF", "HF"], "M": ["DD", "DS", "SS"], "MT": ["EX", "DD", "DS", "SS"], "T": ["EX", "DD", "DS", "SS"]}[kind]


def run_syn(c, wd):
    n, s = c["n"], c["src"]
    if n < 1 or c["dt"] <= 0 or c["dist"] < 0 or not srcs.ok(s) or not 0 <= c["az"] <= 360 or c["S"] == 0:
        raise Skip
    vp, vs, rho = (float(np.float32(x)) for x in c["med"])
    rng = np.random.default_rng(c["seed"])
    e = c["e"] and c["dist"] > 0
    os.mkdir("g")
    hd = dict(delta=c["dt"], b=c["b"], dist=c["dist"], user0=0.1, user1=5.0, user2=3.0, user3=2.7, user6=vp, user7=vs, user8=rho, evdp=2.0, stel=-1e3, o=0.0)
    g, gz, gr = {}, {}, {}
    for nm in srcs.GFS:
        if c["only"] and nm[:2] not in need(s["kind"]):
            continue
        for d, p, sc in ((g, "", 1.0), (gz, "z", 0.4), (gr, "r", 0.7)):
            if p and not c["e"]:
                continue
            x = (rng.normal(size=n) * sc * (1 + 3 * rng.random())).astype("<f4")
            G.write_sac(f"g/{p}{nm}.sac", x, **hd)
            d[nm] = x.astype(float)
    for d in (g, gz, gr):
        for nm in srcs.GFS:
            d.setdefault(nm, np.zeros(n))
    G.run(["syn", "-Gg", f"-A{c['az']!r}", f"-S{'u' if c['su'] else ''}{c['S']!r}", "-Oo", "-s"] + srcs.args(s) + ["-N"] * c["zne"] + ["-e"] * c["e"])
    az = np.radians(c["az"]) if c["dist"] > 0 else 0.0
    S = c["S"] * UNIT.get(s["kind"], 1e-20) * (vs * vs * rho * 1e10 if c["su"] else 1)
    u, D = cyl(s, g, gz if e else None, gr if e else None, az, max(float(np.float32(c["dist"])), 1e-30), vp, vs)
    chs = "ZRT"
    m = np.abs(S) * max(np.abs(v).max() for k, v in g.items() if k[:2] in need(s["kind"])) * (1 + (vp / vs) ** 2 if s["kind"] == "MT" else 1)
    if s["kind"] in "TF":
        m *= max(abs(x) for x in s["v"])
    if c["zne"]:
        u, D = to_zne(u, D, az, max(c["dist"], 1e-30))
        chs = "ZNE"
    u = u * S
    files = {f"{a}.sac" for a in chs} | ({f"{a.lower()}{b}.sac" for a in chs for b in chs} if c["e"] else set())
    G.must(set(os.listdir("o")) == files, "files", f"output {sorted(os.listdir('o'))}, expected {sorted(files)}")
    worst = 0

    def cmp(name, x, m):
        nonlocal worst
        t = G.Sac(f"o/{name}.sac")
        G.must(t.npts == n, "npts", f"{name}: {t.npts} samples instead of {n}")
        azd = c["az"] if c["dist"] > 0 else 0.0
        for k, v in dict(delta=c["dt"], b=c["b"], dist=c["dist"], az=azd, baz=(azd + 180) % 360 if azd < 360 else 180.0, user0=0.1, user1=5.0, user2=3.0, user3=2.7).items():
            w = t.h(k)
            if k == "baz":
                G.must(abs((w - v + 180) % 360 - 180) < 1e-3, "header", f"{name}: {k} {w} instead of {v}")
            else:
                G.must(abs(w - v) <= 3e-6 * max(1, abs(v)), "header", f"{name}: {k} {w} instead of {v}")
        if m > 1e37 or m < 1e-30:
            return            # out of the range of float32
        err = np.abs(t.d - x)
        tol = 1e-5 * m
        worst = max(worst, float(err.max()) / tol)
        if not np.all(err <= tol):
            j = int(np.nanargmax(err))
            raise Violation("synth", f"{name} sample {j}: {t.d[j]:.8g}, expected {x[j]:.8g} ({s}, az={c['az']}, largest {m:.3g})")
    for i, a in enumerate(chs):
        cmp(a, u[i], m)
        if e:
            D_ = D[i] * S
            for j, b in enumerate(chs):
                cmp(a.lower() + b, D_[j], m * 1e-5 * (1 + 2 / c["dist"]))
    return dict(nontrivial=s["kind"] != "EX", tags=[s["kind"], chs] + ["deriv"] * e + ["r0"] * (c["dist"] == 0) + ["Su"] * c["su"], metric=dict(err=worst))


# ---------------------------------------------------------------- static, real libraries
def gen_static(rng):
    rows = N.model(rng, 1, 4, q=False, hmax=4)
    for _ in range(100):
        zs, zr = N.depth(rng, rows, zmax=12), N.depth(rng, rows, zmax=12)
        if abs(zs - zr) > 0.3:
            break
    else:
        zs, zr = 1.0, 0.0
    n = int(rng.integers(2, 6))
    pts = [[N.rnd(rng.normal() * 6, 3), N.rnd(rng.normal() * 6, 3)] for _ in range(n)]
    if rng.random() < 0.3:
        pts[0] = [float(rng.choice([-2, 0, 3])), 0.0]
    if rng.random() < 0.3:
        pts[1] = [0.0, float(rng.choice([-1, 2.5]))]
    return dict(model=rows, zs=zs, zr=zr, pts=pts, S=N.rnd(N.log_uniform(rng, 1e-2, 1e26), 2), su=bool(rng.random() < 0.25), e=bool(rng.random() < 0.7),
                srcs=[srcs.gen_source(rng) for _ in range(4)], lay=str(rng.choice(["line", "points", "grid"])))


def run_static(c, wd):
    c = dict(c, src=c["srcs"][0])
    valid_static(c)
    if not all(srcs.ok(s) for s in c["srcs"]):
        raise Skip
    rows = c["model"]
    pts = np.array(c["pts"])
    if c["lay"] == "line":
        pts = np.array([[0.0, r] for r in np.unique(np.hypot(*pts.T))])
    elif c["lay"] == "grid":
        pts = np.array([[x, y] for x in (-1.5, 0.0, 2.0)[:2] for y in (-1.0, 0.5, 2.0)])
    rr = np.hypot(*pts.T)
    rs = np.unique(rr)
    if rs[0] < 1e-3:
        raise Skip
    G.write_model("mod", rows)
    G.run(["static", "greenfn", "-Mmod", f"-D{c['zs']!r}/{c['zr']!r}", "-R" + ",".join(repr(float(r)) for r in rs), "-Og.nc"] + ["-e"] * c["e"])
    lib = G.Nc("g.nc")
    row = rows[N.layer_at(rows, c["zs"])]
    vp, vs, rho = row[1:4]
    worst = 0
    for s in c["srcs"]:
        for zne in (False, True):
            a = ["static", "syn", "-Gg.nc", f"-S{'u' if c['su'] else ''}{c['S']!r}", "-Oo.nc", "-s"] + srcs.args(s) + ["-N"] * zne + ["-e"] * c["e"]
            if c["lay"] == "points":
                with open("pts", "w") as f:
                    f.writelines(f"{float(x)!r} {float(y)!r} {c['zr']!r}\n" for x, y in pts)
                a += ["-Qpts"]
            elif c["lay"] == "grid":
                a += ["-X-1.5/0.1/1.5", "-Y-1/2.1/1.5"]
            G.run(a)
            d = G.Nc("o.nc")
            chs = "ZNE" if zne else "ZRT"
            names = set(chs) | ({x.lower() + y for x in chs for y in chs} if c["e"] else set())
            have = {k for k in d.v if len(k) <= 2}
            G.must(have == names, "variables", f"{sorted(have)} instead of {sorted(names)}")
            S = c["S"] * UNIT.get(s["kind"], 1e-20) * (vs * vs * rho * 1e10 if c["su"] else 1)
            for p, (x, y) in enumerate(pts):
                i = int(np.argmin(abs(rs - rr[p])))
                g = {k: float(lib[k].ravel()[i]) for k in srcs.GFS}
                gz = {k: float(lib["z" + k].ravel()[i]) for k in srcs.GFS} if c["e"] else None
                gr = {k: float(lib["r" + k].ravel()[i]) for k in srcs.GFS} if c["e"] else None
                az = np.arctan2(y, x)
                u, D = cyl(s, g, gz, gr, az, rr[p], vp, vs)
                if zne:
                    u, D = to_zne(u, D, az, rr[p])
                sm = srcs.synth(s, {k: 0 * g[k] + max(abs(g[q]) for q in g if q[:2] in need(s["kind"])) for k in g}, 0.3, vp, vs)
                sc = max(max(abs(x) for x in sm), max(abs(u)))
                for q, ch in enumerate(chs):
                    v = d[ch].ravel()[p]
                    worst = max(worst, abs(v - u[q] * S) / (abs(S) * sc) / 1e-7)
                    if not abs(v - u[q] * S) <= 1e-7 * abs(S) * sc:
                        raise Violation("synth", f"static {ch} at {(x, y)}: {v:.10g}, expected {u[q] * S:.10g} ({s})")
                    if c["e"]:
                        m = np.abs(D).max() + sc * 1e-5 / rr[p]
                        for q2, ch2 in enumerate(chs):
                            v = d[ch.lower() + ch2].ravel()[p]
                            x_ = D[q][q2] * S
                            if not abs(v - x_) <= 1e-7 * abs(S) * m:
                                raise Violation("deriv", f"static {ch.lower() + ch2} at {(x, y)}: {v:.10g}, expected {x_:.10g} ({s})")
    return dict(nontrivial=True, tags=[c["lay"]] + [s["kind"] for s in c["srcs"]] + ["deriv"] * c["e"], metric=dict(err=worst))


# ---------------------------------------------------------------- limit r -> 0
def gen_origin(rng):
    c = gen_static(rng)
    c["dyn"] = bool(rng.random() < 0.3)
    return dict(model=c["model"], zs=c["zs"], zr=c["zr"], src=c["srcs"][0], dyn=c["dyn"], zne=bool(rng.random() < 0.6), az=N.rnd(rng.uniform(0, 360), 3), S=1e20, pts=[[1.0, 0.0]])


def run_origin(c, wd):
    valid_static(c)
    G.write_model("mod", c["model"])
    dz = abs(c["zs"] - c["zr"])
    r1 = dz * 2e-5
    far = max(5.0, 3 * dz)
    s = c["src"]
    chs = "ZNE" if c["zne"] else "ZRT"
    vals = {}
    if c["dyn"]:
        G.run(["greenfn", "-Mmod", f"-D{c['zs']!r}/{c['zr']!r}", "-N32/0.25", f"-R0,{r1!r},{far!r}", "-Og", "-L8", "-K+f", "-e", "-s", "-P1"])
        dirs = {r: f"g/mod_{c['zs']:g}_{c['zr']:g}_{t}" for r, t in ((0.0, "0"), (r1, repr(r1)))}
        for r, dname in dirs.items():
            G.run(["syn", "-G" + dname, "-A" + (repr(c["az"]) if r == 0 else "0"), "-S1e20", f"-Oo{r == 0}", "-e", "-s"] + srcs.args(s) + ["-N"] * c["zne"])
            vals[r] = {f[:-4]: G.Sac(f"o{r == 0}/{f}").d for f in os.listdir(f"o{r == 0}")}
    else:
        G.run(["static", "greenfn", "-Mmod", f"-D{c['zs']!r}/{c['zr']!r}", f"-R0,{r1!r},{far!r}", "-Og.nc", "-e", "-L12", "-K+k12+f"])
        G.run(["static", "syn", "-Gg.nc", "-S1e20", "-Oo.nc", "-e", "-s", f"-X0/{1.5 * r1!r}/{r1!r}", "-Y0/0/1"] + srcs.args(s) + ["-N"] * c["zne"])
        d = G.Nc("o.nc")
        for i, r in enumerate((0.0, r1)):
            vals[r] = {k: d[k].ravel()[i:i + 1] for k in d.v if len(k) <= 2}
    a, b = vals[0.0], vals[r1]
    su = max(np.abs(a[x]).max() for x in chs)
    if not c["zne"]:
        # covariant derivative: add the connection terms, with their limits at the origin
        b["tR"] = b["tR"] - b["T"] / r1 * 1e-5
        b["tT"] = b["tT"] + b["R"] / r1 * 1e-5
        a["tR"] = a["tR"] - a["rT"]
        a["tT"] = a["tT"] + a["rR"]
    sd = max(np.abs(b[k]).max() for k in b if len(k) == 2)
    worst = 0
    mu = c["model"][N.layer_at(c["model"], c["zs"])]
    nat = 1e20 / (4 * np.pi * mu[3] * mu[2] ** 2 * 1e10 * (dz * 1e5) ** (2 if s["kind"] == "F" else 3))
    if s["kind"] == "F":
        nat *= 1
    # size of the Green's functions that are combined: their rounding and their variation over r1 stay in the difference
    if c["dyn"]:
        gf = {f[:-4]: np.abs(G.Sac(f"{dname}/{f}").d).max() for f in os.listdir(dname)}
    else:
        lib = G.Nc("g.nc")
        gf = {k: np.abs(lib[k].ravel()[:2]).max() for k in lib.v if len(k) in (3, 4) and k[-3:] in srcs.GFS}
    un = 1e20 * UNIT.get(s["kind"], 1e-20) * (3 * max(1, max(abs(x) for x in s["v"])) if s["kind"] in "TF" else 3 * (mu[1] / mu[2]) ** 2 if s["kind"] == "MT" else 3)
    gu = un * max(v for k, v in gf.items() if len(k) == 3 and k[:2] in need(s["kind"]))
    gd = un * max(v for k, v in gf.items() if len(k) == 4 and k[1:3] in need(s["kind"])) * 1e-5
    rt = 1e-2 if c["dyn"] else 2e-3
    for k in a:
        sc = (su + sd * 1e5 * dz) if len(k) == 1 else sd + su / (dz * 1e5)
        sc = max(sc, 1e-4 * nat * (1 if len(k) == 2 else dz * 1e5), 0.05 * gu if len(k) == 1 else 0.05 * (gd + gu / (dz * 1e5)))
        err = np.abs(a[k] - b[k]).max()
        worst = max(worst, err / sc / rt)
        if not err <= rt * sc:
            raise Violation("origin", f"{k} at zero distance {a[k][:3]} is not the limit of its neighbours {b[k][:3]} (scale {sc:.3g}, {s})")
    return dict(nontrivial=s["kind"] != "EX", tags=[s["kind"], chs, "dyn" if c["dyn"] else "static"], metric=dict(err=worst))


SUBS = [Sub("synth", gen_syn, run_syn, 3000, 20000, rule="the source is not an explosion"),
        Sub("static", gen_static, run_static, 800, 6000, rule="always (four sources each)"),
        Sub("origin", gen_origin, run_origin, 500, 4000, rule="the source is not an explosion")]
