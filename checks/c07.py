"""Strain, rotation and stress are the symmetric gradient, antisymmetric gradient and Hooke's law of the displacement field."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, srcs

PROP = "C07"
LEVEL = "exploration"
ASSUMPTIONS = ["dynamic inputs are arbitrary SAC directories with the documented names and headers; the mean of a trace is not compared when Q is finite (the law has no value at zero frequency)"]


def expected(u, D, chs, r):
    """u: dict comp -> array (cm); D[dir][comp] -> derivative (dimensionless); -> strain, rotation dicts by pair"""
    g = {a: {b: D[a][b].copy() for b in chs} for a in chs}
    if chs == "ZRT":
        with np.errstate(all="ignore"):
            urr = np.where(r > 0, u["R"] / r * 1e-5, D["R"]["R"])
            utr = np.where(r > 0, u["T"] / r * 1e-5, D["R"]["T"])
        g["T"]["R"] = g["T"]["R"] - utr        # derivative along T of the field's R component
        g["T"]["T"] = g["T"]["T"] + urr
    st, ro = {}, {}
    for i, a in enumerate(chs):
        for j, b in enumerate(chs):
            if j < i:
                continue
            st[a + b] = 0.5 * (g[a][b] + g[b][a])
            if j > i:
                ro[a + b] = 0.5 * (g[b][a] - g[a][b])
    return st, ro


# ---------------------------------------------------------------- dynamic
def gen_dyn(rng):
    n = int(rng.choice([2, 3, 4, 5, 8, 16, 17, 31, 64, 100, 101, 128, 255, 256, 500, 729]))
    s = N.solid(rng, q=False) if rng.random() < 0.8 else N.liquid(rng, q=False)
    q = rng.random()
    return dict(n=n, dt=N.rnd(N.log_uniform(rng, 0.005, 2), 3), b=N.rnd(rng.uniform(-20, 50), 3), dist=0.0 if rng.random() < 0.12 else N.rnd(N.log_uniform(rng, 0.05, 2000)),
                med=s, qa=0.0 if q < 0.3 else N.rnd(1 / rng.uniform(20, 900)), qb=0.0 if q < 0.4 else N.rnd(1 / rng.uniform(20, 900)),
                zne=bool(rng.random() < 0.4), amp=N.rnd(N.log_uniform(rng, 1e-6, 1e3), 2), kind=str(rng.choice(["noise", "pulse", "smooth"])), seed=int(rng.integers(1 << 30)))


def run_dyn(c, wd):
    n = c["n"]
    if n < 2 or c["dt"] <= 0 or c["dist"] < 0 or c["med"][0] < 1.2 * c["med"][1]:
        raise Skip
    rng = np.random.default_rng(c["seed"])
    chs = "ZNE" if c["zne"] else "ZRT"

    def series(s):
        if c["kind"] == "noise":
            x = rng.normal(size=n)
        elif c["kind"] == "pulse":
            x = np.zeros(n)
            x[int(rng.integers(n))] = rng.normal()
        else:
            x = np.cumsum(rng.normal(size=n))
        return (x * s).astype("<f4")
    hd = dict(delta=c["dt"], b=c["b"], dist=c["dist"], user1=c["med"][0], user2=c["med"][1], user3=c["med"][2], user4=c["qa"], user5=c["qb"], az=30.0, o=0.0)
    os.mkdir("s")
    gs = c["amp"] * 1e-5 / (c["dist"] if c["dist"] > 0 else 1.0)
    u = {a: series(c["amp"]) for a in chs}
    D = {a: {b: series(gs) for b in chs} for a in chs}
    for a in chs:
        G.write_sac(f"s/{a}.sac", u[a], **hd)
        for b in chs:
            G.write_sac(f"s/{a.lower()}{b}.sac", D[a][b], **hd)
    for m in ("strain", "rotation", "stress"):
        G.run([m, "s"])
    u = {a: v.astype(float) for a, v in u.items()}
    D = {a: {b: v.astype(float) for b, v in D[a].items()} for a in D}
    st, ro = expected(u, D, chs, np.full(n, float(np.float32(c["dist"]))))
    want = {f"{k}_{p}.sac" for k, d in (("strain", st), ("rotation", ro), ("stress", st)) for p in d}
    have = {f for f in os.listdir("s") if "_" in f}
    G.must(have == want, "files", f"found {sorted(have)}, expected {sorted(want)}")
    vp, vs, rho = c["med"]
    nf = n // 2 + 1
    df = 1 / (n * c["dt"])
    f = np.arange(nf) * df
    f[0] = 0.01

    def law(qi):
        return (1 + qi / np.pi * np.log(f / ((nf - 1) * df)) + 0.5j * qi) ** 2 if qi > 0 else np.ones(nf, complex)
    mu = rho * vs ** 2 * 1e10 * law(c["qb"])
    lam = rho * vp ** 2 * 1e10 * law(c["qa"]) - 2 * mu
    ft = {p: np.fft.rfft(v) for p, v in st.items()}
    tr = sum(ft[a + a] for a in chs)
    worst = 0
    allq = np.max([np.abs(v).max() for v in st.values()])

    def cmp(name, x, tol, sc, dc=True):
        nonlocal worst
        s = G.Sac(f"s/{name}.sac")
        G.must(s.npts == n and abs(s.h("delta") - c["dt"]) < 1e-6 * c["dt"] and abs(s.h("b") - c["b"]) <= 1e-5 * max(1, abs(c["b"])), "header", f"{name}: npts/delta/b changed")
        d = s.d
        if not dc:
            d, x = d - d.mean(), x - x.mean()
        e = np.abs(d - x).max() if np.all(np.isfinite(d)) else np.inf
        worst = max(worst, e / sc / tol)
        if not e <= tol * sc:
            j = int(np.argmax(np.abs(d - x)))
            raise Violation(name.split("_")[0], f"{name}: sample {j}: {d[j]:.8g}, expected {x[j]:.8g} (n={n}, {chs})")
    for p, v in st.items():
        cmp("strain_" + p, v, 2e-6, allq)
    for p, v in ro.items():
        cmp("rotation_" + p, v, 2e-6, allq)
    exact = c["qa"] == 0 and c["qb"] == 0
    msc = (np.abs(lam).max() + 2 * np.abs(mu).max()) * allq * (3 if c["kind"] == "noise" else 1)
    for p in st:
        X = 2 * mu * ft[p] + (lam * tr if p[0] == p[1] else 0)
        cmp("stress_" + p, np.fft.irfft(X, n), 2e-5, msc, exact)
    return dict(nontrivial=True, tags=[chs, "Q" if not exact else "elastic", "odd" if n % 2 else "even"] + ["r0"] * (c["dist"] == 0) + ["liquid"] * (vs == 0), metric=dict(err=worst))


# ---------------------------------------------------------------- static
def gen_static(rng):
    rows = N.model(rng, 1, 5, q=bool(rng.random() < 0.2), hmax=4)
    c = dict(model=rows, src=srcs.gen_source(rng))
    for _ in range(100):
        zs, zr = N.depth(rng, rows, zmax=12), N.depth(rng, rows, zmax=12)
        if abs(zs - zr) > 0.3:
            break
    else:
        zs, zr = 1.0, 0.0
    n = int(rng.integers(1, 5))
    pts = [[N.rnd(rng.normal() * 4, 3), N.rnd(rng.normal() * 4, 3)] for _ in range(n)]
    if rng.random() < 0.2:
        pts.append([0.0, 0.0])
    if rng.random() < 0.2:
        pts.append([0.0, N.rnd(rng.normal() * 4, 3)])
    c.update(zs=zs, zr=zr, pts=pts, points=bool(rng.random() < 0.5), S=N.rnd(N.log_uniform(rng, 1e10, 1e26), 2), grid=None)
    if rng.random() < 0.35:
        c["grid"] = [[N.dyad(rng.uniform(-5, 5), 8), float(rng.choice([0.25, 0.5, 1.0, 1.5])), int(rng.integers(1, 5))] for _ in range(2)]
        if rng.random() < 0.2:
            for g in c["grid"]:
                g[0] = -g[1] * (g[2] // 2)
    return c


def points_of(c):
    if not c.get("grid"):
        return np.array(c["pts"])
    (x, dx, nx), (y, dy, ny) = c["grid"]
    return np.array([[x + i * dx, y + j * dy] for i in range(nx) for j in range(ny)])


def distances(pts):
    rs = np.unique(np.hypot(*pts.T))
    return rs[np.concatenate([[True], np.diff(rs) > 1e-9])]


def synth(c, zne, zr=None):
    """static library at exactly the distances of the points, then the synthesis with derivatives"""
    rows = c["model"]
    if not os.path.exists("mod"):
        G.write_model("mod", rows)
    zr = c["zr"] if zr is None else zr
    rs = distances(points_of(c))
    if not os.path.exists(f"g{zr}.nc"):
        G.run(["static", "greenfn", "-Mmod", f"-D{c['zs']!r}/{zr!r}", "-R" + ",".join(repr(float(r)) for r in rs), f"-Og{zr}.nc", "-e"])
    a = ["static", "syn", f"-Gg{zr}.nc", f"-S{c['S']!r}", "-e", "-s"] + srcs.args(c["src"]) + ["-N"] * zne
    if c.get("grid"):
        (x, dx, nx), (y, dy, ny) = c["grid"]
        G.run(a + [f"-X{x!r}/{x + dx * (nx - 0.6)!r}/{dx!r}", f"-Y{y!r}/{y + dy * (ny - 0.6)!r}/{dy!r}", "-Oo.nc"])
        files = ["o.nc"]
    elif c["points"]:
        with open("pts", "w") as f:
            for p in c["pts"]:
                f.write(f"{p[0]!r} {p[1]!r} {zr!r}\n")
        G.run(a + ["-Qpts", "-Oo.nc"])
        files = ["o.nc"]
    else:
        files = []
        for i, p in enumerate(c["pts"]):
            G.run(a + [f"-X{p[0]!r}/{p[0]!r}/1", f"-Y{p[1]!r}/{p[1]!r}/1", f"-Oo{i}.nc"])
            files.append(f"o{i}.nc")
    for f in files:
        for m in ("strain", "rotation", "stress"):
            G.run(["static", m, f])
    ds = [G.Nc(f) for f in files]
    return {k: np.concatenate([d[k].ravel().astype(float) for d in ds]) for k in ds[0].v if k not in ("strike", "dip", "rake")}


def valid_static(c):
    rows = c["model"]
    if any(r[0] <= 0 for r in rows[:-1]) or any(r[1] < 1.2 * r[2] for r in rows) or abs(c["zs"] - c["zr"]) < 0.2 or c["S"] <= 0:
        raise Skip
    if c.get("grid") and any(g[1] <= 0 or g[2] < 1 for g in c["grid"]):
        raise Skip
    rs = distances(points_of(c))
    if rs.max() < 0.01 or (len(rs) > 1 and np.diff(rs).min() < 1e-3):
        raise Skip
    if not srcs.ok(c["src"]):
        raise Skip


def run_static(c, wd):
    valid_static(c)
    rows = c["model"]
    row = rows[N.layer_at(rows, c["zr"])]
    mu = row[3] * row[2] ** 2 * 1e10
    lam = row[3] * row[1] ** 2 * 1e10 - 2 * mu
    pts = points_of(c)
    r, az = np.hypot(pts[:, 0], pts[:, 1]), np.arctan2(pts[:, 1], pts[:, 0])
    az = np.where(r > 0, az, 0.0)
    worst = 0.0
    T = {}
    for zne in (False, True):
        chs = "ZNE" if zne else "ZRT"
        d = synth(c, zne)
        u = {a: d[a] for a in chs}
        D = {a: {b: d[a.lower() + b] for b in chs} for a in chs}
        st, ro = expected(u, D, chs, r)
        tr = sum(st[a + a] for a in chs)
        sc = np.max([np.abs(v) for v in st.values()], axis=0) + np.max([np.abs(v) for v in ro.values()], axis=0)

        def cmp(name, x, s):
            nonlocal worst
            e = np.abs(d[name] - x)
            worst = max(worst, float(np.max(e / (s + 1e-300))) / 1e-9)
            if not np.all(e <= 1e-9 * s + 1e-300):
                j = int(np.argmax(e / (s + 1e-300)))
                raise Violation(name.split("_")[0], f"{name} at point {pts[j].tolist()}: {d[name][j]:.10g}, expected {x[j]:.10g}")
        for p, v in st.items():
            cmp("strain_" + p, v, sc)
            cmp("stress_" + p, 2 * mu * v + (lam * tr if p[0] == p[1] else 0), sc * (lam + 2 * mu))
        for p, v in ro.items():
            cmp("rotation_" + p, v, sc)
        os.system("rm -f o*.nc")

        # full tensors for the comparison of both component systems
        for q in ("strain", "stress", "rotation"):
            M = np.zeros((len(r), 3, 3))
            for i, a in enumerate(chs):
                for j, b in enumerate(chs):
                    if j < i or (q == "rotation" and i == j):
                        continue
                    M[:, i, j] = d[f"{q}_{a}{b}"]
                    M[:, j, i] = M[:, i, j] * (-1 if q == "rotation" else 1)
            T[q, zne] = M
    # Z, R, T (clockwise) in terms of Z, N, E
    B = np.zeros((len(r), 3, 3))
    B[:, 0, 0] = 1
    B[:, 1, 1], B[:, 1, 2] = np.cos(az), np.sin(az)
    B[:, 2, 1], B[:, 2, 2] = -np.sin(az), np.cos(az)
    for q in ("strain", "stress", "rotation"):
        X = np.einsum("pij,pjk,plk->pil", B, T[q, True], B)
        s = np.abs(T[q, False]).max(axis=(1, 2)) + (np.abs(T["strain", False]).max(axis=(1, 2)) if q == "rotation" else 0)
        e = np.abs(X - T[q, False]).max(axis=(1, 2))
        if not np.all(e <= 1e-6 * s + 1e-300):
            j = int(np.argmax(e / (s + 1e-300)))
            raise Violation("frame", f"{q} tensor at {pts[j].tolist()}: ZRT {T[q, False][j].tolist()}, from ZNE {X[j].tolist()}")
    tags = [c["src"]["kind"], "grid" if c.get("grid") else "points" if c["points"] else "single"] + ["r0"] * bool(r.min() == 0) + ["surface"] * (c["zr"] == 0)
    # traction-free surface
    if c["zr"] == 0.0:
        s = np.abs(T["stress", False]).max(axis=(1, 2))
        t = np.abs(T["stress", False][:, 0, :]).max(axis=1)
        # components along the free surface may vanish at special azimuths: scale by Hooke terms
        s = np.maximum(s, (lam + 2 * mu) * np.abs(T["strain", False]).max(axis=(1, 2)))
        R = np.hypot(r, c["zs"]) * 1e5
        srow = rows[N.layer_at(rows, c["zs"])]
        s = np.maximum(s, 1e-6 * c["S"] / (4 * np.pi * R ** (2 if c["src"]["kind"] == "F" else 3)) * mu / (srow[3] * srow[2] ** 2 * 1e10))
        if not np.all(t <= 1e-4 * s + 1e-300):
            j = int(np.argmax(t / (s + 1e-300)))
            raise Violation("traction", f"traction on the free surface at {pts[j].tolist()}: {T['stress', False][j][0].tolist()} of {s[j]:.4g}")
    return dict(nontrivial=len(c["pts"]) > 0, tags=tags, metric=dict(err=worst))


# ---------------------------------------------------------------- finite differences of the displacement field
def gen_fd(rng):
    for _ in range(100):
        c = gen_static(rng)
        itf = [0.0] + N.interfaces(c["model"])
        if min(abs(c["zr"] - t) for t in itf) > 0.1 and abs(c["zs"] - c["zr"]) > 0.5:
            break
    else:
        c["model"], c["zr"], c["zs"] = [[0.0, 4.0, 2.3, 2.5]], 1.0, 2.5
    c["pts"] = [[N.rnd(rng.normal() * 4, 3), N.rnd(rng.normal() * 4, 3)] for _ in range(2)]
    c["grid"] = None
    return c


def run_fd(c, wd):
    valid_static(c)
    rows, z0 = c["model"], c["zr"]
    itf = [0.0] + N.interfaces(rows)
    if min(abs(z0 - t) for t in itf) < 0.05:
        raise Skip
    h = 2.0 ** -9
    far = float(1.3 * max(np.hypot(*p) for p in c["pts"]) + 3)
    kk = f"-K+k{12 * (1 + 4 * h / abs(c['zs'] - z0))!r}+f"
    G.write_model("mod", rows)
    res = {}
    offs = [(0, 0, 0)] + [tuple(s * h * m if i == j else 0 for j in range(3)) for i in range(3) for s in (1, -1) for m in (1, 2)]
    allr = sorted({float(np.hypot(p[0] + o[0], p[1] + o[1])) for p in c["pts"] for o in offs} | {far})
    if np.diff(allr).min() < 1e-9 or allr[0] < 0.02:
        raise Skip
    for dz in sorted({o[2] for o in offs}):
        z = z0 + dz
        G.run(["static", "greenfn", "-Mmod", f"-D{c['zs']!r}/{z!r}", "-R" + ",".join(map(repr, allr)), "-Og.nc", "-e", "-L12", kk])
        pp = [(p[0] + o[0], p[1] + o[1]) for p in c["pts"] for o in offs if o[2] == dz]
        with open("pts", "w") as f:
            for p in pp:
                f.write(f"{float(p[0])!r} {float(p[1])!r} {z!r}\n")
        G.run(["static", "syn", "-Gg.nc", f"-S{c['S']!r}", "-e", "-s", "-N", "-Qpts", "-Oo.nc"] + srcs.args(c["src"]))
        d = G.Nc("o.nc")
        q = 0
        for ip in range(len(c["pts"])):
            for o in offs:
                if o[2] == dz:
                    res[ip, o] = {k: d[k][q] for k in d.v if k[-1] in "ZNE" and len(k) <= 2}
                    q += 1
    worst = 0
    for ip, p in enumerate(c["pts"]):
        sc = max(abs(v) for k, v in res[ip, (0, 0, 0)].items() if len(k) == 2)
        row = rows[N.layer_at(rows, c["zs"])]
        R = np.hypot(np.hypot(*p), c["zs"] - z0) * 1e5
        nat = c["S"] / (4 * np.pi * row[3] * row[2] ** 2 * 1e10 * (R ** 2 if c["src"]["kind"] == "F" else R ** 3))
        sc = max(sc, 1e-5 * nat)          # fields that vanish (dip-slip at the surface)
        for i, ax in enumerate("nez"):
            e = [tuple(s * h * m if i == j else 0 for j in range(3)) for m in (1, 2) for s in (1, -1)]
            for b in "ZNE":
                f1, f_1, f2, f_2 = (res[ip, o][b] for o in e)
                fd = (8 * (f1 - f_1) - (f2 - f_2)) / (12 * h) * 1e-5 * (-1 if ax == "z" else 1)
                v = res[ip, (0, 0, 0)][ax + b]
                err = abs(fd - v) / sc
                worst = max(worst, err)
                if not err <= 3e-5:
                    raise Violation("derivative", f"d{b}/d{ax} at {p} zr={z0}: {v:.8g}, finite difference of the displacement {fd:.8g} (largest derivative {sc:.4g})")
    return dict(nontrivial=True, tags=[c["src"]["kind"]], metric=dict(err=worst / 3e-5))


SUBS = [Sub("dynamic", gen_dyn, run_dyn, 1500, 10000, rule="always (arbitrary traces)"),
        Sub("static", gen_static, run_static, 600, 5000, rule="always (a source with at least one component)"),
        Sub("gradient", gen_fd, run_fd, 300, 2500, rule="always")]
