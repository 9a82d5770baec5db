"""Integration methods and automatic settings: every way of evaluating the wavenumber integral gives that integral."""
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, refs
from checks.c03 import GROUPS, natural

PROP = "C05"
LEVEL = "exploration"
ASSUMPTIONS = ["reference kernels from vlib/refs.py; the true integral by Gauss-Legendre panels, at equal depths as the limit of e^{-kh} damping (Richardson in h)",
               "Filon parts: the documented asymptotic Bessel functions without near-field terms"]


# ------------------------------------------------------------------------------------ references
def far(K, k, r, e):
    """integrand factors of the asymptotic form: dict name -> list of (values sqrt(k) F k^p, order of the cosine)"""
    out = {}
    sk = np.sqrt(k)
    for s in refs.SRC:
        m = refs.MORD[s]
        for pre, o in (("", 0), ("z", 3)) if e else (("", 0),):
            sg = -1.0 if pre else 1.0
            q, w, v = (sg * K[s][o + i] * sk for i in range(3))
            out[pre + s + "Z"] = (-w, m)
            if m == 0:
                out[pre + s + "R"] = (-q, 1)
            else:
                out[pre + s + "R"], out[pre + s + "T"] = (q, m - 1), (-v, m - 1)
        if e:
            q, w, v = (K[s][i] * sk * k for i in range(3))
            out["r" + s + "Z"] = (w, m + 1)
            if m == 0:
                out["r" + s + "R"] = (q, 2)
            else:
                out["r" + s + "R"], out["r" + s + "T"] = (-q, m), (v, m)
    return out


def filon(f, k, r, n):
    """sqrt(2/(pi r)) * integral of the piecewise linear f(k) cos(k r - (2n+1) pi/4)"""
    ph = k * r - (2 * n + 1) * np.pi / 4
    s, c = np.sin(ph), np.cos(ph)
    a = np.sum(f[1:] * s[1:] - f[:-1] * s[:-1]) / r + np.sum((f[1:] - f[:-1]) / (k[1:] - k[:-1]) * (c[1:] - c[:-1])) / r ** 2
    return a * np.sqrt(2 / (np.pi * r))


_GX, _GW = np.polynomial.legendre.leggauss(10)


def panels(lo, kmax, step, kfine=0.0, fine=0.0):
    """step: panel length; fine: the same below kfine, where the poles are near the path"""
    e = [0.0, lo]
    while e[-1] < kmax:
        e.append(e[-1] + min(step, e[-1], fine if e[-1] < kfine else np.inf))
    e = np.array(e)
    k = (e[:-1, None] + np.diff(e)[:, None] * (_GX + 1) / 2).ravel()
    return k, (np.diff(e)[:, None] * _GW / 2).ravel()


def kernels(rows, zs, zr, k, om, top="f", bot="H"):
    """om: None or (complex frequency, reference frequency)"""
    if om is None:
        return refs.layered_kernels(rows, zs, zr, k, None, None, top, bot)
    ps = [refs.layered_kernels(rows, zs, zr, k[a:a + 3000], np.full(len(k[a:a + 3000]), om[0]), om[1], top, bot) for a in range(0, len(k), 3000)]
    return {s: np.concatenate([p[s] for p in ps], axis=1) for s in refs.SRC}


def fineness(rows, om):
    if om is None:
        return ()
    vs = [v for r in rows for v in r[1:3] if v > 0]
    return 1.5 * om[0].real / min(vs) + 5 * abs(om[0].imag) / min(vs), 1.5 * abs(om[0].imag) / max(vs)


def truth(rows, zs, zr, r, e, top="f", bot="H", om=None):
    """the integral itself at one distance"""
    H = max([r, abs(zs - zr)] + N.interfaces(rows) + [zs, zr])
    fine = fineness(rows, om)
    dz = abs(zs - zr)
    if dz:
        kmax = 34 / dz
        k, w = panels(1e-3 / H, kmax, min(3.0 / r if r else np.inf, kmax / 40), *fine)
        return refs.hankel(kernels(rows, zs, zr, k, om, top, bot), k, w, r, e)
    hs = r / 3 * 0.5 ** np.arange(5)
    kmax = 34 / hs[-1]
    k, w = panels(1e-3 / H, kmax, 3.0 / r, *fine)
    K = kernels(rows, zs, zr, k, om, top, bot)
    vals = [refs.hankel(K, k, w * np.exp(-k * h), r, e) for h in hs]
    out = {"scale": vals[-1]["scale"]}
    lag = [np.prod([hs[j] / (hs[j] - hs[i]) for j in range(len(hs)) if j != i]) for i in range(len(hs))]
    for n in vals[0]:
        if n != "scale":
            out[n] = sum(a * v[n] for a, v in zip(lag, vals))
    return out


def grid_error(rows, zs, zr, r, e, dk, dcm=False, top="f", bot="H", om=None):
    """sum over the grid minus integral (both damped alike): what a given dk costs, e.g. the missing k = 0.
    dcm: the same after the kernels' limits for k -> infinity were summed and replaced by their integrals, less half of their term at k = 0"""
    H = max([r, abs(zs - zr)] + N.interfaces(rows) + [zs, zr])
    h = max(0.0, 0.04 * max(r, 0.5 * abs(zs - zr)) - abs(zs - zr))
    kmax = 30 / (h + abs(zs - zr))
    k, w = panels(1e-3 / H, kmax, min(3.0 / r if r else np.inf, kmax / 40), *fineness(rows, om))
    k2 = dk * (1 + np.arange(int(kmax / dk) + 1))

    def ker(x):
        return kernels(rows, zs, zr, x, om, top, bot)

    def diff(f):
        a = refs.hankel(f(k), k, w * np.exp(-k * h), r, e)
        b = refs.hankel(f(k2), k2, dk * np.exp(-k2 * h), r, e)
        return {n: b[n] - a[n] for n in a if n != "scale"}
    out = diff(ker)
    if dcm:
        d = [abs(zs - t) for t in [0.0] + N.interfaces(rows) if zs != t]
        kb = 40.0 / min(d + [H])
        C = ker(np.array([kb]))

        def con(x):
            p = np.array([0, 0, 0, 1, 1, 1.0])[:, None]
            return {s: C[s] * (x / kb)[None, :] ** (p - (1 if s in ("VF", "HF") else 0)) for s in C}
        g, kk = diff(con), np.array([1e-7 / H])
        f0 = refs.hankel(con(kk), kk, np.array([dk / 2]), r, e)
        out = {n: out[n] - g[n] - f0[n] for n in out}
    return out if om else {n: v.real for n, v in out.items()}


# ------------------------------------------------------------------------------------ static, explicit Filon parts
def gen_filon(rng):
    rows = N.model(rng, 1, 5, hmax=6)
    zs, zr = N.depth(rng, rows), N.depth(rng, rows)
    if abs(zs - zr) < 0.25:
        zr = zs + float(rng.choice([0.25, 0.5, 1.0, 2.0]))
    rs = sorted({N.rnd(N.log_uniform(rng, 0.3, 30)) for _ in range(int(rng.integers(1, 4)))})
    return dict(model=rows, zs=zs, zr=zr, rs=rs, L=N.rnd(rng.uniform(8, 30), 3), off=N.rnd(rng.uniform(1, 30), 3) if rng.random() < 0.8 else 0.0,
                fl=N.rnd(rng.uniform(8, 60), 3), tol=float(rng.choice([1e-2, 1e-3, 1e-4])), sa=bool(rng.random() < 0.5), e=bool(rng.random() < 0.6))


def valid(c):
    rows = c["model"]
    if any(r[0] <= 0 for r in rows[:-1]) or any(r[1] < 1.2 * r[2] for r in rows) or any(b <= a for a, b in zip(c["rs"], c["rs"][1:])):
        raise Skip
    if any(0 < abs(z - t) < 1e-6 for z in (c["zs"], c["zr"]) for t in N.interfaces(rows)) or 0 < abs(c["zs"] - c["zr"]) < 0.05:
        raise Skip


def library(c, opts):
    G.write_model("mod", c["model"])
    G.run(["static", "greenfn", "-Mmod", f"-D{c['zs']}/{c['zr']}", "-R" + ",".join(map(repr, c["rs"])), "-Og.nc"] + opts + ["-e"] * c["e"])
    return G.Nc("g.nc")


def run_filon(c, wd):
    valid(c)
    rows, zs, zr, e = c["model"], c["zs"], c["zr"], c["e"]
    if zs == zr:
        raise Skip
    meth = f"+a{c['tol']}" if c["sa"] else f"+l{c['fl']}"
    k0 = 12.0
    hs = max(abs(zs - zr), 0.1)
    kmax = k0 * np.pi / hs
    rmax = c["rs"][-1]
    dk, dkf, kcut = 2 * np.pi / (c["L"] * rmax), 2 * np.pi / (c["fl"] * rmax), min(c["off"] / rmax, kmax)
    if kmax / dk > 5000 or kmax / dkf > 5000 or kmax - kcut < 3 * max(dk, dkf):
        raise Skip
    d = library(c, [f"-L{c['L']}{meth}" + (f"+o{c['off']}" if c["off"] else ""), f"-K+k{k0}+f", "-Cn"])
    nk = int(np.floor(kcut / dk)) + 1 if kcut > 0 else 0
    if kcut > 0 and abs(kcut / dk - round(kcut / dk)) < 1e-6:
        raise Skip
    k1 = dk * (1 + np.arange(nk))
    ks = nk * dk
    if not c["sa"]:
        x = (kmax - ks) / dkf
        if abs(x - round(x)) < 1e-6:
            raise Skip
        k2 = ks + dkf * (1 + np.arange(int(np.floor(x)) + 1))
    else:
        # fine nodes, denser near the start
        k2 = ks + dk + (kmax - ks - dk) * np.linspace(0, 1, 3001) ** 2
    K1 = refs.layered_kernels(rows, zs, zr, k1, None, None, "f", "H") if nk else None
    K2 = refs.layered_kernels(rows, zs, zr, k2, None, None, "f", "H")
    worst = 0.0
    for b, r in enumerate(c["rs"]):
        ref = refs.hankel(K1, k1, np.full(nk, dk), r, e) if nk else None
        F = far(K2, k2, r, e)
        sums = {n: (ref[n].real if nk else 0.0) + filon(f.real, k2, r, m) for n, (f, m) in F.items()}
        absf = {n: np.sum(np.abs(f.real[1:]) * np.diff(k2)) * np.sqrt(2 / (np.pi * r)) for n, (f, m) in F.items()}
        nat = natural(rows, zs, zr)
        for gname, names in GROUPS:
            if gname[0] in "zr" and not e:
                continue
            fam, pre = "F" if "F" in gname else "M", gname[0] in "zr"
            sc = max(abs(sums[n]) for n in names)
            sc = max(sc, 1e-6 * nat[fam] / (nat["R"] if pre else 1))
            lim = 3e-6 * max(sc, 1e-3 * max(absf[n] for n in names))
            if c["sa"]:
                lim += (2 * c["tol"] + 2e-4) * max(absf[n] for n in names)
            for n in names:
                err = abs(d[n][0, 0, 0, b] - sums[n])
                if not err <= lim:
                    raise Violation("filon", f"{n} at r={r} zs={zs} zr={zr}: {d[n][0, 0, 0, b]:.9g} instead of {sums[n]:.9g} (limit {lim:.2g})")
                worst = max(worst, err / lim)
    return dict(nontrivial=bool(nk), tags=["SAFIM" if c["sa"] else "FIM", "split" if nk else "whole"], metric=dict(err=worst))


# ------------------------------------------------------------------------------------ static, truth
def gen_true(rng, kind=None):
    """auto: everything automatic (-L now and then); dcm, ptam, split: explicit upper limit, equal depths"""
    kind = kind or str(rng.choice(["auto-eq", "auto-ne", "dcm", "dcm", "ptam", "split"]))
    rows = N.model(rng, 1, 5, hmax=6)
    zs = N.depth(rng, rows)
    zr = zs
    if kind == "auto-ne":
        zr = N.depth(rng, rows)
        if abs(zs - zr) < 0.25:
            zr = zs + float(rng.choice([0.25, 0.5, 1.0, 2.0]))
    rs = sorted({N.rnd(N.log_uniform(rng, 0.3, 20)) for _ in range(int(rng.integers(1, 4)))})
    near = {"dcm": 5, "ptam": 1, "split": 2.5}.get(kind, 8 if rng.random() < 0.6 else 100)
    rs = sorted({max(x, N.rnd(rs[-1] / near)) for x in rs})
    L = N.rnd(rng.uniform(15, 40), 3) if rng.random() < 0.5 else 0.0
    fil, k0 = "", 0.0
    if kind in ("dcm", "ptam", "split"):
        L = N.rnd(rng.uniform(25, 60), 3)
        d = [abs(zs - t) for t in [0.0] + N.interfaces(rows) if zs != t]
        kmax = max([15.0 / max(min(d), 0.03)] if d else [0]) if kind != "ptam" else 0
        kmax = max(kmax, N.rnd(rng.uniform(15, 60)) / rs[0])
        k0 = N.rnd(kmax * 0.1 / np.pi)
        if kind == "split":
            off = N.rnd(rng.uniform(25, 50), 3)
            if d:                                   # by k* the kernels have become constant
                f = min(1.0, off * min(d) / 9.5 / rs[-1])
                rs = [N.rnd(x * f) for x in rs]
                k0 = N.rnd(max(15.0 / max(min(d), 0.03), 60 / rs[0]) * 0.1 / np.pi)
            fil = (f"+a{rng.choice([1e-3, 1e-4])}" if rng.random() < 0.6 else f"+l{N.rnd(rng.uniform(20, 60), 3)}") + f"+o{off}"
    return dict(kind=kind, model=rows, zs=zs, zr=zr, rs=rs, L=L, k0=k0, fil=fil, force=bool(rng.random() < 0.5), e=bool(rng.random() < 0.5))


# limits of |difference| / scale for displacements and derivatives (the scale is at least a tenth of the whole-space field)
LIM = {"auto-eq": (0.025, 0.8), "auto-ne": (0.006, 0.1), "dcm": (0.003, 0.004), "ptam": (0.006, 0.5), "split": (0.004, 0.01)}


def run_true(c, wd, probe=None):
    valid(c)
    rows, zs, zr, e, kind = c["model"], c["zs"], c["zr"], c["e"], c["kind"]
    if (zs == zr) == (kind == "auto-ne"):
        raise Skip
    dis = [abs(zs - t) for t in [0.0] + N.interfaces(rows) if zs != t]
    fixed = kind not in ("auto-eq", "auto-ne")
    dk = 2 * np.pi / ((c["L"] or 15.0) * max(c["rs"]))
    opts = [f"-L{c['L'] or ''}{c['fil']}"] if c["L"] or c["fil"] else []
    if fixed:
        kmax = c["k0"] * np.pi / 0.1
        if kmax / dk > 12000 or c["L"] < 20 or c["rs"][-1] > 6 * c["rs"][0] or kmax * c["rs"][0] < 10 or (kind != "ptam" and dis and kmax * min(dis) < 13):
            raise Skip
        if kind == "split" and dis and float(c["fil"].split("+o")[-1]) / c["rs"][-1] * min(dis) < 9:
            raise Skip
        if kind == "ptam" and kmax * c["rs"][-1] > 80:
            raise Skip
        opts += [f"-K+k{c['k0']}+f", "-Cp" if kind == "ptam" else "-Cd"]
    elif c["force"] and zs == zr:
        opts += ["-Cd"]
    d = library(c, opts)
    worst = [0.0, 0.0]
    for b, r in enumerate(c["rs"]):
        ref = truth(rows, zs, zr, r, e)
        R = np.hypot(r, zs - zr)
        dcm = zs == zr and kind != "ptam"
        grids = [grid_error(rows, zs, zr, r, e, dk, dcm)]
        if not dcm or not fixed:                    # the interval may have been shortened
            grids += [{n: 0.0 for n in grids[0]}]
        for gname, names in GROUPS:
            if gname[0] in "zr" and (not e or kind == "ptam" and dis and 0.02 < kmax * min(dis) < 4):
                continue        # ptam: derivatives need the kernels to be constant over the peaks it uses
            fam, pre = "F" if "F" in gname else "M", gname[0] in "zr"
            row = rows[N.layer_at(rows, zs)]
            mu = row[3] * row[2] ** 2
            sc = max(max(abs(ref[n].real) for n in names), 0.1 / (4 * np.pi * mu * R ** ((1 if fam == "F" else 2) + pre)))
            for n in names:
                got, exp, gs = d[n][0, 0, 0, b], ref[n].real, [g[n] for g in grids]
                err = max(min(gs) - (got - exp), (got - exp) - max(gs), 0) / sc
                if probe is not None:
                    probe.append((err, gname, n, r, got, exp))
                if not err <= LIM[kind][pre]:
                    raise Violation("truth", f"{n} at r={r} zs={zs} zr={zr}, {' '.join(opts) or 'automatic settings'}: {got:.9g}, the integral is {exp:.9g}")
                worst[pre] = max(worst[pre], err / LIM[kind][pre])
    return dict(nontrivial=len(rows) > 1, tags=[kind, "L" if c["L"] else "autoL"], metric=dict(disp=worst[0], deriv=worst[1]))


# ------------------------------------------------------------------------------------ dynamic
# (what a truncated remainder costs: the kernels approach their limits only as (w/kv)^2)
DLIM = {"fim": (1, 1), "safim": (1, 1), "eq": (0.12, 2.0), "dcm": (0.08, 0.35), "ptam": (0.03, 0.15), "ne": (0.01, 0.05)}


def gen_dyn(rng, kind=None):
    kind = kind or str(rng.choice(["fim", "safim", "eq", "dcm", "ptam", "ne"]))
    for _ in range(400):
        rows = N.model(rng, 1, 4, hmax=4)
        zs, zr = N.depth(rng, rows), N.depth(rng, rows)
        if kind in ("eq", "dcm", "ptam"):
            zr = zs
        elif abs(zs - zr) < 0.25:
            zr = zs + float(rng.choice([0.25, 0.5, 1.0, 2.0]))
        rs = sorted({N.rnd(N.log_uniform(rng, 0.5, 15)) for _ in range(int(rng.integers(1, 3)))})
        near = {"dcm": 5, "ptam": 1, "eq": 8, "ne": 20}.get(kind, 5)
        rs = sorted({max(x, N.rnd(rs[-1] / near)) for x in rs})
        vmax = max(r[1] for r in rows)
        vmin = min(r[2] for r in rows)
        nt = int(rng.integers(8, 17))
        # nyquist wavelength not much less than the distance
        T = N.rnd(nt / 2 / (vmin / rs[-1] * rng.uniform(0.3, 3)), 3)
        zeta = N.rnd(rng.uniform(0.8, 3), 2)
        L = N.rnd(rng.uniform(20, 60), 3)
        c = dict(kind=kind, model=rows, zs=zs, zr=zr, rs=rs, nt=nt, dt=N.rnd(T / nt, 3), zeta=zeta, L=L, k0=0.0, fl=0.0, off=0.0, tol=0.0, e=bool(rng.random() < 0.6))
        if kind in ("fim", "safim"):
            c.update(k0=N.rnd(rng.uniform(8, 12), 3), off=N.rnd(rng.uniform(1, 30), 3) if rng.random() < 0.8 else 0.0,
                     fl=N.rnd(rng.uniform(8, 60), 3), tol=float(rng.choice([1e-2, 1e-3])))
        elif kind in ("dcm", "ptam"):
            d = [abs(zs - t) for t in [0.0] + N.interfaces(rows) if zs != t]
            km = max(15.0 / max(min(d), 0.03) if d and kind == "dcm" else 0, N.rnd(rng.uniform(15, 60)) / rs[0], 12 * np.pi * nt / T / vmin if kind == "dcm" else 0)
            c["k0"] = N.rnd(km * 0.1 / np.pi)
        try:
            valid_dyn(c)
            return c
        except Skip:
            pass
    return c


def valid_dyn(c):
    valid(c)
    rows, zs, zr, kind = c["model"], c["zs"], c["zr"], c["kind"]
    eq = kind in ("eq", "dcm", "ptam")
    if (zs == zr) != eq or c["nt"] < 4 or c["nt"] > 40 or c["dt"] <= 0 or c["zeta"] < 0.5 or c["L"] < 5 or c["rs"][0] < 0.05:
        raise Skip
    T = c["nt"] * c["dt"]
    wI, vmax, vmin = c["zeta"] * np.pi / T, max(r[1] for r in rows), min(r[2] for r in rows)
    if wI < 0.12:
        raise Skip              # else low frequencies are left out
    kmax = np.hypot((c["k0"] or 50) * np.pi / max(abs(zs - zr), 0.1), 1.2 * np.pi * c["nt"] / T / max(0.1, vmin))
    dk = 2 * np.pi / (c["L"] * c["rs"][-1])
    if kind in ("fim", "safim"):
        if min(dk, 2 * np.pi / (max(c["fl"], 1) * c["rs"][-1])) * 3000 < kmax or c["off"] / c["rs"][-1] / dk > 3000 or c["fl"] < 5 or c["k0"] < 5 or c["tol"] < 1e-4:
            raise Skip
    else:
        if kmax / dk > 20000 or c["L"] < 20 or c["L"] * c["rs"][-1] * wI / vmax < 8 or np.hypot(c["rs"][-1], zs - zr) * wI / vmin > 3.5:
            raise Skip          # images of the sources are not negligible, or the field is
        if kind in ("dcm", "ptam"):
            dis = [abs(zs - t) for t in [0.0] + N.interfaces(rows) if zs != t]
            kmin = c["k0"] * np.pi / 0.1
            if c["rs"][-1] > 6 * c["rs"][0] or kmin * c["rs"][0] < 10 or (kind == "dcm" and ((dis and kmin * min(dis) < 13) or kmin < 10 * np.pi * c["nt"] / T / vmin)):
                raise Skip
            if kind == "ptam" and kmax * c["rs"][-1] > 120:
                raise Skip


def run_dyn(c, wd, probe=None):
    valid_dyn(c)
    rows, zs, zr, e, kind, nt, dt, rs = c["model"], c["zs"], c["zr"], c["e"], c["kind"], c["nt"], c["dt"], c["rs"]
    T = nt * dt
    wI = c["zeta"] * np.pi / T
    nf = nt // 2 + 1
    f = np.arange(nf) / T
    omgref = 2 * np.pi * f[-1]
    dk = 2 * np.pi / (c["L"] * rs[-1])
    vmin = max(0.1, min(v for r in rows for v in r[1:3] if v > 0))
    G.write_model("mod", rows)
    a = ["greenfn", "-Mmod", f"-D{zs!r}/{zr!r}", f"-N{nt}/{dt!r}+w{c['zeta']!r}", "-R" + ",".join(map(repr, rs)), "-Oout", "-P2", "-s"] + ["-e"] * e
    meth = {"fim": f"+l{c['fl']!r}", "safim": f"+a{c['tol']!r}"}.get(kind, "")
    a += [f"-L{c['L']!r}{meth}" + (f"+o{c['off']!r}" if meth and c["off"] else "")]
    if c["k0"]:
        a += [f"-K+k{c['k0']!r}+s1.15+f", {"dcm": "-Cd", "ptam": "-Cp"}.get(kind, "-Cn")]
    G.run(a)
    worst, split = [0.0, 0.0], False
    nat = {}
    for b, r in enumerate(rs):
        R = np.hypot(r, zs - zr)
        d = f"out/mod_{zs:g}_{zr:g}_{float(r)!r}"
        got, noise = {}, {}
        for gname, names in GROUPS:
            if gname[0] in "zr" and not e:
                continue
            for n in names:
                u = G.Sac(f"{d}/{n}.sac").d.astype(float) * np.exp(-wI * np.arange(nt) * dt)
                got[n] = np.fft.rfft(u) * dt
                noise[n] = 3e-7 * np.sum(np.abs(u)) * dt
        for i in range(nf):
            if nt % 2 == 0 and i == nf - 1:
                continue                            # only the real part of the Nyquist value survives
            if i == 0:
                for n in got:
                    got[n][0] = got[n][0].real
            om = (2 * np.pi * f[i] - 1j * wI, omgref)
            if zs == zr and abs(om[0]) * r < 3 * max(q[1] for q in rows):
                continue                            # rounding of the kernels at k >> w/v
            if kind in ("fim", "safim"):
                kmax = np.hypot(c["k0"] * np.pi / max(abs(zs - zr), 0.1), 1.15 * 2 * np.pi * f[i] / vmin)
                ref, absf, nk = filon_sum(c, rows, zs, zr, r, e, dk, kmax, om)
                split |= bool(nk)
                grids = [{n: 0.0 for n in ref}]
            else:
                ref, absf = truth(rows, zs, zr, r, e, om=om), None
                grids = [grid_error(rows, zs, zr, r, e, dk, kind in ("eq", "dcm"), om=om)]
                if not c["k0"]:
                    grids += [{n: 0.0 for n in grids[0]}]
            big = {(fam, pre): max(abs(ref[n]) for g, names in GROUPS for n in names
                                   if ("F" in g) == (fam == "F") and (g[0] in "zr") == pre and (e or not pre)) for fam in "MF" for pre in {False, e}}
            for gname, names in GROUPS:
                if gname[0] in "zr" and not e or zs == 0 and gname[-2:] == "DS":
                    continue                        # (DS vanishes at the surface)
                fam, pre = "F" if "F" in gname else "M", gname[0] in "zr"
                row = rows[N.layer_at(rows, zs)]
                mu = row[3] * row[2] ** 2
                sc = max(max(abs(ref[n]) for n in names), 0.05 * big[fam, pre], 0.1 * np.exp(-wI * R / row[2]) / (4 * np.pi * mu * R ** ((1 if fam == "F" else 2) + pre)))
                for n in names:
                    g, ex = got[n][i], ref[n]
                    if i == 0:
                        ex = complex(ex).real
                    if kind == "safim":
                        lim = (2 * c["tol"] + 2e-4) * max(absf[m] for m in names) + 2e-4 * sc
                    elif kind == "fim":
                        lim = 1e-5 * max(sc, 0.1 * max(absf[m] for m in names))
                    else:
                        lim = DLIM[kind][pre] * sc
                    gs = [q[n] for q in grids]
                    if i == 0:
                        gs = [complex(q).real for q in gs]
                    err = max(0.0, min(abs(g - ex - q) for q in gs) - max(noise[m] for m in names)) / lim
                    if probe is not None:
                        probe.append((err, gname, n, r, i, g, ex))
                    elif not err <= 1:
                        raise Violation("dynamic", f"{kind}: {n} at r={r} zs={zs} zr={zr} f={f[i]:.5g}, {' '.join(a[-3:])}: {g:.6g}, expected {ex:.6g} (limit {lim:.2g})")
                    worst[pre] = max(worst[pre], err)
    return dict(nontrivial=len(rows) > 1, tags=[kind] + ["split"] * split, metric=dict(disp=worst[0], deriv=worst[1]))


def filon_sum(c, rows, zs, zr, r, e, dk, kmax, om):
    sa, rmax = c["kind"] == "safim", c["rs"][-1]
    dkf, kcut = 2 * np.pi / (c["fl"] * rmax), min(c["off"] / rmax, kmax)
    nk = int(np.floor(kcut / dk)) + 1 if kcut > 0 else 0
    if kcut > 0 and abs(kcut / dk - round(kcut / dk)) < 1e-6 or kmax - kcut < 3 * max(dk, dkf):
        raise Skip
    ks = nk * dk
    if not sa:
        x = (kmax - ks) / dkf
        if abs(x - round(x)) < 1e-6:
            raise Skip
        k2 = ks + dkf * (1 + np.arange(int(np.floor(x)) + 1))
    else:
        kf, st = fineness(rows, om)
        k2 = np.unique(np.concatenate([ks + dk + (kmax - ks - dk) * np.linspace(0, 1, 3001) ** 2, np.arange(ks + dk, max(ks + dk, min(kf, kmax)), st / 20)]))
        if len(k2) > 40000:
            raise Skip
    ref = None
    if nk:
        k1 = dk * (1 + np.arange(nk))
        ref = refs.hankel(kernels(rows, zs, zr, k1, om), k1, np.full(nk, dk), r, e)
    F = far(kernels(rows, zs, zr, k2, om), k2, r, e)
    sums = {n: (ref[n] if nk else 0.0) + filon(g, k2, r, m) for n, (g, m) in F.items()}
    absf = {n: np.sum(np.abs(g[1:]) * np.diff(k2)) * np.sqrt(2 / (np.pi * r)) for n, (g, m) in F.items()}
    return sums, absf, nk


# ------------------------------------------------------------------------------------ -K+e
def gen_stop(rng):
    c = gen_filon(rng)
    zs = c["zs"] if c["zs"] > 0 else 0.5
    for z in (c["zr"], 0.0, 0.25, 1.0, 1.75, 3.0):
        if abs(zs - z) >= 0.25:
            break
    return dict(model=c["model"], zs=zs, zr=z, rs=c["rs"], L=c["L"], keps=N.rnd(10 ** rng.uniform(-5, -1.3), 2), e=c["e"])


def run_stop(c, wd):
    """the sum over wavenumbers ends, for each distance by itself, at the first term at which all terms are small against their sums"""
    valid(c)
    rows, zs, zr, e, keps = c["model"], c["zs"], c["zr"], c["e"], c["keps"]
    if abs(zs - zr) < 0.1 or zs <= 0 or keps <= 0:
        raise Skip
    kmax = 12 * np.pi / abs(zs - zr)
    dk = 2 * np.pi / (c["L"] * c["rs"][-1])
    if kmax / dk > 6000 or abs(kmax / dk - round(kmax / dk)) < 1e-6:
        raise Skip
    d = library(c, [f"-L{c['L']}", f"-K+k12+f+e{keps}"])
    k = dk * (1 + np.arange(int(np.floor(kmax / dk)) + 1))
    K = refs.layered_kernels(rows, zs, zr, k, None, None, "f", "H")
    early, worst = 0, 0.0
    for b, r in enumerate(c["rs"]):
        ts = []
        J = [refs.jv(m, k * r) for m in range(3)]
        for s in refs.SRC:
            q, w, v = K[s][0], K[s][1], K[s][2]
            m = refs.MORD[s]
            ts += [q * J[1] * k, w * J[0] * k] if m == 0 else [q * J[m - 1] * k, m * (q + v) * J[m] / r, w * J[m] * k, v * J[m - 1] * k]
        T = np.abs(np.array(ts))
        S = np.abs(np.cumsum(np.array(ts), axis=1))
        if np.any(S[:, -1] < 1e-10 * np.max(T, axis=1)) or np.any(T.max(axis=1) == 0):
            raise Skip
        with np.errstate(divide="ignore", invalid="ignore"):
            q = np.max(T / S, axis=0)
        sure = np.nonzero(q <= keps * (1 - 1e-4))[0]
        end = int(sure[0]) if len(sure) else len(k) - 1
        ends = [int(i) for i in np.nonzero(q <= keps * (1 + 1e-4))[0] if i < end] + [end]
        early += end < len(k) - 1
        best = None
        for n in ends[-5:]:
            ref = refs.hankel({s: K[s][:, :n + 1] for s in K}, k[:n + 1], np.full(n + 1, dk), r, e)
            bad, err = None, 0.0
            nat = natural(rows, zs, zr)
            for gname, names in GROUPS:
                if gname[0] in "zr" and not e:
                    continue
                fam, pre = "F" if "F" in gname else "M", gname[0] in "zr"
                sc = max(max(abs(ref[m].real) for m in names), 1e-6 * nat[fam] / (nat["R"] if pre else 1),
                         1e-6 * ref["scale"][(gname[0] if pre else "") + fam])
                for m in names:
                    x = abs(d[m][0, 0, 0, b] - ref[m].real) / (4e-6 * sc)
                    if not x <= 1:
                        bad = bad or f"{m} at r={r} zs={zs} zr={zr} +e{keps}: {d[m][0, 0, 0, b]:.9g}, the sum ended at k={k[n]:.5g} of {k[-1]:.5g} is {ref[m].real:.9g}"
                    err = max(err, x)
            if best is None or bad is None:
                best = (bad, err)
            if bad is None:
                break
        if best[0]:
            raise Violation("stop", best[0])
        worst = max(worst, best[1])
    return dict(nontrivial=early > 0, tags=["early"] * bool(early) + ["multi"] * (len(c["rs"]) > 1), metric=dict(err=worst))


SUBS = [Sub("filon", gen_filon, run_filon, 300, 4000, rule="the integral is split, so both parts contribute"),
        Sub("true", gen_true, run_true, 150, 4000, rule="layered model"),
        Sub("dynamic", gen_dyn, run_dyn, 100, 2500, rule="layered model"),
        Sub("stop", gen_stop, run_stop, 120, 1500, rule="the sum ends before its upper limit")]
