"""grt eigenfn: eigenfunctions, energy integrals, group velocities and sensitivities of the modes."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N
from vlib.modes import Stack, integrals
from checks import c16

PROP = "C17"
LEVEL = "exploration"
ASSUMPTIONS = ["modes are those that grt eigenv reports; only modes whose phase velocity agrees with the reference within 1e-6 and that are required by C16 (not trapped at depth, not at a layer velocity) are judged",
               "sensitivities are the derivatives dc/dX per unit of X, as computed and as in the tutorial; the module page calls them dimensionless",
               "the group velocity sensitivity is the documented forward difference over the selected frequencies"]


def gen(rng):
    c = c16.gen(rng)
    c["N"] = "all"
    c["dup"] = False
    fr = [float(x) for x in c16.freqs(c["F"], c["p"])]
    sel = {"F": None, "N": None}
    u = rng.random()
    if u < 0.15:
        sel["F"] = dict(kind="one", x=fr[int(rng.integers(len(fr)))], p=bool(rng.random() < 0.3))
    elif u < 0.4 and len(fr) > 1:
        i, j = sorted(int(x) for x in rng.integers(0, len(fr), 2))
        e = (fr[1] - fr[0]) * float(rng.choice([0.0, 0.3]))
        sel["F"] = dict(kind="range", x=[max(fr[i] - e, 0.0), fr[j] + e], p=bool(rng.random() < 0.3))
    elif u < 0.5 and len(fr) > 2 and len(c["F"]) == 3:
        sel["F"] = dict(kind="list", m=int(rng.integers(1, 3)), i=int(rng.integers(0, 2)))
    u = rng.random()
    sel["N"] = "all" if u < 0.6 else "default" if u < 0.75 else [int(rng.integers(0, 4))] if u < 0.85 else \
        [int(rng.integers(0, 3)), int(rng.integers(3, 7))] + ([int(rng.integers(1, 4))] if rng.random() < 0.5 else [])
    H = sum(r[0] for r in c["rows"][:-1])
    u = rng.random()
    if u < 0.15:
        z = None
    elif u < 0.3:
        z = [N.rnd(H * rng.uniform(0.01, 1.5), 4)]
    else:
        d = N.rnd(H * rng.uniform(0.05, 0.4), 3)
        z = [0.0 if rng.random() < 0.7 else N.rnd(H * rng.uniform(0, 0.5), 3), 0.0, d]
        z[1] = round(z[0] + d * float(rng.uniform(1, 8)), 6)
    if z and len(z) == 3 and rng.random() < 0.3:      # interfaces exactly on the list
        z = [0.0, round(float(rng.integers(2, 12)) * 0.25, 6), 0.25 if H < 8 else 1.0]
        z[1] = z[2] * int(rng.integers(2, 12))
    Kz = None if rng.random() < 0.4 else N.rnd(float(rng.choice([r[0] for r in c["rows"][:-1]])) * float(rng.choice([0.5, 1.0, 0.37, 1.6, 0.25])), 3)
    return dict(m=c, sel=sel, z=z, Kz=Kz, pick=[float(rng.random()), float(rng.random())])


def select(sel, fr, got, m):
    """the options, the indices of frequencies, the orders"""
    F, a = sel["F"], []
    nm = max(len(g) for g in got)
    idx = list(range(len(fr)))
    if F is not None and F["kind"] == "one":
        x = 1 / F["x"] if F["p"] else F["x"]
        a.append(f"-F{x!r}" + "+p" * F["p"])
        idx = [i for i in idx if abs(fr[i] - (1 / x if F["p"] else x)) < 1e-8]
    elif F is not None and F["kind"] == "range":
        lo, hi = F["x"]
        if F["p"]:
            if lo <= 0:
                lo = hi / 1000
            lo, hi = lo * (1 - 1e-9), hi * (1 + 1e-9)
            a.append(f"-F{1 / hi!r}/{1 / lo!r}+p")
        else:
            a.append(f"-F{lo!r}/{hi!r}")
        idx = [i for i in idx if lo <= fr[i] <= hi]
    elif F is not None:
        f1, f2, d = m["F"][0], m["F"][1], m["F"][2]
        x = np.sort(1 / fr) if m["p"] else fr
        s, e = float(x[min(F["i"], len(x) - 1)]), float(x[-1])
        d = d * F["m"]
        if s < d or e < s:
            s = d
        if e < s:
            raise Skip
        a.append(f"-F{s!r}/{e!r}/{d!r}" + "+p" * m["p"])
        y = s + d * np.arange(int(np.floor((e - s) / d + 1e-8)) + 1)
        y = 1 / y if m["p"] else y
        idx = [i for i in idx if np.min(np.abs(y - fr[i])) < 1e-8]
    Nn = sel["N"]
    if Nn == "all":
        a.append("-N")
        modes = list(range(nm))
    elif Nn == "default":
        modes = [0]
    else:
        a.append("-N" + "/".join(map(str, Nn)))
        modes = [Nn[0]] if len(Nn) == 1 else list(range(Nn[0], Nn[1] + 1, Nn[2] if len(Nn) > 2 else 1))
    return a, idx, [x for x in modes if x < nm]


def layer_of(rows, z):
    """depths of the layer tops; a depth on an interface belongs to the layer below"""
    top = np.concatenate([[0], np.cumsum([r[0] for r in rows[:-1]])])
    return top, [int(np.searchsorted(top, x, "right") - 1) for x in z]


def slices(rows, dz):
    """[(layer, top, thickness or None)]"""
    out, top = [], 0.0
    for i, r in enumerate(rows):
        if i == len(rows) - 1:
            out.append((i, top, None))
            break
        h, d = 0.0, r[0] if dz is None else dz
        while h < r[0] and abs(r[0] - h) >= d * 1e-5:
            out.append((i, top + h, min(d, r[0] - h)))
            h += d
        top += r[0]
    return out


def expand(rows, dz):
    return [[h if h is not None else 0.0] + list(rows[i][1:]) for i, _, h in slices(rows, dz)]


def check_head(nc, fr, idx, modes, got, love, name, cname="c"):
    G.must(np.array_equal(nc["freq"], fr[idx]), name, f"frequencies {nc['freq']}, expected {fr[idx]}")
    G.must(list(nc["mode"]) == modes, name, f"orders {list(nc['mode'])}, expected {modes}")
    G.must(int(nc.attr["isRayl"]) == (not love), name, "isRayl")
    n = [sum(1 for x in modes if x < len(got[i])) for i in idx]
    G.must(list(nc["cnum"]) == n, name, f"cnum {list(nc['cnum'])}, expected {n}")
    if cname == "c":
        for j, i in enumerate(idx):
            e = np.zeros(len(modes))
            e[:n[j]] = [got[i][x] for x in modes[:n[j]]]
            G.must(np.array_equal(nc["c"][j], e), name, f"c {nc['c'][j]}, expected {e}")
    return n


def run(c, wd):
    m, rows, love = c["m"], c["m"]["rows"], c["m"]["love"]
    if not c16.in_domain(rows, love) or any(r[0] <= 0 for r in rows[:-1]) or any(r[2] > 0 and r[2] * 1.2 > r[1] for r in rows):
        raise Skip
    if min(m["F"][-1], m["F"][0] if len(m["F"]) == 1 else 1) <= 0 or (len(m["F"]) == 3 and (m["F"][1] <= 0 or m["F"][1] < m["F"][0] or m["F"][0] < 0)):
        raise Skip
    fr = c16.freqs(m["F"], m["p"])
    H = sum(r[0] for r in rows[:-1])
    if len(fr) > 12 or fr[-1] > 20 * min(c16.vel(r) for r in rows) / H:
        raise Skip
    z = c["z"]
    if z is not None and (min(z) < 0 or (len(z) == 3 and (z[2] <= 0 or z[1] <= 0 or z[1] < z[0] or (z[1] - z[0]) / z[2] > 60)) or (len(z) == 1 and z[0] <= 0)):
        raise Skip
    if c["Kz"] is not None and (c["Kz"] <= 0 or H / c["Kz"] > 80):
        raise Skip
    G.write_model(f"{wd}/mod", rows)
    nc = c16.eigenv(wd, c16.args(m), m["threads"])
    if nc is None:
        raise Skip
    fr, got = c16.content(nc, love)
    a, idx, modes = select(c["sel"], fr, got, m)
    if not modes or not idx:
        raise Skip
    zs = layer_of(rows, [])[0] if z is None else np.array(z) if len(z) == 1 else z[0] + z[2] * np.arange(int(np.floor((z[1] - z[0]) / z[2] + 1e-8)) + 1)
    W = "-We.nc" + ("" if z is None else "+z" + "/".join(repr(float(x)) for x in z))
    K = "-K+cc.nc+uus.nc+xx.nc" + ("" if c["Kz"] is None else f"+z{c['Kz']!r}")
    p = G.run(["eigenfn", "-Co.nc", W, "-Uu.nc", K] + a, ok=False, cwd=wd)
    if p.returncode != 0:
        raise Violation("rejected", f"eigenfn {W} {K} {' '.join(a)} fails: {(p.err + p.out)[-300:]}")
    E, U, X, CS, US = (G.Nc(f"{wd}/{x}.nc") for x in ("e", "u", "x", "c", "us"))
    n = check_head(E, fr, idx, modes, got, love, "eigfn")
    check_head(U, fr, idx, modes, got, love, "u")
    check_head(X, fr, idx, modes, got, love, "egyint")
    check_head(CS, fr, idx, modes, got, love, "csens")
    check_head(US, fr, idx, modes, got, love, "usens", "u")
    G.must(np.array_equal(US["u"], U["u"]), "usens", "u differs between files")
    G.must(len(E["z"]) == len(zs) and np.allclose(E["z"], zs, rtol=1e-9, atol=1e-9), "depths", f"z {E['z']}, expected {zs}")
    sl = slices(rows, c["Kz"])
    zt = np.array([x[1] for x in sl])
    G.must(len(CS["z"]) == len(zt) and np.allclose(CS["z"], zt, atol=1e-9) and np.array_equal(CS["z"], US["z"]), "slices", f"z {CS['z']}, expected {zt}")
    # group velocity sensitivities: documented combination
    Cs, Us, cc, uu = CS["csens"], US["usens"], CS["c"], U["u"]
    for j in range(len(idx)):
        for k in range(n[j]):
            g = uu[j, k] / cc[j, k]
            e = g * (2 - g) * Cs[j, k]
            if j + 1 < len(idx) and k < n[j + 1]:
                e = e + g * g * fr[idx[j]] * (Cs[j + 1, k] - Cs[j, k]) / (fr[idx[j + 1]] - fr[idx[j]])
            G.must(np.allclose(Us[j, k], e, rtol=1e-9, atol=1e-9 * (np.abs(e).max() + 1e-30)), "usens", f"f={fr[idx[j]]:.6g} mode {modes[k]}: {Us[j, k].tolist()[:3]}, expected {e.tolist()[:3]}")
    # the same from a run over everything
    if c["sel"]["F"] is not None or c["sel"]["N"] != "all":
        p = G.run(["eigenfn", "-Co.nc", W.replace("e.nc", "e2.nc"), "-Uu2.nc", "-N"], ok=False, cwd=wd)
        if p.returncode != 0:
            raise Violation("rejected", f"eigenfn {W} -N fails: {(p.err + p.out)[-300:]}")
        E2, U2 = G.Nc(f"{wd}/e2.nc"), G.Nc(f"{wd}/u2.nc")
        for j, i in enumerate(idx):
            for k in range(n[j]):
                for what, x, y in (("eigenfunction", E["eigfn"][j, k], E2["eigfn"][i, modes[k]]), ("group velocity", U["u"][j, k], U2["u"][i, modes[k]])):
                    s = np.abs(y).max()
                    G.must(np.abs(x - y).max() <= 1e-9 * s, "selection", f"f={fr[i]:.6g} mode {modes[k]}: the {what} differs from that of a run over all modes and frequencies by {np.abs(x - y).max():.3g} of {s:.3g}")
    # one mode in depth
    cand = []
    for j, i in enumerate(idx):
        for k in range(n[j]):
            cand.append((j, i, k))
    if not cand:
        raise Skip
    req = {}
    used = 0
    worst = 0.0
    tags = set()
    rng = np.random.default_rng(int(c["pick"][0] * 2 ** 31))
    for j, i, k in [cand[x] for x in rng.permutation(len(cand))[:4]]:
        v, f = got[i][modes[k]], fr[i]
        if i not in req:
            req[i] = c16.reference(rows, love, f)[0]
        w = 2 * np.pi * f
        if not len(req[i]) or np.min(np.abs(req[i] - v)) > 1e-6 + 1e-6 * v or np.sum(np.abs(req[i] - v) < 1e-4 * v) > 1:
            continue
        v0 = req[i][np.argmin(np.abs(req[i] - v))]
        worst = max(worst, judge(rows, love, f, w, v, v0, E["z"], E["eigfn"][j, k], X["egyint"][j, k], U["u"][j, k], Cs[j, k], sl, full=used == 0, name=f"f={f:.6g} mode {modes[k]}", dc=abs(v - v0)))
        used += 1
    if not used:
        raise Skip
    lvl = any(c16.vel(rows[q]) > c16.vel(rows[q + 1]) for q in range(len(rows) - 1))
    return dict(nontrivial=True, metric={"deviation": float(worst)}, tags=["Love" if love else "Rayleigh"] + ["low velocity layer"] * lvl + ["liquid"] * any(r[2] == 0 for r in rows) + ["selected frequencies"] * (c["sel"]["F"] is not None) + ["slices"] * (c["Kz"] is not None) + ["higher mode"] * (max(modes) > 0))


def judge(rows, love, f, w, v, v0, z, eig, egy, u, sens, sl, full, name, dc):
    cmax = c16.vel(rows[-1])
    # roots are known to about 1e-8 only; on the weakly coupled side of a liquid-solid interface this is amplified
    liq = any(r[2] == 0 for r in rows)
    T1, T2, T3, T4 = (1e-2, 4e-2, 5e-3, 2e-2) if liq else (1e-4, 1e-3, 5e-4, 1e-3)
    I, F, a0, s0 = integrals(rows, love, w, v0, z)
    e = eig[:, 0::2] + 1j * eig[:, 1::2]
    x = egy[0::2] + 1j * egy[1::2]
    k = w / v0
    # fit of the complex constant from all components, each with its own scale
    nd = F.shape[1] // 2
    sc = np.array([a0] * nd + [s0] * nd)
    A, B = (F / sc).ravel(), (e / sc).ravel()
    if not np.any(A):
        return 0.0
    K = (A @ B) / (A @ A)
    r = np.abs(B - K * A).max() / abs(K)
    worst = r / T1
    if r > T1:
        q = int(np.argmax(np.abs(B - K * A)))
        raise Violation("shape", f"{name} c={v!r}: eigenfunctions deviate by {r:.2e} at z={z[q // F.shape[1]]:.6g} (component {q % F.shape[1]}): {(e / K)[q // F.shape[1]]}, reference {F[q // F.shape[1]]}")
    # energy integrals in the same normalisation
    wt = np.array([w * w, k * k, k, 1.0])
    if np.abs(A).max() > 0.05:
        r = np.abs((x[:4] / K ** 2 - I) * wt).max() / (w * w * I[0])
        worst = max(worst, r / T2)
        if r > T2:
            raise Violation("energy", f"{name} c={v!r}: energy integrals {(x[:4] / K ** 2).real}, reference {I}")
    eps = w * w * x[0] - k * k * x[1] + k * x[2] - x[3]
    G.must(abs(x[4]) < T1 * abs(w * w * x[0]), "energy", f"{name}: the energy balance {x[4]} is not small against {w * w * x[0]}")
    # group velocity
    s = Stack(rows, cmax, f * 1.001, love)
    n = int(s.count(w, [v0 * (1 - 2e-8)])[0])
    h = 1e-4
    cp, cm = (s.track(w * (1 + y), n, v0) for y in (h, -h))
    if not (np.isfinite(cp) and np.isfinite(cm)) or abs(cp + cm - 2 * v0) > 1e-2 * abs(cp - cm) + 1e-9:
        return worst
    ref = v0 / (1 - (cp - cm) / (2 * h) / v0)
    r = abs(u / ref - 1)
    worst = max(worst, r / T3)
    if r > T3:
        raise Violation("group velocity", f"{name} c={v!r}: U={u!r}, reference {ref!r}")
    # sensitivity of some slices
    if not full:
        return worst
    big = np.abs(sens).max()
    ex = [[hh if hh is not None else 0.0] + list(rows[i][1:]) for i, _, hh in sl]
    pick = range(len(sl)) if len(sl) <= 5 else sorted(set([0, len(sl) - 1] + [int(np.argmax(np.abs(sens).max(1)))] + [int(q * 7919 + f * 1e6) % len(sl) for q in range(3)]))
    for q in pick:
        i = sl[q][0]
        for p in (1, 2, 3):
            if love and (p == 1 or rows[i][2] == 0) or rows[i][p] == 0:
                G.must(sens[q][p - 1] == 0, "csens", f"{name}: sensitivity {p} of slice {q} is {sens[q][p - 1]}, expected 0")
                continue
            h = 1e-4
            val = []
            for y in (h, -h):
                rr = [list(t) for t in ex]
                rr[q][p] *= 1 + y
                val.append(Stack(rr, min(c16.vel(rr[-1]), cmax), f, love).track(w, n, v0))
            if not np.all(np.isfinite(val)) or abs(val[0] + val[1] - 2 * v0) > 1e-2 * abs(val[0] - val[1]) + 1e-9:
                continue
            d = (val[0] - val[1]) / (2 * h * rows[i][p])
            r = abs(d - sens[q][p - 1])
            t = T4 * big + 1e-7 / h * 1e-3
            worst = max(worst, r / t)
            if r > t:
                raise Violation("csens", f"{name} c={v!r}: sensitivity to {['', 'vp', 'vs', 'rho'][p]} of slice {q} (layer {i}) is {sens[q][p - 1]!r}, reference {d!r}")
    return worst


SUBS = [Sub("modes", gen, run, 350, 3000, rule="at least one judged mode")]
