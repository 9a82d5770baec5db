"""grt modsum: surface wave Green's functions as the sum of the residues of the wavenumber integrals at the modes."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, refs
from vlib.modes import Stack
from checks import c16
from checks.c01 import ref_time

PROP = "C18"
LEVEL = "exploration"
ASSUMPTIONS = ["modes are those that grt eigenv reports; frequencies at which a selected mode is not one required by C16, or within 1e-3 of another mode, are not judged",
               "the far-field form is used for the reference, as documented: terms of order 1/(kr) are absent"]
FAM = {"e": ["EX"], "v": ["VF"], "h": ["HF"], "s": ["DD", "DS", "SS"]}


def gen(rng):
    love = bool(rng.random() < 0.35)
    rows = c16.gen_model(rng, love)
    f0 = min(c16.vel(r) for r in rows) / sum(r[0] for r in rows[:-1])
    nf = int(rng.integers(3, 9))
    df = max(N.rnd(f0 * float(10 ** rng.uniform(-0.5, 0.6)) / nf, 3), 1e-3)
    zs = sorted({N.depth(rng, rows) for _ in range(1 + (rng.random() < 0.2))})
    zr = sorted({N.depth(rng, rows, surface=0.4) for _ in range(1 + (rng.random() < 0.2))})
    rs = sorted({N.rnd(float(10 ** rng.uniform(0, 3)), 3) for _ in range(int(rng.integers(1, 3)))})
    u = rng.random()
    E = None if u < 0.5 else ["p", -N.rnd(rng.uniform(0, 5), 2) - 0.01, 0.0] if u < 0.7 else \
        ["t", N.rnd(rng.uniform(-5, 20), 2), N.rnd(rng.uniform(1, 8), 2) if rng.random() < 0.6 else 0.0]
    u = rng.random()
    Nn = "all" if u < 0.5 else "default" if u < 0.7 else [int(rng.integers(0, 3))] if u < 0.8 else \
        [int(rng.integers(0, 2)), int(rng.integers(2, 6))] + ([int(rng.integers(1, 4))] if rng.random() < 0.5 else [])
    F = None
    if rng.random() < 0.35:
        i, j = sorted(int(x) for x in rng.choice(nf, 2, replace=False))
        if rng.random() < 0.6:            # first frequency of the band over the step just off an integer
            for t in range(300):
                d = N.rnd(df * (1 + 0.0007 * t), 4)
                cand = [x for x in range(1, nf - 1) if (d + d * x) / d != x + 1]
                if cand:
                    df, i = d, cand[0]
                    j = int(rng.integers(i + 1, nf))
                    break
        F = [i, j, float(rng.choice([0.0, 0.3]))]
    return dict(rows=rows, love=love, df=df, nf=nf, zs=zs, zr=zr, rs=rs, E=E, N=Nn, F=F, fac=int(rng.choice([1, 1, 2, 3])),
                G="".join(x for x in "evhs" if rng.random() < 0.5) if rng.random() < 0.25 else "evhs", e=bool(rng.random() < 0.5),
                threads=int(rng.integers(1, 4)), D=str(rng.choice(["D", "sr"])))


def residues(rows, zs, zr, w, k, rad):
    th = 2 * np.pi * (np.arange(16) + 0.5) / 16
    z = rad * np.exp(1j * th)
    K = refs.layered_kernels(rows, zs, zr, k + z, np.full(16, w + 0j))
    return {s: (K[s] * z).mean(1) for s in K}, {s: np.abs(K[s]).max(1) for s in K}


def run(c, wd):
    rows, love = [r[:4] for r in c["rows"]], c["love"]
    if not c16.in_domain(rows, love) or any(r[0] <= 0 for r in rows[:-1]) or any(r[2] > 0 and r[2] * 1.2 > r[1] for r in rows):
        raise Skip
    H = sum(r[0] for r in rows[:-1])
    nf, df, rs = c["nf"], c["df"], c["rs"]
    itf = N.interfaces(rows)
    liqi = [z for i, z in enumerate(itf) if rows[i][2] == 0 or rows[i + 1][2] == 0]
    for z in c["zs"] + c["zr"]:
        if z < 0 or any(abs(z - t) < 1e-6 for t in liqi) or any(0 < abs(z - t) < 1e-6 for t in itf):
            raise Skip
    if df <= 0 or nf < 2 or nf > 20 or nf * df > 20 * min(c16.vel(r) for r in rows) / H or not c["zs"] or not c["zr"] or not rs or rs != sorted(set(rs)) or rs[0] <= 0:
        raise Skip
    if sorted(set(c["zs"])) != c["zs"] or sorted(set(c["zr"])) != c["zr"] or not c["G"] or c["fac"] < 1:
        raise Skip
    if c["E"] and c["E"][0] == "p" and c["E"][1] >= 0:
        raise Skip
    if len({f"{z:g}" for z in c["zs"]}) < len(c["zs"]) or len({f"{z:g}" for z in c["zr"]}) < len(c["zr"]):
        raise Skip
    G.write_model(f"{wd}/mod", c["rows"])
    nc = c16.eigenv(wd, ["-SL" if love else "-SR", f"-F0/{nf * df!r}/{df!r}", "-N", "-s"], c["threads"])
    if nc is None:
        raise Skip
    fr, got = c16.content(nc, love)
    if len(fr) != nf:
        raise Skip
    nm = max(len(g) for g in got)
    a = ["modsum", "-Co.nc", "-Oout", "-R" + ",".join(repr(float(r)) for r in rs), f"-P{c['threads']}"]
    if c["D"] == "D" and len(c["zs"]) == len(c["zr"]) == 1:
        a.append(f"-D{c['zs'][0]!r}/{c['zr'][0]!r}")
    else:
        a += ["-Ds" + ",".join(map(repr, c["zs"])), "-Dr" + ",".join(map(repr, c["zr"]))]
    Nn = c["N"]
    modes = [0]
    if Nn == "all":
        a.append("-N")
        modes = list(range(nm))
    elif Nn != "default":
        a.append("-N" + "/".join(map(str, Nn)))
        modes = [Nn[0]] if len(Nn) == 1 else list(range(Nn[0], Nn[1] + 1, Nn[2] if len(Nn) > 2 else 1))
    modes = [x for x in modes if x < nm]
    if not modes:
        raise Skip
    idx = list(range(nf))
    if c["F"]:
        i, j, e = c["F"]
        if not 0 <= i < j < nf:
            raise Skip
        lo, hi = float(fr[i]) - e * df, float(fr[j]) + e * df
        a.append(f"-F{lo!r}/{hi!r}")
        idx = [x for x in idx if lo <= fr[x] <= hi]
    if len(idx) < 2:
        raise Skip
    if c["E"]:
        k, t0, v0 = c["E"]
        a.append(f"-Ep{t0!r}" if k == "p" else f"-E{t0!r}" + (f"/{v0!r}" if v0 > 0 else ""))
    if c["fac"] > 1:
        a.append(f"-W{c['fac']}")
    if c["G"] != "evhs":
        a.append("-G" + c["G"])
    if c["e"]:
        a.append("-e")
    p = G.run(a, ok=False, cwd=wd)
    if p.returncode != 0:
        raise Violation("rejected", f"{' '.join(a)} fails: {(p.err + p.out)[-300:]}")
    # which frequencies can be judged, contours around the modes
    sel, skip, st = {}, set(), {}
    for i in idx:
        req, opt, _ = c16.reference(rows, love, fr[i])
        allr = np.concatenate([req, opt])
        sel[i] = []
        st[i] = Stack(rows, c16.vel(rows[-1]), fr[i], love, breaks=c["zs"] + c["zr"], hmax=H / 20)
        for m in modes:
            if m >= len(got[i]):
                continue
            v = got[i][m]
            o = np.abs(allr - v)
            if not len(req) or np.min(np.abs(req - v)) > 1e-6 + 1e-6 * v or np.sum(o < 1e-3 * v) > 1 or np.sum(np.abs(got[i] - v) < 1e-3 * v) > 1:
                skip.add(i)
                continue
            d = [abs(1 / x - 1 / v) for x in allr if abs(x - v) > 1e-3 * v]
            d += [abs(1 / x - 1 / v) for x in rows[-1][1:3] if x > 0] + [0.1 / v]
            # a root at relative distance g of a velocity: relative error of the decay constants
            g = min(abs(x / v - 1) for row in rows for x in row[1:3] if x > 0)
            # fields are good to about 1e-4 of their largest value
            x = np.abs(st[i].vector(2 * np.pi * fr[i], v)).max(1)
            x = [x.max() / max(x[np.argmin(np.abs(st[i].z - z))], 1e-9 * x.max()) for z in (max(c["zs"]), min(c["zs"]), max(c["zr"]), min(c["zr"]))]
            sel[i].append((2 * np.pi * fr[i] / v, 2 * np.pi * fr[i] * min(d) / 4, (np.min(np.abs(req - v)) / v + 1e-9) * 20 / g + 3e-4 * sum(max(y - 10, 0) for y in x)))
    # as in C17: roots are known to about 1e-8 only, which is amplified across liquid-solid interfaces
    t1, t2 = (5e-3, 1e-4) if any(x[2] == 0 for x in rows) else (1e-4, 1e-5)
    nt = 2 * nf * c["fac"]
    worst = wz = 0.0
    nz = 0
    f = np.arange(nt // 2 + 1) * df
    for zs in c["zs"]:
        for zr in c["zr"]:
            ls, lr = N.layer_at(rows, zs), N.layer_at(rows, zr)
            srcs = [s for g in "evhs" if g in c["G"] for s in FAM[g]]
            if rows[ls][2] == 0:
                srcs = [s for s in srcs if s == "EX"]
            zm = lambda k: N.tops(rows)[ls] + (rows[ls][0] / 2 if ls < len(rows) - 1 else 0.8 / k)
            R = {i: [(k, q, g) + residues(rows, zs, zr, 2 * np.pi * fr[i], k, q) + residues(rows, zm(k), zr, 2 * np.pi * fr[i], k, q)[:1] for k, q, g in sel[i]]
                 for i in idx if i not in skip}
            for r in rs:
                d = f"{wd}/out/mod_{zs:g}_{zr:g}_{float(r)!r}"
                tp, ts = ref_time(rows, 1, zs, zr, r), ref_time(rows, 2, zs, zr, r)
                b = 0.0
                if c["E"]:
                    k, t0, v0 = c["E"]
                    b = t0 + tp if k == "p" else t0 + (np.hypot(r, zs - zr) / v0 if v0 > 0 else 0.0)
                pres = ["", "z", "r"] if c["e"] else [""]
                want = sorted(p + s + ch + ".sac" for p in pres for s in srcs for ch in (refs.COMP[s].replace("Z", "").replace("R", "") if love else "ZR"))
                have = sorted(os.listdir(d)) if os.path.isdir(d) else []
                if want or have:
                    G.must(have == want, "files", f"{d} holds {have}, expected {want}")
                for s in srcs:
                    m = refs.MORD[s]
                    for ch in ("" if m == 0 else "T") if love else "ZR":
                        for p in pres:
                            t = G.Sac(f"{d}/{p}{s}{ch}.sac")
                            name = f"{p}{s}{ch} zs={zs} zr={zr} r={r}"
                            hd = dict(delta=1 / (nt * df), b=b, dist=r, evdp=zs, stel=-1e3 * zr, user0=0.0, o=0.0, user1=rows[lr][1], user2=rows[lr][2],
                                      user3=rows[lr][3], user6=rows[ls][1], user7=rows[ls][2], user8=rows[ls][3])
                            if len(c["rows"][0]) > 4:
                                hd.update(user4=1 / c["rows"][lr][4] if c["rows"][lr][4] else 0.0, user5=1 / c["rows"][lr][5] if c["rows"][lr][5] else 0.0)
                            for h, v in hd.items():
                                tol = 2e-6 * abs(v) + 1e-9 + (2e-3 if h == "b" and c["E"] and c["E"][0] == "p" else 0)
                                G.must(abs(t.h(h) - v) <= tol, "header", f"{name}: header {h} is {t.h(h)}, expected {v}")
                            for h, v in (("t0", tp), ("t1", ts)):
                                if v is not None:
                                    G.must(abs(t.h(h) - v) <= 1.2e-3 + 2e-6 * v, "header", f"{name}: travel time {h} is {t.h(h)}, expected {v}")
                            G.must(t.npts == nt, "npts", f"{name}: {t.npts} samples instead of {nt}")
                            X = np.fft.rfft(t.d) / (nt * df)
                            sh = np.exp(2j * np.pi * f * t.h("b"))
                            tot = np.abs(t.d).max() / df
                            for i in range(nt // 2 + 1):
                                if i - 1 in skip:
                                    continue
                                e, tol = 0j, 1e-37
                                for k, q, dg, K, big, K2 in R.get(i - 1, []):
                                    n = {"Z": 1, "R": 0, "T": 2}[ch] + (3 if p == "z" else 0)
                                    A = -1j * np.pi * k * np.sqrt(2 / (np.pi * k * r)) * np.exp(-1j * (k * r - np.pi / 4)) * 1j ** m
                                    g = {"Z": -1, "R": -1j, "T": 1j}[ch] * (-1 if p == "z" else 1) * (-1j * k if p == "r" else 1)
                                    e += A * g * K[s][n]
                                    fam = ("VF", "HF") if "F" in s else ("EX", "DD", "DS", "SS")
                                    sizes = [max(max(np.abs(Q[x][:3]).max() * (k if p == "z" else 1), np.abs(Q[x][3:]).max() if p == "z" else 0.0) for x in fam) for Q in (K, K2)]
                                    tol += abs(A * g) * (sizes[0] * (t1 + dg) + sizes[1] * (t2 + dg))
                                e = e * sh[i]
                                g = X[i]
                                if i == nt // 2:
                                    e, g = e.real * 1.0, g.real
                                tol += 5e-7 * tot
                                err = abs(e - g)
                                if not err <= tol:
                                    raise Violation("spectrum", f"{name}: f={f[i]:.6g} ({len(R.get(i - 1, []))} modes) is {g:.8g}, expected {e:.8g} (tolerance {tol:.3g}, trace {tot:.3g})")
                                worst = max(worst, err / tol)
                                nz += abs(e) > 100 * tol
    if not nz:
        raise Skip
    return dict(nontrivial=nz > 20, tags=["Love" if love else "Rayleigh"] + ["higher modes"] * (len(modes) > 1) + ["liquid"] * any(x[2] == 0 for x in rows)
                + ["deriv"] * c["e"] + ["band"] * bool(c["F"]) + ["delay"] * bool(c["E"]) + ["several depths"] * (len(c["zs"]) + len(c["zr"]) > 2),
                metric=dict(err=worst))


SUBS = [Sub("modes", gen, run, 800, 5000, rule="more than 20 spectral values well above the tolerance")]
