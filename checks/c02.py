"""Frequency-wavenumber response of the layered medium against an independent global-matrix solution."""
import glob, os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, refs

PROP = "C02"
LEVEL = "exploration"
ASSUMPTIONS = ["reference: global linear system over all layers written from the equations of motion (vlib/refs.py)",
               "agreement required to 1e-6 (2e-4 where the phase velocity is below 1/8 of the fastest wave) of the response of the same source at the same wavenumber and frequency"]
KEYS = [(s, c) for s in refs.SRC for c in range(3) if not (refs.MORD[s] == 0 and c == 2)]


def read_kernel(fn):
    d = np.fromfile(fn, dtype=[("k", "<f8"), ("v", "<c16", 15)])
    return d["k"], d["v"]


def valid(c):
    rows = c["model"]
    if len(rows) > 1 and any(r[0] <= 0 for r in rows[:-1]) or any(r[1] < 1.2 * r[2] for r in rows):
        raise Skip
    for z in (c["zs"], c["zr"]):
        for i, t in enumerate(N.interfaces(rows)):
            if abs(z - t) < 1e-6 and (z != t or rows[i][2] == 0 or rows[i + 1][2] == 0):
                raise Skip
    if c["zs"] == c["zr"] and rows[N.layer_at(rows, c["zs"])][2] == 0:
        raise Skip
    if c["bot"] != "H":
        if len(rows) < 2 or max(c["zs"], c["zr"]) > N.tops(rows)[-1]:
            raise Skip


def gen_dyn(rng):
    bot = str(rng.choice(["H", "H", "H", "F", "R"]))
    rows = N.model(rng, 1 if bot == "H" else 2, 7, liquids=str(rng.choice(["none", "none", "top", "any"])), hmax=5.0, many=0.1)
    if rng.random() < 0.15:
        for r in rows:
            del r[4:]
    top = str(rng.choice(["f", "f", "f", "r", "h"]))
    zt = N.tops(rows)[-1]
    for _ in range(50):
        zs, zr = N.depth(rng, rows), N.depth(rng, rows)
        if rng.random() < 0.1:
            zr = zs
        if bot != "H" and max(zs, zr) > zt:
            continue
        if zs == zr and rows[N.layer_at(rows, zs)][2] == 0:
            continue
        break
    vmin = min([r[2] for r in rows if r[2] > 0] + [r[1] for r in rows])
    vmax = max(r[1] for r in rows)
    f1 = N.rnd(N.log_uniform(rng, 0.02, 3.0), 3)
    return dict(model=rows, zs=zs, zr=zr, top=top, bot=bot, f=[f1, N.rnd(f1 * rng.uniform(0.05, 0.6), 3)],
                zeta=N.rnd(rng.uniform(0.3, 20), 3), c=[N.rnd(vmin * rng.uniform(0.3, 0.9), 3), N.rnd(vmax * rng.uniform(1.0, 2.0), 3)],
                nc=int(rng.integers(5, 12)), e=bool(rng.random() < 0.5))


def run_dyn(c, wd):
    valid(c)
    rows, zs, zr = c["model"], c["zs"], c["zr"]
    f1, df = c["f"]
    nf = 3
    dc = float(f"{(c['c'][1] - c['c'][0]) / (c['nc'] + 0.5):.3g}")
    if dc <= 0 or df <= 0 or f1 <= 0:
        raise Skip
    G.write_model("mod", rows)
    f2 = f1 + (nf - 0.5) * df
    G.run(["kernel", "-Mmod", f"-D{zs!r}/{zr!r}", f"-C{c['c'][0]}/{c['c'][1]}/{dc}", f"-F{f1}/{f2!r}/{df}+w{c['zeta']}",
           "-OK", f"-B{c['top']}{c['bot']}"] + (["-e"] if c["e"] else []) + ([f"-P{len(rows) % 4}"] if len(rows) % 4 > 1 else []))
    fs = sorted(glob.glob("K/mod_*/C_*"))
    a1 = f1 if f1 > 0 else df
    freqs = a1 + df * np.arange(int(np.floor((f2 - a1) / df)) + 1)
    G.must(len(fs) == len(freqs), "files", f"{len(fs)} kernel files, {len(freqs)} frequencies")
    wI = c["zeta"] * np.pi * df
    ref_w = 2 * np.pi * freqs[-1]
    ks, oms, got = [], [], []
    for fn, f in zip(fs, freqs):
        cc, v = read_kernel(fn)
        n_exp = int(np.floor((c["c"][1] - c["c"][0]) / dc)) + 1
        G.must(len(cc) == n_exp and np.allclose(cc, c["c"][0] + dc * np.arange(n_exp), rtol=1e-12), "axis", f"phase velocities {cc}")
        ks.append(2 * np.pi * f / cc)
        oms.append(np.full(len(cc), 2 * np.pi * f - 1j * wI))
        got.append(v)
    ks, oms, got = np.concatenate(ks), np.concatenate(oms), np.concatenate(got)
    vmx = max(r[1] for r in rows)
    slow = ks * vmx / np.abs(oms)
    sel = (ks * abs(zs - zr) < 30) & (slow < 60)
    # the exponential decay through the stack limits what the linear system resolves
    if not np.any(sel):
        return dict(nontrivial=False)
    ks, oms, got = ks[sel], oms[sel], got[sel]
    # P and S become indistinguishable far below the velocities of the medium: rounding grows
    tol = np.where(slow[sel] < 8, 1e-6, 2e-4)
    R = refs.layered_kernels(rows, zs, zr, ks, oms, ref_w, c["top"], c["bot"])
    off = 3 if c["e"] else 0
    worst = 0.0
    # floor for responses that vanish identically (e.g. a force on a rigid surface)
    rho = rows[N.layer_at(rows, zs)][3]
    base = 1 / (4 * np.pi * rho * np.abs(oms) ** 2) * (1e-9 * np.exp(-ks * abs(zs - zr)) + 1e-12) * ks ** (1 if c["e"] else 0)
    liq_s = rows[N.layer_at(rows, zs)][2] == 0
    for s in refs.SRC:
        if liq_s and s not in ("EX", "VF"):
            continue
        ps = np.maximum(np.abs(R[s][off]), np.abs(R[s][off + 1]))
        sh = np.abs(R[s][off + 2])
        fl = base * ks * (ks if s not in ("VF", "HF") else 1.0)
        if s == "DS" and c["zs"] == 0 and c["zr"] == 0:
            continue        # the response is undefined at a source on the free surface
        for q, (s2, cc) in enumerate(KEYS):
            if s2 != s:
                continue
            r = R[s][off + cc]
            sc = (ps if cc < 2 else sh)
            err = np.abs(got[:, q] - r)
            ok = err <= tol * sc + fl
            if cc == 2 and not np.any(sh > 0):
                ok = np.abs(got[:, q]) <= fl
            if not np.all(ok & np.isfinite(got[:, q])):
                j = int(np.argmax(np.where(np.isfinite(got[:, q]), err / (sc + 1e-300), np.inf)))
                raise Violation("kernel", f"{s} {'qwv'[cc]}{' d/dz' * c['e']} at k={ks[j]:.6g} w={oms[j]:.6g}: got {got[j, q]:.8g}, expected {r[j]:.8g}")
            m = sc > fl
            if np.any(m):
                worst = max(worst, float(np.max(err[m] / sc[m] / tol[m])))
    tags = [c["top"] + c["bot"], f"n{min(len(rows), 4)}"]
    if any(r[2] == 0 for r in rows):
        tags.append("liquid")
    if liq_s or rows[N.layer_at(rows, zr)][2] == 0:
        tags.append("point-in-liquid")
    if zs < zr:
        tags.append("rcv-below")
    if zs == zr:
        tags.append("same-depth")
    return dict(nontrivial=len(rows) > 1, tags=tags, metric=dict(err=worst))


SUBS = [Sub("dynamic", gen_dyn, run_dyn, 5000, 40000, rule="at least two different layers")]
