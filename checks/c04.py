"""Dynamic Green's functions (grt greenfn) against the independent layered solution, sample by sample."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, refs
from checks.c01 import ref_time

PROP = "C04"
LEVEL = "exploration"
ASSUMPTIONS = ["reference kernels from vlib/refs.py, summed over the documented wavenumber grid and transformed with numpy",
               "traces are float32: agreement to 3e-5 of the largest sample of the source's components"]
FAM = {"e": ["EX"], "v": ["VF"], "h": ["HF"], "s": ["DD", "DS", "SS"]}


def cost(c):
    """(kernel evaluations, layers)"""
    rows = c["model"]
    vmin = max(0.1, min(v for r in rows for v in r[1:3] if v > 0))
    T = c["nt"] * c["dt"]
    f = np.arange(c["nt"] // 2 + 1) / T
    hs = max(abs(c["zs"] - c["zr"]), 0.1)
    km = np.hypot(c["k0"] * np.pi / hs, c["ampk"] * 2 * np.pi * f / vmin)
    dk = 2 * np.pi / (c["L"] * max(max(c["rs"]), 1e-8))
    return float(np.sum(km / dk)), len(rows), km, dk


def valid(c):
    rows = c["model"]
    if any(r[0] <= 0 for r in rows[:-1]) or any(r[1] < 1.2 * r[2] for r in rows) or any(len(r) != len(rows[0]) for r in rows):
        raise Skip
    if any(b <= a for a, b in zip(c["rs"], c["rs"][1:])) or c["rs"][-1] < 0.5 or c["nt"] < 6:
        raise Skip
    if abs(c["zs"] - c["zr"]) < 0.2:
        raise Skip
    itf = N.interfaces(rows)
    for z in (c["zs"], c["zr"]):
        for i, t in enumerate(itf):
            if abs(z - t) < 1e-6 and (z != t or rows[i][2] == 0 or rows[i + 1][2] == 0):
                raise Skip
        if c["bot"] != "H" and (len(rows) < 2 or z > itf[-1]):
            raise Skip
    if c["zeta"] <= 0 or c["dt"] <= 0 or c["L"] <= 0:
        raise Skip


def gen_wave(rng):
    for _ in range(400):
        bot = str(rng.choice(["H", "H", "H", "H", "F", "R"]))
        top = str(rng.choice(["f", "f", "f", "r", "h"]))
        liq = str(rng.choice(["none", "none", "none", "top", "any"]))
        rows = N.model(rng, 1 if bot == "H" else 2, 5, liquids=liq, hmax=5)
        zs, zr = N.depth(rng, rows), N.depth(rng, rows)
        nt = int(rng.integers(12, 61))
        T = N.log_uniform(rng, 2, 60)
        c = dict(model=rows, zs=zs, zr=zr, top=top, bot=bot, nt=nt, dt=N.rnd(T / nt, 3), zeta=N.rnd(rng.uniform(0.3, 2.5), 2) if rng.random() < 0.7 else 0.8,
                 fac=int(rng.choice([1, 1, 2, 3])), keep=bool(rng.random() < 0.4), skipcomp=bool(rng.random() < 0.25),
                 rs=sorted({0.0 if rng.random() < 0.08 else N.rnd(N.log_uniform(rng, 0.1, 30)) for _ in range(int(rng.integers(1, 4)))}),
                 L=N.rnd(rng.uniform(2.5, 15), 3), k0=N.rnd(rng.uniform(7, 10), 2), ampk=float(rng.choice([1.15, 1.15, 1.5])),
                 e=bool(rng.random() < 0.5), G=str(rng.choice(["evhs", "evhs", "evhs", "e", "vh", "s", "hs", "ev"])),
                 H=None, E=None, threads=int(rng.choice([1, 1, 2, 4])))
        fn = 0.5 / c["dt"]
        u = rng.random()
        if u < 0.15:
            c["H"] = [N.rnd(fn * rng.uniform(0.05, 0.4), 3), -1.0]
        elif u < 0.3:
            c["H"] = [-1.0, N.rnd(fn * rng.uniform(0.5, 1.2), 3)]
        elif u < 0.45:
            c["H"] = [N.rnd(fn * rng.uniform(0.05, 0.4), 3), N.rnd(fn * rng.uniform(0.5, 0.95), 3)]
        u = rng.random()
        if u < 0.2:
            c["E"] = ["t", N.rnd(rng.uniform(-0.3, 0.5) * T, 3), 0.0]
        elif u < 0.4:
            c["E"] = ["t", N.rnd(rng.uniform(-0.3, 0.3) * T, 3), N.rnd(rng.uniform(1.5, 9), 3)]
        elif u < 0.55:
            c["E"] = ["p", -N.rnd(rng.uniform(0.02, 0.4) * T, 3), 0.0]
        try:
            valid(c)
        except Skip:
            continue
        nk, nl, km, dk = cost(c)
        if nk * (nl + 1) ** 1.5 > 1.2e5 or km[0] / dk < 6:
            continue
        if min(km) / dk > 4000:
            continue
        # P and S cannot be told apart numerically at wavenumbers far above w/v: keep |w| |dz| / v away from 0
        wI = c["zeta"] * np.pi / (nt * c["dt"])
        if (wI if c["keep"] else max(wI, 0.1)) * abs(zs - zr) / max(r[1] for r in rows) < 0.05 and rng.random() < 0.95:
            continue
        return c
    raise RuntimeError("no case")


def spectra(c, e):
    """list over distances of dict name -> complex spectrum (nf), scale dict"""
    rows = c["model"]
    nt, dt = c["nt"], c["dt"]
    T = nt * dt
    df = 1.0 / T
    nf = nt // 2 + 1
    wI = c["zeta"] * np.pi / T
    f = np.arange(nf) * df
    n1, n2 = 0, nf - 1
    if c["H"]:
        if c["H"][0] > 0:
            n1 = min(int(np.ceil(c["H"][0] / df)), nf - 1)
        if c["H"][1] > 0:
            n2 = min(int(np.floor(c["H"][1] / df)), nf - 1)
        # a band edge on a grid frequency is decided by rounding: keep away from it
        for x in c["H"]:
            if x > 0 and abs(x / df - round(x / df)) < 1e-6:
                raise Skip
    n2 = max(n1, n2)
    use = [n for n in range(n1, n2 + 1) if c["keep"] or abs(2 * np.pi * f[n] - 1j * wI) >= 0.1]
    if any(abs(abs(2 * np.pi * f[n] - 1j * wI) - 0.1) < 1e-9 for n in range(n1, n2 + 1)) or not use:
        raise Skip
    if n2 == 0:
        raise Skip               # the reference frequency of the attenuation would be zero
    omgref = 2 * np.pi * f[n2]
    _, _, km, dk = cost(c)
    ks, oms, idx = [], [], []
    for n in use:
        k = dk * (1 + np.arange(int(np.floor(km[n] / dk)) + 1))
        ks.append(k)
        oms.append(np.full(len(k), 2 * np.pi * f[n] - 1j * wI))
    kk, oo = np.concatenate(ks), np.concatenate(oms)
    parts = [refs.layered_kernels(rows, c["zs"], c["zr"], kk[a:a + 3000], oo[a:a + 3000], omgref, c["top"], c["bot"])
             for a in range(0, len(kk), 3000)]
    K = {s: np.concatenate([p[s] for p in parts], axis=1) for s in refs.SRC}
    # the field of the unbounded source layer gives the scale of components that vanish
    i = N.layer_at(rows, c["zs"])
    nat = refs.layered_kernels([[1.0] + rows[i][1:]] * 2, 1.0, 1.0 - abs(c["zs"] - c["zr"]) if abs(c["zs"] - c["zr"]) < 1 else 1.0 + abs(c["zs"] - c["zr"]),
                               kk[::5], oo[::5], omgref, "h", "H")
    natsc = {}
    for fam, ss in (("M", ("EX", "DD", "DS", "SS")), ("F", ("VF", "HF"))):
        for pre, o, pw in (("", 0, 1), ("z", 3, 1), ("r", 0, 2)):
            natsc[pre + fam] = max(float(np.sum(np.max(np.abs(nat[s][o:o + 3]), axis=0) * dk * kk[::5] ** pw)) for s in ss) * 5 * df
    # rounding of the kernels grows with (k v / w)^6
    vmx = max(r[1] for r in rows)
    delta = np.minimum(1.0, 1e-14 * (kk * vmx / np.abs(oo)) ** 6)
    for fam, ss in (("M", ("EX", "DD", "DS", "SS")), ("F", ("VF", "HF"))):
        for pre, o, pw in (("", 0, 1), ("z", 3, 1), ("r", 0, 2)):
            natsc["unc" + pre + fam] = max(float(np.sum(np.max(np.abs(K[s][o:o + 3]), axis=0) * delta * dk * kk ** pw)) for s in ss) * df
    out = []
    for r in c["rs"]:
        spec, sc = {}, dict(natsc)
        p = 0
        for n, k in zip(use, ks):
            sl = slice(p, p + len(k))
            p += len(k)
            h = refs.hankel({s: K[s][:, sl] for s in K}, k, np.full(len(k), dk), r, e)
            for nm, v in h.items():
                if nm == "scale":
                    for q, x in v.items():
                        sc[q] = sc.get(q, 0.0) + x * df
                    continue
                spec.setdefault(nm, np.zeros(nf, complex))[n] = v
        out.append((spec, sc))
    return out, wI, f, df


def to_time(spec, f, df, nt, fac, dt, wI, b, skipcomp):
    n = nt * fac
    X = np.zeros(n // 2 + 1, complex)
    X[:len(spec)] = spec * np.exp(2j * np.pi * f * b)
    u = np.fft.irfft(X, n) * n * df
    if not skipcomp:
        u = u * np.exp(wI * (b + np.arange(n) * dt / fac))
    return u


def args_of(c):
    a = ["greenfn", "-Mmod", f"-D{c['zs']!r}/{c['zr']!r}", f"-N{c['nt']}/{c['dt']!r}+w{c['zeta']!r}" + (f"+n{c['fac']}" if c["fac"] > 1 else "")
         + "+a" * c["keep"] + "+f" * c["skipcomp"], "-R" + ",".join(repr(float(r)) for r in c["rs"]), "-Oout", f"-B{c['top']}{c['bot']}",
         f"-L{c['L']!r}", f"-K+k{c['k0']!r}+s{c['ampk']!r}+f", f"-P{c['threads']}", "-s"]
    if c["H"]:
        a.append(f"-H{c['H'][0]!r}/{c['H'][1]!r}")
    if c["E"]:
        k, t0, v0 = c["E"]
        a.append(f"-Ep{t0!r}" if k == "p" else f"-E{t0!r}" + (f"/{v0!r}" if v0 > 0 else ""))
    if c["G"] != "evhs":
        a.append("-G" + c["G"])
    if c["e"]:
        a.append("-e")
    return a


def run_wave(c, wd):
    valid(c)
    rows = c["model"]
    ref, wI, f, df = spectra(c, c["e"])
    G.write_model("mod", rows)
    G.run(args_of(c))
    ls, lr = N.layer_at(rows, c["zs"]), N.layer_at(rows, c["zr"])
    srcs = [s for g in "evhs" if g in c["G"] for s in FAM[g]]
    if rows[ls][2] == 0:
        srcs = [s for s in srcs if s == "EX"]
    worst = 0.0
    nz = 0
    rt = 1.5e-3 if c["top"] == "f" and c["bot"] == "F" else 3e-5     # a free plate is ill-conditioned at long wavelengths
    for r, (spec, sc) in zip(c["rs"], ref):
        d = f"out/mod_{c['zs']:g}_{c['zr']:g}_{float(r)!r}"
        tp, ts = ref_time(rows, 1, c["zs"], c["zr"], r), ref_time(rows, 2, c["zs"], c["zr"], r)
        b = 0.0
        if c["E"]:
            k, t0, v0 = c["E"]
            b = t0 + tp if k == "p" else t0 + (np.hypot(r, c["zs"] - c["zr"]) / v0 if v0 > 0 else 0.0)
        have = sorted(os.listdir(d)) if os.path.isdir(d) else []
        pres = ["", "z", "r"] if c["e"] else [""]
        want = sorted(p + s + ch + ".sac" for p in pres for s in srcs for ch in refs.COMP[s])
        G.must(have == want, "files", f"{d} holds {have}, expected {want}")
        for s in srcs:
            for p in pres:
                tr = {ch: G.Sac(f"{d}/{p}{s}{ch}.sac") for ch in refs.COMP[s]}
                bb = None
                for ch, t in tr.items():
                    hd = dict(delta=c["dt"] / c["fac"], b=b, dist=r, evdp=c["zs"], stel=-1e3 * c["zr"], user0=wI, o=0.0,
                              user1=rows[lr][1], user2=rows[lr][2], user3=rows[lr][3], user6=rows[ls][1], user7=rows[ls][2], user8=rows[ls][3])
                    if len(rows[0]) > 4:
                        hd.update(user4=1 / rows[lr][4], user5=1 / rows[lr][5])
                    for h, v in hd.items():
                        tol = 2e-6 * abs(v) + 1e-9 + (2e-3 if h == "b" and c["E"] and c["E"][0] == "p" else 0)
                        G.must(abs(t.h(h) - v) <= tol, "header", f"{p}{s}{ch} r={r}: header {h} is {t.h(h)}, expected {v}")
                    for h, v in (("t0", tp), ("t1", ts)):
                        if v is None:
                            continue
                        G.must(abs(t.h(h) - v) <= 1.2e-3 + 2e-6 * v, "header", f"{p}{s}{ch} r={r}: travel time {h} is {t.h(h)}, expected {v}")
                    G.must(t.npts == c["nt"] * c["fac"], "npts", f"{t.npts} samples instead of {c['nt'] * c['fac']}")
                    bb = t.h("b")
                exp = {ch: to_time(spec[p + s + ch], f, df, c["nt"], c["fac"], c["dt"], wI, bb, c["skipcomp"]) for ch in tr}
                m = max(np.abs(v).max() for v in exp.values())
                tend = bb + c["nt"] * c["dt"]
                fl = 1e-5 * sc[p + ("F" if "F" in s else "M")] * (1 if c["skipcomp"] else np.exp(wI * max(tend, bb)))
                unc = sc["unc" + p + ("F" if "F" in s else "M")] * (1 if c["skipcomp"] else np.exp(wI * max(tend, bb)))
                nz += m > fl and unc < 1e-3 * m
                m = max(m, fl)
                for ch, t in tr.items():
                    err = np.abs(t.d - exp[ch])
                    if not np.all(err <= rt * m + unc + 1e-37):
                        j = int(np.nanargmax(err))
                        raise Violation("waveform", f"{p}{s}{ch} r={r}: sample {j} of {t.npts} is {t.d[j]:.8g}, expected {exp[ch][j]:.8g} (max {m:.3g})")
                    worst = max(worst, float(err.max() / (rt * m + unc)))
    return dict(nontrivial=nz > 0 and len(rows) > 1, tags=[c["top"] + c["bot"]] + ["liquid"] * any(x[2] == 0 for x in rows)
                + ["delay"] * bool(c["E"]) + ["band"] * bool(c["H"]) + ["upsample"] * (c["fac"] > 1) + ["deriv"] * c["e"]
                + ["Q"] * (len(rows[0]) > 4) + ["odd-nt"] * (c["nt"] % 2) + ["rcv-below"] * (c["zr"] > c["zs"]), metric=dict(err=worst))


SUBS = [Sub("waveforms", gen_wave, run_wave, 500, 6000, rule="at least two different layers and a non-vanishing trace")]
