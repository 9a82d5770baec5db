"""One Earth model, however it is written: splitting layers, depths instead of thicknesses, comments and number formats change nothing."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N
from checks import c04, c16

PROP = "C06"
LEVEL = "exploration"
ASSUMPTIONS = ["results agree up to rounding: 2e-6 (static), 1e-4 of the largest trace (dynamic), 1e-6 (phase velocities), one unit of the printed digits (travel times)",
               "a depth on any layer boundary inside a liquid, also an artificial one, is refused by the commands and not judged"]


def dec(x):
    return round(float(x), 2)


def decimal(rng, rows, zs):
    """thicknesses and depths with one or two decimals; depths often exactly on an interface"""
    q = float(rng.choice([0.1, 0.1, 0.05]))
    rows = [[dec(max(q, round(r[0] / q) * q))] + r[1:] for r in rows]
    rows[-1][0] = float(rng.choice([0.0, 10.0]))
    itf = [dec(t) for t in N.interfaces(rows)]
    out = []
    for z in zs:
        z = dec(round(z / q) * q)
        if itf and rng.random() < 0.45:
            z = itf[int(rng.integers(len(itf)))]
        out.append(z)
    return rows, out


def gen_style(rng, rows):
    parts = []
    for r in rows[:-1]:
        n = int(round(r[0] * 100))
        k = int(rng.choice([1, 1, 2, 3, 4]))
        cuts = sorted({int(x) for x in rng.integers(1, n, k - 1)}) if n > 1 and k > 1 else []
        parts.append(cuts)
    return dict(cuts=parts if rng.random() < 0.75 else [[] for _ in rows[:-1]], bottom=[dec(rng.uniform(0.1, 4)) for _ in range(int(rng.integers(0, 3)))] if rng.random() < 0.4 else [],
                depth=bool(rng.random() < 0.5), fmt=int(rng.integers(0, 4)), sep=str(rng.choice([" ", "   ", "\t"])), noise=bool(rng.random() < 0.5),
                pad=int(rng.choice([0, 0, 0, 15, 60, 200, 500])), last=float(rng.choice([0.0, 7.5, 1234.0])))


def variant(rows, s):
    """rows in thickness form and the text of the file"""
    out = []
    for r, cuts in zip(rows[:-1], s["cuts"]):
        n = int(round(r[0] * 100))
        e = [0] + [x for x in cuts if 0 < x < n] + [n]
        for a, b in zip(e, e[1:]):
            if b <= a:
                raise Skip
            out.append([dec((b - a) / 100)] + r[1:])
    for b in s["bottom"]:
        out.append([b] + rows[-1][1:])
    out.append([s["last"]] + rows[-1][1:])
    fm = [lambda x: repr(float(x)), lambda x: f"{x:.6f}", lambda x: f"{x:.10e}", lambda x: f"+{x:.8G}"][s["fmt"]]
    t = []
    top = 0
    pad = " " * min(int(s.get("pad", 0)), 1000)          # lines of hundreds or thousands of characters
    if s["noise"]:
        t += ["# model " + (pad + ".") * 3, pad]
    for i, r in enumerate(out):
        h = top / 100 if s["depth"] else r[0]
        top += int(round(r[0] * 100))
        t.append(("  " if s["noise"] and i % 2 else "") + (s["sep"] + pad).join(fm(x) for x in [h] + r[1:]) + ("  " if s["noise"] and i == 1 else ""))
        if s["noise"] and i == 0:
            t += ["#" + t[-1], "   "]
    return out, "\n".join(t) + ("\n" if not s["noise"] or len(out) % 2 else "")


def setup(c, wd):
    rows = c["model"]
    if any(abs(r[0] * 100 - round(r[0] * 100)) > 1e-9 or r[0] <= 0 for r in rows[:-1]) or any(r[2] > 0 and r[1] < 1.2 * r[2] for r in rows):
        raise Skip
    if len(c["style"]["cuts"]) != len(rows) - 1 or any(b <= 0 for b in c["style"]["bottom"]):
        raise Skip
    if any(len(r) != len(rows[0]) for r in rows):
        raise Skip
    out, txt = variant(rows, c["style"])
    if "zs" in c and bad_depths(out, [c["zs"], c["zr"]]) and not bad_depths(rows, [c["zs"], c["zr"]]):
        raise Skip            # a liquid cut exactly at the depth of the source: the commands ask for another depth
    os.makedirs(f"{wd}/a")
    os.makedirs(f"{wd}/b")
    # the first description states every interface as one number
    t = [dec(x) for x in N.tops(rows)]
    G.write_model(f"{wd}/a/mod", [[z] + r[1:] for z, r in zip(t, rows)])
    with open(f"{wd}/b/mod", "w") as f:
        f.write(txt)
    return rows, out


def bad_depths(rows, zs):
    itf = [dec(x) for x in N.interfaces(rows)]
    for z in zs:
        if z < 0 or abs(z * 100 - round(z * 100)) > 1e-9:
            return True
        for i, t in enumerate(itf):
            if abs(z - t) < 1e-6 and (rows[i][2] == 0 or rows[i + 1][2] == 0):
                return True
    return False


def on_interface(rows, zs):
    itf = [dec(x) for x in N.interfaces(rows)]
    return any(abs(z - t) < 1e-9 for z in zs for t in itf)


def both(c, wd, args, need=True):
    r = []
    for d in "ab":
        p = G.run(args, ok=False, cwd=f"{wd}/{d}")
        r.append(p)
    if r[0].returncode == 0 and r[1].returncode == 0:
        return r
    if need or (r[0].returncode == 0) != (r[1].returncode == 0):
        raise Violation("rejected", f"{' '.join(args)}: exit codes {r[0].returncode} and {r[1].returncode}: {((r[1].err + r[1].out) if r[1].returncode else (r[0].err + r[0].out))[-300:]}")
    return None


# ---------------------------------------------------------------- static
def gen_static(rng):
    rows = N.model(rng, 2, 5, hmax=4, many=0.1)
    rows, (zs, zr) = decimal(rng, rows, [N.depth(rng, rows), N.depth(rng, rows, surface=0.5)])
    if zs == zr:
        zr = 0.0 if zs > 0 else dec(N.interfaces(rows)[0])
    return dict(model=rows, zs=zs, zr=zr, rs=sorted({dec(N.log_uniform(rng, 0.3, 20)) for _ in range(3)}), style=gen_style(rng, rows), L=N.rnd(rng.uniform(8, 20), 2))


def run_static(c, wd):
    if c["zs"] == c["zr"] or bad_depths(c["model"], [c["zs"], c["zr"]]) or any(r[2] == 0 for r in c["model"]) or c["rs"] != sorted(set(c["rs"])) or c["rs"][0] <= 0 or c["L"] < 3:
        raise Skip
    rows, out = setup(c, wd)
    both(c, wd, ["static", "greenfn", "-Mmod", f"-D{c['zs']!r}/{c['zr']!r}", "-R" + ",".join(map(repr, c["rs"])), "-Oo.nc", f"-L{c['L']!r}", "-e"])
    A, B = G.Nc(f"{wd}/a/o.nc"), G.Nc(f"{wd}/b/o.nc")
    G.must(sorted(A.v) == sorted(B.v), "variables", f"{sorted(A.v)} / {sorted(B.v)}")
    worst = 0.0
    for k in A.v:
        if k == "model":
            continue
        fam = [x for x in A.v if (x[0] == k[0] if k[0] in "zr" else x[0] not in "zr") and x[-3:-2] == k[-3:-2] and len(x) == len(k)]
        sc = max(np.abs(A[x]).max() for x in fam) if fam and A[k].dtype.kind == "f" and len(k) <= 4 else 0.0
        worst = max(worst, G.close("static", f"{k} zs={c['zs']} zr={c['zr']}", B[k], A[k], 2e-6, 1e-3 * sc))
    return dict(nontrivial=len(out) > len(rows) or c["style"]["depth"], tags=["split"] * (len(out) > len(rows)) + ["depth column"] * c["style"]["depth"]
                + ["on an interface"] * on_interface(rows, [c["zs"], c["zr"]]), metric=dict(err=worst))


# ---------------------------------------------------------------- dynamic, with travel times
def gen_dyn(rng):
    for _ in range(50):
        c = c04.gen_wave(rng)
        rows, (zs, zr) = decimal(rng, c["model"], [c["zs"], c["zr"]])
        c.update(model=rows, zs=zs, zr=zr, style=gen_style(rng, rows), e=True, threads=1)
        if len(rows) < 2 or bad_depths(rows, [zs, zr]) or abs(zs - zr) < 0.3:
            continue
        try:
            c04.valid(c)
        except Skip:
            continue
        return c
    return c


def run_dyn(c, wd):
    if len(c["model"]) < 2 or bad_depths(c["model"], [c["zs"], c["zr"]]):
        raise Skip
    c = dict(c)
    c04.valid(dict(c, model=[[dec(r[0])] + r[1:] for r in c["model"]]))
    nk, nl, km, dk = c04.cost(c)
    if nk * (nl + 1) ** 1.5 > 1e6:
        raise Skip
    wI = c["zeta"] * np.pi / (c["nt"] * c["dt"])
    if (wI if c["keep"] else max(wI, 0.1)) * abs(c["zs"] - c["zr"]) / max(r[1] for r in c["model"]) < 0.05:
        raise Skip
    if c["bot"] != "H":
        c["style"] = dict(c["style"], bottom=[])
    if c["E"] and c["E"][0] == "p" and c["E"][1] >= 0:
        raise Skip
    rows, out = setup(c, wd)
    both(c, wd, c04.args_of(c))
    worst = 0.0
    n = 0
    for r in c["rs"]:
        d = f"out/mod_{c['zs']:g}_{c['zr']:g}_{float(r)!r}"
        fa, fb = (sorted(os.listdir(f"{wd}/{x}/{d}")) for x in "ab")
        G.must(fa == fb, "files", f"{fa} / {fb}")
        A, B = ({f: G.Sac(f"{wd}/{x}/{d}/{f}") for f in fa} for x in "ab")
        for f in fa:
            pre = f[0] if f[0] in "zr" else ""
            isf = "F" in f
            sc = max(np.abs(A[g].d).max() for g in fa if (g[0] if g[0] in "zr" else "") == pre and ("F" in g) == isf)
            e = np.abs(A[f].d - B[f].d).max()
            rt = 2e-3 if c["top"] == "f" and c["bot"] == "F" else 1e-4
            G.must(e <= rt * sc + 1e-37, "waveform", f"{d}/{f}: differs by {e:.3g}, largest {sc:.3g} ({c04.args_of(c)})")
            worst = max(worst, e / (rt * sc + 1e-37))
            for h in ("t0", "t1", "b", "user1", "user2", "user3", "user4", "user5", "user6", "user7", "user8", "dist", "evdp", "stel", "delta"):
                G.must(abs(A[f].h(h) - B[f].h(h)) <= 2e-6 * abs(A[f].h(h)) + (1e-3 if h in ("t0", "t1", "b") else 1e-9), "header", f"{d}/{f}: {h} {A[f].h(h)} / {B[f].h(h)}")
            n += 1
    return dict(nontrivial=(len(out) > len(rows) or c["style"]["depth"]) and n > 0, tags=["split"] * (len(out) > len(rows)) + ["depth column"] * c["style"]["depth"]
                + ["liquid"] * any(r[2] == 0 for r in rows) + ["on an interface"] * on_interface(rows, [c["zs"], c["zr"]]), metric=dict(err=worst))


# ---------------------------------------------------------------- travel times
def gen_travt(rng):
    rows = N.model(rng, 2, 7, liquids=str(rng.choice(["none", "top", "any"])), hmax=8, many=0.1)
    rows, (zs, zr) = decimal(rng, rows, [N.depth(rng, rows), N.depth(rng, rows)])
    return dict(model=rows, zs=zs, zr=zr, rs=sorted({dec(N.log_uniform(rng, 0.1, 500)) for _ in range(6)}), style=gen_style(rng, rows))


def run_travt(c, wd):
    itf = [dec(x) for x in N.interfaces(c["model"])]
    if c["rs"] != sorted(set(c["rs"])) or c["rs"][0] <= 0 or min(c["zs"], c["zr"]) < 0:
        raise Skip
    rows, out = setup(c, wd)
    # a depth on a face of a liquid has to be refused in both cases
    r = both(c, wd, ["travt", "-Mmod", f"-D{c['zs']!r}/{c['zr']!r}", "-R" + ",".join(map(repr, c["rs"]))], need=False)
    liq = bad_depths(rows, [c["zs"], c["zr"]])
    if r is None:
        G.must(liq or (c["zs"] == c["zr"] and rows[N.layer_at(rows, c["zs"])][2] == 0), "rejected", f"travt refuses depths {c['zs']}, {c['zr']}")
        return dict(nontrivial=True, tags=["refused"])
    G.must(not liq, "accepted", f"travt accepts depths {c['zs']}, {c['zr']} on a face of a liquid (interfaces {itf})")
    T = []
    for p in r:
        L = [x.split() for x in p.out.splitlines()]
        T.append(np.array([[float(y) for y in x] for x in L if len(x) == 3 and x[0][0].isdigit()]))
    G.must(T[0].shape == T[1].shape == (len(c["rs"]), 3), "table", f"{T[0].shape} {T[1].shape}")
    e = np.abs(T[0] - T[1]).max()
    G.must(e <= 1.1e-3, "travt", f"zs={c['zs']} zr={c['zr']}: {T[0].tolist()} / {T[1].tolist()}")
    return dict(nontrivial=len(out) > len(rows) or c["style"]["depth"], tags=["split"] * (len(out) > len(rows)) + ["liquid"] * any(x[2] == 0 for x in rows)
                + ["on an interface"] * on_interface(rows, [c["zs"], c["zr"]]))


# ---------------------------------------------------------------- modes and modal sums: forms of writing, no splitting
def gen_modes(rng):
    love = bool(rng.random() < 0.4)
    rows = c16.gen_model(rng, love)
    rows, (zs, zr) = decimal(rng, rows, [N.depth(rng, rows), N.depth(rng, rows, surface=0.5)])
    s = gen_style(rng, rows)
    s["cuts"], s["bottom"] = [[] for _ in rows[:-1]], []
    s["depth"] = False
    f0 = min(c16.vel(r) for r in rows) / sum(r[0] for r in rows[:-1])
    return dict(model=rows, love=love, zs=zs, zr=zr, style=s, df=N.rnd(f0 * float(10 ** rng.uniform(-1, 0.3)), 3), nf=int(rng.integers(2, 5)), r=dec(N.log_uniform(rng, 1, 100)))


def run_modes(c, wd):
    rows, love = [r[:4] for r in c["model"]], c["love"]
    if not c16.in_domain(rows, love) or bad_depths(rows, [c["zs"], c["zr"]]) or any(c["style"]["cuts"]) or c["style"]["bottom"]:
        raise Skip
    if c["df"] <= 0 or not 2 <= c["nf"] <= 8 or c["r"] <= 0 or c["nf"] * c["df"] > 20 * min(c16.vel(r) for r in rows) / sum(r[0] for r in rows[:-1]):
        raise Skip
    setup(c, wd)
    r = both(c, wd, ["eigenv", "-Mmod", "-SL" if love else "-SR", "-Co.nc", f"-F0/{c['nf'] * c['df']!r}/{c['df']!r}", "-N", "-s"], need=False)
    if r is None:
        raise Skip
    A, B = (G.Nc(f"{wd}/{x}/o.nc") for x in "ab")
    # modes at the limits of the search may or may not be found: compare the required ones
    n = 0
    same = True
    for i, f in enumerate(A["freq"]):
        ca, cb = (X["c"][i, :X["cnum"][i]] for X in (A, B))
        req = c16.reference(rows, love, f)[0]
        same = same and len(ca) == len(cb)
        for x in req:
            ia, ib = (len(y) and np.min(np.abs(y - x)) < 1e-6 * (1 + x) for y in (ca, cb))
            G.must(bool(ia) == bool(ib), "modes", f"f={f}: {ca} / {cb}")
            n += 1
    if same and len(A["mode"]) == len(B["mode"]):
        both(c, wd, ["modsum", "-Co.nc", "-Oout", f"-D{c['zs']!r}/{c['zr']!r}", f"-R{c['r']!r}"])
        d = f"out/mod_{c['zs']:g}_{c['zr']:g}_{c['r']!r}"
        fa, fb = (sorted(os.listdir(f"{wd}/{x}/{d}")) if os.path.isdir(f"{wd}/{x}/{d}") else [] for x in "ab")
        G.must(fa == fb, "files", f"{fa} / {fb}")
        S = [{f: G.Sac(f"{wd}/{x}/{d}/{f}") for f in fa} for x in "ab"]
        for f in fa:
            sc = max(np.abs(S[0][g].d).max() for g in fa if ("F" in g) == ("F" in f))
            e = np.abs(S[0][f].d - S[1][f].d).max()
            G.must(e <= 3e-2 * sc + 1e-37, "modsum", f"{d}/{f}: differs by {e:.3g}, largest {sc:.3g}")
            for h in ("t0", "t1", "user1", "user2", "user3", "user6", "user7", "user8"):
                G.must(abs(S[0][f].h(h) - S[1][f].h(h)) <= 2e-6 * abs(S[0][f].h(h)) + (1e-3 if h in ("t0", "t1") else 1e-9), "header", f"{d}/{f}: {h} {S[0][f].h(h)} / {S[1][f].h(h)}")
    return dict(nontrivial=n > 0, tags=["Love" if love else "Rayleigh"] + ["on an interface"] * on_interface(rows, [c["zs"], c["zr"]]))


SUBS = [Sub("static", gen_static, run_static, 250, 2500, rule="layers are split or given as depths"),
        Sub("dynamic", gen_dyn, run_dyn, 250, 2500, rule="layers are split or given as depths"),
        Sub("travel times", gen_travt, run_travt, 300, 3000, rule="layers are split or given as depths, or the depth has to be refused"),
        Sub("modes", gen_modes, run_modes, 100, 1000, rule="at least one mode")]
