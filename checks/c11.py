"""A library computed at once equals the individual computations; threads and output selections do not matter."""
import os, shutil
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, srcs

PROP = "C11"
LEVEL = "exploration"
ASSUMPTIONS = ["distance subsets keep the largest distance, which defines the wavenumber step"]
j = lambda v: ",".join(repr(float(x)) for x in v)

BIG = 0.04


def depths(rng, rows, n, other=()):
    out = []
    for _ in range(200):
        if len(out) == n:
            break
        z = N.depth(rng, rows, zmax=8)
        if all(abs(z - o) > 1e-3 for o in out):
            out.append(z)
    return sorted(out)


def gen(rng, static):
    liq = "none" if static else str(rng.choice(["none", "none", "top", "any"]))
    rows = N.model(rng, 1, 5, q=False if static and rng.random() < 0.5 else None, liquids=liq, hmax=3, many=0.04)
    R = sorted({N.rnd(N.log_uniform(rng, 0.3, 40), 3) for _ in range(int(rng.integers(1, 5)))})
    nd = [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
    if rng.random() < BIG:                # one of the lists is long
        k = int(rng.integers(0, 3))
        if k == 0:
            R = sorted({N.rnd(N.log_uniform(rng, 0.3, 40), 4) for _ in range(int(rng.integers(30, 90)))})
            R = sorted({round(r, 3) for r in R})
        else:
            nd[k - 1] = int(rng.integers(8, 20))
    if rng.random() < 0.15:
        R = [0.0] + R
    o = []
    S, Rv = depths(rng, rows, nd[0]), depths(rng, rows, nd[1])
    if rng.random() < 0.4:
        b = "-B" + str(rng.choice(["f", "r", "h"]))
        if len(rows) > 1 and max(S + Rv) < N.interfaces(rows)[-1] - 1e-6 and rng.random() < 0.6:
            b += str(rng.choice(["F", "R", "H"]))
        o.append(b)
    meth = rng.random()
    if meth < 0.4:
        o.append(f"-L{int(rng.integers(5, 20))}")
    if rng.random() < 0.5:
        k = "-K"
        if rng.random() < 0.3:
            k += f"+k{N.rnd(rng.uniform(3, 8), 2)}"
        if rng.random() < 0.3:
            k += f"+s{N.rnd(rng.uniform(1.1, 1.6), 3)}" if not static else ""
        if rng.random() < 0.5:
            k += "+f"
        if k != "-K":
            o.append(k)
    if rng.random() < 0.4:
        o.append(str(rng.choice(["-Cd", "-Cp", "-Cn"])))
    dyn = None
    if not static:
        if rng.random() < 0.3:
            o.append(f"-E{N.rnd(rng.uniform(-2, 1), 2)}/{N.rnd(rng.uniform(0, 4), 2)}")
        elif rng.random() < 0.3:
            o.append(f"-Ep-{N.rnd(rng.uniform(0.1, 2), 2)}")
        if rng.random() < 0.2:
            o.append(f"-H{N.rnd(rng.uniform(0, 0.3), 2)}/{N.rnd(rng.uniform(0.8, 3), 2)}")
        n = int(rng.integers(4, 12))
        nn = f"-N{n}/{N.rnd(rng.uniform(0.1, 1), 2)}"
        if rng.random() < 0.3:
            nn += f"+w{N.rnd(rng.uniform(0.3, 2), 2)}"
        if rng.random() < 0.2:
            nn += "+n2"
        if rng.random() < 0.2:
            nn += "+f" if rng.random() < 0.5 else "+a"
        o.append(nn)
    return dict(model=rows, S=S, R=Rv, D=R, o=o, e=bool(rng.random() < 0.5),
                P=int(rng.choice([2, 3, 4])), G=str(rng.choice(["", "e", "v", "h", "s", "vh", "es"])), pick=int(rng.integers(1 << 30)))


def gen_dyn(rng):
    return gen(rng, False)


def gen_st(rng):
    return gen(rng, True)


def valid(c):
    rows = c["model"]
    if not rows or len(rows[0]) not in (4, 6) or any(len(r) != len(rows[0]) for r in rows) or any(r[0] <= 0 for r in rows[:-1]):
        raise Skip
    if any(r[1] <= 0 or r[2] < 0 or r[2] * 1.2 > r[1] or r[3] <= 0 for r in rows):
        raise Skip
    for k in "SRD":
        v = c[k]
        if not v or min(v) < 0 or any(b - a < 1e-6 for a, b in zip(v, v[1:])):
            raise Skip
    if max(c["D"]) <= 0:
        raise Skip
    itf = N.interfaces(rows)
    for z in c["S"] + c["R"]:
        for i, t in enumerate(itf):
            if abs(z - t) < 1e-6 and min(rows[i][2], rows[i + 1][2]) == 0:
                raise Skip
    for s in c["S"]:
        for r in c["R"]:
            if abs(s - r) < 0.05 and rows[N.layer_at(rows, s)][2] == 0:
                raise Skip
    for o in c["o"]:
        if o.startswith("-B") and any(x in o for x in "FRH") and (len(rows) < 2 or max(c["S"] + c["R"]) >= itf[-1] - 1e-6):
            raise Skip


def load(d):
    out = {}
    for sub in os.listdir(d):
        if os.path.isdir(f"{d}/{sub}"):
            t = {f[:-4]: G.Sac(f"{d}/{sub}/{f}") for f in os.listdir(f"{d}/{sub}")}
            if not t:
                continue
            x = next(iter(t.values()))
            key = (round(x.h("evdp"), 3), round(-x.h("stel") * 1e-3, 3), round(x.h("dist"), 3))
            if key in out:
                raise Violation("library", f"two subdirectories hold {key}")
            out[key] = t
    return out


def cmp_tr(kind, name, a, b, tol=2e-6):
    if a.npts != b.npts:
        raise Violation(kind, f"{name}: {a.npts} / {b.npts} samples")
    if not (np.array_equal(a.f, b.f) or np.allclose(a.f, b.f, rtol=3e-7, atol=1e-30, equal_nan=True) or np.allclose(np.delete(a.f, [1, 2, 56]), np.delete(b.f, [1, 2, 56]), rtol=3e-7)):
        k = int(np.argmax(np.abs(a.f - b.f)))
        raise Violation(kind, f"{name}: header word {k}: {a.f[k]} / {b.f[k]}")
    if np.all(np.isfinite(b.d)):
        m = np.abs(b.d).max()
        e = np.abs(a.d - b.d).max()
        if not e <= tol * m:
            raise Violation(kind, f"{name}: differs by {e:.3g} of {m:.3g}")
        return e / (m + 1e-300)
    return 0


def run_dyn(c, wd):
    valid(c)
    G.write_model("mod", c["model"])
    base = ["greenfn", "-Mmod", "-s"] + c["o"]
    e = ["-e"] * c["e"]
    p = G.run(base + ["-Ds" + j(c["S"]), "-Dr" + j(c["R"]), "-R" + j(c["D"]), "-OL", f"-P{c['P']}"] + e)
    lib = load("L")
    want = {(round(s, 3), round(r, 3), round(d, 3)) for s in c["S"] for r in c["R"] for d in c["D"]}
    G.must(set(lib) == want, "library", f"library holds {sorted(lib)} instead of {sorted(want)}")
    rng = np.random.default_rng(c["pick"])
    tags = []
    worst = 0

    def against(kind, d, sub=None, full=False):
        nonlocal worst
        one = load(d)
        for key, t in one.items():
            G.must(key in lib, kind, f"{key} not in the library")
            if full:
                G.must(set(t) == set(lib[key]), "files", f"{kind} {key}: {sorted(set(t) ^ set(lib[key]))}")
            else:
                G.must(set(t) <= set(lib[key]), "files", f"{kind} {key}: {sorted(set(t) - set(lib[key]))}")
            for f in t:
                worst = max(worst, cmp_tr(kind, f"{kind} {key} {f}", lib[key][f], t[f]))
        return one
    # one depth pair
    pairs = [(s, r) for s in c["S"] for r in c["R"]]
    for k in rng.permutation(len(pairs))[:3]:
        s, r = pairs[k]
        G.run(base + [f"-D{s!r}/{r!r}", "-R" + j(c["D"]), f"-Op{k}", "-P1"] + e)
        o = against("pair", f"p{k}", full=True)
        G.must(len(o) == len(c["D"]), "files", "pair: distances")
    # fewer distances (the largest one kept)
    if len(c["D"]) > 1:
        D = [d for d in c["D"][:-1] if rng.random() < 0.4] + [c["D"][-1]]
        s, r = pairs[int(rng.integers(0, len(pairs)))]
        G.run(base + [f"-D{s!r}/{r!r}", "-R" + j(D), "-Od", "-P1"] + e)
        against("distances", "d", full=True)
        tags.append("dist")
    # without derivatives, only some sources
    s, r = pairs[int(rng.integers(0, len(pairs)))]
    if c["G"]:
        G.run(base + [f"-D{s!r}/{r!r}", "-R" + j(c["D"]), "-Og", "-P2", "-G" + c["G"]] + (e if rng.random() < 0.5 else []))
        one = against("subset", "g")
        liq = c["model"][N.layer_at(c["model"], s)][2] == 0
        G.must(len(one) == len(c["D"]) or (liq and "e" not in c["G"]), "subset", f"-G{c['G']}: results for {len(one)} distances")
        want = set()
        for ch, nm in (("e", ["EX"]), ("v", ["VF"]), ("h", ["HF"]), ("s", ["DD", "DS", "SS"])):
            if ch in c["G"] and (ch == "e" or not liq):
                want |= set(nm)
        for key, t in one.items():
            have = {f[-3:-1] for f in t}
            G.must(have == want, "subset", f"-G{c['G']} writes {sorted(have)} instead of {sorted(want)}")
        tags.append("G")
    elif c["e"]:
        G.run(base + [f"-D{s!r}/{r!r}", "-R" + j(c["D"]), "-Og", "-P3"])
        one = against("noderiv", "g")
        for key, t in one.items():
            G.must({f for f in lib[key] if len(f) == 3} == set(t), "files", "without -e")
        tags.append("noe")
    return dict(nontrivial=len(pairs) > 1, tags=tags + ["liquid"] * any(r[2] == 0 for r in c["model"]), metric=dict(diff=worst))


def run_st(c, wd):
    valid(c)
    if any(r[2] <= 0 for r in c["model"]):
        raise Skip
    G.write_model("mod", c["model"])
    base = ["static", "greenfn", "-Mmod"] + c["o"]
    e = ["-e"] * c["e"]
    G.run(base + ["-Ds" + j(c["S"]), "-Dr" + j(c["R"]), "-R" + j(c["D"]), "-OL.nc"] + e)
    L = G.Nc("L.nc")
    names = srcs.GFS + ([p + n for p in "zr" for n in srcs.GFS] if c["e"] else [])
    S, R, D = c["S"], c["R"], c["D"]
    rng = np.random.default_rng(c["pick"])
    worst = 0

    def get(nc, k, ns, nr, nd):
        return nc[k].reshape(ns, nr, nd)
    # scalar variables that do not depend on the depth pair are compared through the shape of all variables
    for _ in range(3):
        i, q = int(rng.integers(0, len(S))), int(rng.integers(0, len(R)))
        sub = [k for k in range(len(D) - 1) if rng.random() < 0.6] + [len(D) - 1]
        G.run(base + [f"-D{S[i]!r}/{R[q]!r}", "-R" + j([D[k] for k in sub]), "-Oo.nc"] + e)
        o = G.Nc("o.nc")
        G.must(set(o.v) == set(L.v), "variables", f"{sorted(set(o.v) ^ set(L.v))}")
        for n in names:
            a = get(L, n, len(S), len(R), len(D))[i, q][sub]
            b = get(o, n, 1, 1, len(sub))[0, 0]
            if np.all(np.isfinite(b)):
                m = np.abs(b).max()
                worst = max(worst, float(np.abs(a - b).max()) / (m + 1e-300))
                G.must(np.abs(a - b).max() <= 1e-9 * m, "pair", f"static {n}, depths {S[i]}/{R[q]}: library {a}, single {b}")
    return dict(nontrivial=len(S) * len(R) > 1, tags=[], metric=dict(diff=worst))


SUBS = [Sub("dynamic", gen_dyn, run_dyn, 300, 2400, rule="the library has more than one depth pair"),
        Sub("static", gen_st, run_st, 500, 4000, rule="the library has more than one depth pair")]
