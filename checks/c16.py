"""grt eigenv: the phase velocities reported for a layered half-space are its surface wave modes, all of them and no others."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N
from vlib.modes import Stack

PROP = "C16"
LEVEL = "exploration"
ASSUMPTIONS = ["modes within 1e-3 (relative) of a P or S velocity of the model may be reported or not",
               "with buried liquids, velocities below half of the smallest velocity of the model (crack waves of a thin liquid sheet) are not judged",
               "modes trapped at depth, that are below a tenth of their largest amplitude at the surface and in all slow layers, may be reported or not",
               "extra velocities in models with buried liquids are not judged: the secular function falls below the documented threshold (-T+r) without a root in about one of 1000 such models",
               "Love waves: liquids only as the topmost layers; a liquid never lies directly on the half-space (see known findings)",
               "frequencies up to about 16 times (slowest velocity) / (thickness of the stack)"]
EDGE = 1e-3


def vel(r):
    return r[2] if r[2] > 0 else r[1]


def in_domain(rows, love):
    if len(rows) < 2 or rows[-1][2] == 0:
        return False
    vv = [vel(r) for r in rows]
    if min(vv) >= vv[-1] * (1 - 1e-6):
        return False
    if rows[-2][2] == 0:
        return False
    liq = [r[2] == 0 for r in rows]
    if love and any(liq[i] and not liq[i - 1] for i in range(1, len(rows))):
        return False
    return True


def gen_model(rng, love):
    for _ in range(200):
        kind = str(rng.choice(["none", "none", "top", "any"]))
        rows = N.model(rng, 2, 7, None, kind)
        if rng.random() < 0.1:                      # thick slow channel
            i = int(rng.integers(len(rows) - 1))
            rows[i][0] *= 3
        u = rng.random()
        if u < 0.15:                                # a layer written as several
            ch = [i for i in range(1, len(rows) - 1) if vel(rows[i]) < vel(rows[i - 1])]
            i = int(rng.choice(ch)) if ch and rng.random() < 0.8 else int(rng.integers(len(rows) - 1))
            n = int(rng.integers(2, 4))
            rows[i:i + 1] = [[round(rows[i][0] / n, 6)] + rows[i][1:] for _ in range(n)]
        if rows[-1][2] == 0:
            continue
        if rows[-2][2] == 0:
            rows = rows[:-1] + [[1.0] + rows[-1][1:], rows[-1]]
        if in_domain(rows, love):
            return rows
    return [[1.0, 2.0, 1.0, 2.0], [0.0, 4.0, 2.0, 2.5]]


def gen(rng):
    love = bool(rng.random() < 0.4)
    rows = gen_model(rng, love)
    f0 = min(vel(r) for r in rows) / sum(r[0] for r in rows[:-1])
    u = rng.random()
    top = f0 * float(10 ** rng.uniform(-1, 0.6 if u < 0.8 else 1.2))
    v = rng.random()
    if v < 0.35:
        F = [N.rnd(top, 4)]
    else:
        n = int(rng.integers(2, 6))
        df = max(N.rnd(top / n, 3), 1e-3)
        F = [0.0 if rng.random() < 0.4 else N.rnd(df * rng.uniform(1, 2), 3), 0.0, df]
        F[1] = round(max(F[0], df) + df * (n - 1 + float(rng.choice([0, 0, 0.3, 0.7]))), 9)
    c = dict(rows=rows, love=love, F=F, p=False, N=None, threads=int(rng.integers(1, 4)))
    if rng.random() < 0.25:                         # the same numbers of points, as periods
        if len(F) == 1:
            F[0] = N.rnd(1 / F[0], 4)
        else:
            d = N.rnd(1 / top, 3)
            n = int(rng.integers(2, 6))
            F[:] = [0.0 if rng.random() < 0.4 else N.rnd(d * rng.uniform(1, 2), 3), 0.0, d]
            F[1] = round(max(F[0], d) + d * (n - 1), 9)
        c["p"] = True
    u = rng.random()
    c["N"] = "all" if u < 0.55 else "default" if u < 0.7 else int(rng.integers(0, 8))
    c["dup"] = bool(rng.random() < 0.15)
    return c


def freqs(F, p):
    if len(F) == 1:
        x = np.array([F[0]])
    else:
        a, b, d = F
        a = a if a > 0 else d
        b = max(a, b)
        x = a + d * np.arange(int(np.floor((b - a) / d + 1e-8)) + 1)
    return np.sort(1 / x) if p else x


def searched(rows, s):
    """nodes at the surface, around layers that are slower than both neighbours, and at the top of a layer below a liquid"""
    lay = {0}
    for i in range(1, len(rows) - 1):
        for k in (1, 2):
            if rows[i - 1][k] > rows[i][k] and rows[i][k] <= rows[i + 1][k]:
                lay.add(i)
    face = {i for i in range(1, len(rows)) if (rows[i - 1][2] == 0) != (rows[i][2] == 0)}
    see = np.zeros(len(s.z), bool)
    see[0] = True
    for j, (i, h, _) in enumerate(s.parts):
        if i in lay:
            see[j] = see[j + 1] = True
        if i in face and (j == 0 or s.parts[j - 1][0] != i):
            see[j] = True
    return see


def reference(rows, love, f):
    """required and optional phase velocities, and the bound below which nothing is judged"""
    vv = [vel(r) for r in rows]
    cmax = vv[-1]
    s = Stack(rows, cmax, f, love)
    buried = any(rows[i][2] > 0 and rows[i + 1][2] == 0 for i in range(len(rows) - 1))
    lo = min(vv) * (0.5 if buried else 0.25 if not love else 0.999)
    w = 2 * np.pi * f
    r, _, _ = s.roots(w, lo, cmax * (1 - 1e-7), 500)
    allv = np.array([x for row in rows for x in row[1:3] if x > 0])
    opt = np.array([np.min(np.abs(allv - x)) < EDGE * x for x in r], bool)
    for i in range(len(r) - 1):
        if r[i + 1] - r[i] < 2e-6:
            opt[i] = opt[i + 1] = True
    see = searched(rows, s)
    for i in range(len(r)):
        if not opt[i] and not all(see):
            x = np.abs(s.vector(w, r[i])).max(1)
            opt[i] = x[see].max() < 0.1 * x.max()
    return r[~opt], r[opt], lo if buried else 0.0


def judge(rows, love, f, got, nmax, name):
    """got: reported velocities at one frequency; nmax: None or the largest number of modes asked for"""
    req, opt, lo = reference(rows, love, f)
    tol = lambda x: 1e-6 + 1e-6 * x
    if np.any(np.diff(got) <= 0):
        raise Violation("order", f"{name}: velocities are not ascending: {got}")
    allr = np.concatenate([req, opt])
    allv = np.array([x for row in rows for x in row[1:3] if x > 0])
    for x in got:
        if lo:
            continue
        if not len(allr) or np.min(np.abs(allr - x)) > tol(x):
            if np.min(np.abs(allv - x)) < 2e-5 * x and len(allr) and np.min(np.abs(allr - x)) < 2e-5 * x:
                continue
            raise Violation("spurious", f"{name}: {x!r} is not a mode; modes are {np.sort(allr)}")
    for x in got:
        if not lo and sum(abs(y - x) <= tol(x) for y in allr) < sum(abs(y - x) <= tol(x) for y in got):
            raise Violation("duplicate", f"{name}: a mode is reported twice: {got}")
    full = nmax is not None and len(got) >= nmax
    for x in req:
        if full and x > got[-1] + tol(x):
            continue
        if not len(got) or np.min(np.abs(got - x)) > tol(x):
            raise Violation("missing", f"{name}: the mode {x!r} is not reported; modes are {np.sort(allr)}, reported {got}")
    if nmax is not None and len(got) > nmax:
        raise Violation("count", f"{name}: {len(got)} modes although {nmax} were asked for")
    return len(req), len(opt)


def args(c, f=None):
    F = "/".join(repr(float(x)) for x in c["F"]) + ("+p" if c["p"] else "")
    a = ["-SL" if c["love"] else "-SR", f"-F{F}" if f is None else f"-F{f!r}", "-s"]
    if c["N"] == "all":
        a.append("-N")
    elif c["N"] != "default":
        a.append(f"-N{c['N']}")
    return a


def eigenv(wd, a, threads=1, out="o.nc"):
    p = G.run(["eigenv", "-Mmod", f"-C{out}", f"-P{threads}"] + a, ok=False, cwd=wd)
    if p.returncode != 0:
        if "No eigenvalues were found" in p.err + p.out:
            return None
        raise Violation("rejected", f"eigenv {' '.join(a)} fails: {(p.err + p.out)[-400:]}")
    return G.Nc(os.path.join(wd, out))


def content(nc, love):
    """checks the form of the file, returns (freq, [velocities per frequency])"""
    c, n, ci, fr = nc["c"], nc["cnum"], nc["ciref"], nc["freq"]
    G.must(c.shape == (len(fr), len(nc["mode"])) == ci.shape and n.shape == fr.shape, "file", f"shapes {c.shape} {ci.shape} {n.shape}")
    G.must(list(nc["mode"]) == list(range(c.shape[1])), "file", f"mode {nc['mode']}")
    G.must(n.max() == c.shape[1], "file", f"cnum {n}, {c.shape[1]} modes")
    G.must(int(nc.attr["isRayl"]) == (not love), "file", f"isRayl {nc.attr['isRayl']}")
    for i in range(len(fr)):
        G.must(np.all(c[i, :n[i]] > 0) and np.all(c[i, n[i]:] == 0) and np.all(ci[i, n[i]:] == -1) and np.all(ci[i, :n[i]] >= 0), "file", f"fill values: {c[i]} {ci[i]} {n[i]}")
    return fr, [c[i, :n[i]] for i in range(len(fr))]


def run(c, wd):
    rows, love = c["rows"], c["love"]
    if not in_domain(rows, love) or any(r[0] <= 0 for r in rows[:-1]) or any(r[2] > 0 and r[2] * 1.2 > r[1] for r in rows):
        raise Skip
    if min(c["F"][-1], c["F"][0] if len(c["F"]) == 1 else 1) <= 0 or (len(c["F"]) == 3 and (c["F"][1] <= 0 or c["F"][1] < c["F"][0] or c["F"][0] < 0)):
        raise Skip
    fr = freqs(c["F"], c["p"])
    f0 = min(vel(r) for r in rows) / sum(r[0] for r in rows[:-1])
    if len(fr) > 12 or fr[-1] > 25 * f0:
        raise Skip
    G.write_model(f"{wd}/mod", rows)
    nmax = None if c["N"] == "all" else 1 if c["N"] == "default" else c["N"] + 1
    nc = eigenv(wd, args(c), c["threads"])
    if nc is None:
        got = [np.array([]) for _ in fr]
    else:
        g, got = content(nc, love)
        G.must(len(g) == len(fr) and np.allclose(g, fr, rtol=1e-12), "frequencies", f"{g} instead of {fr}")
    nr = no = 0
    for f, v in zip(fr, got):
        a, b = judge(rows, love, f, v, nmax, f"{'Love' if love else 'Rayleigh'} f={f:.6g}")
        nr, no = nr + a, no + b
    if c["dup"] and nc is not None:                 # number of threads, single frequencies
        m = eigenv(wd, args(c), 4 - c["threads"] % 2, "p.nc")
        for k in ("c", "cnum", "ciref", "freq"):
            G.must(np.array_equal(nc[k], m[k]), "threads", f"{k} depends on the number of threads")
        i = len(fr) - 1
        m = eigenv(wd, args(c, float(fr[i])), 1, "q.nc")
        h = np.array([]) if m is None else content(m, love)[1][0]
        G.must(len(h) == len(got[i]) and np.allclose(h, got[i], rtol=1e-9), "single", f"f={fr[i]!r}: {h} alone, {got[i]} in a list")
    lvl = any(vel(rows[i]) > vel(rows[i + 1]) for i in range(len(rows) - 1))
    return dict(nontrivial=nr >= 2, tags=["Love" if love else "Rayleigh"] + ["low velocity layer"] * lvl + ["liquid"] * any(r[2] == 0 for r in rows) + ["limited"] * (nmax is not None) + ["periods"] * c["p"] + ["no mode"] * (nr == 0))


# a liquid directly on the half-space
BOTTOM = [[[[0.390625, 1.736, 0.0, 1.1], [0.0, 4.4, 2.531, 2.6]], 8.0],
          [[[2.015625, 1.543, 0.0, 1.05], [0.0, 2.9, 1.658, 2.3]], 1.4834],
          [[[1.0, 1.5, 0.0, 1.0], [0.0, 3.5, 2.0, 2.5]], 1.0]]


def gen_bottom(rng):
    rows, f = BOTTOM[int(rng.integers(len(BOTTOM)))]
    return dict(rows=rows, f=f)


def run_bottom(c, wd):
    rows, f = c["rows"], c["f"]
    if [rows, f] not in BOTTOM:
        raise Skip
    G.write_model(f"{wd}/mod", rows)
    nc = eigenv(wd, ["-SR", f"-F{f}", "-s", "-N"])
    got = np.array([]) if nc is None else content(nc, False)[1][0]
    judge(rows, False, f, got, None, f"Rayleigh f={f}")
    return dict(nontrivial=True, tags=["liquid on the half-space"])


def matches_known(k, sub, case, r):
    return sub == "bottom" and r[1] == "missing" and [case["rows"], case["f"]] in k["inputs"]


SUBS = [Sub("modes", gen, run, 900, 8000, rule="at least two modes over all frequencies"),
        Sub("bottom", gen_bottom, run_bottom, 6, 6, rule="liquid directly on the half-space (fixed inputs)")]
