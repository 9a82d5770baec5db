"""What is stored is what was computed, and every conversion and reader returns it: kernel records, sac2asc, ker2asc, disp2asc, Python readers."""
import glob, os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, refs, pyapi

PROP = "C20"
LEVEL = "exploration"
ASSUMPTIONS = ["printed numbers carry at least 7 digits", "kernels of the reference solution (vlib/refs.py) to the tolerances of C02 and C03"]
KEYS = [(s, "qwv"[c]) for s in refs.SRC for c in range(3) if not (refs.MORD[s] == 0 and c == 2)]
RAW = np.dtype([("x", "<f8")] + [(f"{s}_{c}", "<c16") for s, c in KEYS])
PKEYS = [(s, v) for s in refs.SRC for v in range(4) if refs.MORD[s] or v in (0, 2)]
PRAW = np.dtype([x for s, v in PKEYS for x in ((f"sum_{s}_{v}_k", "<f8"), (f"sum_{s}_{v}", "<c16"))])


# ------------------------------------------------------------------ ASCII
def table(text):
    """header words, rows"""
    ls = [l for l in text.splitlines() if l.strip()]
    head = ls[0].lstrip("#").split() if ls and ls[0].lstrip()[0] == "#" else None
    try:
        return head, [[float(x) for x in l.split()] for l in (ls[1:] if head else ls)]
    except ValueError:
        raise Violation("text", f"not a table of numbers: {next(l for l in ls[1:] if any(not isnum(x) for x in l.split()))[:200]}")


def isnum(x):
    try:
        float(x)
        return True
    except ValueError:
        return False


def eq(a, b, rel=6e-8):
    """a: printed, b: stored"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore", over="ignore"):
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= rel * np.abs(b) + 1e-320)))


def values(rng, n):
    """n numbers of all kinds: ordinary, huge, tiny, zero, exact, special"""
    u = rng.random()
    if u < 0.5:
        v = rng.normal(size=n)
    else:
        v = rng.choice([-1, 1], size=n) * 10.0 ** rng.uniform(-36, 36, size=n)
    v[rng.random(n) < 0.05] = 0.0
    v[rng.random(n) < 0.05] = -1.0
    return v


def gen_ascii(rng):
    kind = str(rng.choice(["sac", "sac", "C", "K", "PTAM"]))
    return dict(kind=kind, seed=int(rng.integers(1 << 30)), n=int(rng.choice([0 if kind != "sac" else 1, 1, 2, 3, 10, 100, 1000 if kind != "sac" else 20000])), b=N.rnd(rng.uniform(-100, 100)), delta=N.rnd(10 ** rng.uniform(-4, 1)),
                name=str(rng.choice(["", "_0003_4.68750e-01"])), dir=bool(rng.random() < 0.5), swap=bool(rng.random() < 0.3), special=bool(rng.random() < 0.1), inff=bool(rng.random() < 0.3))


def run_ascii(c, wd):
    rng = np.random.default_rng(c["seed"])
    os.chdir(wd)
    n = max(0, int(c["n"]))
    d = "x_K.C/PTAM_0000_5.5/" if c["dir"] else ""
    if d:
        os.makedirs(d)
    if c["kind"] == "sac":
        n = max(n, 1)
        v = values(rng, n).astype("<f4")
        if c["special"]:
            v[rng.integers(n)] = np.inf
        dt, b = abs(c["delta"]) or 1.0, c["b"]
        fn = d + "a.sac"
        G.write_sac(fn, v, b=b, delta=dt)
        if c["swap"]:
            raw = open(fn, "rb").read()
            f = np.frombuffer(raw[:440], "<u4").astype(">u4").tobytes() + raw[440:632] + np.frombuffer(raw[632:], "<u4").astype(">u4").tobytes()
            with open(fn, "wb") as h:
                h.write(f)
            p = G.run(["sac2asc", fn], ok=False)
            if p.returncode:
                return dict(nontrivial=True, tags=["other byte order refused"])
            out = p.out
        else:
            out = G.run(["sac2asc", fn]).out
        h, t = table(out)
        G.must(h is None and len(t) == n and all(len(x) == 2 for x in t), "rows", f"sac2asc prints {len(t)} lines for {n} samples")
        t = np.array(t)
        bf, df = np.float32(b), np.float32(dt)
        tt = float(bf) + float(df) * np.arange(n)
        lim = 3e-7 * (abs(float(bf)) + float(df) * n)
        G.must(np.all(np.abs(t[:, 0] - tt) <= lim), "time", f"sac2asc: times {t[:3, 0].tolist()}.., expected {tt[:3].tolist()}.. (b={b}, delta={dt}, {n} samples)")
        G.must(eq(t[:, 1], v.astype(float)), "value", f"sac2asc: {first(t[:, 1], v.astype(float))}")
        return dict(nontrivial=n > 1, tags=["sac"] + ["other byte order"] * c["swap"])
    dt = PRAW if c["kind"] == "PTAM" else RAW
    a = np.zeros(n, dt)
    for x in dt.names:
        v = values(rng, n)
        a[x] = v + 1j * values(rng, n) if a[x].dtype.kind == "c" else v
    fn = d + c["kind"] + c["name"]
    a.tofile(fn)
    h, t = table(G.run(["ker2asc", fn]).out)
    want = []
    cols = []
    for x in dt.names:
        want.append({"C": "c", "K": "k"}.get(c["kind"]) if x == "x" else x)
        cols += [a[x].real, a[x].imag] if a[x].dtype.kind == "c" else [a[x]]
    # the comment sign takes the place of the first character of the padded first name
    G.must(h == want, "names", f"ker2asc: columns {h}, expected {want}")
    G.must(len(t) == n, "rows", f"ker2asc prints {len(t)} rows of {n}")
    if n:
        G.must(eq(np.array(t), np.array(cols).T), "value", f"ker2asc {fn}: {first(np.array(t).ravel(), np.array(cols).T.ravel())}")
    out = pyapi.call("import contextlib, io\nd = (utils.read_statsfile if not a['p'] else lambda f: utils.read_statsfile_ptam(f)[2])(a['f'])\nout['n'] = list(d.dtype.names)\nout['v'] = [d[x] for x in d.dtype.names]", dict(f=fn, p=False)) if c["kind"] != "PTAM" else None
    if out:
        G.must(out["n"] == want, "names", f"read_statsfile: columns {out['n']}")
        for x, y in zip(dt.names, out["v"]):
            y = pyapi.arr(y)
            G.must(np.array_equal(y.ravel(), a[x]) if n else len(y) == 0, "value", f"read_statsfile: column {x} differs from the file")
    return dict(nontrivial=n > 1, tags=[c["kind"]])


def first(a, b):
    a, b = np.ravel(a), np.ravel(b)
    if a.shape != b.shape:
        return f"shape {a.shape} instead of {b.shape}"
    j = [i for i in range(len(a)) if not eq(a[i:i + 1], b[i:i + 1])]
    return f"{a[j[0]]!r} at {j[0]} instead of {b[j[0]]!r}" if j else "?"


# ------------------------------------------------------------------ dispersion tables
def gen_disp(rng):
    rows = N.model(rng, 2, 4, None, "none")
    h = [r[0] for r in rows]
    rows.sort(key=lambda r: r[2])
    for r, t in zip(rows, h):
        r[0] = t
    df = float(rng.choice([0.1, 0.25, 0.5, 0.2]))
    n = int(rng.integers(3, 12))
    sel = []
    for _ in range(4):
        F = str(rng.choice(["", "one", "range", "list", "miss"]))
        M = str(rng.choice(["", "all", "one", "range", "list"]))
        sel.append(dict(F=F, M=M, i=int(rng.integers(1, n + 1)), j=int(rng.integers(0, n)), d=int(rng.integers(1, 4)), a=int(rng.integers(0, 4)), b=int(rng.integers(0, 5)), s=int(rng.integers(1, 3)), p=bool(rng.random() < 0.4), off=bool(rng.random() < 0.3)))
    return dict(rows=rows, love=bool(rng.random() < 0.5), df=df, n=n, per=bool(rng.random() < 0.3), sel=sel, u=bool(rng.random() < 0.6))


def run_disp(c, wd):
    os.chdir(wd)
    rows = c["rows"]
    if any(r[0] <= 0 for r in rows[:-1]) or any(r[1] < 1.2 * r[2] for r in rows) or c["df"] <= 0 or c["n"] < 1 or not c["sel"]:
        raise Skip
    G.write_model("mod", rows)
    df, n = c["df"], int(c["n"])
    val = [round(df * (i + 1), 9) for i in range(n)]            # frequencies, or periods
    spec = f"-F{df!r}/{val[-1]!r}/{df!r}" if n > 1 else f"-F{df!r}"
    p = G.run(["eigenv", "-Mmod", "-Cc.nc", "-S" + ("L" if c["love"] else "R"), "-N", "-s", spec + "+p" * c["per"]], ok=False)
    if p.returncode or not os.path.exists("c.nc"):
        raise Skip
    d = G.Nc("c.nc") if os.path.getsize("c.nc") > 64 else None
    if d is None or not np.any(d["cnum"] > 0):
        raise Skip                                              # no mode at all
    fn, opt = "c.nc", "-C"
    if c["u"]:
        if G.run(["eigenfn", "-Cc.nc", "-Uu.nc", "-N"], ok=False).returncode:
            raise Skip
        d2 = G.Nc("u.nc")
        G.must(np.array_equal(d2["freq"], d["freq"]) and np.array_equal(d2["c"][:, :d["c"].shape[1]], d["c"], equal_nan=True) if d2["c"].shape == d["c"].shape else False, "group", "the group velocity file has other phase velocities")
        d, fn, opt = d2, "u.nc", "-U"
    fr = sorted(1 / v for v in val) if c["per"] else val
    G.must(len(d["freq"]) == n and np.allclose(d["freq"], fr, rtol=1e-9), "freq", f"eigenv {spec}: frequencies {d['freq'].tolist()}")
    last = d["u" if c["u"] else "ciref"]
    nontriv = False
    for s in c["sel"]:
        a = [opt + fn]
        i = min(max(1, int(s["i"])), n)
        j = min(i + max(0, int(s["j"])), n)
        D, per = max(1, int(s["d"])), bool(s["p"]) != bool(c["per"]) and s["F"] != "list" or bool(c["per"])
        inv = per != bool(c["per"])                            # selected in the other unit than computed
        v = [(1 / x if inv else x) for x in val]
        h = 0.4 * df if s["off"] and not inv else 0.0
        if s["F"] == "one":
            use = [i]
            a.append(f"-F{v[i - 1]!r}")
        elif s["F"] == "miss":
            use = []                                           # next to a value, but not one
            a.append(f"-F{round(v[i - 1] + df * (0.003 if not inv else 0.0) + (1e-4 * v[i - 1] if inv else 0.0), 12)!r}")
        elif s["F"] == "range":
            use = list(range(i, j + 1))
            lo, hi = sorted([v[i - 1] - h, v[j - 1] + h])
            a.append(f"-F{round(lo, 12)!r}/{round(hi, 12)!r}" if not inv else f"-F{lo!r}/{hi!r}")
        elif s["F"] == "list":
            use = list(range(i, j + 1, D))
            a.append(f"-F{v[i - 1]!r}/{round(v[j - 1] + h * 0.9, 12)!r}/{round(D * df, 9)!r}")
        else:
            use = list(range(1, n + 1))
        if s["F"] and per:
            a[-1] += "+p"
        fs = sorted((1 / val[q - 1] if c["per"] else val[q - 1]) for q in use)
        ma, mb, ms = int(s["a"]), int(s["a"]) + int(s["b"]), max(1, int(s["s"]))
        modes = {"": [0], "all": None, "one": [ma], "range": range(ma, mb + 1), "list": range(ma, mb + 1, ms)}[s["M"]]
        if s["M"]:
            a.append("-N" + {"all": "", "one": f"{ma}", "range": f"{ma}/{mb}", "list": f"{ma}/{mb}/{ms}"}[s["M"]])
        want = []
        for k, f in enumerate(d["freq"]):
            if any(abs(f - x) <= 1e-9 * x for x in fs):
                for m in range(int(d["cnum"][k])):
                    if modes is None or m in modes:
                        want.append([f, m, d["c"][k, m], last[k, m]])
        p = G.run(["disp2asc"] + a, ok=False)
        if p.returncode and not want:
            continue
        G.must(p.returncode == 0, "error", f"disp2asc {' '.join(a)}: {p.err[-200:]}")
        t = table(p.out)[1]
        G.must([(x[0], x[1]) for x in t] == [(float(f"{x[0]:.5e}"), x[1]) for x in want], "rows", f"disp2asc {' '.join(a)}: frequencies and orders {[(x[0], x[1]) for x in t][:6]}.. ({len(t)}), expected {[(x[0], x[1]) for x in want][:6]}.. ({len(want)})")
        if want:
            G.must(eq(np.array(t)[:, 2:], np.array(want, float)[:, 2:]), "value", f"disp2asc {' '.join(a)}: {first(np.array(t)[:, 2:], np.array(want, float)[:, 2:])}")
            nontriv |= len(want) > 1
    return dict(nontrivial=nontriv, tags=["love" if c["love"] else "rayleigh"] + ["group"] * c["u"] + ["period"] * c["per"])


# ------------------------------------------------------------------ records of the integration
def gen_rec(rng):
    st = bool(rng.random() < 0.4)
    rows = N.model(rng, 1, 5, None, "none", hmax=5.0)
    for _ in range(50):
        zs, zr = N.depth(rng, rows), N.depth(rng, rows)
        if abs(zs - zr) >= 0.25:
            break
    nt = int(rng.integers(8, 25))
    c = dict(static=st, rows=rows, zs=zs, zr=zr, rs=sorted({N.rnd(N.log_uniform(rng, 1, 30), 3) for _ in range(int(rng.integers(1, 4)))}), conv=str(rng.choice(["n", "n", "p", ""])), e=bool(rng.random() < 0.4),
             L=N.rnd(rng.uniform(8, 20), 3), k0=N.rnd(rng.uniform(3, 8), 3), filon="" if rng.random() < 0.6 else (f"+l{N.rnd(rng.uniform(8, 20), 3)}" if rng.random() < 0.5 else "+a0.01") + f"+o{N.rnd(rng.uniform(2, 10), 3)}")
    if not st:
        c.update(nt=nt, dt=N.rnd(rng.uniform(0.1, 0.6), 3), zeta=N.rnd(rng.uniform(0.4, 3), 3), idx=[] if rng.random() < 0.2 else sorted({int(x) for x in rng.integers(1, nt // 2 + 1, 3)}))
    if c["conv"] == "p":
        c["filon"] = ""
    return c


def run_rec(c, wd):
    os.chdir(wd)
    rows, zs, zr, rs = c["rows"], c["zs"], c["zr"], c["rs"]
    if any(r[0] <= 0 for r in rows[:-1]) or any(r[1] < 1.2 * r[2] for r in rows) or abs(zs - zr) < 0.2 or any(b <= a for a, b in zip(rs, rs[1:])) or rs[0] <= 0:
        raise Skip
    if any(0 < abs(z - t) < 1e-6 for z in (zs, zr) for t in N.interfaces(rows)):
        raise Skip
    G.write_model("mod", rows)
    a = ["-Mmod", f"-D{zs!r}/{zr!r}", "-R" + ",".join(map(repr, rs)), f"-L{c['L']}{c['filon']}", f"-K+k{c['k0']}+f"] + ["-C" + c["conv"]] * bool(c["conv"]) + ["-e"] * c["e"]
    if c["static"]:
        p = G.run(["static", "greenfn", "-Og.nc", "-S"] + a)
        base, freqs, suf = "stgrtstats", [0.0], [""]
    else:
        nt, dt = c["nt"], c["dt"]
        idx = c["idx"] or list(range(1, nt // 2 + 1))
        if min(idx) < 1 or max(idx) > nt // 2 or dt <= 0:
            raise Skip
        G.run(["greenfn", "-OB", f"-N{nt}/{dt!r}+w{c['zeta']}+a", "-S" + ",".join(map(str, c["idx"])), "-s"] + a)
        base, freqs = "B_grtstats", [i / (nt * dt) for i in idx]
        suf = [f"_{i:04d}_{f:.5e}" for i, f in zip(idx, freqs)]
    D = glob.glob(base + "/mod_*")
    G.must(len(D) == 1, "files", f"{base}: {os.listdir(base) if os.path.isdir(base) else 'missing'}")
    D = D[0]
    have = sorted(x for x in os.listdir(D) if x.startswith("K"))
    if not c["static"] and not c["idx"]:
        have = [x for x in have if not x.startswith("K_0000_")]
    G.must(have == sorted("K" + s for s in suf), "files", f"{D}: records {have}, expected {['K' + s for s in suf]}")
    sub = sorted(x for x in os.listdir(D) if x.startswith("PTAM"))
    G.must(sub == ([f"PTAM_{i:04d}_{r:.5e}" for i, r in enumerate(rs)] if c["conv"] == "p" else []), "files", f"{D}: {sub}")
    w = 2 * np.pi * np.array(freqs)
    worst = 0.0
    for f, x in zip(w, suf):
        a = np.fromfile(f"{D}/K{x}", RAW)
        G.must(len(a) * RAW.itemsize == os.path.getsize(f"{D}/K{x}") and len(a) > 0, "size", f"K{x} has {os.path.getsize(f'{D}/K{x}')} bytes")
        k = a["x"]
        G.must(np.all(np.diff(k) > 0), "axis", f"K{x}: wavenumbers not ascending")
        parts = [("K" + x, a)]
        for s in sub:
            b = np.fromfile(f"{D}/{s}/K{x}", RAW)
            G.must(len(b) > 0 and np.all(np.diff(b["x"]) > 0) and b["x"][0] > k[-1], "axis", f"{s}/K{x}: wavenumbers {b['x'][:3].tolist()}.. do not continue {k[-1]!r}")
            parts.append((f"{s}/K{x}", b))
        if c["static"]:
            om = None
        else:
            om = f - 1j * c["zeta"] * np.pi / (c["nt"] * c["dt"])
        fac = None
        off = 3 if c["e"] else 0            # with -e the derivatives are recorded
        for name, b in parts:
            sel = np.unique(np.linspace(0, len(b) - 1, 12).astype(int))
            kk = b["x"][sel]
            sel = sel[(kk * abs(zs - zr) < 25) & (kk * max(r[1] for r in rows) < (60 * abs(om) if om is not None else np.inf))]
            if not len(sel):
                continue
            kk = b["x"][sel]
            R = refs.layered_kernels(rows, zs, zr, kk, None if om is None else np.full(len(kk), om), None if om is None else 2 * np.pi * (c["nt"] // 2) / (c["nt"] * c["dt"]), "f", "H")
            # records are kept before the constant of the source medium is applied
            x1, x2 = np.concatenate([b[f"{s}_{q}"][sel] for s, q in KEYS]), np.concatenate([R[s][off + "qwv".index(q)] for s, q in KEYS])
            if fac is None:
                fac = np.vdot(x2, x1) / np.vdot(x2, x2)
                if om is not None:
                    want = -4 * np.pi * rows[N.layer_at(rows, zs)][3] * om * om
                    G.must(abs(fac / want - 1) < 1e-3, "factor", f"{name}: the records are {fac:.6g} times the response, expected {want:.6g}")
            fl = {n: abs(fac) * np.max([np.abs(R[s][off:off + 3]) for s in ss], axis=(0, 1)) for n, ss in (("M", ("EX", "DD", "DS", "SS")), ("F", ("VF", "HF")))}
            for s in refs.SRC:
                R[s] = R[s] * fac
                ps, sh = np.maximum(np.abs(R[s][off]), np.abs(R[s][off + 1])), np.abs(R[s][off + 2])
                for j, q in enumerate("qwv"):
                    if f"{s}_{q}" not in RAW.names:
                        continue
                    sc = ps if j < 2 else sh
                    err = np.abs(b[f"{s}_{q}"][sel] - R[s][off + j])
                    lim = 3e-4 * sc + 1e-7 * fl["F" if s in ("VF", "HF") else "M"]
                    if not np.all(err <= lim):
                        i = int(np.argmax(err / lim))
                        raise Violation("record", f"{name}: {s}_{q} at k={kk[i]!r}: {b[f'{s}_{q}'][sel][i]:.9g}, the kernel is {R[s][off + j][i]:.9g}")
        if c["static"]:
            res = G.Nc("g.nc")
            for i, r in enumerate(rs):
                if c["conv"] == "p":
                    t = np.fromfile(f"{D}/{sub[i]}/PTAM", PRAW)
                    G.must(len(t) > 3, "size", f"{sub[i]}/PTAM: {len(t)} rows")
                    m = {}
                    for s, v in PKEYS:
                        y = t[f"sum_{s}_{v}"].copy()
                        G.must(np.all(np.diff(t[f"sum_{s}_{v}_k"]) > 0), "axis", f"{sub[i]}/PTAM: extremes of {s}_{v} not ascending")
                        while len(y) > 1:
                            y = (y[1:] + y[:-1]) / 2
                        m[s, v] = y[0].real
                    pred = {}
                    for s in refs.SRC:
                        pred[s + "Z"], pred[s + "R"] = -m[s, 2], m[s, 0] + m.get((s, 1), 0.0)
                        if refs.MORD[s]:
                            pred[s + "T"] = m[s, 3] - m[s, 1]
                    lim = 1e-7
                else:
                    if c["filon"] or c["conv"] == "" or not np.allclose(k, dk0(k) * (1 + np.arange(len(k))), rtol=1e-9):
                        continue
                    H = refs.hankel({s: np.array([a[f"{s}_{q}"] if f"{s}_{q}" in RAW.names else 0 * k for q in "qwv"] * 2) for s in refs.SRC}, k, np.full(len(k), dk0(k)), r, c["e"])
                    pred = {n[1:] if c["e"] else n: v.real for n, v in H.items() if n != "scale" and (n[0] == "z" or not c["e"])}
                    lim = 1e-6
                for fam in (("EX", "DD", "DS", "SS"), ("VF", "HF")):
                    ns = [s + q for s in fam for q in "ZRT" if s + q in pred]
                    x1, x2 = np.array([float(res["z" * c["e"] + n].ravel()[i]) for n in ns]), np.array([pred[n] for n in ns])
                    if fac is None:
                        continue
                    if c["e"] and c["conv"] == "p":
                        x2 = -x2
                    x2 = x2 / fac.real * (dk0(k) if c["conv"] == "p" else 1.0)
                    e = np.abs(x1 - x2) / np.max(np.abs(x1))
                    worst = max(worst, float(np.max(e)))
                    G.must(np.all(e <= lim), "result", f"r={r}: {ns[int(np.argmax(e))]} is {x1[int(np.argmax(e))]:.9g}, the {'extremes' if c['conv'] == 'p' else 'recorded kernels'} give {x2[int(np.argmax(e))]:.9g}")
    return dict(nontrivial=len(rows) > 1, tags=["static" if c["static"] else "dynamic", "conv " + c["conv"]] + ["filon"] * bool(c["filon"]), metric=dict(err=worst))


def dk0(k):
    return float(k[0])


# ------------------------------------------------------------------ Python readers
def gen_read(rng):
    kind = str(rng.choice(["C", "K", "K", "ptam", "write"]))
    rows = N.model(rng, 1, 3, None, "none", hmax=5.0)
    nf = int(rng.integers(1, 13))
    keys = [f"{s}_{q}" for s, q in KEYS]
    return dict(kind=kind, rows=rows, zs=1.25, zr=0.25, nf=nf, df=float(rng.choice([0.1, 0.25, 0.5, 1.0])), f0=bool(rng.random() < 0.5), rs=sorted({N.rnd(rng.uniform(2, 10), 3) for _ in range(int(rng.integers(1, 3)))}),
                nv=int(rng.integers(1, 8)), lo=N.rnd(rng.uniform(0.02, 0.5), 3), hi=N.rnd(rng.uniform(0.5, 0.98), 3), keys=None if rng.random() < 0.5 else [str(x) for x in rng.permutation(keys)[:int(rng.integers(1, 6))]],
                bad=str(rng.choice(["", "", "", "", "order", "low", "high", "none"])), static=bool(rng.random() < 0.4), e=bool(rng.random() < 0.3), n=int(rng.integers(1, 5)), seed=int(rng.integers(1 << 30)))


READ = """
import contextlib, io
d = utils.read_kernels_freqs(a['dir'], None if a['vels'] is None else np.array(a['vels']), a['keys'])
out['keys'] = sorted(d)
out['d'] = d
"""


def run_read(c, wd):
    os.chdir(wd)
    rows, zs, zr, rs = c["rows"], c["zs"], c["zr"], c["rs"]
    if any(r[0] <= 0 for r in rows[:-1]) or any(r[1] < 1.2 * r[2] for r in rows) or abs(zs - zr) < 0.2 or any(b <= a for a, b in zip(rs, rs[1:])) or rs[0] <= 0 or c["df"] <= 0 or c["nf"] < 1:
        raise Skip
    G.write_model("mod", rows)
    kind, nf, df = c["kind"], max(2, int(c["nf"])), c["df"]
    if kind == "write":
        return run_write(c)
    if kind == "ptam":
        return run_ptam(c)
    if kind == "C":
        vmx = max(r[1] for r in rows)
        G.run(["kernel", "-Mmod", "-OB", f"-D{zs}/{zr}", f"-F{0.0 if c['f0'] else df!r}/{round(nf * df, 9)!r}/{df!r}+w1", f"-C{round(0.5 * vmx, 6)!r}/{round(1.5 * vmx, 6)!r}/{round(0.1 * vmx, 6)!r}"])
        D = glob.glob("B/mod_*")[0]
    else:
        nt = 2 * nf
        G.run(["greenfn", "-OB", "-Mmod", f"-N{nt}/{1 / (nt * df)!r}+w1" + "+a" * c["f0"], f"-D{zs}/{zr}", "-R" + ",".join(map(repr, rs)), "-S", "-L10", "-K+k3", "-Cn", "-s"])
        D = glob.glob("B_grtstats/mod_*")[0]
    fs = {}
    for x in os.listdir(D):
        f = float(x.split("_")[-1])
        if f > 0:
            fs[f] = np.fromfile(D + "/" + x, RAW)
    fr = sorted(fs)
    G.must(len(fr) >= 1, "files", f"{D}: {os.listdir(D)}")
    vels = None
    tags = [kind]
    if kind == "K":
        lo = max(2 * np.pi * f / np.max(fs[f]["x"]) for f in fr)
        hi = min(2 * np.pi * f / np.min(fs[f]["x"]) for f in fr)
        if not lo < hi * 0.9:
            raise Skip
        a, b = sorted([c["lo"], c["hi"]])
        vels = np.linspace(lo + a * (hi - lo), lo + b * (hi - lo), max(1, int(c["nv"])))
        if len(vels) > 1 and np.any(np.diff(vels) <= 0):
            raise Skip
        if c["bad"] == "order":
            vels = np.append(vels, vels[-1] * 0.999)
        elif c["bad"] == "low":
            vels = np.append(lo * 0.9, vels)
        elif c["bad"] == "high":
            vels = np.append(vels, hi * 1.1)
        elif c["bad"] == "none":
            vels = None
    elif c["bad"]:
        vels = np.array([1.0, 2.0])
    q = pyapi.call(READ, dict(dir=D, vels=None if vels is None else vels.tolist(), keys=c["keys"]), ok=False)
    if c["bad"]:
        G.must(not q["ok"] and q["type"] in ("ValueError", "OSError"), "accepted", f"read_kernels_freqs({kind} files, vels {c['bad']}) {'returns' if q['ok'] else q['err']}")
        return dict(nontrivial=True, tags=tags + ["refused"])
    G.must(q["ok"], "exception", f"read_kernels_freqs: {q.get('err')}")
    d = q["out"]["d"]
    keys = c["keys"] if c["keys"] is not None else [f"{s}_{x}" for s, x in KEYS]
    G.must(sorted(d) == sorted(set(keys) | {"_vels", "_freqs"}), "names", f"read_kernels_freqs(ktypes={c['keys']}) returns {sorted(d)}")
    G.must(np.allclose(d["_freqs"], fr, rtol=1e-12) and len(d["_freqs"]) == len(fr), "freqs", f"read_kernels_freqs: frequencies {d['_freqs']}, the files have {fr}")
    G.must(np.array_equal(np.array(d["_vels"], float), vels if vels is not None else fs[fr[0]]["x"]), "vels", f"read_kernels_freqs: velocities {d['_vels']}")
    for x in keys:
        y = pyapi.arr(d[x])
        G.must(y.shape == (len(fr), len(d["_vels"])), "shape", f"{x}: {y.shape}")
        for i, f in enumerate(fr):
            a = fs[f]
            if vels is None:
                G.must(np.array_equal(y[i], a[x]), "value", f"{x} at {f} Hz differs from its file")
            else:
                v = (2 * np.pi * f / a["x"])[::-1]
                w = np.interp(vels, v, a[x].real[::-1]) + 1j * np.interp(vels, v, a[x].imag[::-1])
                G.must(np.all(np.abs(y[i] - w) <= 1e-9 * np.max(np.abs(a[x]))), "value", f"{x} at {f} Hz: {y[i][:3]}, interpolation gives {w[:3]}")
    return dict(nontrivial=len(fr) > 1, tags=tags)


def run_ptam(c):
    zs, zr, rs = c["zs"], c["zr"], c["rs"]
    R = "-R" + ",".join(map(repr, rs))
    if c["static"]:
        G.run(["static", "greenfn", "-Mmod", "-Og.nc", f"-D{zs}/{zr}", R, "-S", "-L10", "-K+k4+f", "-Cp"] + ["-e"] * c["e"])
    else:
        G.run(["greenfn", "-Mmod", "-OB", f"-D{zs}/{zr}", R, "-N8/0.5", "-S1,2", "-L10", "-K+k3", "-Cp", "-s"] + ["-e"] * c["e"])
    n = 0
    for fn in sorted(glob.glob("*/mod_*/PTAM*/PTAM*")):
        o = pyapi.call("import contextlib, io\nx = utils.read_statsfile_ptam(a)\nout['d'] = [[(list(y.dtype.names)), [y[z] for z in y.dtype.names]] for y in x[:3]]\nout['r'] = x[3]", fn)
        D = os.path.dirname(fn)
        K = os.path.basename(fn).replace("PTAM", "K")
        w = [np.fromfile(os.path.join(os.path.dirname(D), K), RAW), np.fromfile(os.path.join(D, K), RAW), np.fromfile(fn, PRAW)]
        G.must(any(abs(o["r"] - float(f"{r:.5e}")) < 1e-12 * r for r in rs) and int(os.path.basename(D).split("_")[1]) == [float(f"{r:.5e}") for r in rs].index(o["r"]), "dist", f"read_statsfile_ptam({fn}): distance {o['r']}")
        for (names, cols), a in zip(o["d"], w):
            G.must(names == [x if x != "x" else "k" for x in a.dtype.names], "names", f"read_statsfile_ptam({fn}): {names}")
            for x, y in zip(a.dtype.names, cols):
                G.must(np.array_equal(pyapi.arr(y).ravel(), a[x]), "value", f"read_statsfile_ptam({fn}): {x} differs")
        h, t = table(G.run(["ker2asc", fn]).out)
        cols = []
        for x in PRAW.names:
            cols += [w[2][x].real, w[2][x].imag] if w[2][x].dtype.kind == "c" else [w[2][x]]
        G.must(h == list(PRAW.names) and eq(np.array(t), np.array(cols).T), "value", f"ker2asc {fn} differs from the file")
        n += 1
    G.must(n == len(rs) * (1 if c["static"] else 2), "files", f"{n} PTAM records")
    return dict(nontrivial=True, tags=["ptam"])


def run_write(c):
    rng = np.random.default_rng(c["seed"])
    n = int(rng.integers(2, 200))
    names = [str(x) for x in rng.permutation(["Z", "R", "T", "N", "E", "zZ", "zR", "rT", "EXZ", "HFT"])[:max(1, int(c["n"]))]]
    data = [(rng.normal(size=n) * 10.0 ** rng.uniform(-30, 10)) for _ in names]
    hd = dict(b=N.rnd(rng.uniform(-50, 50), 5), dist=N.rnd(rng.uniform(0, 500), 5), az=N.rnd(rng.uniform(0, 360), 5), user1=N.rnd(rng.uniform(1, 9), 5), evdp=N.rnd(rng.uniform(0, 9), 5))
    dt = N.rnd(10 ** rng.uniform(-3, 1), 5)
    pyapi.call("""
st = obspy.Stream()
for nm, v in zip(a['names'], a['data']):
    t = obspy.Trace(np.array(v), dict(delta=a['dt'], channel=nm))
    t.stats.sac = dict(a['hd'])
    st.append(t)
utils.stream_write_sac(st, a['dir'])
""", dict(names=names, data=[v.tolist() for v in data], dt=dt, hd=hd, dir="out/deep"))
    G.must(sorted(os.listdir("out/deep")) == sorted(x + ".sac" for x in names), "files", f"stream_write_sac writes {os.listdir('out/deep')}, channels {names}")
    for nm, v in zip(names, data):
        s = G.Sac(f"out/deep/{nm}.sac")
        G.must(s.npts == n and np.array_equal(s.d, v.astype("<f4").astype(float)), "value", f"stream_write_sac: {nm} differs")
        G.must(abs(s.h("delta") - dt) <= 1e-6 * dt and all(abs(s.h(x) - hd[x]) <= 1e-6 * abs(hd[x]) + (2e-3 if x == "b" else 1e-6) for x in hd), "header", f"stream_write_sac: {nm}: {[(x, s.h(x), hd[x]) for x in hd]}")
    return dict(nontrivial=True, tags=["write"])


SUBS = [Sub("ascii", gen_ascii, run_ascii, 600, 6000, rule="more than one row"),
        Sub("disp", gen_disp, run_disp, 150, 2000, rule="a selection with more than one row"),
        Sub("records", gen_rec, run_rec, 150, 2000, rule="layered model"),
        Sub("read", gen_read, run_read, 150, 1500, rule="every case")]
