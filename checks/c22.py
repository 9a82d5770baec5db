"""Number lists, ranges and files mean the same on every option; values outside the documented domain are refused."""
import os, re
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N

PROP = "C22"
LEVEL = "exploration"
ASSUMPTIONS = ["decimal numbers with at most seven decimals; the end of a range belongs to it when it is a whole number of steps away in decimal arithmetic",
               "a refused command ends with exit code 1 and a message; outputs that an earlier command wrote are not touched"]
ROWS = [[1.0, 3.0, 1.6, 2.2], [3.0, 5.0, 2.8, 2.6], [0.0, 6.5, 3.7, 2.9]]


# ------------------------------------------------------------------ ranges
def dec(i, p, style=0):
    """integer * 10^-p as text"""
    s = f"{abs(i):0{p + 1}d}"
    t = s[:-p] + "." + s[-p:] if p else s
    if style == 1 and "." in t:
        t = t.rstrip("0").rstrip(".")
    elif style == 2 and "." not in t:
        t += ".0"
    elif style == 3:
        t = (repr(float(t)) if p < 5 else t) + "e0"
    return "-" * (i < 0) + t


OPTS = {
    # option: (lowest start, greatest number of values, may be zero, units of the last value)
    "travt -R": (0, 40, 1e4), "greenfn -R": (1, 4, 300), "greenfn -Ds": (0, 4, 30), "greenfn -Dr": (0, 4, 30),
    "static greenfn -X": (-1, 12, 100), "static greenfn -Y": (-1, 12, 100), "static greenfn -R": (0, 12, 100),
    "static greenfn -Ds": (0, 5, 30), "static greenfn -Dr": (0, 5, 30), "okada -X": (-1, 40, 1000), "okada -Y": (-1, 40, 1000),
    "static syn -X": (-1, 20, 8), "static syn -Y": (-1, 20, 8), "lamb1 -T": (0, 40, 3), "kernel -F": (0, 6, 20), "kernel -C": (1, 40, 20),
    "kernel -C1": (1, 40, 2), "eigenv -F": (0, 5, 2), "eigenv -Fp": (1, 5, 20), "eigenfn -W": (0, 30, 10), "modsum -R": (1, 6, 500),
    "modsum -Ds": (0, 3, 10), "modsum -Dr": (0, 3, 10), "eigenfn -F": (0, 5, 2), "disp2asc -F": (0, 5, 2),
}
LISTS = ["travt -R", "greenfn -R", "greenfn -Ds", "greenfn -Dr", "static greenfn -R", "static greenfn -Ds", "static greenfn -Dr",
         "modsum -R", "modsum -Ds", "modsum -Dr"]


def gen(rng):
    o = str(rng.choice(list(OPTS)))
    lo, nmax, top = OPTS[o]
    p = int(rng.integers(0, 5))
    if o.startswith(("static greenfn", "okada", "static syn", "eigenfn -W")) and rng.random() < 0.3:
        p = int(rng.integers(5, 8))         # these record all digits
    q = 10 ** p
    n = int(rng.integers(1, nmax + 1))
    d = max(1, int(N.log_uniform(rng, 1, max(2, top * q / n))))
    if rng.random() < 0.4:
        d = int(rng.choice([1, 2, 3, 5, 7]))
    n = max(1, min(n, int(top * q / d)))
    span = (n - 1) * d
    room = max(int(top * q) - span, 1)
    a = int(rng.integers(-room, room)) if lo < 0 else int(rng.integers(0, room + 1)) if rng.random() < 0.6 else 0
    if lo > 0:
        a = max(a, 1)
    if o in ("eigenv -F", "kernel -F", "eigenfn -F", "disp2asc -F"):
        a = 0 if rng.random() < 0.3 else max(a, 1)
        if o in ("eigenv -F", "eigenfn -F", "disp2asc -F") and d < q / 50:
            d = max(1, q // 50)
    ex = 0 if rng.random() < 0.6 else int(rng.integers(0, d))
    return dict(o=o, p=p, a=a, d=d, n=n, ex=ex, style=int(rng.choice([0, 0, 1, 2, 3])), form=str(rng.choice(["range", "list", "file"])),
                other=int(rng.integers(0, 3)), nl=int(rng.integers(0, 2)), crlf=bool(rng.random() < 0.2))


def want_int(c):
    a, d, n = c["a"], c["d"], c["n"]
    x = [a + i * d for i in range(n)]
    if c["o"] in ("kernel -F", "eigenv -F", "eigenfn -F", "disp2asc -F") and a == 0 and x:
        x = x[1:]                       # documented: zero frequency is left out
    return x


def command(c, val, wd, out):
    """run the command with the value text; returns the values it used, in order, and its results"""
    o, k = c["o"], c["other"]
    cmd, opt = o.rsplit(" ", 1)
    if cmd == "travt":
        t = G.run(["travt", "-Mmod", f"-D{k}.5/0", f"-R{val}"], cwd=wd).out
        x = [l.split() for l in t.splitlines() if re.match(r"\s*[0-9.eE+-]+\s+\S+\s+\S+\s*$", l)]
        return [float(r[0]) for r in x], [[float(y) for y in r[1:]] for r in x]
    if cmd == "greenfn":
        a = {"-R": "-R5.5", "-Ds": "-Ds1.25", "-Dr": "-Dr0.5"}
        a[opt] = opt + val
        G.run(["greenfn", "-Mmod", "-N8/0.5", "-L15", "-K+k3+s1.01", f"-O{out}"] + list(a.values()), cwd=wd)
        return sacs(f"{wd}/{out}", opt)
    if cmd == "static greenfn":
        if opt in ("-X", "-Y"):
            a = {"-X": "-X1/1/1", "-Y": f"-Y2/{2 + k}/1", "-D": "-D2/0"}
        else:
            a = {"-R": "-R3.5", "-Ds": "-Ds1.25", "-Dr": "-Dr0.5"}
        a[opt] = opt + val
        G.run(["static", "greenfn", "-Mmod", "-L15", f"-O{out}.nc"] + list(a.values()), cwd=wd)
        nc = G.Nc(f"{wd}/{out}.nc")
        v = {"-X": "north", "-Y": "east", "-R": "east", "-Ds": "source_depth", "-Dr": "receiver_depth"}[opt]
        if v not in nc:
            v = {"source_depth": "depsrc", "receiver_depth": "deprcv"}.get(v, v)
        return list(map(float, np.atleast_1d(nc[v]))), {q: y for q, y in nc.v.items() if y.dtype.kind == "f" and y.ndim >= 2}
    if cmd == "okada":
        a = {"-X": "-X1/1/1", "-Y": f"-Y2/{2 + k}/1"}
        a[opt] = opt + val
        G.run(["okada", "-I6/3.4/2.7", "-Dr0", "-Ds2", "-S1e24", "-M30/40/50", f"-O{out}.nc"] + list(a.values()), cwd=wd)
        nc = G.Nc(f"{wd}/{out}.nc")
        return list(map(float, nc[{"-X": "north", "-Y": "east"}[opt]])), {}
    if cmd == "static syn":
        G.run(["static", "greenfn", "-Mmod", "-L15", "-Olib.nc", "-D2/0", "-R0.5/20/3"], cwd=wd)
        a = {"-X": "-X1/1/1", "-Y": f"-Y2/{2 + k}/1"}
        a[opt] = opt + val
        G.run(["static", "syn", "-Glib.nc", "-S1e24", "-M30/40/50", f"-O{out}.nc", "-s"] + list(a.values()), cwd=wd)
        nc = G.Nc(f"{wd}/{out}.nc")
        return list(map(float, nc[{"-X": "north", "-Y": "east"}[opt]])), {}
    if cmd == "lamb1":
        t = G.run(["lamb1", f"-P0.{k + 1}", f"-T{val}", "-A30"], cwd=wd).out
        x = [l.split() for l in t.splitlines() if re.match(r"\s*[0-9]", l)]
        return [float(r[0]) for r in x], {}
    if cmd == "kernel":
        a = {"-F": "-F1/2/1", "-C": "-C1/8/1"}
        a[opt[:2]] = opt[:2] + val
        G.run(["kernel", "-Mmod", f"-D{k}.5/0", f"-O{out}"] + list(a.values()), cwd=wd)
        d = f"{wd}/{out}/mod_{k}.5_0"
        ff = sorted(os.listdir(d))
        fr = [float(x.split("_")[2]) for x in ff]
        if opt == "-F":
            return fr, {}
        # the recorded column is the phase velocity, the files count the frequencies
        r = np.fromfile(f"{d}/{ff[0]}", dtype=[("c", "<f8"), ("v", "<c16", 15)])
        return [float(x) for x in r["c"]], {}
    if cmd == "eigenv":
        G.run(["eigenv", "-Mmod", "-SL", "-s", f"-C{out}.nc", f"-F{val}" + "+p" * opt.endswith("p")], cwd=wd)
        return list(map(float, G.Nc(f"{wd}/{out}.nc")["freq"])), {}
    if cmd in ("eigenfn", "disp2asc"):
        f = ["-F1"] if opt == "-W" else ["-F" + c["all"]]
        G.run(["eigenv", "-Mmod", "-SL", "-s", "-Cc.nc"] + f, cwd=wd)
        if opt == "-W":
            G.run(["eigenfn", "-Cc.nc", f"-We.nc+z{val}", "-Uu.nc"], cwd=wd)
            return list(map(float, np.atleast_1d(G.Nc(f"{wd}/e.nc")["z"]))), {}
        if cmd == "eigenfn":
            G.run(["eigenfn", "-Cc.nc", "-Uu.nc", f"-F{val}"], cwd=wd)
            return list(map(float, np.atleast_1d(G.Nc(f"{wd}/u.nc")["freq"]))), {}
        t = G.run(["disp2asc", "-Cc.nc", f"-F{val}", "-N0"], cwd=wd).out
        return [float(l.split()[0]) for l in t.splitlines() if re.match(r"\s*[0-9]", l)], {}
    if cmd == "modsum":
        G.run(["eigenv", "-Mmod", "-SL", "-s", "-Cc.nc", "-F0/2/0.5"], cwd=wd)
        a = {"-R": "-R5.5", "-Ds": "-Ds1.25", "-Dr": "-Dr0.5"}
        a[opt] = opt + val
        G.run(["modsum", "-Cc.nc", f"-O{out}"] + list(a.values()), cwd=wd)
        return sacs(f"{wd}/{out}", opt)
    raise ValueError(o)


HEAD = {"-R": "dist", "-Ds": "evdp", "-Dr": "stel"}


def sacs(d, opt):
    got = []
    for s in sorted(os.listdir(d)):
        if not os.path.isdir(f"{d}/{s}"):
            continue
        f = {}
        h = None
        for x in sorted(os.listdir(f"{d}/{s}")):
            if x.endswith(".sac"):
                q = G.Sac(f"{d}/{s}/{x}")
                f[x] = q.d
                h = h or {"-R": float(q.h("dist")), "-Ds": float(q.h("evdp")), "-Dr": float(q.h("stel")) / -1000.0}[opt]
        name = s.split("_")
        nv = {"-R": name[-1], "-Ds": name[-3], "-Dr": name[-2]}[opt]
        G.must(abs(float(nv) - h) <= 1e-5 * max(abs(h), 1e-3), "name", f"directory {s} holds results for {opt} {h}")
        got.append((float(nv), f))
    got.sort(key=lambda t: t[0])
    return [g[0] for g in got], {f"{i}/{k}": v for i, g in enumerate(got) for k, v in g[1].items()}


def run(c, wd):
    o, p, a, d, n, ex = c["o"], c["p"], c["a"], c["d"], c["n"], c["ex"]
    lo, nmax, top = OPTS[o]
    if o not in OPTS or not 0 <= p <= 7 or d < 1 or not 1 <= n <= nmax or not 0 <= ex < d:
        raise Skip
    q = 10 ** p
    if (lo >= 0 and a < lo) or abs(a) + (n - 1) * d > 2.01 * top * q:
        raise Skip
    if p > 4 and (abs(a) + (n - 1) * d) / d > 1e6:
        raise Skip                        # the step is not known well enough any more
    want = want_int(c)
    if o == "kernel -F" and len(want) < 2 or not want or o in ("eigenv -F", "eigenfn -F", "disp2asc -F") and want[0] / q < 0.01:
        raise Skip
    if o == "eigenfn -W" and (want[-1] == 0 or a + (n - 1) * d + ex == 0):
        raise Skip                        # documented for depths below the surface
    if o == "kernel -C" and n == 1 and ex == 0:
        raise Skip
    st = c["style"]
    end = a + (n - 1) * d + ex
    rng_text = f"{dec(a, p, st)}/{dec(end, p, st)}/{dec(d, p, st)}"
    if o == "kernel -C1":
        # only the step: 0.8 times the smallest velocity to the greatest
        val, p2 = dec(d, p, st), 4
        x0, x1, dd = 12800, 65000, d * 10 ** (4 - p)
        want, q = list(range(x0, x1 + 1, dd)), 10 ** 4
        if len(want) > 20000:
            raise Skip
    elif o in ("eigenfn -F", "disp2asc -F"):
        # every second frequency of the file or all of them
        c = dict(c, all=rng_text)
        m = 1 + c["other"] % 2
        want = want[::m] if a else [x for x in range(0, end + 1, d * m) if x > 0]
        if not want:
            raise Skip
        if a:
            val = f"{dec(a, p, st)}/{dec(end, p, st)}/{dec(d * m, p, st)}"
        else:
            val = f"0/{dec(end, p, st)}/{dec(d * m, p, st)}"
    else:
        val = rng_text
    G.write_model(f"{wd}/mod", ROWS)
    x, r = command(dict(c, all=rng_text), val, wd, "o1")
    w = [i / q for i in want]
    if o == "eigenv -Fp":
        w = [1 / i for i in w][::-1]
    tol = 2e-5 if o in ("travt -R", "kernel -F", "disp2asc -F", "lamb1 -T") else 1e-9
    G.must(len(x) == len(w), "count", f"{o}{val} stands for {len(w)} values ({w[:3]} ... {w[-1]}), used {len(x)} ({x[:3]} ... {x[-1:]})")
    for i, (s, t) in enumerate(zip(x, w)):
        G.must(abs(s - t) <= tol * max(abs(t), 1e-3 if tol > 1e-6 else 1.0), "value", f"{o}{val}: value {i} is {s!r}, expected {t!r}")
    tags = [o]
    if o in LISTS:
        lst = [dec(i, p, st if st else 0) for i in want]
        if c["form"] == "file":
            with open(f"{wd}/vals.txt", "w", newline="") as f:
                e = "\r\n" if c.get("crlf") else "\n"
                f.write(e.join(lst) + e * c["nl"])
            val2 = "vals.txt"
        else:
            val2 = ",".join(lst)
        x2, r2 = command(c, val2, wd, "o2")
        G.must(len(x2) == len(w), "count", f"{o}{val2} ({lst}) stands for {len(w)} values, used {len(x2)}")
        for i, (s, t) in enumerate(zip(x2, w)):
            G.must(abs(s - t) <= tol * max(abs(t), 1e-3 if tol > 1e-6 else 1.0), "value", f"{o}{val2} ({lst}): value {i} is {s!r}, expected {t!r}")
        if isinstance(r, list):
            G.must(np.allclose(r, r2, rtol=1e-5, atol=1e-6), "forms", f"{o}{val} and {val2} give different results")
        else:
            G.must(sorted(r) == sorted(r2), "forms", f"{o}{val} and {val2} give different sets of results")
            for k in r:
                sc = np.abs(r[k]).max()
                G.must(np.abs(r[k] - r2[k]).max() <= 1e-6 * sc + 1e-30, "forms", f"{o}{val} and {val2} give different {k}")
        tags.append(c["form"])
    return dict(nontrivial=len(w) > 1, tags=tags, metric={"values": float(len(w))})


# ------------------------------------------------------------------ refused values
def bad_list(rng, zero=False):
    v = [round(float(x), 2) for x in np.cumsum(rng.uniform(0.1, 3, 3)) + 0.2]
    k = int(rng.integers(0, 8))
    if k == 0:
        return f"{v[1]},{v[0]},{v[2]}"
    if k == 1:
        return f"{v[0]},{v[0]}"
    if k == 2:
        return f"-{v[0]},{v[1]}"
    if k == 3:
        return f"{v[0]}/{v[2]}/0"
    if k == 4:
        return f"{v[0]}/{v[2]}/-{v[1]}"
    if k == 5:
        return f"{v[2]}/{v[0]}/{v[1]}"
    if k == 6:
        return "no_such_file"
    return f"{v[0]},{v[2]},{v[1]}"


def bad_range(rng):
    v = [round(float(x), 2) for x in np.cumsum(rng.uniform(0.1, 3, 3)) + 0.2]
    return [f"{v[0]}/{v[2]}/0", f"{v[0]}/{v[2]}/-{v[1]}", f"{v[2]}/{v[0]}/{v[1]}", f"{v[0]}/{v[2]}", f"{v[0]}", "x"][int(rng.integers(0, 6))]


def bad_model(rng):
    """one wrong value in an otherwise valid model file"""
    deep = bool(rng.random() < 0.4)
    rows = N.model(rng, 2, 4, True, "none")
    rows = [list(r[:6 if rng.random() < 0.5 else 4]) for r in rows]
    w = min(len(r) for r in rows)
    rows = [r[:w] for r in rows]
    if deep:
        t = N.tops(rows)
        for r, z in zip(rows, t):
            r[0] = z
    i = int(rng.integers(len(rows)))
    v = -round(float(10 ** rng.uniform(-2, 1)), 3)
    k = int(rng.integers(0, 7))
    if k == 0:
        rows[i][1], why = v * (rng.random() < 0.5), "vp"
    elif k == 1:
        rows[i][3], why = v * (rng.random() < 0.5), "density"
    elif k == 2:
        rows[i][2], why = v, "negative vs"
    elif k == 3 and w == 6:
        rows[i][int(rng.integers(4, 6))], why = v * (rng.random() < 0.5), "Q"
    elif k == 4:
        j = int(rng.integers(len(rows) - 1))
        if deep:
            rows[j + 1][0], why = rows[j][0] + v, "depths descend"
        else:
            rows[j][0], why = v, "negative thickness"
    elif k == 5:
        rows[i] = rows[i][:int(rng.choice([1, 2, 3]))]
        why = "too few columns"
    else:
        return str(rng.choice(["", "# only a comment\n", "a b c d\n", "1 2\n"])), "no model"
    return "".join(" ".join(repr(float(x)) for x in r) + "\n" for r in rows), why


def out_of(rng, lo, hi):
    return f"{round(float(rng.choice([lo - 10 ** rng.uniform(-2, 2), hi + 10 ** rng.uniform(-2, 2)])), 3)}"


def inside(rng, lo, hi):
    return f"{round(float(rng.uniform(lo, hi)), 2)}"


def neg(rng):
    return f"{-round(float(10 ** rng.uniform(-2, 2)), 3)}"


def nonpos(rng):
    return "0" if rng.random() < 0.4 else neg(rng)


def mech(rng):
    k = int(rng.integers(0, 4))
    s, d, r = inside(rng, 0, 360), inside(rng, 0, 90), inside(rng, -180, 180)
    if k == 0:
        return f"{out_of(rng, 0, 360)}/{d}/{r}"
    if k == 1:
        return f"{s}/{out_of(rng, 0, 90)}/{r}"
    if k == 2:
        return f"{s}/{d}/{out_of(rng, -180, 180)}"
    return [f"{s}", f"{s}/x/{r}", "x"][int(rng.integers(0, 3))]


BASE = {
    "travt": ["-Mmod", "-D1.5/0", "-R1,2,3"],
    "greenfn": ["-Mmod", "-D1.5/0", "-R1,2,3", "-N8/0.5", "-L15", "-K+k3+s1.01", "-Oout"],
    "static greenfn": ["-Mmod", "-D1.5/0", "-X1/2/1", "-Y1/2/1", "-L15", "-Oout.nc"],
    "kernel": ["-Mmod", "-D1.5/0", "-F1/2/1", "-C1/8/1", "-Oout"],
    "lamb1": ["-P0.25", "-T0/1/0.5", "-A30"],
    "okada": ["-I6/3.4/2.7", "-Dr0", "-Ds2", "-S1e24", "-M30/40/50", "-X1/2/1", "-Y1/2/1", "-Oout.nc"],
    "eigenv": ["-Mmod", "-SL", "-s", "-Cout.nc", "-F1/2/1"],
    "eigenfn": ["-Clib/c.nc", "-Wout.nc+z1/2/1", "-N0", "-F1"],
    "disp2asc": ["-Clib/c.nc", "-N0", "-F1"],
    "modsum": ["-Clib/m.nc", "-R5.5", "-D1.5/0", "-Oout", "-N0"],
    "syn": ["-Glib/grn/mod_1.5_0_5.5", "-A30", "-S1e24", "-M30/40/50", "-Oout", "-s"],
    "static syn": ["-Glib/s.nc", "-S1e24", "-M30/40/50", "-Oout.nc", "-s"],
}
REQUIRED = {"travt": "MDR", "greenfn": "MDRNO", "static greenfn": "MDXYO", "kernel": "MDFCO", "lamb1": "PTA", "okada": "IXYO", "eigenv": "MSCF", "eigenfn": "C",
            "disp2asc": "C", "modsum": "CRDO", "syn": "GASO", "static syn": "GSO"}
# command, options taken away, options added by a function of the generator
REFUSE = [
    ("travt", "R", lambda r: ["-R" + bad_list(r)]), ("greenfn", "R", lambda r: ["-R" + bad_list(r)]), ("modsum", "R", lambda r: ["-R" + bad_list(r)]),
    ("static greenfn", "XY", lambda r: ["-R" + bad_list(r)]),
    ("greenfn", "D", lambda r: ["-Ds" + bad_list(r), "-Dr0"]), ("greenfn", "D", lambda r: ["-Ds1", "-Dr" + bad_list(r)]),
    ("static greenfn", "D", lambda r: ["-Ds" + bad_list(r), "-Dr0"]), ("static greenfn", "D", lambda r: ["-Ds1", "-Dr" + bad_list(r)]),
    ("modsum", "D", lambda r: ["-Ds" + bad_list(r), "-Dr0"]), ("modsum", "D", lambda r: ["-Ds1", "-Dr" + bad_list(r)]),
] + [(m, "D", f) for m in ("greenfn", "static greenfn", "modsum") for f in
     (lambda r: [f"-D{neg(r)}/0"], lambda r: [f"-D1/{neg(r)}"], lambda r: ["-D1"], lambda r: ["-Ds1"], lambda r: ["-Dr1"], lambda r: ["-D1/0", "-Ds1", "-Dr0"])
     ] + [(m, "D", f) for m in ("travt", "kernel") for f in (lambda r: [f"-D{neg(r)}/0"], lambda r: [f"-D1/{neg(r)}"], lambda r: ["-D1"])
          ] + [(m, a, (lambda a: lambda r: [f"-{a}" + bad_range(r)])(a)) for m in ("static greenfn", "okada", "static syn") for a in "XY"
               ] + [(m, "D", lambda r: [f"-D{round(float(r.uniform(*b[0])), 2)}/{round(float(r.uniform(*b[1])), 2)}" for b in [[((4.1, 9), (0, 3.9)), ((0, 3.9), (4.1, 9)), ((4.1, 9), (4.1, 9))][int(r.integers(0, 3))]]] + ["-B" + "FRH"[int(r.integers(0, 2))]])
                    for m in ("greenfn", "static greenfn", "kernel")] + [
    ("lamb1", "T", lambda r: ["-T" + bad_range(r)]), ("lamb1", "T", lambda r: [f"-T{neg(r)}/1/0.5"]), ("lamb1", "P", lambda r: [f"-P{[out_of(r, 0, 0.5), '0', '0.5'][int(r.integers(0, 3))]}"]),
    ("lamb1", "A", lambda r: ["-A" + out_of(r, 0, 360)]), ("syn", "A", lambda r: ["-A" + out_of(r, 0, 360)]),
    ("syn", "M", lambda r: ["-M" + mech(r)]), ("static syn", "M", lambda r: ["-M" + mech(r)]), ("okada", "M", lambda r: ["-M" + mech(r)]),
    ("syn", "", lambda r: ["-F1/2/3"]), ("syn", "", lambda r: ["-T1/2/3/4/5/6"]), ("syn", "M", lambda r: ["-F1/2/3", "-T1/2/3/4/5/6"]),
    ("static syn", "", lambda r: ["-F1/2/3"]), ("static syn", "", lambda r: ["-T1/2/3/4/5/6"]),
    ("syn", "M", lambda r: ["-F1/2"]), ("syn", "M", lambda r: ["-T1/2/3/4/5"]), ("static syn", "M", lambda r: ["-F1/2"]), ("static syn", "M", lambda r: ["-T1/2/3/4/5"]),
    ("syn", "", lambda r: [f"-I{nonpos(r).split('.')[0]}"]), ("syn", "", lambda r: [f"-J{nonpos(r).split('.')[0]}"]),
    ("syn", "", lambda r: ["-Ds1.5"]), ("syn", "", lambda r: ["-R5.5"]), ("syn", "G", lambda r: ["-Glib/grn", "-R" + inside(r, 6, 50)]),
    ("syn", "G", lambda r: ["-Glib/grn", "-Ds" + inside(r, 2, 50)]), ("syn", "G", lambda r: ["-Glib/none"]), ("syn", "G", lambda r: ["-Glib/grn2"]),
    ("syn", "", lambda r: ["-e"]), ("static syn", "", lambda r: ["-e"]),
    ("syn", "", lambda r: [["-Dt", "-Dt/", "-Dp/x", "-Dr/-1", "-Dt/2/1/3", "-Dx/1", "-D0/lib/none", "-Dp/0", "-Dt/-1/2/3", "-Dr/0"][int(r.integers(0, 10))]]),
    ("static syn", "", lambda r: ["-Ds" + inside(r, 2, 50)]), ("static syn", "", lambda r: ["-Dr" + inside(r, 1, 50)]), ("static syn", "", lambda r: ["-X1/2/1"]),
    ("static syn", "", lambda r: ["-Y1/2/1"]), ("static syn", "", lambda r: ["-X1/1/1", "-Y1/1/1", "-Qlib/pts"]),
    ("static syn", "G", lambda r: ["-Glib/s2.nc"]), ("static syn", "G", lambda r: ["-Glib/s3.nc"]),
    ("kernel", "F", lambda r: [["-F2/1/0.5", "-F1/2/0", "-F1/2/-1", "-F-1/2/1", "-F1/1.5/1", "-F1/2", "-F1/2/1+w0", "-F1/2/1+w-1", "-F1/2/1+x"][int(r.integers(0, 9))]]),
    ("kernel", "C", lambda r: [["-C0", "-C-1", "-C3/2/1", "-C0/2/1", "-C-1/2/1", "-C2/2/1", "-C1/2/0", "-C1/2/-1", "-C1/2"][int(r.integers(0, 9))]]),
    ("greenfn", "N", lambda r: [["-N0/1", "-N8/0", "-N8/-1", "-N-8/0.5", "-N8", "-N8/0.5+w0", "-N8/0.5+w-1", "-N8/0.5+n0", "-N8/0.5+n-1", "-N8/0.5+x"][int(r.integers(0, 10))]]),
    ("greenfn", "", lambda r: [["-H0.5/0.2", "-H1", "-P0", "-P-1", "-Gx", "-E1/-1", "-Ep1", "-Bx", "-Cx", "-S-1", "-H3/1"][int(r.integers(0, 11))]]),
    ("greenfn", "L", lambda r: [["-L15+a1e-2+l15", "-L15+x", "-Lx", "-L20+a"][int(r.integers(0, 4))]]),
    ("static greenfn", "L", lambda r: [["-L15+a1e-2+l15", "-L15+x", "-Lx", "-L20+a"][int(r.integers(0, 4))]]),
    ("greenfn", "K", lambda r: [["-K+k-1", "-K+s-1", "-K+x1", "-K+kx"][int(r.integers(0, 4))]]), ("static greenfn", "", lambda r: [["-K+k-1", "-K+x1", "-Bx", "-Cx"][int(r.integers(0, 4))]]),
    ("greenfn", "RL", lambda r: ["-R0,5", ["-L15+a1e-2", "-L15+l15"][int(r.integers(0, 2))]]),
    ("static greenfn", "XYL", lambda r: ["-R0,5", ["-L15+a1e-2", "-L15+l15"][int(r.integers(0, 2))]]),
    ("eigenv", "F", lambda r: [["-F0", "-F-1", "-F2/1/0.5", "-F1/2/0", "-F1/2/-1", "-F1/2", "-F1/2/1+x", "-F-1/2/1"][int(r.integers(0, 8))]]),
    ("eigenv", "S", lambda r: ["-SX"]), ("eigenv", "", lambda r: [["-N-1", "-X1", "-P0", "-T+x1"][int(r.integers(0, 4))]]), ("eigenv", "F", lambda r: [["-X0", "-X-1", "-X1+c3/2", "-X1+r-1", "-X1+r77"][int(r.integers(0, 5))]]),
    ("eigenfn", "N", lambda r: [["-N-1", "-N2/1", "-N0/1/0", "-N0/1/-1", "-Nx"][int(r.integers(0, 5))]]), ("disp2asc", "N", lambda r: [["-N-1", "-N2/1", "-N0/1/0", "-N0/1/-1", "-Nx"][int(r.integers(0, 5))]]),
    ("modsum", "N", lambda r: [["-N-1", "-N2/1", "-N0/1/0", "-N0/1/-1", "-Nx"][int(r.integers(0, 5))]]),
    ("eigenfn", "F", lambda r: [["-F0", "-F-1", "-F2/1", "-F1/2/0", "-F1/2/-1", "-F1+x", "-Fx"][int(r.integers(0, 7))]]), ("disp2asc", "F", lambda r: [["-F0", "-F-1", "-F2/1", "-F1/2/0", "-F1/2/-1", "-F1+x", "-Fx"][int(r.integers(0, 7))]]),
    ("eigenfn", "W", lambda r: ["-Wout.nc+z" + ["0", "-1", "2/1/0.5", "1/2/0", "1/2/-1", "-1/2/1", "1/2"][int(r.integers(0, 7))]]),
    ("disp2asc", "", lambda r: ["-Ulib/c.nc"]), ("modsum", "", lambda r: [["-F2/1", "-F-1/2", "-F1/-2", "-E1/-1", "-Ep1", "-Gx", "-W0", "-W-1", "-P0"][int(r.integers(0, 9))]]),
    ("modsum", "C", lambda r: ["-Clib/c.nc"]),
    ("okada", "", lambda r: ["-Qlib/pts"]), ("okada", "Ds", lambda r: ["-Ds" + neg(r)]), ("okada", "Dr", lambda r: ["-Dr" + neg(r)]), ("okada", "Ds", lambda r: []),
    ("okada", "S", lambda r: []), ("okada", "X", lambda r: []), ("okada", "", lambda r: ["-Clib/c.inp"]), ("okada", "I", lambda r: [["-I6/3.4", "-Ix", "-I6/3.4/2.7/1"][int(r.integers(0, 3))]]),
]


def take(args, opts):
    o = opts if opts in ("Ds", "Dr") else None
    return [a for a in args if not (a.startswith("-" + o) if o else a[1] in opts)]


def gen_bad(rng):
    c = pick_bad(rng)
    c["args"] = " ".join(c["args"])         # one text: not shortened when a failure is shrunk
    return c


def pick_bad(rng):
    if rng.random() < 0.15:
        cmd = str(rng.choice(list(BASE)))
        k = int(rng.integers(0, 5))
        if k < 2:
            r = str(rng.choice(list(REQUIRED[cmd])))
            if cmd == "okada" and r in "XY" or not take(BASE[cmd], r):
                r = "O" if cmd == "okada" else r
            return dict(cmd=cmd, args=take(BASE[cmd], r), why=f"without -{r}")
        if k == 2:
            return dict(cmd=cmd, args=BASE[cmd] + ["-%"], why="unknown option")
        if k == 3:
            m = [a for a in BASE[cmd] if a[1] in "MGC" and ("mod" in a or "lib" in a)]
            return dict(cmd=cmd, args=[a if a not in m else a[:2] + "missing" for a in BASE[cmd]] if m else BASE[cmd] + ["-%"], why="missing file")
        return dict(cmd=cmd, args=[], why="no options")
    if rng.random() < 0.12:
        cmd = str(rng.choice(["travt", "greenfn", "static greenfn", "kernel", "eigenv"]))
        m, why = bad_model(rng)
        return dict(cmd=cmd, args=take(BASE[cmd], "M") + ["-Mbad"], why=why, bad=m)
    cmd, away, f = REFUSE[int(rng.integers(len(REFUSE)))]
    add = f(rng)
    return dict(cmd=cmd, args=take(BASE[cmd], away) + add, why=" ".join(add))


def tree(d):
    out = []
    for dp, dd, ff in os.walk(d):
        out += [os.path.relpath(os.path.join(dp, x), d) for x in dd + ff]
    return sorted(out)


def setting(wd):
    os.makedirs(f"{wd}/lib")
    for n, r in (("mod", ROWS), ("mod1", [[0.0, 6.0, 3.4, 2.7]])):
        G.write_model(f"{wd}/{n}", r)
    with open(f"{wd}/lib/pts", "w") as f:
        f.write("1 2 0\n3 4 0\n")
    with open(f"{wd}/lib/c.inp", "w") as f:
        f.write("head\nhead\n1 0 0 0 5 100 1 1 45 1 3\n")


def run_bad(c, wd):
    cmd = c["cmd"]
    if cmd not in BASE:
        raise Skip
    setting(wd)
    t = c["args"] + " " + " ".join(BASE[cmd])
    if cmd == "syn":
        G.run(["greenfn", "-Mmod", "-D1.5/0", "-R5.5", "-N8/0.5", "-L15", "-K+k3+s1.01", "-Olib/grn"], cwd=wd)
        if "grn2" in t:
            G.run(["greenfn", "-Mmod", "-D1.5/0", "-R5.5,6", "-N8/0.5", "-L15", "-K+k3+s1.01", "-Olib/grn2"], cwd=wd)
    if cmd == "static syn":
        G.run(["static", "greenfn", "-Mmod", "-D1.5/0", "-X1/3/1", "-Y1/3/1", "-L15", "-Olib/s.nc"], cwd=wd)
        if "s2.nc" in t:
            G.run(["static", "greenfn", "-Mmod", "-Ds1,2", "-Dr0", "-X1/3/1", "-Y1/3/1", "-L15", "-Olib/s2.nc"], cwd=wd)
        if "s3.nc" in t:
            G.run(["static", "greenfn", "-Mmod", "-Ds1", "-Dr0,0.5", "-X1/3/1", "-Y1/3/1", "-L15", "-Olib/s3.nc"], cwd=wd)
    if cmd in ("eigenfn", "disp2asc", "modsum"):
        G.run(["eigenv", "-Mmod", "-SL", "-s", "-Clib/c.nc", "-F1/5/1" + "+p" * (cmd == "modsum")], cwd=wd)
        G.run(["eigenv", "-Mmod", "-SL", "-s", "-Clib/m.nc", "-F0/2/0.5"], cwd=wd)
    p = G.run(cmd.split() + BASE[cmd], ok=False, cwd=wd)
    if p.returncode != 0:
        raise Violation("rejected", f"valid command refused: grt {cmd} {' '.join(BASE[cmd])}: {(p.err + p.out)[-200:]}")
    import shutil
    for x in ("out", "out.nc"):
        q = f"{wd}/{x}"
        shutil.rmtree(q) if os.path.isdir(q) else os.path.exists(q) and os.remove(q)
    if "bad" in c:
        with open(f"{wd}/bad", "w") as f:
            f.write(c["bad"])
    before = tree(wd)
    p = G.run(cmd.split() + c["args"].split(), ok=False, cwd=wd)
    what = f"grt {cmd} {c['args']}  [{c['why']}]"
    G.must(p.returncode != 0, "accepted", f"must be refused, ends with code 0: {what}")
    G.must(p.returncode == 1, "died", f"exit code {p.returncode}: {what}")
    G.must((p.err + p.out).strip() != "", "silent", f"refused without a message: {what}")
    left = [x for x in tree(wd) if x not in before and (x.endswith((".nc", ".sac")) or "/C_" in x)]
    G.must(not left, "output", f"refused, but leaves {left[:4]}: {what}")
    return dict(nontrivial=True, tags=[cmd])


# ------------------------------------------------------------------ frequency bands are closed; halves add up
def gen_band(rng):
    kind = str(rng.choice(["greenfn", "greenfn", "modsum", "eigenfn", "disp2asc"]))
    c = dict(kind=kind, p=int(rng.integers(0, 4)), love=bool(rng.random() < 0.5))
    if kind == "greenfn":
        c["T"] = int(rng.choice([5, 8, 10, 10, 20, 20, 25, 50]))            # length: frequencies are decimals
        c["n"] = 2 * int(rng.integers(4, 13))
    else:
        c["p"] = int(rng.integers(1, 4))
        q = 10 ** c["p"]
        c["n"] = int(rng.integers(4, 11))
        c["d"] = int(rng.choice([x for x in (1, 2, 3, 5, 7, 10, 15, 20, 30) if 0.04 <= x / q <= 0.35] or [1]))
    c["i"] = sorted(int(x) for x in rng.integers(0, 1000, 3))
    c["style"] = int(rng.choice([0, 0, 1, 2, 3]))
    return c


def outputs(d):
    """{name: numbers} of all results below d"""
    out = {}
    for dp, _, ff in os.walk(d):
        for x in ff:
            q = os.path.join(dp, x)
            r = os.path.relpath(q, d)
            if x.endswith(".sac"):
                s = G.Sac(q)
                out[r] = np.asarray(s.d, float)
            elif x.endswith(".nc"):
                n = G.Nc(q)
                for k, v in n.v.items():
                    if v.dtype.kind in "fi":
                        out[r + ":" + k] = np.asarray(v, float)
            elif x.startswith("C_"):
                out[r] = np.fromfile(q, "<f8")
    return out


def run_band(c, wd):
    kind, n, st = c["kind"], c["n"], c["style"]
    if not 2 <= n <= 60 or len(c["i"]) != 3:
        raise Skip
    G.write_model(f"{wd}/mod", ROWS)
    if kind == "greenfn":
        T, p = c["T"], 4
        if T not in (5, 8, 10, 20, 25, 50):
            raise Skip
        q, d, nf = 10 ** 4, 10 ** 4 // T, n // 2 + 1
    else:
        p, d, nf = c["p"], c["d"], n
        q = 10 ** p
        if not 1 <= p <= 4 or not 0.03 < d / q < 0.4:
            raise Skip
    lo = 0 if kind == "greenfn" else 1
    i, j, k = (lo + x % (nf - (lo == 0)) for x in c["i"])
    i, j, k = sorted((i, j, k))
    if kind == "modsum" and k < i + 1 or k == 0:
        raise Skip                        # -H0/0: no limits
    num = lambda x: dec(x, p, st)
    edge = lambda a, b: f"{num(a * d)}/{num(b * d)}"
    wide = lambda a, b: f"{(a - 0.3) * d / q!r}/{(b + 0.3) * d / q!r}" if a > 0 else f"-1/{(b + 0.3) * d / q!r}"
    if kind in ("eigenfn", "disp2asc"):
        G.run(["eigenv", "-Mmod", "-SL" if c["love"] else "-SR", "-s", "-Cc.nc", f"-F{num(d)}/{num(n * d)}/{num(d)}"], cwd=wd)
        if kind == "eigenfn":
            G.run(["eigenfn", "-Cc.nc", "-Uu.nc", "-F" + edge(i, k)], cwd=wd)
            x = list(map(float, np.atleast_1d(G.Nc(f"{wd}/u.nc")["freq"])))
        else:
            t = G.run(["disp2asc", "-Cc.nc", "-F" + edge(i, k), "-N0"], cwd=wd).out
            x = [float(l.split()[0]) for l in t.splitlines() if re.match(r"\s*[0-9]", l)]
        w = [y * d / q for y in range(i, k + 1)]
        G.must(len(x) == len(w) and np.allclose(x, w, rtol=2e-5), "band", f"{kind} -F{edge(i, k)} of frequencies {num(d)}/{num(n * d)}/{num(d)} selects {x}, expected {w}")
        return dict(nontrivial=k > i, tags=[kind])
    if kind == "modsum":
        G.run(["eigenv", "-Mmod", "-SL" if c["love"] else "-SR", "-s", "-Cc.nc", f"-F0/{num(n * d)}/{num(d)}"], cwd=wd)
        cmd, o = ["modsum", "-Cc.nc", "-R5.5", "-D1.25/0.5"], "-F"
        wide = lambda a, b: f"{(a - 0.3) * d / q!r}/{(b + 0.3) * d / q!r}"
    else:
        cmd, o = ["greenfn", "-Mmod", "-D1.25/0.5", "-R5.5", f"-N{n}/{T / n!r}+a", "-L15", "-K+k3+s1.01"], "-H"
    def band(t, name):
        G.run(cmd + [o + t, f"-O{name}"], cwd=wd)
        return outputs(f"{wd}/{name}")
    A, B = band(edge(i, k), "a"), band(wide(i, k), "b")
    what = f"{kind} {o}{edge(i, k)} (frequencies in steps of {d / q:g})"
    G.must(sorted(A) == sorted(B) and A, "band", f"{what}: outputs {sorted(A)[:3]} / {sorted(B)[:3]}")
    for x in A:
        s = np.abs(B[x]).max()
        G.must(np.abs(A[x] - B[x]).max() <= 1e-5 * s + 1e-30, "band", f"{what} and {o}{wide(i, k)} give different {x}")
    if i <= j < k and (kind == "greenfn" or (j > i and k > j + 1)):
        C, D = band(wide(i, j), "c"), band(wide(j + 1, k), "d")
        for x in A:
            s = max(np.abs(v[x]).max() for v in (A, C, D))
            G.must(np.abs(A[x] - C[x] - D[x]).max() <= 1e-5 * s + 1e-30, "band", f"{what}: {x} is not the sum of {o}{wide(i, j)} and {o}{wide(j + 1, k)}")
    return dict(nontrivial=any(np.abs(v).max() > 0 for v in A.values()), tags=[kind])


# ------------------------------------------------------------------ the order of options and of their parts means nothing
def some(rng, parts, p=0.5):
    return [x for x in parts if rng.random() < p]


def gen_order(rng):
    """[command, options], each option [text, parts]"""
    r = lambda a, b, n=2: round(float(rng.uniform(a, b)), n)
    B = str(rng.choice(["-Bf", "-Br", "-Bh", "-BfH", "-Brh"[:3]]))
    L = ["-L15", some(rng, [f"+o{r(0.5, 3)}"]) + ([str(rng.choice([f"+l{r(10, 20)}", "+a1e-2"]))] if rng.random() < 0.4 else [])]
    k = int(rng.integers(0, 7))
    if k == 0:
        return dict(cmd="greenfn", a=[["-Mmod", []], ["-D1.5/0.5", []], ["-R5.5,7", []], ["-Oout", []], ["-N16/0.5", some(rng, [f"+w{r(0.5, 2)}", "+n2", "+a", "+f"])], L,
                                      ["-K", some(rng, [f"+k{r(2, 6)}", f"+s{r(1.01, 1.5)}", f"+e{r(-1, 0.1, 3)}", f"+v{r(0.5, 3)}", "+f"], 0.6) or ["+k4"]]] +
                    some(rng, [["-E-1/6", []], ["-H0.1/0.8", []], [B, []], ["-e", []], ["-Gev", []], ["-P2", []], ["-Cn", []]]))
    if k == 1:
        return dict(cmd="static greenfn", a=[["-Mmod", []], ["-D1.5/0.5", []], ["-X1/3/1", []], ["-Y-1/2/1", []], ["-Oout.nc", []], L] +
                    some(rng, [["-K", some(rng, [f"+k{r(3, 12)}", f"+e{r(-1, 0.1, 3)}", "+f"], 0.6) or ["+k8"]], [B, []], ["-e", []], ["-Cn", []]], 0.6))
    if k == 2:
        return dict(cmd="eigenv", a=[["-Mmod", []], [str(rng.choice(["-SR", "-SL"])), []], ["-Cout.nc", []], ["-F0.5/1.5/0.25", some(rng, ["+p"])], ["-s", []], ["-P2", []]] +
                    some(rng, [["-N3", []], ["-T", some(rng, ["+t8", "+c3", "+r3", "+v2", "+u2.5"], 0.6) or ["+t8"]]], 0.7))
    if k == 3:
        return dict(cmd="eigenfn", a=[["-Clib/c.nc", []], ["-Uu.nc", []], ["-Wout.nc", ["+z0/4/1"]], ["-N0/1", []], ["-K", ["+cc.nc"] + some(rng, ["+uuu.nc", "+xx.nc", "+z0.5"], 0.6)]] + some(rng, [["-F0.9/3.1", some(rng, ["+p"], 0.3)]]))
    if k == 4:
        return dict(cmd="modsum", a=[["-Clib/m.nc", []], ["-R5.5,7", []], ["-D1.5/0.5", []], ["-Oout", []]] + some(rng, [["-N0/1", []], ["-E-1/6", []], ["-e", []], ["-Ge", []], ["-W2", []], ["-F0.5/1.5", []], ["-P2", []]]))
    if k == 5:
        return dict(cmd="syn", a=[["-Glib/grn/mod_1.5_0_5.5", []], [f"-A{r(0, 360)}", []], [str(rng.choice(["-S1e24", "-Su1e24"])), []], [str(rng.choice(["-M30/40/50", "-T1/2/3/4/5/6", "-M30/40"])), []], ["-Oout", []], ["-s", []]] +
                    some(rng, [["-N", []], ["-I1", []], ["-J1", []], ["-Dt/0.5/1/2", []]]))
    return dict(cmd="okada", a=[["-I6/3.4/2.7", []], ["-X1/3/1", []], ["-Y-1/2/1", []], ["-Dr0.5", []], ["-Oout.nc", []]] +
                (([["-Ds2", []], [str(rng.choice(["-S1e24", "-Su1e24"])), []], ["-M30/40/50", []]]) if rng.random() < 0.6 else [["-Clib/c.inp", []]]) + some(rng, [["-N", []], ["-e", []]]))


def gen_orders(rng):
    c = gen_order(rng)
    c["a"] = " ".join(t + "|" * bool(p) + "|".join(p) for t, p in c["a"])         # one text: not shortened when a failure is shrunk
    c["perm"] = [float(x) for x in rng.random(24)]
    return c


def libs(wd, cmd):
    setting(wd)
    if cmd == "syn":
        G.run(["greenfn", "-Mmod", "-D1.5/0", "-R5.5", "-N16/0.5", "-L15", "-K+k3+s1.01", "-Olib/grn"], cwd=wd)
    if cmd in ("eigenfn", "modsum"):
        G.run(["eigenv", "-Mmod", "-SL", "-s", "-Clib/c.nc", "-F1/3/1", "-N"], cwd=wd)
        G.run(["eigenv", "-Mmod", "-SR", "-s", "-Clib/m.nc", "-F0/2/0.5", "-N"], cwd=wd)


def run_orders(c, wd):
    a, cmd = [[w.split("|")[0], w.split("|")[1:]] for w in c["a"].split()], c["cmd"]
    if cmd not in BASE or len(c["perm"]) < len(a) + sum(len(x[1]) for x in a) or len({x[0] for x in a}) < len(a):
        raise Skip
    res = []
    u = iter(c["perm"])
    q = [(next(u), [t, [y for _, y in sorted((next(u), y) for y in p)]]) for t, p in a]
    for m, v in enumerate((a, [x for _, x in sorted(q, key=lambda z: z[0])])):
        d = f"{wd}/{m}"
        os.makedirs(d)
        libs(d, cmd)
        arg = [t + "".join(p) for t, p in v]
        p = G.run(cmd.split() + arg, ok=False, cwd=d)
        if p.returncode not in (0, 1):
            raise Violation("died", f"exit code {p.returncode}: grt {cmd} {' '.join(arg)}")
        res.append((p.returncode, outputs(d) if p.returncode == 0 else {}, arg, p.err))
    (r1, x, a1, e1), (r2, y, a2, e2) = res
    what = f"grt {cmd} {' '.join(a1)} and {' '.join(a2)}"
    G.must(r1 == r2, "order", f"exit codes {r1} and {r2}: {what}: {(e1 + e2)[-200:]}")
    G.must(sorted(x) == sorted(y), "order", f"different outputs: {what}")
    for k in x:
        G.must(x[k].shape == y[k].shape and np.array_equal(x[k], y[k], equal_nan=True), "order", f"different {k}: {what}")
    return dict(nontrivial=r1 == 0, tags=[cmd] + ["parts"] * any(len(p) > 1 for _, p in a) + ["refused"] * (r1 == 1))


SUBS = [Sub("sequences", gen, run, 900, 8000, rule="more than one value"),
        Sub("refused", gen_bad, run_bad, 1200, 6000, rule="every case"),
        Sub("bands", gen_band, run_band, 250, 2500, rule="more than one frequency or a result that is not zero"),
        Sub("orders", gen_orders, run_orders, 300, 3000, rule="the command is accepted")]
