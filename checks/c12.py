"""Static synthesis from a library: receivers on grids and points, interpolation, media, option rules."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, srcs
from vlib.stlib import Lib, gen_axis

PROP = "C12"
LEVEL = "exploration"
ASSUMPTIONS = ["libraries are filled with arbitrary numbers in the documented NetCDF layout (equal distances hold equal numbers); physical libraries are covered by C03, C08 and C11",
               "1/r terms of the transverse derivative in Z-R-T are not compared where a node at zero distance takes part"]

BIG = 0.04


def depths(rng, n, zmax=12.0):
    z = sorted({N.rnd(rng.uniform(0, zmax), 4) for _ in range(n)})
    if rng.random() < 0.25:
        z[0] = 0.0
    return z


def between(rng, x):
    if rng.random() < 0.3:
        return float(x[rng.integers(0, len(x))])
    return round(float(rng.uniform(x[0], x[-1])), 5) if len(x) > 1 else float(x[0])


def gen_lib(rng, ns=None, nr=None):
    rows = N.model(rng, 1, 4, q=False, hmax=4, many=0.1)
    kind = str(rng.choice(["even", "even", "log", "fine", "any", "grid", "grid"]))
    big = rng.random() < BIG           # much longer axes, lists of depths and receivers than usual
    n, e = gen_axis(rng, kind, big)
    if big and rng.random() < 0.5:
        ns, nr = ns or int(rng.integers(5, 40)), nr or int(rng.integers(4, 20))
    return dict(model=rows, S=depths(rng, ns or int(rng.choice([1, 2, 3, 4]))), R=depths(rng, nr or int(rng.choice([1, 2, 3]))),
                n=n, e=e, upar=bool(rng.random() < 0.7), seed=int(rng.integers(1 << 30)), kind=kind, big=bool(big))


def lib_ok(c):
    for k in ("S", "R", "n", "e"):
        if not c[k] or any(b - a < 1e-7 for a, b in zip(c[k], c[k][1:])):
            raise Skip
    if not c["model"] or any(len(r) != 4 for r in c["model"]) or min(c["S"] + c["R"]) < 0 or any(r[1] <= 0 or r[2] <= 0 or r[3] <= 0 or r[1] < 1.2 * r[2] for r in c["model"]) or any(r[0] <= 0 for r in c["model"][:-1]):
        raise Skip


def gen(rng):
    c = gen_lib(rng)
    d = np.unique(np.hypot(np.array(c["n"])[:, None], np.array(c["e"])[None, :]))
    lay = str(rng.choice(["own", "grid", "grid", "points", "points"]))
    c.update(lay=lay, zs=between(rng, c["S"]), zr=between(rng, c["R"]), giveDs=bool(rng.random() < 0.3), giveDr=bool(rng.random() < 0.3),
             src=srcs.gen_source(rng), S0=N.rnd(N.log_uniform(rng, 1e-3, 1e25), 3) * (1 if rng.random() < 0.9 else -1), su=bool(rng.random() < 0.3),
             zne=bool(rng.random() < 0.5), deriv=bool(rng.random() < 0.8) and c["upar"])
    hi = d[-1] * 1.1 + (0.1 if len(d) == 1 else 0)
    if lay == "grid":
        ax = []
        for _ in range(2):
            n = int(rng.integers(6, 22) if c["big"] else rng.integers(1, 5))
            h = N.rnd(rng.uniform(0.2, 1.2) * hi / n, 3)
            a = N.rnd(rng.uniform(-1, 0.5) * hi, 3)
            ax.append([a, h, n, N.rnd(rng.uniform(0, 0.9), 2)])
        c["ax"] = ax
    elif lay == "points":
        pts = []
        for _ in range(int(rng.integers(50, 400) if c["big"] else rng.integers(1, 8))):
            u = rng.random()
            r = float(d[rng.integers(0, len(d))]) if u < 0.35 else rng.uniform(0, hi) if u < 0.5 else rng.uniform(d[0], d[-1])
            t = rng.uniform(0, 2 * np.pi)
            x, y = (r, 0.0) if rng.random() < 0.1 else (0.0, -r) if rng.random() < 0.1 else (round(float(r * np.cos(t)), 9), round(float(r * np.sin(t)), 9))
            pts.append([x, y, between(rng, c["R"])])
        c["pts"] = pts
        c["six"] = bool(rng.random() < 0.4)
        c["noise"] = bool(rng.random() < 0.4)
    return c


def run(c, wd):
    lib_ok(c)
    s = c["src"]
    if not srcs.ok(s) or c["S0"] == 0 or c["deriv"] and not c["upar"]:
        raise Skip
    L = Lib(c["seed"], c["S"], c["R"], c["n"], c["e"], c["model"], c["upar"])
    L.save("g.nc")
    a = ["static", "syn", "-Gg.nc", f"-S{'u' if c['su'] else ''}{c['S0']!r}", "-Oo.nc", "-s"] + srcs.args(s) + ["-N"] * c["zne"] + ["-e"] * c["deriv"]
    zs = c["zs"] if len(c["S"]) > 1 else c["S"][0]
    if len(c["S"]) > 1 or c["giveDs"]:
        a.append(f"-Ds{zs!r}")
    zr = c["zr"] if len(c["R"]) > 1 else c["R"][0]
    if c["lay"] != "points" and (len(c["R"]) > 1 or c["giveDr"]):
        a.append(f"-Dr{zr!r}")
    if c["lay"] == "own":
        X, Y = L.n, L.e
    elif c["lay"] == "grid":
        v = []
        for o, (x0, h, n, f) in zip("XY", c["ax"]):
            if h <= 0 or n < 1 or not 0 <= f < 0.95:
                raise Skip
            a.append(f"-{o}{x0!r}/{x0 + h * (n - 1 + f)!r}/{h!r}")
            v.append([x0 + h * i for i in range(n)])
        X, Y = v
    if c["lay"] == "points":
        P = c["pts"]
        if not P or any(len(p) != 3 or p[2] < 0 for p in P):
            raise Skip
        ang = [[10.0 * i, 5.0 + i, -20.0 + i] for i in range(len(P))]
        with open("pts", "w") as f:
            if c["noise"]:
                f.write("# north east depth\n\n")
            for i, p in enumerate(P):
                f.write((" " * (150 if i % 3 == 1 else 2) if c["noise"] else "") + " ".join(repr(float(x)) for x in p + (ang[i] if c["six"] else [])) + ("  # point" + " of a long comment" * (8 * i % 40) + "\n#\n" if c["noise"] and i % 2 else "\n"))
        a.append("-Qpts")
        P = [tuple(p) for p in P]
        if any(L.weights(L.R, p[2]) is None for p in P):
            raise Skip
    else:
        P = [(float(x), float(y), zr) for x in X for y in Y]
    if L.weights(L.S, zs) is None or L.weights(L.R, P[0][2]) is None:
        raise Skip
    # keep clear of the rounding of the library's outer limits
    if any(1e-12 < abs(np.hypot(p[0], p[1]) - b) < 1e-6 for p in P for b in (L.d[0], L.d[-1])) and c["lay"] == "grid":
        raise Skip
    G.run(a)
    d = G.Nc("o.nc")
    chs = "ZNE" if c["zne"] else "ZRT"
    names = set(chs) | ({x.lower() + y for x in chs for y in chs} if c["deriv"] else set())
    meta = {"north", "east"} | ({"depth", "rcv_va", "rcv_vb", "rcv_rho"} if c["lay"] == "points" else set())
    if c["lay"] == "points" and c["six"]:
        meta |= {"strike", "dip", "rake"}
    G.must(set(d.v) == names | meta, "variables", f"{sorted(set(d.v) ^ (names | meta))}")
    txt = lambda k: d.attr[k].decode() if isinstance(d.attr[k], bytes) else d.attr[k]
    G.must(txt("layout") == ("points" if c["lay"] == "points" else "grid"), "attributes", f"layout {txt('layout')}")
    G.must(int(d.attr["calc_upar"]) == c["deriv"] and int(d.attr["rot2ZNE"]) == c["zne"], "attributes", "calc_upar, rot2ZNE")
    G.must(abs(float(d.attr["depsrc"]) - zs) < 1e-12, "attributes", f"depsrc {d.attr['depsrc']} for {zs}")
    med = lambda z: c["model"][N.layer_at(c["model"], z)][1:4]
    if c["lay"] == "points":
        for k, nm in enumerate(("north", "east", "depth")):
            G.must(np.array_equal(d[nm], [p[k] for p in P]), "points", f"{nm} {d[nm]}")
        for k, nm in enumerate(("rcv_va", "rcv_vb", "rcv_rho")):
            w = [med(p[2])[k] for p in P]
            G.must(np.allclose(d[nm], w, rtol=1e-12), "medium", f"{nm} {d[nm]} at depths {[p[2] for p in P]}, model {w}")
        if c["six"]:
            for k, nm in enumerate(("strike", "dip", "rake")):
                G.must(np.allclose(d[nm], [x[k] for x in ang], rtol=1e-12), "points", f"{nm} {d[nm]}")
    else:
        G.must(len(d["north"]) == len(X) and len(d["east"]) == len(Y), "grid", f"{len(d['north'])} x {len(d['east'])} receivers instead of {len(X)} x {len(Y)}")
        G.must(np.allclose(d["north"], X, rtol=0, atol=1e-9) and np.allclose(d["east"], Y, rtol=0, atol=1e-9), "grid", f"axes {d['north']} {d['east']}")
        G.must(abs(float(d.attr["deprcv"]) - zr) < 1e-12, "attributes", f"deprcv {d.attr['deprcv']} for {zr}")
        for k, nm in enumerate(("rcv_va", "rcv_vb", "rcv_rho")):
            G.must(abs(float(d.attr[nm]) - med(zr)[k]) < 1e-9, "medium", f"{nm} {d.attr[nm]} at {zr}")
        for nm in names:
            G.must(d[nm].shape == (len(X), len(Y)), "grid", f"{nm} has shape {d[nm].shape}")
    worst, inside, mid = 0, 0, 0
    for p, (x, y, z) in enumerate(P):
        u, D, mu, mD, zero = L.point(s, zs, z, x, y, c["zne"], c["S0"], c["su"])
        inside += int(mu > 0)
        mid += int(mu > 0 and min(abs(L.d - np.hypot(x, y))) > 1e-6)
        # just outside of the library within the accepted rounding
        tol = 1e-3 if any(0 < abs(np.hypot(x, y) - b) < 2e-8 for b in (L.d[0], L.d[-1])) else 1e-8
        for i, ch in enumerate(chs):
            v = float(d[ch].ravel()[p])
            worst = max(worst, abs(v - u[i]) / (mu * tol + 1e-300)) if mu else worst
            if not abs(v - u[i]) <= tol * mu:
                raise Violation("value", f"{ch} at {(x, y, z)}: {v:.10g}, expected {u[i]:.10g} (largest contribution {mu:.3g})")
            if c["deriv"]:
                for q, cq in enumerate(chs):
                    if zero and not c["zne"] and i == 2 and q > 0:
                        continue
                    v = float(d[ch.lower() + cq].ravel()[p])
                    if not abs(v - D[i][q]) <= 10 * tol * mD:
                        raise Violation("deriv", f"{ch.lower() + cq} at {(x, y, z)}: {v:.10g}, expected {D[i][q]:.10g} (largest contribution {mD:.3g})")
    return dict(nontrivial=inside > 0 and (mid > 0 or len(c["S"]) > 1), tags=[c["lay"], c["kind"], chs, s["kind"]] + ["outside"] * (inside < len(P)) + ["between"] * (mid > 0), metric=dict(err=worst))


# ---------------------------------------------------------------- which options a library needs
def gen_opt(rng):
    c = gen_lib(rng, int(rng.choice([1, 2])), int(rng.choice([1, 2])))
    c.update(ff=bool(rng.random() < 0.3), Ds=str(rng.choice(["", "", "in", "out", "node"])), Dr=str(rng.choice(["", "", "in", "out", "node"])), Q=str(rng.choice(["", "", "in", "out"])),
             XY=str(rng.choice(["", "", "XY", "X", "Y"])), deriv=bool(rng.random() < 0.4), S_=bool(rng.random() < 0.85),
             two=bool(rng.random() < 0.1))
    if rng.random() < 0.65:
        # an accepted combination, of which at most one choice is replaced
        c.update(S_=True, two=False, deriv=c["deriv"] and c["upar"], XY=str(rng.choice(["", "XY"])), Q="")
        c["ff"] = c["ff"] and len(c["S"]) > 1
        c["Ds"] = "" if c["ff"] else str(rng.choice(["in", "node"])) if len(c["S"]) > 1 else str(rng.choice(["", "node"]))
        c["Dr"] = str(rng.choice(["in", "node"])) if len(c["R"]) > 1 else str(rng.choice(["", "node"]))
        if rng.random() < 0.3:
            c.update(Q="in", Dr="", XY="")
        if rng.random() < 0.4:
            k = str(rng.choice(["Ds", "Dr", "Q", "XY", "ff", "S_", "deriv"]))
            c[k] = dict(Ds=["", "in", "out"], Dr=["", "in", "out"], Q=["", "in", "out"], XY=["", "X", "Y"]).get(k, [not c[k]])[int(rng.integers(0, 3 if len(k) == 2 and k != "ff" and k != "S_" else 1))] if k != "Q" else str(rng.choice(["", "in", "out"]))
    return c


def pick(x, how):
    if how == "out":
        return x[-1] + 0.37
    if how == "node" or len(x) == 1:
        return x[-1]
    return 0.5 * (x[0] + x[-1])


def run_opt(c, wd):
    lib_ok(c)
    L = Lib(c["seed"], c["S"], c["R"], c["n"], c["e"], c["model"], c["upar"])
    L.save("g.nc")
    a = ["static", "syn", "-Gg.nc", "-Oo.nc", "-s"]
    ms, mr = len(c["S"]) > 1, len(c["R"]) > 1
    ok = True
    if c["S_"] and not c["ff"]:
        a.append("-S1e20")
    if not c["ff"]:
        ok &= c["S_"]
    if c["two"]:
        a += ["-M10/20/30", "-F1/2/3"]
        ok = False
    if c["ff"]:
        if c["S"][-1] - c["S"][0] < 0.01 and ms:
            raise Skip
        z = c["S"][0] + 0.3 * (c["S"][-1] - c["S"][0])
        top, bot = (z, z + 0.4 * (c["S"][-1] - c["S"][0])) if ms else (max(c["S"][0] - 0.1, 0), c["S"][0] + 0.1)
        with open("f.inp", "w") as f:
            f.write(f"a\nb\n1 0 0 1 1 100 1 1 60 {top!r} {bot!r}\n")
        a.append("-Cf.inp+i1/1")
        ok &= ms and not c["Ds"]
    if c["Ds"]:
        a.append(f"-Ds{pick(c['S'], c['Ds'])!r}")
        if not c["ff"]:
            ok &= c["Ds"] != "out"
    elif not c["ff"]:
        ok &= not ms
    if c["Dr"]:
        a.append(f"-Dr{pick(c['R'], c['Dr'])!r}")
        ok &= not c["Q"] and c["Dr"] != "out"
    elif not c["Q"]:
        ok &= not mr
    if c["Q"]:
        with open("q", "w") as f:
            f.write(f"0.1 0.2 {pick(c['R'], c['Q'])!r}\n")
        a.append("-Qq")
        ok &= not c["XY"] and c["Q"] != "out"
    if "X" in c["XY"]:
        a.append("-X0/1/0.5")
    if "Y" in c["XY"]:
        a.append("-Y0/1/0.5")
    ok &= len(c["XY"]) != 1
    if c["deriv"]:
        a.append("-e")
        ok &= c["upar"]
    p = G.run(a, ok=False)
    G.must(p.returncode in (0, 1), "crash", f"exit status {p.returncode}: {' '.join(a)}")
    if bool(ok) != (p.returncode == 0):
        raise Violation("rules", f"library of {len(c['S'])} x {len(c['R'])} depths (derivatives {c['upar']}): grt {' '.join(a)} is {'refused' if p.returncode else 'accepted'}\n{(p.err + p.out)[-300:]}")
    G.must(os.path.exists("o.nc") == bool(ok), "output", f"output file {'missing' if ok else 'written by a refused command'}: {' '.join(a)}")
    return dict(nontrivial=not ok, tags=["accepted" if ok else "refused"] + ["ff"] * c["ff"])


SUBS = [Sub("values", gen, run, 2500, 20000, rule="a receiver inside the library, between its distances or with several source depths"),
        Sub("options", gen_opt, run_opt, 800, 5000, rule="the combination of options is to be refused")]
