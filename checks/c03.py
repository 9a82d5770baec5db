"""Static Green's functions of layered solids against the independent layered solution."""
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, refs

PROP = "C03"
LEVEL = "exploration"
ASSUMPTIONS = ["reference kernels from vlib/refs.py, summed over the same documented wavenumber grid (dk = 2 pi/(L rmax)) or integrated to convergence"]
GROUPS = [(p + s, [p + s + c for c in refs.COMP[s]]) for s in refs.SRC for p in ("", "z", "r")]


def valid(c):
    rows = c["model"]
    if any(r[0] <= 0 for r in rows[:-1]) or any(r[1] < 1.2 * r[2] for r in rows):
        raise Skip
    if any(b <= a for k in ("rs", "zss", "zrs") for a, b in zip(c[k], c[k][1:])):
        raise Skip
    for z in c["zss"] + c["zrs"]:
        if any(0 < abs(z - t) < 1e-6 for t in N.interfaces(rows)):
            raise Skip
        if c["bot"] != "H" and (len(rows) < 2 or z > N.tops(rows)[-1]):
            raise Skip


def gen_grid(rng):
    """(start, step, number) per axis; often symmetric, so that points share a distance"""
    out = []
    for _ in range(2):
        n = int(rng.integers(1, 5))
        d = float(rng.choice([0.25, 0.5, 1.0, 1.0, 1.5, 3.0]))
        a = -d * (n // 2) if rng.random() < 0.6 else N.dyad(rng.uniform(-4, 4), 8)
        out.append([a, d, n])
    if out[0][2] == out[1][2] == 1:
        out[1][2] = 3
    return out


def gen_lib(rng):
    bot = str(rng.choice(["H", "H", "H", "F", "R"]))
    top = str(rng.choice(["f", "f", "f", "r", "h"])) if bot == "H" else str(rng.choice(["f", "r", "h"]))
    if bot == "F" and top == "f":
        top = "r"                  # a free plate has no static solution at k -> 0
    if bot == "F" and top == "h":
        top = "r"
    rows = N.model(rng, 1 if bot == "H" else 2, 6, q=bool(rng.random() < 0.3), hmax=6)
    zt = N.tops(rows)[-1]

    def depths(n):
        out = set()
        for _ in range(40):
            z = N.depth(rng, rows)
            if bot == "H" or z <= zt:
                out.add(z)
            if len(out) >= n:
                break
        return sorted(out)
    zss = depths(int(rng.integers(1, 4)))
    zrs = [z for z in depths(int(rng.integers(1, 3)))]
    # keep source and receiver depths apart so that the sum over wavenumbers converges
    zrs = [z for z in zrs if all(abs(z - s) >= 0.1 for s in zss)] or [next(z for z in [0.0, zt, 0.25, 0.5, 0.8125, 1.0, 1.3125, 2.0] + [zt * f for f in (0.37, 0.12, 0.83, 0.61, 0.97)] + [1e9] if all(abs(z - s) >= 0.1 for s in zss) and (bot == "H" or z <= zt or z == 1e9))]
    if zrs == [1e9]:
        return gen_lib(rng)
    rs = sorted({0.0 if rng.random() < 0.15 else N.rnd(N.log_uniform(rng, 0.05, 40)) for _ in range(int(rng.integers(1, 6)))})
    if rs == [0.0]:
        rs = [0.0, 1.0]
    return dict(model=rows, zss=zss, zrs=zrs, rs=rs, top=top, bot=bot, L=N.rnd(rng.uniform(8, 30), 3), e=bool(rng.random() < 0.7),
                grid=gen_grid(rng) if rng.random() < 0.4 else None)


def expect(rows, zs, zr, rs, dk, kmax, e, top, bot):
    k = dk * (1 + np.arange(int(np.ceil(kmax / dk))))
    K = refs.layered_kernels(rows, zs, zr, k, None, None, top, bot)
    return [refs.hankel(K, k, np.full(len(k), dk), r, e) for r in rs]


def natural(rows, zs, zr):
    """static field of a whole space at the distance |zs - zr|: the scale for components that vanish"""
    row = rows[N.layer_at(rows, zs)]
    mu, R = row[3] * row[2] ** 2, abs(zs - zr)
    return dict(M=1 / (4 * np.pi * mu * R ** 2), F=1 / (4 * np.pi * mu * R), R=R)


def compare(d, i, j, a, b, ref, e, tol, where, worst, nat):
    for gname, names in GROUPS:
        if gname[0] in "zr" and not e:
            continue
        sc = max(abs(ref[n].real) for n in names)
        # components that vanish or cancel: only rounding relative to the largest contributions
        fam, pre = "F" if "F" in gname else "M", gname[0] in "zr"
        sc = max(sc, 1e-6 * nat[fam] / (nat["R"] if pre else 1))
        sc = max(sc, 1e-6 * ref["scale"][(gname[0] if gname[0] in "zr" else "") + ("F" if "F" in gname else "M")])
        for n in names:
            v = d[n][i, j, a, b]
            err = abs(v - ref[n].real)
            if not err <= tol * sc:
                raise Violation("static", f"{n} at {where}: got {v:.9g}, expected {ref[n].real:.9g}")
            worst[0] = max(worst[0], err / sc / tol)


def run_lib(c, wd):
    valid(c)
    rows, rs, e = c["model"], c["rs"], c["e"]
    gap = min(abs(a - b) for a in c["zss"] for b in c["zrs"])
    if gap < 0.1:
        raise Skip
    G.write_model("mod", rows)
    args = ["static", "greenfn", "-Mmod", "-Ds" + ",".join(map(repr, c["zss"])), "-Dr" + ",".join(map(repr, c["zrs"])),
            f"-L{c['L']}", "-K+k12+f", "-Og.nc", f"-B{c['top']}{c['bot']}"]
    if c["grid"]:
        (x1, dx, nx), (y1, dy, ny) = c["grid"]
        if dx <= 0 or dy <= 0 or nx < 1 or ny < 1 or nx * ny < 2:
            raise Skip
        args += [f"-X{x1}/{x1 + dx * (nx - 1) + 0.3 * dx}/{dx}", f"-Y{y1}/{y1 + dy * (ny - 1) + 0.3 * dy}/{dy}"]
        xs, ys = x1 + dx * np.arange(nx), y1 + dy * np.arange(ny)
    else:
        args += ["-R" + ",".join(map(repr, rs))]
        xs, ys = np.array([0.0]), np.array(rs)
    G.run(args + ["-e"] * e)
    d = G.Nc("g.nc")
    G.must(np.allclose(d["depsrc"], c["zss"]) and np.allclose(d["deprcv"], c["zrs"]), "axes", "depth axes differ from the request")
    G.must(d["north"].shape == xs.shape and np.allclose(d["north"], xs) and d["east"].shape == ys.shape and np.allclose(d["east"], ys), "axes",
           f"north {d['north']} east {d['east']} instead of {xs} {ys}")
    rr = np.hypot(*np.meshgrid(xs, ys, indexing="ij"))
    dk = 2 * np.pi / (c["L"] * rr.max())
    worst = [0.0]
    for i, zs in enumerate(c["zss"]):
        for j, zr in enumerate(c["zrs"]):
            for nm, z, arr in (("source", zs, ("src_va", "src_vb", "src_rho")), ("receiver", zr, ("rcv_va", "rcv_vb", "rcv_rho"))):
                row = rows[N.layer_at(rows, z)]
                for q, an in enumerate(arr):
                    G.must(abs(d[an].ravel()[i if nm == "source" else j] - row[1 + q]) < 1e-6 * row[1 + q], "medium",
                           f"{an} at the {nm} depth {z}: {d[an]} instead of {row[1 + q]}")
            kmax = 12 * np.pi / abs(zs - zr)
            if kmax / dk > 6000:
                continue
            ref = expect(rows, zs, zr, rr.ravel(), dk, kmax, e, c["top"], c["bot"])
            for q, h in enumerate(ref):
                a, b = np.unravel_index(q, rr.shape)
                if h["EXZ"] is None:
                    continue
                compare(d, i, j, a, b, h, e, 2e-6, f"zs={zs} zr={zr} r={rr[a, b]:.6g}", worst, natural(rows, zs, zr))
    return dict(nontrivial=len(rows) > 1, tags=[c["top"] + c["bot"], "grid" if c["grid"] else "list"] + ["r0"] * int(rr.min() == 0)
                + ["multi-depth"] * (len(c["zss"]) * len(c["zrs"]) > 1) + ["rcv-below"] * (c["zss"][0] < c["zrs"][-1]), metric=dict(err=worst[0]))


SUBS = [Sub("library", gen_lib, run_lib, 800, 10000, rule="at least two different layers")]
