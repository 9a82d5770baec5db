"""First arrivals: independent Fermat minimisation over direct and critically refracted rays."""
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N

PROP = "C01"
LEVEL = "exploration"
ASSUMPTIONS = ["times are printed with three decimals: agreement is required to 1.2 ms + 2e-6 of the time"]


def ref_time(rows, vcol, zs, zr, X):
    """first arrival of a single wave type. min over the layers m in which the ray may run horizontally of
    max_p ( p X + sum n_i h_i sqrt(1/v_i^2 - p^2) ), which is Fermat's principle for a stack of layers."""
    za, zb = min(zs, zr), max(zs, zr)
    top = N.tops(rows)
    n = len(rows)
    bot = [top[i + 1] if i + 1 < n else np.inf for i in range(n)]
    v = [r[vcol] for r in rows]
    between = [(max(0.0, min(zb, bot[i]) - max(za, top[i])), v[i]) for i in range(n)]
    between = [(h, w) for h, w in between if h > 0]
    la, lb = N.layer_at(rows, zs), N.layer_at(rows, zr)
    if any(w == 0 for _, w in between) or v[la] == 0 or v[lb] == 0:
        return None

    def tmin(legs, vm):
        pm = 1.0 / vm
        legs = [(h, w) for h, w in legs if h > 0]
        if any(w > vm * (1 + 1e-15) for _, w in legs):
            return np.inf

        def slope(p):
            return X - sum(h * p / np.sqrt(max(1 / w / w - p * p, 0.0)) if 1 / w / w > p * p else np.inf for h, w in legs)
        lo, hi = 0.0, pm
        if slope(pm) >= 0:
            p = pm
        else:
            for _ in range(200):
                mid = 0.5 * (lo + hi)
                if slope(mid) > 0:
                    lo = mid
                else:
                    hi = mid
            p = lo
        return p * X + sum(h * np.sqrt(max(1 / w / w - p * p, 0.0)) for h, w in legs)

    best = np.inf
    # direct: horizontal running allowed in the fastest layer between the two points (or the point's own layer)
    for m in range(n):
        if v[m] == 0:
            continue
        legs = list(between)
        if top[m] >= zb:            # below both
            for i in range(m):
                h = min(bot[i], top[m]) - max(top[i], zb)
                if h > 0:
                    legs += [(h, v[i])] * 2
        elif bot[m] <= za:
            for i in range(m + 1, n):
                h = min(bot[i], za) - max(top[i], bot[m])
                if h > 0:
                    legs += [(h, v[i])] * 2
        if any(w == 0 for _, w in legs):
            continue
        best = min(best, tmin(legs, v[m]))
    return best


def table(out):
    rows = []
    for ln in out.splitlines():
        f = ln.split()
        if len(f) == 3 and not ln.startswith(" Dist"):
            rows.append([float(x) for x in f])
    return np.array(rows)


def gen_times(rng):
    rows = N.model(rng, 1, 8, liquids=str(rng.choice(["none", "none", "top", "any"])), hmax=12.0, many=0.1)
    if rng.random() < 0.3 and len(rows) > 2:      # thin or nearly equal neighbours: competing refractions
        i = int(rng.integers(0, len(rows) - 1))
        if rows[i][2] > 0:
            rows[i + 1][1:3] = [N.rnd(rows[i][1] * (1 + 10 ** rng.uniform(-4, -1)), 6), N.rnd(rows[i][2] * (1 + 10 ** rng.uniform(-4, -1)), 6)]
    zs, zr = N.depth(rng, rows), N.depth(rng, rows)
    if rng.random() < 0.1 and rows[N.layer_at(rows, zs)][2] > 0:
        zr = zs
    if zr == zs and rows[N.layer_at(rows, zs)][2] == 0:
        zr = zs / 2 if zs > 0 else N.dyad(N.tops(rows)[1] / 2, 1024)
    zt = max(1.0, N.tops(rows)[-1])
    rs = sorted({0.0 if rng.random() < 0.2 else N.rnd(N.log_uniform(rng, 0.01, 30 * zt)) for _ in range(8)})
    return dict(model=rows, zs=zs, zr=zr, rs=rs)


def valid(c):
    rows = c["model"]
    for z in (c["zs"], c["zr"]):
        if z < 0:
            raise Skip
        for i, t in enumerate(N.interfaces(rows)):
            if abs(z - t) < 1e-9 and (z != t or rows[i][2] == 0 or rows[i + 1][2] == 0):
                raise Skip
    if c["zs"] == c["zr"] and rows[N.layer_at(rows, c["zs"])][2] == 0:
        raise Skip                      # documented restriction: a common depth inside a liquid is not accepted
    if any(r[0] <= 0 for r in rows[:-1]) or any(b <= a for a, b in zip(c["rs"], c["rs"][1:])):
        raise Skip
    if any(r[1] <= r[2] for r in rows):
        raise Skip


def travt(rows, zs, zr, rs, name="mod"):
    G.write_model(name, rows)
    o = G.run(["travt", "-M" + name, f"-D{G.fmt(zs)}/{G.fmt(zr)}", "-R" + ",".join(G.fmt(r) for r in rs)]).out
    t = table(o)
    G.must(t.shape == (len(rs), 3), "shape", f"expected {len(rs)} rows, got {t.shape}")
    return t


def run_times(c, wd):
    valid(c)
    rows, zs, zr, rs = c["model"], c["zs"], c["zr"], c["rs"]
    t = travt(rows, zs, zr, rs)
    u = travt(rows, zr, zs, rs)
    head = 0
    for j, r in enumerate(rs):
        G.must(abs(t[j, 0] - r) < 1e-9 * max(1, r), "dist", f"distance column {t[j,0]} for {r}")
        for col, vc, nm in ((1, 1, "P"), (2, 2, "S")):
            e = ref_time(rows, vc, zs, zr, r)
            if e is None:
                G.must(t[j, col] < 0, "no-" + nm, f"{nm} at r={r}: {t[j,col]} s although no {nm} ray exists")
                continue
            G.must(abs(t[j, col] - e) <= 1.2e-3 + 2e-6 * e, nm, f"{nm} arrival at r={r}: {t[j,col]} s, first arrival is {e:.5f} s")
            G.must(abs(t[j, col] - u[j, col]) <= 1.1e-3 + 2e-6 * e, "reciprocity", f"{nm} at r={r}: {t[j,col]} s but {u[j,col]} s with source and receiver exchanged")
            d = ref_time([[0] + rows[N.layer_at(rows, zs)][1:]], vc, 0, abs(zs - zr), r)
            head += abs(d - e) > 1e-2
    return dict(nontrivial=head > 0, tags=["liquid"] * any(x[2] == 0 for x in rows) + ["same-depth"] * (zs == zr)
                + ["interface"] * (zs in N.interfaces(rows) or zr in N.interfaces(rows)))


SUBS = [
    Sub("times", gen_times, run_times, 3000, 20000, rule="the first arrival differs from the straight ray in the source layer"),
]
