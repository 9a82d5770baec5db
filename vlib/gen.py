"""Shared generators. All choices come from the rng that is handed in."""
import numpy as np


def rnd(x, nd=4):
    return float(f"{x:.{nd}g}")


def dyad(x, q=64):
    """a multiple of 1/q: sums and differences of such numbers are exact"""
    return float(round(x * q) / q)


def log_uniform(rng, a, b):
    return float(np.exp(rng.uniform(np.log(a), np.log(b))))


def solid(rng, vs=None, q=True, poisson=None):
    vs = rnd(log_uniform(rng, 0.6, 4.5) if vs is None else vs)
    # Poisson ratio 0.05 .. 0.42
    nu = rng.uniform(0.1, 0.4) if poisson is None else poisson
    vp = rnd(vs * np.sqrt(2 * (1 - nu) / (1 - 2 * nu)))
    rho = rnd(rng.uniform(1.6, 3.5))
    if q:
        qs = rnd(log_uniform(rng, 20, 800), 3)
        qp = rnd(qs * rng.uniform(1.0, 2.2), 3)
        return [vp, vs, rho, qp, qs]
    return [vp, vs, rho]


def liquid(rng, q=True):
    r = [rnd(rng.uniform(1.3, 1.9)), 0.0, rnd(rng.uniform(0.95, 1.2))]
    if q:
        qq = rnd(log_uniform(rng, 100, 2000), 3)
        r += [qq, rnd(qq * rng.uniform(0.4, 1.0), 3)]
    return r


def model(rng, nmin=1, nmax=5, q=None, liquids="none", hmax=6.0, contrast=None, many=0.0):
    """rows [h, vp, vs, rho(, qp, qs)] ; the last row is the half-space (h arbitrary).
    liquids: none | top | any"""
    n = int(rng.integers(nmin, nmax + 1))
    if many and rng.random() < many:
        n = int(rng.integers(20, 91))
        hmax = min(hmax, 1.5)
    if q is None:
        q = bool(rng.random() < 0.6)
    kind = rng.integers(0, 3)          # 0 increasing, 1 random, 2 near-random with small contrasts
    rows = []
    v0 = log_uniform(rng, 0.6, 3.0)
    vss = []
    for i in range(n):
        if kind == 0:
            vss.append(v0 * (1 + (0.35 if n < 20 else 3.0 / n) * i * rng.uniform(0.3, 1)))
        elif kind == 1:
            vss.append(log_uniform(rng, 0.6, 4.5))
        else:
            vss.append(v0 * rng.uniform(0.85, 1.2))
    for i in range(n):
        h = dyad(log_uniform(rng, 0.25, hmax), 64) if i < n - 1 else float(rng.choice([0.0, 0.0, 5.0, 33.5]))
        if i == 0 and n == 1:
            h = float(rng.choice([0.0, 10.0]))
        rows.append([h] + solid(rng, min(vss[i], 4.8), q))
    if liquids == "top" and n > 1:
        k = 1 if n < 3 or rng.random() < 0.7 else 2
        for i in range(k):
            rows[i] = [rows[i][0]] + liquid(rng, q)
    elif liquids == "any" and n > 1:
        for i in range(n):
            if rng.random() < 0.3:
                rows[i] = [rows[i][0]] + liquid(rng, q)
    return rows


def tops(rows):
    z, out = 0.0, []
    for r in rows:
        out.append(z)
        z += r[0]
    return out


def interfaces(rows):
    return tops(rows)[1:]


def layer_at(rows, z):
    """the layer that contains depth z (an interface depth belongs to the layer above)"""
    top = 0.0
    for i, r in enumerate(rows[:-1]):
        if z <= top + r[0]:
            return i
        top += r[0]
    return len(rows) - 1


def depth(rng, rows, zmax=None, on_interface=0.15, surface=0.25, q=64):
    """a depth; never on an interface that touches a liquid"""
    itf = interfaces(rows)
    u = rng.random()
    if u < surface:
        return 0.0
    ok = [z for i, z in enumerate(itf) if rows[i][2] > 0 and rows[i + 1][2] > 0]
    if u < surface + on_interface and ok:
        return float(ok[rng.integers(0, len(ok))])
    zm = zmax or ((itf[-1] if itf else 4.0) * 1.4 + 0.5)
    for _ in range(100):
        z = dyad(rng.uniform(0.05, zm), q)
        if all(abs(z - t) > 1e-6 for t in itf) and z > 0:
            return z
    return 0.0
