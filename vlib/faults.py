"""Coulomb fault records: generator, file, and the point sources they stand for (geometry from the documentation)."""
import numpy as np
from . import gen as N


def gen_fault(rng, zlo, zhi, center=(0, 0), size=4.0, kinds=(100, 100, 200, 300, 400, 500)):
    k = int(rng.choice(kinds))
    L = N.log_uniform(rng, 0.2, size)
    st = rng.uniform(0, 2 * np.pi) if rng.random() < 0.8 else float(rng.choice([0, 1, 2, 3])) * np.pi / 2
    dip = float(rng.choice([90.0, N.rnd(rng.uniform(5, 90), 3), N.rnd(rng.uniform(20, 90), 3)]))
    x, y = center[0] + rng.normal() * size / 3, center[1] + rng.normal() * size / 3
    if zhi - zlo > 0.2:
        a = rng.uniform(zlo, zhi - 0.1)
        b = rng.uniform(a + 0.05, zhi)
    else:
        a, b = zlo, zhi
    top, bot = round(float(a), 4), round(float(b), 4)
    a, b = N.rnd(rng.normal(), 3), N.rnd(rng.normal(), 3)
    if rng.random() < 0.3:
        a, b = (0.0, b) if rng.random() < 0.5 else (a, 0.0)
    if k >= 400:
        a, b = a * 1e6, b * 1e6
    f = dict(e0=round(float(x), 4), n0=round(float(y), 4), e1=round(float(x + L * np.sin(st)), 4), n1=round(float(y + L * np.cos(st)), 4), kode=k, a=a, b=b, dip=dip, top=top, bot=bot)
    if rng.random() < 0.25:              # sizes that are multiples of simple steps
        f.update(e1=f["e0"], n1=round(f["n0"] + round(L + 0.1, 1), 4), bot=round(top + max(round(bot - top, 1), 0.1), 4), dip=90.0)
        if f["bot"] > zhi:
            f["bot"] = bot
    return f


def ok(f):
    if not (0 < f["dip"] <= 90) or f["bot"] <= f["top"] + 1e-6 or np.hypot(f["e1"] - f["e0"], f["n1"] - f["n0"]) < 1e-3 or f["kode"] not in (100, 200, 300, 400, 500):
        return False
    return f["top"] >= 0


def write(path, faults, inr=False, noise=False):
    with open(path, "w") as fh:
        fh.write("  #   X-start    Y-start     X-fin      Y-fin   Kode  slip1  slip2   dip   top   bot\nxxx xxxxxxxxxx\n")
        for i, f in enumerate(faults):
            a, b = (f["a"], f["b"]) if not inr else (f["rake"], f["slip"])
            fh.write(f"{i + 1} {f['e0']!r} {f['n0']!r} {f['e1']!r} {f['n1']!r} {f['kode']} {a!r} {b!r} {f['dip']!r} {f['top']!r} {f['bot']!r}" + ("   Fault %d comment" % i + " and more" * (20 * i % 70) if noise else "") + "\n")


def mechanisms(f):
    """[(source dict for srcs, slip in m or potency in m^3)]; strike from the first to the last point, dip to its right"""
    st = float(np.degrees(np.arctan2(f["e1"] - f["e0"], f["n1"] - f["n0"]))) % 360
    a, b, k, dip = f["a"], f["b"], f["kode"], f["dip"]
    M = lambda rake: dict(kind="M", v=[st, dip, rake])
    T = dict(kind="MT", v=[st, dip])
    if k in (100, 400):
        return [(M(180.0), a), (M(90.0), b)]          # right lateral, reverse
    if k == 200:
        return [(M(180.0), a), (T, b)]
    if k == 300:
        return [(T, a), (M(90.0), b)]
    return [(T, a), (dict(kind="EX"), b)]


def position(f, l, w):
    """(north, east, depth) at distance l along strike and w down dip from the top left corner"""
    st = np.arctan2(f["e1"] - f["e0"], f["n1"] - f["n0"])
    d = np.radians(f["dip"])
    along = np.array([np.cos(st), np.sin(st)])
    right = np.array([-np.sin(st), np.cos(st)])
    p = np.array([f["n0"], f["e0"]]) + l * along + w * np.cos(d) * right
    return float(p[0]), float(p[1]), f["top"] + w * np.sin(d)


def size(f):
    return float(np.hypot(f["e1"] - f["e0"], f["n1"] - f["n0"])), float((f["bot"] - f["top"]) / np.sin(np.radians(f["dip"])))


def tiles(f, dL, dW):
    """[(north, east, depth, area in m^2 or 1)]"""
    L, W = size(f)
    if f["kode"] >= 400:
        return [position(f, L / 2, W / 2) + (1.0,)]
    out = []
    def cut(T, d):
        n = max(1, int(np.ceil(T / d - 1e-9)))
        return [(i * d, min((i + 1) * d, T)) for i in range(n)]
    for a, b in cut(W, dW):
        for c, e in cut(L, dL):
            out.append(position(f, (c + e) / 2, (a + b) / 2) + ((b - a) * (e - c) * 1e6,))
    return out
