"""grt lamb1: the closed form of Lamb's first problem equals a direct Cagniard-de Hoop quadrature at every time."""
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, pyapi

PROP = "C15"
LEVEL = "exploration"
ASSUMPTIONS = ["times within 1e-4 of an arrival (P, S, Rayleigh), where the field jumps or is infinite, are not compared",
               "Poisson ratios within 2e-4 of 0.26308, where two roots of the Rayleigh cubic merge and the closed form loses digits, get a looser tolerance"]
CRIT = 0.2630820648
XG, WG = np.polynomial.legendre.leggauss(40)


def rayleigh(k2):
    """slowness of the Rayleigh wave in units of the shear slowness: (1 - 2x)^2 + 4x sqrt(x - 1) sqrt(x - k2)... root x = p^2 > 1"""
    f = lambda x: (1 - 2 * x) ** 2 - 4 * x * np.sqrt(x - 1) * np.sqrt(x - k2)
    a, b = 1.0, 2.0
    for _ in range(200):
        m = (a + b) / 2
        if f(m) > 0:
            a = m
        else:
            b = m
    return np.sqrt((a + b) / 2)


def reference(nu, t, az, npan=8):
    """pi^2 mu r times the response to a step force, r = mu = beta = 1; axes: x1, x2 horizontal, x3 down.
    Deformed path p = t sin(theta) under the real axis."""
    k2 = 0.5 * (1 - 2 * nu) / (1 - nu)
    if t <= np.sqrt(k2):
        return np.zeros((3, 3))
    # theta runs from 0 to pi/2 below the axis; panels shrink towards both ends (p near 1 when t is large, t near an arrival)
    lo = np.concatenate([[0], np.geomspace(min(0.1 / t, 0.1), 0.5, npan)])
    hi = 1 - np.concatenate([[0], np.geomspace(2e-3, 0.5, 8)])[::-1]
    e = np.concatenate([lo, hi[1:]])
    v = (e[:-1, None] + np.diff(e)[:, None] * (XG + 1) / 2).ravel()
    w = (np.diff(e)[:, None] * WG / 2).ravel()
    h = 0.45
    th = np.pi / 2 * v - 1j * h * np.sin(np.pi * v)
    dth = (np.pi / 2 - 1j * h * np.pi * np.cos(np.pi * v))
    p = t * np.sin(th)
    ea, eb = np.sqrt(k2 - p * p + 0j), np.sqrt(1 - p * p + 0j)     # at q = i p
    # without the cancellation of the leading powers of p: ea eb = -p^2 sX
    P2 = p * p
    sX = -ea * eb / P2
    q = (1 + k2 - k2 / P2) / (1 + sX)                              # p^2 (1 - sX)
    R = 1 - 4 * P2 + 4 * P2 * q
    LL, ZZ, TT = eb / R, ea / R, 1 / eb
    LZ = p * (1 - 2 * q) / R                     # q = i p: the factor i is put in below
    c = p / t                                                       # sin(theta)
    T1, T2 = t / p, 2 * (t / p) ** 2 - 1
    # p dp / sqrt(t^2 - p^2) = p dtheta
    I = lambda f: (-(2 / np.pi) * (f * p * dth * w).sum().imag) / (2 * np.pi)
    zz = I(ZZ)
    m0 = I((LL + TT) / 2)
    m2 = I((LL - TT) / 2 * T2)
    m1 = I(LZ * T1)
    a = np.radians(az)
    x = np.array([np.cos(a), np.sin(a)])
    g = np.zeros((3, 3))
    g[:2, :2] = m0 * np.eye(2) + m2 * (2 * np.outer(x, x) - np.eye(2))
    g[2, 2] = zz
    g[:2, 2] = m1 * x
    g[2, :2] = -m1 * x
    return g * np.pi ** 2


def arrivals(nu):
    k2 = 0.5 * (1 - 2 * nu) / (1 - nu)
    return [np.sqrt(k2), 1.0, rayleigh(k2)]


def gen_nu(rng):
    u = rng.random()
    if u < 0.2:
        return float(rng.choice([0.25, 0.3, 0.2, 0.4, 0.1, 1 / 3]))
    if u < 0.35:
        return float(min(max(CRIT + rng.choice([-1, 1]) * 10 ** rng.uniform(-7, -1.5), 0.01), 0.49))
    if u < 0.45:
        return float(rng.choice([10 ** rng.uniform(-1.9, -1), 0.5 - 10 ** rng.uniform(-4, -1)]))
    return N.rnd(rng.uniform(0.01, 0.49), int(rng.integers(2, 8)))


def gen(rng):
    nu = gen_nu(rng)
    c = dict(nu=nu, az=float(rng.choice([0, 45, 90, 180, 270, 360])) if rng.random() < 0.2 else N.rnd(rng.uniform(0, 360), 4))
    if rng.random() < 0.5:
        c["api"] = True
        ar = arrivals(nu)
        t = [float(x) for x in rng.uniform(0, 3, int(rng.integers(1, 12)))]
        t += [float(abs(ar[rng.integers(3)] + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, -1))) for _ in range(int(rng.integers(0, 12)))]
        if rng.random() < 0.2:
            t.append(float(10 ** rng.uniform(0.5, 3)))
        if rng.random() < 0.3:
            t.append(float(ar[rng.integers(3)]))
        if rng.random() < 0.5:
            t.sort()
        c["t"] = t
    else:
        dt = float(rng.choice([0.01, 0.05, 0.1, 0.15, 0.2, 0.02, N.rnd(10 ** rng.uniform(-3, 0), 3)]))
        n = int(rng.integers(1, 25))
        u = rng.random()
        t0 = 0.0 if u < 0.2 else round(max(0.0, 1 - dt * int(rng.integers(0, n))), 6) if u < 0.6 else N.rnd(rng.uniform(0, 2.5), 3)
        c.update(api=False, t=[t0, dt, n])
    return c


def compare(c, t, got, tol):
    ar = arrivals(c["nu"])
    big = 0.0
    if abs(c["nu"] - CRIT) < 2e-4:
        tol = max(tol, 1e-11 / max(abs(c["nu"] - CRIT), 1e-7))
    tol += 2e-10 / min(c["nu"], 0.5 - c["nu"])
    e = 0.0
    for x, g in zip(t, got):
        near = min(abs(x - a) for a in ar)
        if not np.all(np.isfinite(g)):
            raise Violation("finite", f"nu={c['nu']} t={x!r}: not finite")
        if near < 9.9e-5:
            continue
        r = reference(c["nu"], x, c["az"])
        s = max(1.0, float(np.abs(r).max()))
        e = float(np.abs(g - r).max()) / s
        big = max(big, e)
        if not e <= tol:
            i, j = np.unravel_index(np.argmax(np.abs(g - r)), (3, 3))
            raise Violation("value", f"nu={c['nu']} az={c['az']} t={x!r}: G{i + 1}{j + 1} = {g[i, j]:.9g}, quadrature {r[i, j]:.9g} (error {e:.3g} > {tol:.3g})")
    return big


def run(c, wd):
    if not (0.01 if not c.get("tiny") else 1e-5) <= c["nu"] <= 0.4999 or not 0 <= c["az"] <= 360 or not c["t"]:
        raise Skip
    if c["api"]:
        t = [abs(x) for x in c["t"]]
        o = pyapi.call("out['u'] = utils.solve_lamb1(a['nu'], np.array(a['t']), a['az'])", dict(nu=c["nu"], t=t, az=c["az"]))
        got = np.array(o["u"])
        G.must(got.shape == (len(t), 3, 3), "shape", f"{got.shape}")
        tol = 1e-7
    else:
        t0, dt, n = c["t"]
        if dt <= 0 or n < 1 or t0 < 0:
            raise Skip
        p = G.run(["lamb1", f"-P{c['nu']!r}", f"-A{c['az']!r}", f"-T{t0!r}/{t0 + (n - 0.5) * dt!r}/{dt!r}"])
        a = np.array([l.split() for l in p.out.splitlines() if not l.startswith("#")], float)
        G.must(a.shape == (n, 10), "shape", f"{a.shape} instead of {(n, 10)}")
        t = t0 + dt * np.arange(n)
        G.must(np.all(np.abs(a[:, 0] - t) <= 1e-6 * np.maximum(1, t)), "times", f"{a[:, 0]} instead of {t}")
        got = a[:, 1:].reshape(n, 3, 3)
        tol = 1e-6
    e = compare(c, t, got, tol)
    k = arrivals(c["nu"])[0]
    return dict(nontrivial=bool(any(x > k for x in t)), tags=["api" if c["api"] else "cli"] + ["between P and S"] * any(k < x < 1 for x in t) + ["after S"] * any(x > 1 for x in t) + ["near the double root"] * (abs(c["nu"] - CRIT) < 2e-3), metric=dict(err=e))


TINY = [[0.006364322412937813, 1.0], [0.00022119274662243572, 0.9915640587461438], [0.0003995977596492383, 0.9994322273228984], [0.005, 0.9], [0.002, 2.0]]


def gen_tiny(rng):
    i = int(rng.integers(len(TINY)))
    return dict(nu=TINY[i][0], t=[TINY[i][1]], az=30.0, api=True, tiny=True)


def matches_known(k, sub, case, r):
    return sub == "tiny" and r[1] == "finite" and [case["nu"], case["t"][0]] in k["inputs"]


SUBS = [Sub("field", gen, run, 2000, 15000, rule="a time after the P arrival"),
        Sub("tiny", gen_tiny, run, 30, 30, rule="Poisson ratios below 0.01")]
