"""Time processing of synthetics: convolution with the source time function, integration, differentiation."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, srcs, pyapi

PROP = "C09"
LEVEL = "exploration"
ASSUMPTIONS = ["arbitrary traces as Green's functions; time function parameters at least 1 % of a sample away from a rounding decision or exact multiples of the sampling",
               "convolution is periodic in the damped trace, as the traces are (imaginary frequency in the header)"]


# ---------------------------------------------------------------- time functions from their definition
def steps(t, dt):
    k = t / dt
    return max(0, int(round(k)) if abs(k - round(k)) < 1e-3 else int(np.ceil(k)))


def wave(tf, dt):
    k, v = tf["kind"], tf["v"]
    if k == "p":
        n = steps(v[0], dt)
        x = np.arange(n + 1) / n
        return 4 * x * (1 - x)
    if k == "t":
        n1 = steps(v[0], dt)
        n2 = steps(v[1] - n1 * dt, dt) if v[1] != v[0] else 0
        n3 = steps(v[2] - (n1 + n2) * dt, dt)
        i = np.arange(n1 + n2 + n3 + 1.0)
        y = np.ones(len(i))
        if n1:
            y = np.minimum(y, i / n1)
        if n3:
            y = np.minimum(y, (n1 + n2 + n3 - i) / n3)
        return y
    if k == "r":
        t0 = 1 / v[0]
        n = (int(np.floor(t0 / dt)) + 1) * 2
        a = (np.pi * v[0] * (np.arange(n) * dt - t0)) ** 2
        return (1 - 2 * a) * np.exp(-a)
    return np.array(v, float)


def safe(t, dt, q=1):
    """is the number of samples of a duration unambiguous?"""
    k = t / dt
    f = abs(k - round(k))
    return f > 0.01 or (f < 1e-9 and t < 8 and k < 3000)


def tf_ok(tf, dt):
    k, v = tf["kind"], tf["v"]
    if any(x < 0 for x in v) and k != "0":
        return False
    if k == "p":
        return len(v) == 1 and safe(v[0], dt) and steps(v[0], dt) >= 2      # shorter ones are rejected
    if k == "t":
        if len(v) != 3 or not (v[0] <= v[1] < v[2]):
            return False
        n1 = steps(v[0], dt)
        if not safe(v[0], dt):
            return False
        if v[1] != v[0] and not safe(v[1] - n1 * dt, dt):
            return False
        n2 = steps(v[1] - n1 * dt, dt) if v[1] != v[0] else 0
        return safe(v[2] - (n1 + n2) * dt, dt)
    if k == "r":
        return len(v) == 1 and v[0] > 0 and 1 / dt > 2.02 * v[0] and 1 / dt / v[0] < 500 and 0.01 < (1 / v[0] / dt) % 1 < 0.99
    return len(v) >= 1


def gen_tf(rng, n, dt):
    T = n * dt
    for _ in range(200):
        k = str(rng.choice(["p", "t", "t", "r", "0"]))

        def dur(a=0.3, b=None):
            m = N.log_uniform(rng, a, b or max(2.0, min(1.6 * n, 300)))
            return N.rnd(round(m) * dt, 6) if rng.random() < 0.3 and m > 0.5 else N.rnd(m * dt, 4)
        if k == "p":
            v = [dur()]
        elif k == "t":
            a = [0.0 if rng.random() < 0.2 else dur(), dur(), dur()]
            v = [a[0], a[0] if rng.random() < 0.3 else N.rnd(a[0] + a[1], 6), 0]
            v[2] = N.rnd(v[1] + a[2], 6)
        elif k == "r":
            v = [N.rnd(1 / dur(2.1), 4)]
        else:
            m = int(N.log_uniform(rng, 1, min(2.2 * n, 400)))
            v = [N.rnd(x, 4) for x in rng.normal(size=max(m, 1))]
        tf = dict(kind=k, v=v)
        if tf_ok(tf, dt):
            return tf
    return dict(kind="0", v=[1.0])


def tf_arg(tf):
    if tf["kind"] == "0":
        with open("tf.txt", "w") as f:
            f.write("# time function\n" + "".join(f"{float(x)!r}\n" for x in tf["v"]))
        return "-D0/tf.txt"
    return f"-D{tf['kind']}/" + "/".join(repr(float(x)) for x in tf["v"])


def conv(x, h, dt, wi):
    n = len(x)
    xd = x * np.exp(-wi * dt * np.arange(n))
    hd = h * np.exp(-wi * dt * np.arange(len(h)))
    hw = np.zeros(n)
    np.add.at(hw, np.arange(len(h)) % n, hd)
    y = np.fft.irfft(np.fft.rfft(xd) * np.fft.rfft(hw), n) if n > 1 else xd * hw
    return y * dt * np.exp(wi * dt * np.arange(n))


def integ(x, dt):
    return np.concatenate([[0.0], np.cumsum((x[1:] + x[:-1]) * 0.5 * dt)])


def diff(x, dt):
    y = np.empty_like(x)
    y[1:-1] = (x[2:] - x[:-2]) / (2 * dt)
    y[0] = (x[1] - x[0]) / dt
    y[-1] = (x[-1] - x[-2]) / dt
    return y


def process(x, c, dt, wi):
    """processed trace and the scale of its rounding errors"""
    m = np.abs(x).max()
    n = len(x)
    if c["tf"]:
        h = wave(c["tf"], dt)
        x = conv(x, h, dt, wi)
        # terms that wrap around are amplified by the damping, the others are not
        m = m * dt * (np.abs(h * np.exp(0 * h)).sum())
    for _ in range(c["I"]):
        x = integ(x, dt)
        m *= n * dt
    for _ in range(c["J"]):
        x = diff(x, dt)
        m *= 2 / dt
    return x, m


def gen_cli(rng):
    n = int(rng.choice([2, 3, 5, 16, 31, 64, 127, 200]))
    dt = float(rng.choice([0.01, 0.02, 0.05, 0.1, 0.25, 0.5, 1.0])) if rng.random() < 0.6 else N.rnd(N.log_uniform(rng, 0.01, 1), 3)
    c = dict(n=n, dt=dt, zeta=float(rng.choice([0.0, 0.2, 0.8, 0.8, 2.0])), seed=int(rng.integers(1 << 30)),
             tf=gen_tf(rng, n, dt) if rng.random() < 0.8 else None, I=int(rng.choice([0, 0, 0, 1, 2])), J=int(rng.choice([0, 0, 0, 1, 2])),
             e=bool(rng.random() < 0.3), zne=bool(rng.random() < 0.4), src=srcs.gen_source(rng, ("EX", "F", "T", "M")), az=N.rnd(rng.uniform(0, 360), 3), dist=N.rnd(N.log_uniform(rng, 0.5, 100), 3))
    return c


def valid(c):
    if c["n"] < 2 or c["dt"] <= 0 or c["zeta"] < 0 or min(c["I"], c["J"]) < 0 or c["I"] != int(c["I"]) or c["J"] != int(c["J"]) or c["n"] != int(c["n"]):
        raise Skip
    if c["tf"] and not tf_ok(c["tf"], c["dt"]):
        raise Skip


def traces(c, wi):
    rng = np.random.default_rng(c["seed"])
    n = c["n"]

    def one():
        k = rng.integers(0, 4)
        if k == 0:
            x = np.zeros(n)
            x[rng.integers(0, n)] = 1
        elif k == 1:
            x = rng.normal(size=n)
        else:
            x = np.exp(-((np.arange(n) - rng.uniform(0, n)) / (1 + 0.2 * n * rng.random())) ** 2) * rng.normal()
        return x.astype("<f4").astype(float)
    return one


def run_cli(c, wd):
    valid(c)
    s = c["src"]
    if not srcs.ok(s) or not 0 <= c["az"] <= 360 or c["dist"] <= 0:
        raise Skip
    n, dt = c["n"], float(np.float32(c["dt"]))
    wi = float(np.float32(c["zeta"] * np.pi / (n * dt)))
    one = traces(c, wi)
    os.mkdir("g")
    for nm in srcs.GFS:
        for p in ("", "z", "r")[:3 if c["e"] else 1]:
            G.write_sac(f"g/{p}{nm}.sac", one(), delta=c["dt"], b=1.5, dist=c["dist"], user0=wi, user1=5, user2=3, user3=2.7, user6=5, user7=3, user8=2.7, evdp=2, stel=0, o=0)
    base = ["syn", "-Gg", f"-A{c['az']!r}", "-S1e20", "-s"] + srcs.args(s) + ["-N"] * c["zne"] + ["-e"] * c["e"]
    G.run(base + ["-Oo0"])
    a = base + ["-Oo1"]
    if c["tf"]:
        a.append(tf_arg(c["tf"]))
    if c["I"]:
        a.append(f"-I{c['I']}")
    if c["J"]:
        a.append(f"-J{c['J']}")
    G.run(a)
    f0, f1 = set(os.listdir("o0")), set(os.listdir("o1"))
    G.must(f1 - f0 == ({"sig.sac"} if c["tf"] else set()) and f0 <= f1, "files", f"{sorted(f1)} next to {sorted(f0)}")
    worst = 0
    tol = 2e-5 + 2e-6 * n ** 0.5
    allx = {f: G.Sac("o0/" + f) for f in f0}
    for ln in (5, 6):          # displacements, derivatives
        grp = [f for f in f0 if len(f) == ln]
        if not grp:
            continue
        m0 = max(np.abs(allx[f].d).max() for f in grp)
        if ln == 6:
            m0 = max(m0, max(np.abs(allx[f].d).max() for f in f0 if len(f) == 5) / (c["dist"] * 1e5))
        for f in grp:
            t = G.Sac("o1/" + f)
            G.must(t.npts == n and abs(t.h("b") - 1.5) < 1e-6 and abs(t.h("delta") - dt) < 1e-7, "header", f"{f}: npts {t.npts} b {t.h('b')} delta {t.h('delta')}")
            x, _ = process(allx[f].d, c, dt, wi)
            _, m = process(np.full(n, m0), c, dt, wi)
            e = np.abs(t.d - x)
            w = tol * m * np.exp(0)
            worst = max(worst, float(np.max(e)) / (w + 1e-300))
            if not np.all(e <= w):
                j = int(np.nanargmax(e))
                raise Violation("process", f"{f} sample {j}: {t.d[j]:.7g}, expected {x[j]:.7g} (scale {m:.3g}, tf={str(c['tf'])[:80]}, I={c['I']}, J={c['J']})")
    if c["tf"]:
        h = G.Sac("o1/sig.sac")
        w = wave(c["tf"], dt)
        G.must(h.npts == len(w), "tflen", f"time function has {h.npts} samples, expected {len(w)} ({c['tf']}, dt={c['dt']})")
        G.must(abs(h.h("delta") - dt) < 1e-7 and h.h("b") == 0, "header", f"sig.sac delta {h.h('delta')} b {h.h('b')}")
        if c["zeta"] * len(w) / n < 20:
            e = np.abs(h.d - w).max()
            G.must(e <= (2e-5 + 4e-6 * len(w)) * max(1, np.abs(w).max()), "tf", f"time function differs by {e:.3g} ({c['tf']}): {h.d[:6]} / {w[:6]}")
    return dict(nontrivial=bool(c["tf"] or c["I"] or c["J"]), tags=[("D" + c["tf"]["kind"]) if c["tf"] else "noD", f"I{c['I']}J{c['J']}"] + ["long"] * bool(c["tf"] and len(wave(c["tf"], dt)) > n), metric=dict(err=worst))


# ---------------------------------------------------------------- the same operations on obspy streams
CODE = """
from obspy import Stream, Trace
res = []
for q in a:
    tr = [Trace(np.array(x, dtype=q['dtype'])) for x in q['x']]
    for t in tr:
        t.stats.delta = q['dt']
        if q['wi'] is not None:
            t.stats.sac = dict(user0=q['wi'])
    st = Stream(tr)
    k = q['tf']['kind'] if q['tf'] else None
    h = None
    if k == 'p': h = signals.gen_parabola_wave(q['tf']['v'][0], q['dt'])
    elif k == 't': h = signals.gen_trap_wave(*q['tf']['v'], q['dt'])
    elif k == 'tri': h = signals.gen_triangle_wave(q['tf']['v'][0], q['dt'])
    elif k == 'r': h = signals.gen_ricker_wave(q['tf']['v'][0], q['dt'])
    elif k == '0': h = np.array(q['tf']['v'], float)
    before = [t.data.copy() for t in st]
    cur = st
    if h is not None: cur = utils.stream_convolve(cur, h, inplace=q['inplace'])
    for _ in range(q['I']): cur = utils.stream_integral(cur, inplace=q['inplace'])
    for _ in range(q['J']): cur = utils.stream_diff(cur, inplace=q['inplace'])
    res.append(dict(y=[t.data.astype(float) for t in cur], h=h, kept=all(np.array_equal(t.data, b) for t, b in zip(st, before)), same=cur is st))
out['res'] = res
"""


def gen_py(rng):
    qs = []
    for _ in range(12):
        n = int(rng.choice([2, 3, 5, 16, 31, 64, 127, 200]))
        dt = float(rng.choice([0.01, 0.05, 0.1, 0.25, 1.0])) if rng.random() < 0.6 else N.rnd(N.log_uniform(rng, 0.01, 1), 3)
        tf = gen_tf(rng, n, dt) if rng.random() < 0.8 else None
        if tf and tf["kind"] == "t" and rng.random() < 0.3:
            tf = dict(kind="tri", v=[N.rnd(2 * rng.uniform(1.1, 1.4) * dt, 4)])
        qs.append(dict(n=n, dt=dt, zeta=float(rng.choice([0.0, 0.8, 2.0])), wi=bool(rng.random() < 0.7), tf=tf, I=int(rng.choice([0, 0, 1, 2])), J=int(rng.choice([0, 0, 1, 2])),
                       inplace=bool(rng.random() < 0.5), dtype=str(rng.choice(["f4", "f8"])), seed=int(rng.integers(1 << 30))))
    return dict(q=qs)


def run_py(c, wd):
    args, exp = [], []
    for q in c["q"]:
        tf = q["tf"]
        if tf and tf["kind"] == "tri":
            if len(tf["v"]) != 1:
                raise Skip
            tf = dict(kind="t", v=[tf["v"][0] / 2, tf["v"][0] / 2, tf["v"][0]])
        valid(dict(q, tf=tf))
        wi = q["zeta"] * np.pi / (q["n"] * q["dt"])
        one = traces(q, wi)
        xs = [one(), one()]
        args.append(dict(x=[x.tolist() for x in xs], dt=q["dt"], wi=wi if q["wi"] else None, tf=q["tf"], I=q["I"], J=q["J"], inplace=q["inplace"], dtype=q["dtype"]))
        exp.append((xs, dict(q, tf=tf), wi if q["wi"] else 0.0))
    r = pyapi.call(CODE, args)["res"]
    worst = 0
    for k, ((xs, q, wi), o) in enumerate(zip(exp, r)):
        if q["tf"]:
            w = wave(q["tf"], q["dt"])
            h = np.array(o["h"])
            G.must(len(h) == len(w), "tflen", f"{q['tf']}: {len(h)} samples, expected {len(w)} (dt={q['dt']})")
            G.must(np.abs(h - w).max() <= (2e-5 + 1e-6 * len(w)) * max(1, np.abs(w).max()), "tf", f"{q['tf']} dt={q['dt']}: {h[:6]} / {w[:6]}")
        touched = q["tf"] or q["I"] or q["J"]
        if touched:
            G.must(o["same"] == q["inplace"], "inplace", f"inplace={q['inplace']} but the result is {'the' if o['same'] else 'not the'} input")
            if not q["inplace"]:
                G.must(o["kept"], "inplace", "the input was modified although inplace is False")
        m0 = max(np.abs(x).max() for x in xs)
        for x, y in zip(xs, o["y"]):
            z, _ = process(x, q, q["dt"], wi)
            _, m = process(np.full(len(x), m0), q, q["dt"], wi)
            e = np.abs(np.array(y) - z).max()
            tol = (2e-5 + 2e-6 * q["n"] ** 0.5) * m
            worst = max(worst, e / (tol + 1e-300))
            if not e <= tol:
                j = int(np.nanargmax(np.abs(np.array(y) - z)))
                raise Violation("stream", f"sample {j}: {y[j]:.7g}, expected {z[j]:.7g} (scale {m:.3g}, {dict(q, seed=0)})"[:500])
    return dict(nontrivial=True, tags=["inplace" if q["inplace"] else "copy" for q in c["q"][:1]], metric=dict(err=worst))


SUBS = [Sub("cli", gen_cli, run_cli, 2500, 20000, rule="at least one of convolution, integration, differentiation"),
        Sub("python", gen_py, run_py, 250, 2000, rule="always (twelve streams each)")]
