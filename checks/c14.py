"""grt okada: displacements and gradients of point sources and rectangles in a half-space equal Mindlin's solution."""
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, faults as F, srcs as S
from vlib import mindlin as Mi

PROP = "C14"
LEVEL = "exploration"
ASSUMPTIONS = ["receivers nearer to a source than 2 % of its depth or size are left out (the reference is a quadrature)",
               "the shift of a receiver that lies exactly on a point source is not judged, only that the run succeeds"]


def gen_recv(rng, c, fs):
    """receivers on a grid or in a file; some aligned with the edges of the faults"""
    sc = N.log_uniform(rng, 0.5, 40)
    def depth():
        u = rng.random()
        return 0.0 if u < 0.45 else N.rnd(rng.uniform(0, sc), 4)
    if rng.random() < 0.4:
        c["ax"] = [[N.rnd(rng.uniform(-sc, sc / 2), 3), N.rnd(rng.uniform(0.05, 0.6) * sc, 3), int(rng.integers(1, 4))] for _ in range(2)]
        if rng.random() < 0.2:
            c["ax"][0] = [round(-c["ax"][0][1] * 1, 4), c["ax"][0][1], 3]        # through zero
        c["zr"] = depth()
    else:
        c["pts"] = []
        for _ in range(int(rng.integers(1, 6))):
            p = [N.rnd(rng.normal() * sc, 4), N.rnd(rng.normal() * sc, 4), depth()]
            u = rng.random()
            if u < 0.1:
                p[:2] = [0.0, 0.0]
            elif u < 0.2:
                p[int(rng.integers(2))] = 0.0
            elif u < 0.5 and fs:
                f = fs[int(rng.integers(len(fs)))]
                L, W = F.size(f)
                q = F.position(f, float(rng.choice([0, 0.5, 1, -0.7, 1.6, rng.uniform(-1, 2)])) * L, float(rng.choice([0, 1, 0.5, -0.5, 1.5, rng.uniform(-1, 2)])) * W)
                p[:2] = [round(q[0], 4), round(q[1], 4)]
                if rng.random() < 0.5 and q[2] >= 0:
                    p[2] = round(q[2], 4)
            c["pts"].append(p)
        c["geom"] = bool(rng.random() < 0.3)
        if fs and rng.random() < 0.3:                  # exactly on the line through an edge, without rounding
            f = fs[0]
            g = lambda a, b: round(float(rng.integers(int(a * 8), int(b * 8) + 1)) / 8, 6)
            f.update(e0=g(-3, 3), n0=g(-3, 3), top=g(0.125, 4), dip=90.0)
            k = int(rng.integers(2))
            L, W = g(0.25, 6), g(0.25, 4)
            f.update(bot=f["top"] + W, e1=f["e0"] + (0, L)[k] * (1 if rng.random() < 0.5 else -1), n1=f["n0"] + (L, 0)[k] * (1 if rng.random() < 0.5 else -1))
            a = (g(0.25, 2) * 2 + L) * (1 if rng.random() < 0.5 else -1)
            mid = (f["n0"] + f["n1"]) / 2, (f["e0"] + f["e1"]) / 2
            if rng.random() < 0.6:                     # upper or lower edge
                p = [mid[0] + (a, 0)[k], mid[1] + (0, a)[k], f["top"] if rng.random() < 0.5 else f["bot"]]
            else:                                      # side edge
                e = rng.random() < 0.5
                p = [f["n0"] if e else f["n1"], f["e0"] if e else f["e1"], float(rng.choice([0.0, f["top"] / 2, f["bot"] + g(0.25, 3)]))]
            c["pts"].append(p)
    return sc


def gen(rng):
    vs = N.rnd(N.log_uniform(rng, 0.3, 5))
    nu = float(rng.choice([0.25, rng.uniform(0.02, 0.48), rng.uniform(0.1, 0.4)]))
    c = dict(med=[N.rnd(vs * np.sqrt((2 - 2 * nu) / (1 - 2 * nu))), vs, N.rnd(rng.uniform(1.2, 3.6))], zne=bool(rng.random() < 0.5), deriv=bool(rng.random() < 0.6))
    if rng.random() < 0.5:
        c["src"] = S.gen_source(rng, ("EX", "M", "MT", "M", "MT"))
        c["S"] = [bool(rng.random() < 0.5), N.rnd(10 ** rng.uniform(12, 24), 3)]
        gen_recv(rng, c, [])
        c["zs"] = N.rnd(N.log_uniform(rng, 0.05, 30), 4)
        if "pts" in c and rng.random() < 0.25:
            p = c["pts"][0]
            p[2] = c["zs"] if rng.random() < 0.6 else p[2]
    else:
        sz = N.log_uniform(rng, 0.5, 20)
        c["faults"] = [F.gen_fault(rng, 0.0 if rng.random() < 0.3 else 0.05, float(sz), size=sz, kinds=(100, 200, 300, 400, 500)) for _ in range(int(rng.choice([1, 1, 2, 3])))]
        for f in c["faults"]:
            if rng.random() < 0.2:
                f["dip"] = float(rng.choice([90.0, 45.0, 89.0, 60.0, 30.0]))
            if rng.random() < 0.05:
                f["top"] = 0.0
        gen_recv(rng, c, c["faults"])
    return c


def seg_dist(p, a, b):
    """distance of p to the rectangle spanned from corner a by edge vectors b[0], b[1] (orthogonal)"""
    d = p - a
    r = d.copy()
    for e in b:
        n = e @ e
        t = min(max(d @ e / n, 0), 1)
        r = r - t * e
    return float(np.linalg.norm(r))


def edge_dist(p, f):
    L, W = F.size(f)
    a, e1, e2 = corner(f)
    return seg_dist(p, a, [e1, e2])


def corner(f):
    L, W = F.size(f)
    a = np.array(F.position(f, 0, 0))
    return a, np.array(F.position(f, L, 0)) - a, np.array(F.position(f, 0, W)) - a


def sources(c):
    """[(function (x, panel size) -> displacement (NED), distance function, scale length, strength)]  displacement in cm"""
    vp, vs, rho = c["med"]
    nu = (vp**2 - 2 * vs**2) / (2 * (vp**2 - vs**2))
    mu = rho * vs**2 * 1e10
    out = []
    if "src" in c:
        M = S.tensor(c["src"], vp, vs)
        u, s = c["S"]
        pot = s if u else s / mu             # cm^3
        src = np.array([0, 0, c["zs"]])
        out.append((lambda x, d: Mi.nucleus(x[0], x[1], x[2], src, M, nu) * pot * 1e-10, lambda x: float(np.linalg.norm(x - src)), c["zs"], np.abs(M).max() * pot * 1e-10, None))
        return out
    for f in c["faults"]:
        Mt = sum(q * S.tensor(s, vp, vs) for s, q in F.mechanisms(f))
        L, W = F.size(f)
        if f["kode"] >= 400:
            src = np.array(F.position(f, L / 2, W / 2))
            out.append((lambda x, d, M=Mt, s=src: Mi.nucleus(x[0], x[1], x[2], s, M, nu) * 1e-4, lambda x, s=src: float(np.linalg.norm(x - s)), src[2], np.abs(Mt).max() * 1e-4, None))
        else:
            a, e1, e2 = corner(f)
            pos = lambda l, w, a=a, e1=e1, e2=e2, L=L, W=W: a[:, None] + e1[:, None] * l / L + e2[:, None] * w / W
            dist = lambda x, f=f: edge_dist(x, f)
            def fun(x, d, M=Mt, pos=pos, L=L, W=W):
                return 100 * Mi.rectangle(pos, L, W, d, lambda P: Mi.nucleus(x[0], x[1], x[2], P, M, nu))
            out.append((fun, dist, max(L, W), np.abs(Mt).max() * 100 * L * W, min(L, W)))
    return out


def run(c, wd):
    vp, vs, rho = c["med"]
    if vs <= 0 or rho <= 0 or not vs * 1.42 < vp < vs * 8:
        raise Skip
    fs = c.get("faults", [])
    if "faults" in c and (not fs or not all(F.ok(f) for f in fs)):
        raise Skip
    if "src" in c and (not S.ok(c["src"]) or c["zs"] <= 0 or c["S"][1] <= 0 or c["src"]["kind"] not in ("EX", "M", "MT")):
        raise Skip
    if any(89 < f["dip"] < 90 for f in fs) or any(not (f["a"] or f["b"]) for f in fs):
        raise Skip
    a = ["okada", "-I" + "/".join(repr(float(v)) for v in c["med"]), "-Oo.nc", "-s"] + ["-N"] * c["zne"] + ["-e"] * c["deriv"]
    if fs:
        F.write("f.inp", fs)
        a.append("-Cf.inp")
    else:
        a += ["-S" + "u" * c["S"][0] + repr(float(c["S"][1])), f"-Ds{c['zs']!r}"] + S.args(c["src"])
    if "pts" in c:
        P = c["pts"]
        if not P or any(len(p) != 3 or p[2] < 0 for p in P):
            raise Skip
        with open("q", "w") as f:
            f.write("# n e z\n")
            for i, p in enumerate(P):
                f.write(f"{p[0]!r} {p[1]!r} {p[2]!r}" + (f" {10 + i} {20 + i} {-30 + i}" if c.get("geom") else "") + "\n")
        a.append("-Qq")
    else:
        v = []
        for o, (x0, h, n) in zip("XY", c["ax"]):
            if h <= 0 or n < 1:
                raise Skip
            a.append(f"-{o}{x0!r}/{x0 + h * (n - 0.5)!r}/{h!r}")
            v.append([x0 + h * i for i in range(n)])
        if c["zr"] < 0:
            raise Skip
        a.append(f"-Dr{c['zr']!r}")
        P = [(x, y, c["zr"]) for x in v[0] for y in v[1]]
    src = sources(c)
    far = []
    for p in P:
        x = np.array(p, float)
        ds = [(d(x), s) for f, d, s, q, m in src]
        if fs and any(d < 1e-4 * max(s, 1e-3) for d, s in ds):
            raise Skip                                   # on a source: an error for faults
        far.append(all(d >= 0.02 * s for d, s in ds))
    G.run(a, env={"OMP_NUM_THREADS": str(1 + len(P) % 4)})
    d = G.Nc("o.nc")
    chs = "ZNE" if c["zne"] else "ZRT"
    names = set(chs) | ({i.lower() + j for i in chs for j in chs} if c["deriv"] else set())
    G.must({k for k in d.v if len(k) <= 2} == names, "variables", f"{sorted(d.v)}")
    G.must(all(np.all(np.isfinite(v)) for v in d.v.values()), "finite", "non-finite numbers in the output")
    sh = (len(P),) if "pts" in c else (c["ax"][0][2], c["ax"][1][2])
    G.must(all(d[k].shape == sh for k in names), "shape", f"{[d[k].shape for k in names]} instead of {sh}")
    if "pts" in c:
        for i, k in enumerate(("north", "east", "depth")):
            G.must(np.array_equal(d[k], [p[i] for p in P]), "points", k)
        if c.get("geom"):
            G.must(all(np.array_equal(d[k], z + np.arange(len(P))) for k, z in (("strike", 10), ("dip", 20), ("rake", -30))), "points", "angles")
        med = [float(d[k].ravel()[0]) for k in ("rcv_va", "rcv_vb", "rcv_rho")]
    else:
        G.close("points", "axes", np.concatenate([d["north"], d["east"]]), np.concatenate(v), 1e-12, 1e-9)
        med = [float(d.attr[k]) for k in ("rcv_va", "rcv_vb", "rcv_rho")]
    G.must(med == [vp, vs, rho], "medium", f"{med}")
    worst = wd_ = 0.0
    n = 0
    for p, x in enumerate(P):
        if not far[p]:
            continue
        n += 1
        x = np.array(x, float)
        u, D, mag, mD = np.zeros(3), np.zeros((3, 3)), 0.0, 0.0
        for f, dist, s, q, mn in src:
            L0 = dist(x)
            ui = f(x, L0)
            u = u + ui
            # loss of digits for a receiver many sizes away from a small fault
            # (corner coordinates below 1e-6 km are taken for zero)
            snap = 1 + (2 / mn + 2 / L0 if mn else 0)
            mag += np.linalg.norm(ui) * snap + 1e-3 * q / (L0 + (s if fs else 0)) ** 2 * min(1.0, 1e-3 * (1 + L0 / s) ** 2)
            if c["deriv"]:
                h = 0.01 * min(L0, max(x[2], 0) + s if s else L0)
                Di = (Mi.gradient if x[2] > 3.01 * h else Mi.gradient_down)(lambda y: f(y, L0), x, h)
                D = D + Di
                mD += snap * max(np.abs(Di).max(), np.linalg.norm(ui) / (L0 + s) * 1e-3, 1e-3 * q / (L0 + (s if fs else 0)) ** 3)
        T = np.array([[0, 0, -1], [1, 0, 0], [0, 1, 0]]) if c["zne"] else None      # rows Z(up), N, E
        dist = np.hypot(x[0], x[1])
        if not c["zne"]:
            az = np.arctan2(x[1], x[0]) if dist > 0 else 0.0
            T = np.array([[0, 0, -1], [np.cos(az), np.sin(az), 0], [-np.sin(az), np.cos(az), 0]])
        v = T @ u
        for i, ch in enumerate(chs):
            got = float(d[ch].ravel()[p])
            worst = max(worst, abs(got - v[i]) / mag) if mag else worst
            if not abs(got - v[i]) <= 2e-6 * mag:
                raise Violation("value", f"{ch} at {tuple(x)}: {got:.9g}, expected {v[i]:.9g} (magnitude {mag:.3g})")
        if c["deriv"]:
            W = np.einsum("ai,bj,ij->ab", T, T, D) * 1e-5              # cm per km -> 1
            mD *= 1e-5
            if not c["zne"] and dist > 0:
                W[2, 1] -= 0
            for i, ch in enumerate(chs):
                for j, cq in enumerate(chs):
                    if not c["zne"] and i == 2 and dist < 1e-6:
                        continue
                    e = W[i][j]
                    if not c["zne"] and i == 2 and dist > 0:             # (1/r) d/dtheta of the components
                        e = e + (v[2] if j == 1 else -v[1] if j == 2 else 0) / dist * 1e-5
                    got = float(d[ch.lower() + cq].ravel()[p])
                    m = mD + (mag / dist * 1e-5 if not c["zne"] and i == 2 else 0)
                    wd_ = max(wd_, abs(got - e) / m)
                    if not abs(got - e) <= 2e-5 * m:
                        raise Violation("deriv", f"{ch.lower() + cq} at {tuple(x)}: {got:.9g}, expected {e:.9g} (magnitude {m:.3g})")
    return dict(nontrivial=n > 0, tags=[chs] + ([str(f["kode"]) for f in fs] or [c["src"]["kind"], "u" * c["S"][0] or "moment"]) + ["deriv"] * c["deriv"] + ["pts" if "pts" in c else "grid"], metric=dict(err=worst, derr=wd_))


SUBS = [Sub("field", gen, run, 900, 8000, rule="a receiver at least 2 % of the source size away")]
