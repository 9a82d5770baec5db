"""Static Green's function libraries made of arbitrary numbers (documented NetCDF layout) and a reference evaluation of what
`grt static syn` documents: synthesis at the library nodes that surround a receiver, combined with linear weights."""
import numpy as np
from scipy.io import netcdf_file
from . import srcs, gen as N

H = 1e-3
UNIT = {"F": 1e-15}


def node_values(seed, key, r):
    """u, du/dz, du/dr of the 15 Green's functions at one node; at r = 0 they are those of a smooth field"""
    g = np.random.default_rng([seed] + [int(k) for k in key])
    out = {}
    base = {p: {n: float(g.normal()) for n in srcs.GFS} for p in ("", "z", "r")}
    if r == 0:
        for p in ("", "z", "r"):
            b = base[p]
            for n in srcs.GFS:
                m = {"EX": 0, "VF": 0, "DD": 0, "HF": 1, "DS": 1, "SS": 2}[n[:2]]
                c = n[2]
                power = m if c == "Z" else abs(m - 1)            # lowest power of r
                if power != (1 if p == "r" else 0):
                    b[n] = 0.0
                elif c == "T":
                    b[n] = b[n[:2] + "R"]
    for p in ("", "z", "r"):
        for n in srcs.GFS:
            out[p + n] = base[p][n]
    return out


class Lib:
    """depsrcs, deprcvs, norths, easts: strictly ascending; rows: model"""

    def __init__(self, seed, S, R, norths, easts, rows, upar, scale=1.0):
        self.S, self.R, self.n, self.e = (np.array(x, float) for x in (S, R, norths, easts))
        self.rows, self.upar = rows, upar
        d = np.hypot(self.n[:, None], self.e[None, :]).ravel()
        # one value per distance, so that duplicates agree
        o = np.argsort(d, kind="stable")
        grp = np.concatenate([[0], np.cumsum(np.diff(d[o]) > 1e-11)])
        self.d = np.array([d[o][grp == g][0] for g in range(grp[-1] + 1)])
        inv = np.empty(len(d), int)
        inv[o] = grp
        self.dist = d
        self.nodes = {}
        for a in range(len(S)):
            for b in range(len(R)):
                self.nodes[a, b] = [node_values(seed, (a, b, k), self.d[k]) for k in range(len(self.d))]
        self.inv = inv
        self.med = [rows[N.layer_at(rows, z)][1:4] for z in S]

    def save(self, path):
        f = netcdf_file(path, "w", version=2)
        f.calc_upar = np.int32(self.upar)
        for nm, v in (("depsrc", self.S), ("deprcv", self.R), ("north", self.n), ("east", self.e)):
            f.createDimension(nm, len(v))
            x = f.createVariable(nm, "f8", (nm,))
            x[:] = v
        f.createDimension("layer", len(self.rows))
        f.createDimension("model_param", 6)
        x = f.createVariable("model", "f8", ("layer", "model_param"))
        x[:] = np.array([(list(r) + [0.0] * 6)[:6] for r in self.rows])
        for nm, zs, dim in (("src", self.S, "depsrc"), ("rcv", self.R, "deprcv")):
            for k, c in enumerate(("va", "vb", "rho")):
                x = f.createVariable(f"{nm}_{c}", "f8", (dim,))
                x[:] = [self.rows[N.layer_at(self.rows, z)][k + 1] for z in zs]
        for p in ("", "z", "r") if self.upar else ("",):
            for n in srcs.GFS:
                x = f.createVariable(p + n, "f8", ("depsrc", "deprcv", "north", "east"))
                a = np.zeros((len(self.S), len(self.R), len(self.dist)))
                for (i, j), nd in self.nodes.items():
                    a[i, j] = [nd[k][p + n] for k in self.inv]
                x[:] = a.reshape(len(self.S), len(self.R), len(self.n), len(self.e))
        f.close()

    def at_node(self, s, a, b, k, az, zne, scale, su):
        """displacement (3,) and gradient D[dir][comp] of source s, synthesised at node k for azimuth az"""
        nd = self.nodes[a, b][k]
        vp, vs, rho = self.med[a]
        sc = scale * UNIT.get(s["kind"], 1e-20) * (vs * vs * rho * 1e10 if su else 1)
        r = self.d[k]
        syn = lambda p, t: np.array(srcs.synth(s, nd, t, vp, vs, pre=p))
        u = syn("", az)
        D = None
        if self.upar:
            q, rr = ("", r) if r > 0 else ("r", 1.0)
            f = [syn(q, az + i * H) for i in (-2, -1, 1, 2)]
            dth = (f[0] - 8 * f[1] + 8 * f[2] - f[3]) / (12 * H)
            D = np.array([syn("z", az), syn("r", az), dth / rr]) * 1e-5
        if zne:
            c, t = np.cos(az), np.sin(az)
            B = np.array([[1, 0, 0], [0, c, -t], [0, t, c]])
            if D is not None:
                g = D.copy()
                if r > 0:
                    g[2, 1] -= u[2] / r * 1e-5
                    g[2, 2] += u[1] / r * 1e-5
                else:
                    g[2, 1] -= D[1, 2]
                    g[2, 2] += D[1, 1]
                D = np.einsum("ai,bj,ij->ab", B, B, g)
            u = B @ u
        return u * sc, None if D is None else D * sc

    @staticmethod
    def weights(x, q):
        """[(index, weight)] of linear interpolation; None outside"""
        if q < x[0] - 1e-8 or q > x[-1] + 1e-8:
            return None
        q = min(max(q, x[0]), x[-1])
        k = int(np.searchsorted(x, q, side="left"))
        if x[k] == q:
            return [(k, 1.0)]
        w = (q - x[k - 1]) / (x[k] - x[k - 1])
        return [(k - 1, 1 - w), (k, w)]

    def point(self, s, zs, zr, x, y, zne, scale, su):
        """(u, D, largest term of u, largest term of D, zero node used); None outside of the depths, zeros outside of the distances"""
        W = [self.weights(self.S, zs), self.weights(self.R, zr)]
        if None in W:
            return None
        d = float(np.hypot(x, y))
        az = np.arctan2(y, x) if d > 0 else 0.0
        u, D, mu, mD, zero = np.zeros(3), np.zeros((3, 3)), 0.0, 0.0, False
        wr = self.weights(self.d, d)
        if wr is None:
            return u, D, 0.0, 0.0, False
        for a, wa in W[0]:
            for b, wb in W[1]:
                for k, wk in wr:
                    v, g = self.at_node(s, a, b, k, az, zne, scale, su)
                    zero |= self.d[k] == 0
                    w = wa * wb * wk
                    u += w * v
                    mu = max(mu, np.abs(v).max())
                    if g is not None:
                        D += w * g
                        mD = max(mD, np.abs(g).max(), np.abs(v).max() * 1e-5 / max(self.d[k], 1e-3) if self.d[k] else 0)
        return u, D, mu, mD, zero


def gen_axis(rng, kind, big=False):
    """horizontal samples of a library: (norths, easts)"""
    if kind == "grid":
        def ax():
            n = int(rng.integers(8, 25) if big else rng.integers(1, 6))
            if rng.random() < 0.4:
                h = N.rnd(rng.uniform(0.2, 3), 2)
                return [round(h * (i - (n - 1) / 2), 9) for i in range(n)]
            return sorted({N.rnd(rng.normal() * 4, 3) for _ in range(n)})
        return ax(), ax()
    n = int(rng.integers(40, 300) if big else rng.integers(1, 9))
    a = float(rng.choice([0.0, N.rnd(rng.uniform(0.1, 3), 3)]))
    if kind == "even":
        h = N.rnd(N.log_uniform(rng, 0.01, 5), 2)
        r = [round(a + h * i, 9) for i in range(n)]
    elif kind == "fine":                 # metres apart, uneven
        h = N.log_uniform(rng, 1e-4, 2e-3)
        r = [a]
        for i in range(n - 1):
            r.append(round(r[-1] + h * rng.uniform(0.3, 2), 7))
    elif kind == "log":
        a = a or 0.5
        q = rng.uniform(1.005, 1.02 if big else 1.8)
        r = [round(a * q ** i, 6) for i in range(n)]
    else:
        r = sorted({round(float(a + x), 4) for x in np.cumsum(rng.exponential(1.5, n))})
    r = [x for i, x in enumerate(r) if i == 0 or x > r[i - 1] + 1e-8]
    return [0.0], r
