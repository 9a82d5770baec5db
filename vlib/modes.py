"""Surface wave modes of a layered half-space from dynamic stiffness matrices.

The displacement is (U(z) sin kx, W(z) cos kx) for P-SV and V(z) for SH; z points down. Layers are divided so that no
part has a mode of its own with clamped faces below omega; the number of modes with frequency below omega at a given
wavenumber is then the number of negative eigenvalues of the assembled matrix (Wittrick and Williams).
Rows of a model: [h, vp, vs, rho, ...]; the last row is the half-space; vs = 0 means liquid."""
import numpy as np


def sc(n2, h):
    """for s = sqrt(n2), real or imaginary: s tanh(s h/2), s coth(s h/2)"""
    s = np.sqrt(np.abs(n2)) + 1e-300
    x = s * h / 2
    with np.errstate(over="ignore"):
        th, tn = np.tanh(np.minimum(x, 300)), np.tan(x)
    return np.where(n2 > 0, s * th, -s * tn), np.where(n2 > 0, s / th, s / tn)


class Stack:
    def __init__(self, rows, cmax, fmax, love, breaks=(), hmax=None):
        """parts valid for all c <= cmax and frequencies up to fmax"""
        self.rows, self.love = rows, love
        w = 2 * np.pi * fmax
        parts, top = [], 0.0
        self.lay0 = []
        for i, r in enumerate(rows[:-1]):
            h, vp, vs, rho = r[:4]
            v = vs if vs > 0 else vp
            kk = w * np.sqrt(max(1 / v ** 2 - 1 / cmax ** 2, 0))
            n = int(np.ceil(kk * h / (0.8 * np.pi)))
            zs = [top + h * j / max(n, 1) for j in range(max(n, 1) + 1)]
            if hmax:
                zs += [top + h * j / np.ceil(h / hmax) for j in range(1, int(np.ceil(h / hmax)))]
            zs = sorted(set(zs) | {b for b in breaks if top < b < top + h})
            for a, b in zip(zs, zs[1:]):
                if b - a > 1e-9:
                    parts.append((i, b - a, a))
            top += h
        self.bottom = top
        for b in sorted(b for b in set(breaks) if b > top):
            parts.append((len(rows) - 1, b - (parts[-1][1] + parts[-1][2]), parts[-1][1] + parts[-1][2]))
        self.parts = parts
        self.z = np.array([p[2] for p in parts] + [parts[-1][1] + parts[-1][2] if parts else 0.0])
        liq = [rows[p[0]][2] == 0 for p in parts] + [rows[-1][2] == 0]
        self.liq = liq
        self.fluidnode = [(j == 0 or liq[j - 1]) and liq[j] for j in range(len(parts) + 1)]

    # one part: [[K00, K01], [K01^T, K11]] in blocks of 2 (P-SV: U, W) or 1
    def element(self, i, h, w, k):
        vp, vs, rho = self.rows[i][1:4]
        one = np.ones_like(k)
        if self.love:
            if vs == 0:
                return None
            mu = rho * vs * vs
            t, c = sc(k * k - (w / vs) ** 2, h)
            a, b = mu * (c + t) / 2, mu * (t - c) / 2
            return a[:, None, None], b[:, None, None], a[:, None, None]
        K0, K1, Kx = (np.zeros((len(k), 2, 2)) for _ in range(3))
        if vs == 0:
            t, c = sc(k * k - (w / vp) ** 2, h)
            n2 = k * k - (w / vp) ** 2
            sym, ant = -rho * w * w * t / n2, -rho * w * w * c / n2    # W equal, W opposite at both faces
            K0[:, 1, 1] = K1[:, 1, 1] = (sym + ant) / 2
            Kx[:, 1, 1] = (sym - ant) / 2
            return K0, Kx, K1
        mu, M = rho * vs * vs, rho * vp * vp
        la = M - 2 * mu
        na, nb = k * k - (w / vp) ** 2, k * k - (w / vs) ** 2
        ta, ca = sc(na, h)
        tb, cb = sc(nb, h)
        # family 1: U even, W odd.  P (scaled by cosh): U = -k, W = ta ; S (scaled by cosh): U = -nb, W = k tb / 1 ... divided by cosh
        # P: phi = cosh: U = -k, W = s tanh =: ta ; U' = -k ta, W' = na
        # S: chi = sinh/s: U = -1, W = k tanh/s = k tb/nb ; U' = -tb, W' = k
        # face z = +h/2, family 1
        D1 = np.empty((len(k), 2, 2))
        F1 = np.empty_like(D1)
        D1[:, 0, 0], D1[:, 1, 0] = -k, ta
        D1[:, 0, 1], D1[:, 1, 1] = -1, k * tb / nb
        F1[:, 0, 0], F1[:, 1, 0] = mu * (-k * ta - k * ta), M * na - la * k * k
        F1[:, 0, 1], F1[:, 1, 1] = mu * (-tb - k * k * tb / nb), M * k - la * k
        # family 2: phi = sinh/s: U = -k, W = ca (scaled by sinh/s) ; U' = -k ca, W' = na
        # S: chi = cosh: U = -ca-like: U = -cb' ... scaled by sinh/s: U = -nb, W = k cb; U' = -nb cb, W' = k nb
        D2, F2 = np.empty_like(D1), np.empty_like(D1)
        D2[:, 0, 0], D2[:, 1, 0] = -k, ca
        D2[:, 0, 1], D2[:, 1, 1] = -1, k * cb / nb
        F2[:, 0, 0], F2[:, 1, 0] = mu * (-k * ca - k * ca), M * na - la * k * k
        F2[:, 0, 1], F2[:, 1, 1] = mu * (-cb - k * k * cb / nb), M * k - la * k
        S1 = F1 @ np.linalg.inv(D1)
        S2 = F2 @ np.linalg.inv(D2)
        # family 1 at the top face: U same, W opposite; forces on the top face are minus the traction
        J = np.diag([1.0, -1.0])
        # u1 = u at bottom, u0 = u at top; f1 = a, family 1 part of u: (u1 + J u0)/2, family 2 part: (u1 - J u0)/2
        K1 = (S1 + S2) / 2
        K10 = (S1 - S2) / 2 @ J
        K0 = J @ K1 @ J
        return K0, np.swapaxes(K10, 1, 2), K1

    def halfspace(self, w, k):
        vp, vs, rho = self.rows[-1][1:4]
        if self.love:
            return (rho * vs * vs * np.sqrt(np.maximum(k * k - (w / vs) ** 2, 0)))[:, None, None]
        K = np.zeros((len(k), 2, 2))
        na = np.sqrt(np.maximum(k * k - (w / vp) ** 2, 0))
        if vs == 0:
            K[:, 1, 1] = -rho * w * w / na
            return K
        nb = np.sqrt(np.maximum(k * k - (w / vs) ** 2, 0))
        mu, M = rho * vs * vs, rho * vp * vp
        la = M - 2 * mu
        D, F = np.empty_like(K), np.empty_like(K)
        # decaying P: U = -k, W = -na; U' = k na, W' = na^2.  S: U = nb, W = k; U' = -nb^2, W' = -k nb
        D[:, 0, 0], D[:, 1, 0], D[:, 0, 1], D[:, 1, 1] = -k, -na, nb, k
        F[:, 0, 0], F[:, 1, 0] = mu * 2 * k * na, M * na * na - la * k * k
        F[:, 0, 1], F[:, 1, 1] = mu * (-nb * nb - k * k), -M * k * nb + la * k * nb
        return -F @ np.linalg.inv(D)

    def nodes(self, w, k):
        """diagonal blocks, off-diagonal blocks"""
        m = len(self.parts) + 1
        nd = 1 if self.love else 2
        A = [np.zeros((len(k), nd, nd)) for _ in range(m)]
        B = []
        cache = {}
        for j, (i, h, _) in enumerate(self.parts):
            key = (i, round(h, 10))
            if key not in cache:
                cache[key] = self.element(i, h, w, k)
            e = cache[key]
            if e is None:
                B.append(np.zeros((len(k), nd, nd)))
                continue
            A[j] = A[j] + e[0]
            A[j + 1] = A[j + 1] + e[2]
            B.append(e[1])
        if not (self.love and self.rows[-1][2] == 0):
            A[-1] = A[-1] + self.halfspace(w, k)
        for j in range(m):
            if self.love:
                if self.fluidnode[j]:
                    A[j] = A[j] + 1.0
            elif self.fluidnode[j]:
                A[j][:, 0, 0] += 1.0
        return A, B

    def count(self, w, c):
        """number of modes with phase velocity below c at angular frequency w (arrays allowed for c)"""
        c = np.atleast_1d(np.asarray(c, float))
        k = w / c
        A, B = self.nodes(w, k)
        n = np.zeros(len(k), int)
        S = A[0]
        for j in range(len(A)):
            if self.love:
                n += S[:, 0, 0] < 0
            else:
                d = S[:, 0, 0] * S[:, 1, 1] - S[:, 0, 1] * S[:, 1, 0]
                n += np.where(d < 0, 1, np.where(S[:, 0, 0] + S[:, 1, 1] < 0, 2, 0))
            if j < len(B):
                with np.errstate(all="ignore"):
                    if self.love:
                        S = A[j + 1] - B[j] ** 2 / S
                    else:
                        iS = np.empty_like(S)
                        iS[:, 0, 0], iS[:, 1, 1], iS[:, 0, 1], iS[:, 1, 0] = S[:, 1, 1] / d, S[:, 0, 0] / d, -S[:, 0, 1] / d, -S[:, 1, 0] / d
                        S = A[j + 1] - np.swapaxes(B[j], 1, 2) @ iS @ B[j]
        if not self.love:
            n -= sum(self.fluidnode)
            for j, (i, h, _) in enumerate(self.parts):
                if self.liq[j]:
                    n += c > self.rows[i][1]
        return n

    def roots(self, w, c1, c2, ngrid=200, tol=1e-11):
        """phase velocities in (c1, c2), ascending; None entries never"""
        g = np.linspace(c1, c2, ngrid)
        n = self.count(w, g)
        iv = [(g[i], g[i + 1], n[i], n[i + 1]) for i in range(ngrid - 1) if n[i] != n[i + 1]]
        while iv and max(b - a for a, b, _, _ in iv) > tol:
            m = np.array([(a + b) / 2 for a, b, _, _ in iv])
            k = self.count(w, m)
            nx = []
            for (a, b, p, q), x, y in zip(iv, m, k):
                if p != y:
                    nx.append((a, x, p, y))
                if y != q:
                    nx.append((x, b, y, q))
            iv = nx
        out = []
        for a, b, p, q in iv:
            out += [(a + b) / 2] * abs(int(q) - int(p))
        return np.array(out), n[0], n[-1]

    def matrix(self, w, c):
        A, B = self.nodes(w, np.array([w / c]))
        nd, m = A[0].shape[1], len(A)
        K = np.zeros((m * nd, m * nd))
        for j in range(m):
            K[j * nd:j * nd + nd, j * nd:j * nd + nd] = A[j][0]
            if j < len(B):
                b = B[j][0]
                K[j * nd:j * nd + nd, j * nd + nd:j * nd + 2 * nd] = b
                K[j * nd + nd:j * nd + 2 * nd, j * nd:j * nd + nd] = b.T
        return K

    def vector(self, w, c):
        """displacements of a mode at the nodes self.z (U, W or V), from the near-null vector of the stiffness matrix"""
        K = self.matrix(w, c)
        K = (K + K.T) / 2
        s = 1 / np.sqrt(np.abs(np.diag(K)) + 1e-300)
        lu = K * s[:, None] * s[None, :]
        e, v = np.linalg.eigh(lu)
        x = v[:, np.argmin(np.abs(e))] * s
        for _ in range(2):
            try:
                x = np.linalg.solve(K + 1e-14 * np.abs(np.diag(K)).max() * np.eye(len(K)), x)
            except np.linalg.LinAlgError:
                break
            x /= np.abs(x).max()
        return x.reshape(len(self.z), -1)

    def fields(self, w, c, x=None):
        """fields of a mode on the lower side of the nodes: q, w, sigma, tau (P-SV) or v, tau (SH) with
        u = (-q sin kx, w cos kx), sigma = (la+2mu) w' - la k q, tau = mu (q' + k w); also derivatives: (q', w') or (v',)"""
        k = w / c
        x = self.vector(w, c) if x is None else x
        kk = np.array([k])
        n = len(self.z)
        t = np.zeros_like(x)
        cache = {}
        for j in range(n):
            if j < len(self.parts):
                i, h, _ = self.parts[j]
                key = (i, round(h, 10))
                if key not in cache:
                    cache[key] = self.element(i, h, w, kk)
                e = cache[key]
                if e is not None:
                    t[j] = -(e[0][0] @ x[j] + e[1][0] @ x[j + 1])
            elif not (self.love and self.rows[-1][2] == 0):
                t[j] = -(self.halfspace(w, kk)[0] @ x[j])
        lay = np.array([p[0] for p in self.parts] + [len(self.rows) - 1])
        vp, vs, rho = (np.array([self.rows[i][m] for i in lay]) for m in (1, 2, 3))
        mu = rho * vs ** 2
        liq = vs == 0
        if self.love:
            v = np.where(liq, 0.0, x[:, 0])
            ta = np.where(liq, 0.0, t[:, 0])
            return np.stack([v, ta], 1), np.where(liq, 0.0, ta / np.where(liq, 1, mu))[:, None]
        la = rho * vp ** 2 - 2 * mu
        q, ww, sg, ta = -x[:, 0], x[:, 1], t[:, 1], -t[:, 0]
        q = np.where(liq, -k * sg / (rho * w * w), q)
        ta = np.where(liq, 0.0, ta)
        dw = (sg + la * k * q) / (la + 2 * mu)
        dq = np.where(liq, k * ww, ta / np.where(liq, 1, mu) - k * ww)
        return np.stack([q, ww, sg, ta], 1), np.stack([dq, dw], 1)

    def track(self, w, n, c0, lo=None, hi=None, tol=1e-13):
        """the mode with exactly n modes below it, near c0"""
        cmax = self.rows[-1][2] or self.rows[-1][1]
        d = 1e-7
        while True:
            a, b = c0 * (1 - d), min(c0 * (1 + d), cmax * (1 - 1e-13))
            ca, cb = self.count(w, [a, b])
            if ca <= n < cb:
                break
            d *= 4
            if d > 0.3:
                return np.nan
        while b - a > tol * c0:
            g = np.linspace(a, b, 34)
            m = self.count(w, g[1:-1])
            m = np.concatenate([[n], m, [n + 1]])
            j = np.argmax(m > n)
            if b - a <= (g[j] - g[j - 1]) * 1.01:
                break
            a, b = g[j - 1], g[j]
        return (a + b) / 2


def integrals(rows, love, w, c, z0=None):
    """energy integrals I1..I4 of the mode, its fields at depths z0 in the same normalisation, largest displacement and stress"""
    k = w / c
    zs, ws, lay, top = [], [], [], 0.0
    gx, gw = np.polynomial.legendre.leggauss(8)

    def panel(a, b, i):
        zs.extend((a + b) / 2 + (b - a) / 2 * gx)
        ws.extend((b - a) / 2 * gw)
        lay.extend([i] * len(gx))
    for i, r in enumerate(rows[:-1]):
        v = r[2] or r[1]
        m = max(1, int(np.ceil(r[0] * max(k / 3, w / v / 3))))
        for j in range(m):
            panel(top + r[0] * j / m, top + r[0] * (j + 1) / m, i)
        top += r[0]
    vs = rows[-1][2] or rows[-1][1]
    nb = np.sqrt(max(k * k - (w / vs) ** 2, 1e-12 * k * k))
    a = top
    while a < top + 6 / k:
        panel(a, a + 2 / k, len(rows) - 1)
        a += 2 / k
    e = a + 20 / nb
    while a < e:
        panel(a, a + 2 / nb, len(rows) - 1)
        a += 2 / nb
    zs, ws, lay = np.array(zs), np.array(ws), np.array(lay)
    s = Stack(rows, vs, w / 2 / np.pi, love, breaks=list(zs) + list(z0 if z0 is not None else []))
    f, d = s.fields(w, c)
    idx = np.array([np.argmin(np.abs(s.z - z)) for z in zs])
    f1, d1 = f[idx], d[idx]
    rho = np.array([rows[i][3] for i in lay])
    mu = rho * np.array([rows[i][2] for i in lay]) ** 2
    if love:
        v, dv = f1[:, 0], d1[:, 0]
        I = [0.5 * (ws * rho * v * v).sum(), 0.5 * (ws * mu * v * v).sum(), 0.0, 0.5 * (ws * mu * dv * dv).sum()]
    else:
        la = rho * np.array([rows[i][1] for i in lay]) ** 2 - 2 * mu
        q, u, dq, du = f1[:, 0], f1[:, 1], d1[:, 0], d1[:, 1]
        I = [0.5 * (ws * rho * (q * q + u * u)).sum(), 0.5 * (ws * ((la + 2 * mu) * q * q + mu * u * u)).sum(),
             (ws * (la * q * du - mu * u * dq)).sum(), 0.5 * (ws * (mu * dq * dq + (la + 2 * mu) * du * du)).sum()]
    F = None if z0 is None else f[[int(np.argmin(np.abs(s.z - z))) for z in z0]]
    nd = f.shape[1] // 2
    return np.array(I), F, np.abs(f[:, :nd]).max(), np.abs(f[:, nd:]).max()
