"""Elastic half-space: Mindlin's closed form for a buried force; nuclei of strain by the complex step over the source position;
rectangles by Gauss-Legendre quadrature.  Frame: north, east, down.  Lengths in km, moduli in any unit."""
import numpy as np


def green(X, Y, z, c, nu):
    """G[i][j]*16*pi*mu*(1-nu): displacement i (n, e, down) at (X, Y, z) of a unit force j at (0, 0, c). Arrays broadcast; may be complex."""
    R1 = np.sqrt(X * X + Y * Y + (z - c) ** 2)
    R2 = np.sqrt(X * X + Y * Y + (z + c) ** 2)
    a = 3 - 4 * nu
    b = 4 * (1 - nu) * (1 - 2 * nu)
    s = R2 + z + c
    def hor(x, y):
        ux = a / R1 + 1 / R2 + x * x / R1**3 + a * x * x / R2**3 + 2 * c * z / R2**3 * (1 - 3 * x * x / R2**2) + b / s * (1 - x * x / (R2 * s))
        uy = x * y * (1 / R1**3 + a / R2**3 - 6 * c * z / R2**5 - b / (R2 * s * s))
        uz = x * ((z - c) / R1**3 + a * (z - c) / R2**3 - 6 * c * z * (z + c) / R2**5 + b / (R2 * s))
        return ux, uy, uz
    nx, ex, dx = hor(X, Y)
    ey, ny, dy = hor(Y, X)
    h = (z - c) / R1**3 + a * (z - c) / R2**3 - b / (R2 * s) + 6 * c * z * (z + c) / R2**5
    dz = a / R1 + (8 * (1 - nu) ** 2 - a) / R2 + (z - c) ** 2 / R1**3 + (a * (z + c) ** 2 - 2 * c * z) / R2**3 + 6 * c * z * (z + c) ** 2 / R2**5
    return [[nx, ny, X * h], [ex, ey, Y * h], [dx, dy, dz]]


def nucleus(x, y, z, src, M, nu, mu=1.0):
    """displacement (n, e, down) at x, y, z of the moment tensor M (NED) at src=(n, e, depth); everything broadcasts.
    Units: M / (mu * length^2)"""
    h = 1e-30
    out = 0
    for k in range(3):
        if not np.any(M[..., k]):
            continue
        p = [np.asarray(s, complex) for s in src]
        p[k] = p[k] + 1j * h
        g = green(x - p[0], y - p[1], z + 0 * p[2], p[2], nu)
        out = out + np.array([sum(M[j, k] * g[i][j].imag / h for j in range(3)) for i in range(3)])
    return out / (16 * np.pi * mu * (1 - nu))


def gradient(f, x, h):
    """d f / d x_j by a sixth order difference of step h; f maps (3,) -> (3,)"""
    D = np.zeros((3, 3))
    for j in range(3):
        e = np.zeros(3)
        e[j] = h
        D[j] = (45 * (f(x + e) - f(x - e)) - 9 * (f(x + 2 * e) - f(x - 2 * e)) + (f(x + 3 * e) - f(x - 3 * e))) / (60 * h)
    return D                              # D[j][i] = d u_i / d x_j


def gradient_down(f, x, h):
    """the same at the surface: one-sided in z"""
    D = gradient(lambda q: f(np.array([q[0], q[1], x[2]])), x, h)
    c = [-49 / 20, 6, -15 / 2, 20 / 3, -15 / 4, 6 / 5, -1 / 6]
    D[2] = sum(w * f(x + np.array([0, 0, i * h])) for i, w in enumerate(c)) / h
    return D


GL = np.polynomial.legendre.leggauss(8)


def rectangle(pos, L, W, dist, f, per=1.0):
    """integral over the rectangle of f(points (3, n)) -> (..., n) with panels no larger than per*dist"""
    nl, nw = (int(np.ceil(s / (per * dist))) for s in (L, W))
    a = (np.arange(nl)[:, None] + (GL[0] + 1) / 2).ravel() * (L / nl)
    b = (np.arange(nw)[:, None] + (GL[0] + 1) / 2).ravel() * (W / nw)
    wa = np.tile(GL[1], nl) * L / nl / 2
    wb = np.tile(GL[1], nw) * W / nw / 2
    A, Bm = np.meshgrid(a, b, indexing="ij")
    P = pos(A.ravel(), Bm.ravel())
    return f(P) @ (wa[:, None] * wb[None, :]).ravel()
