"""Independent reference solutions (written from the equations of motion, not from the code under test).

layered_kernels: stress-displacement solution of a horizontally layered medium for one harmonic
    u_z = W Y, u_h = Q (1/k) grad Y + V-part,  Y = J_m(kr) cos(m theta), z downwards,
by one global linear system for the up- and down-going amplitudes of all layers (no recursion, no
reflection/transmission coefficients). Point sources enter as jumps of the motion-stress vector.
"""
import numpy as np

SRC = ["EX", "VF", "HF", "DD", "DS", "SS"]
MORD = {"EX": 0, "VF": 0, "HF": 1, "DD": 0, "DS": 1, "SS": 2}


def attenuated(v, Q, omega, omgref):
    if not Q:
        return v + 0j * omega
    return v * (1 + np.log(omega / omgref) / (np.pi * Q) + 0.5j / Q)


def _split(rows, zs, zr):
    """layers as (top, bottom, row), split at the source depth; receiver layer looked up separately"""
    out, z = [], 0.0
    for i, r in enumerate(rows):
        b = z + r[0] if i < len(rows) - 1 else np.inf
        out.append((z, b, r))
        z = b
    return out


def _jumps(lam, mu, k, liquid):
    """jump (below minus above) of (Q, W, Trz, Tzz) and (V, Tv) at the source, unit strength"""
    s = 1.0 / (2 * np.pi)
    l2m = lam + 2 * mu
    o = np.zeros_like(k * l2m)
    P = {}
    S = {}
    P["EX"] = (o, o + s / l2m, 2 * mu * k * s / l2m, o)
    P["VF"] = (o, o, o, o - s)
    if liquid:
        for n in ("HF", "DD", "DS", "SS"):
            P[n] = None
    else:
        P["HF"] = (o, o, o - s, o)
        P["DD"] = (o, o + 2 * s / l2m, -k * s * (3 * lam + 2 * mu) / l2m, o)
        P["DS"] = (o - s / mu, o, o, o)           # Mxz = -1
        P["SS"] = (o, o, o - k * s, o)            # Mxx = 1, Myy = -1
        S["HF"] = (o, o + s)
        S["DS"] = (o + s / mu, o)
        S["SS"] = (o, o + k * s)
    return P, S


def layered_kernels(rows, zs, zr, k, omega=None, omgref=None, top="f", bot="H"):
    """k: array (B,), omega: array (B,) complex or None for the static problem.
    Returns dict src -> array (6, B): q, w, v and their derivatives along z (down)."""
    k = np.asarray(k)
    k = k if np.iscomplexobj(k) else k.astype(float)
    Bn = len(k)
    static = omega is None
    from .gen import layer_at
    isrc, ircv = layer_at(rows, zs), layer_at(rows, zr)
    lays = []
    z = 0.0
    for i, r in enumerate(rows):
        b = z + r[0] if i < len(rows) - 1 else np.inf
        if bot != "H" and i == len(rows) - 1:
            break
        lays.append([z, b, r, i])
        z = b
    # split at the source
    L = []
    for a, b, r, i in lays:
        if i == isrc:
            L.append((a, zs, r, i, 0))
            L.append((zs, b, r, i, 1))
        else:
            L.append((a, b, r, i, 2))
    n = len(L)
    props = []
    for a, b, r, i, f in L:
        vp, vs, rho = r[1:4]
        if static:
            al, be = vp + 0j * k, vs + 0j * k
        else:
            qp, qs = (r[4], r[5]) if len(r) > 5 else (0, 0)
            al = attenuated(vp, qp, omega, omgref)
            be = attenuated(vs, qs, omega, omgref) if vs > 0 else 0j * k
        mu = rho * be ** 2
        lam = rho * al ** 2 - 2 * mu
        props.append((al, be, rho, lam, mu, vs == 0))
    # ---- wave vectors: value at distance d (>=0) from the reference plane, direction s=+1 down, -1 up
    def psv_vec(j, which, s, d):
        """(Q, W, Trz, Tzz, Q', W') of wave `which` in layer j"""
        al, be, rho, lam, mu, liq = props[j]
        if static:
            e = np.exp(-k * d)
            if liq:
                raise ValueError("static liquid")
            if which == 0:
                Q, W = e, -s * e
                Qz, Wz = -s * k * e, k * e
            else:
                dl = -(lam + 3 * mu) / (lam + mu)
                Q, W = k * d * e, s * (-k * d + dl) * e
                Qz = s * (k - k * k * d) * e
                Wz = (-k - k * (-k * d + dl)) * e
        else:
            if which == 0:
                a = np.sqrt(k * k - (omega / al) ** 2 + 0j)
                a = np.where(a.real < 0, -a, a)
                e = np.exp(-a * d)
                Q, W = k * e, -s * a * e
                Qz, Wz = -s * a * k * e, a * a * e
                # normalise
                nrm = np.abs(k) + np.abs(a)
                Q, W, Qz, Wz = Q / nrm, W / nrm, Qz / nrm, Wz / nrm
            else:
                b = np.sqrt(k * k - (omega / be) ** 2 + 0j)
                b = np.where(b.real < 0, -b, b)
                e = np.exp(-b * d)
                W, Q = k * e, -s * b * e
                Wz, Qz = -s * b * k * e, b * b * e
                nrm = np.abs(k) + np.abs(b)
                Q, W, Qz, Wz = Q / nrm, W / nrm, Qz / nrm, Wz / nrm
        Trz = mu * (Qz + k * W)
        if liq:
            Tzz = -rho * omega ** 2 * Q / k      # -pressure; lam (W' - k Q) without its cancellation
        else:
            Tzz = (lam + 2 * mu) * Wz - lam * k * Q
        return Q, W, Trz, Tzz, Qz, Wz

    def sh_vec(j, s, d):
        al, be, rho, lam, mu, liq = props[j]
        b = k + 0j if static else np.sqrt(k * k - (omega / be) ** 2 + 0j)
        b = np.where(b.real < 0, -b, b)
        e = np.exp(-b * d)
        return e, -s * b * mu * e, -s * b * e     # V, Tv, V'

    Pj, Sj = _jumps(props[[q for q in range(n) if L[q][3] == isrc][0]][3],
                    props[[q for q in range(n) if L[q][3] == isrc][0]][4], k, rows[isrc][2] == 0)
    jsrc = [q for q in range(n) if L[q][3] == isrc and L[q][4] == 0][0]      # interface jsrc|jsrc+1 holds the source

    res = {s: np.zeros((6, Bn), complex) for s in SRC}

    # scale stresses to be comparable with displacements
    mscale = np.max([np.abs(p[3] + 2 * p[4]) for p in props], axis=0) * k

    # ------------------------------------------------------------------ P-SV
    cols = []
    for j in range(n):
        last = (j == n - 1 and bot == "H")
        liq = props[j][5]
        for w in ([0] if liq else [0, 1]):
            cols.append((j, w, +1))
            if not last:
                cols.append((j, w, -1))
        if j == 0 and top == "h":
            # no down-going waves arrive from above: layer 0 has only up-going waves
            cols = [c for c in cols if not (c[0] == 0 and c[2] == +1)]
    cidx = {c: q for q, c in enumerate(cols)}
    M = len(cols)

    def val(j, w, s, z):
        a, b = L[j][0], L[j][1]
        if s > 0:
            ref = a
            if j == 0 and top == "h":
                ref = a
            return psv_vec(j, w, +1, z - ref)
        return psv_vec(j, w, -1, b - z)
    eqs = []       # list of (list of (col, coeff array), rhs key)
    A = np.zeros((Bn, M, M), complex)
    rhs = {s: np.zeros((Bn, M), complex) for s in SRC if Pj.get(s) is not None}
    row = 0

    def state(j, z):
        return [(cidx[c], val(*c, z)) for c in cols if c[0] == j]
    # top
    if top in "fr":
        liq = props[0][5]
        comps = ([3] if liq else [2, 3]) if top == "f" else ([1] if liq else [0, 1])
        for cc in comps:
            for q, v in state(0, L[0][0]):
                A[:, row, q] = v[cc] / (mscale if cc > 1 else 1)
            row += 1
    for j in range(n - 1):
        z = L[j][1]
        up, dn = state(j, z), state(j + 1, z)
        lu, ld = props[j][5], props[j + 1][5]
        src = (j == jsrc)
        if lu and ld:
            comps = [1, 3]
        elif lu or ld:
            comps = [1, 3, 2]
        else:
            comps = [0, 1, 2, 3]
        for cc in comps:
            sc = mscale if cc > 1 else 1
            for q, v in up:
                A[:, row, q] -= v[cc] / sc
            for q, v in dn:
                A[:, row, q] += v[cc] / sc
            if src:
                for s in rhs:
                    rhs[s][:, row] = Pj[s][cc] / sc
            row += 1
    if bot in "FR":
        liq = props[n - 1][5]
        comps = ([3] if liq else [2, 3]) if bot == "F" else ([1] if liq else [0, 1])
        for cc in comps:
            for q, v in state(n - 1, L[n - 1][1]):
                A[:, row, q] = v[cc] / (mscale if cc > 1 else 1)
            row += 1
    assert row == M, (row, M)
    R = np.stack([rhs[s] for s in rhs], axis=-1)
    X = np.linalg.solve(A, R)
    # evaluate at the receiver
    cand = [q for q in range(n) if L[q][3] == ircv and L[q][0] <= zr <= L[q][1]]
    jr = cand[0]
    if zr == zs and ircv == isrc:
        jr = [q for q in cand if L[q][4] == 0][0]
    for si, s in enumerate(rhs):
        for q, v in state(jr, zr):
            x = X[:, q, si]
            for o, cc in ((0, 0), (1, 1), (3, 4), (4, 5)):
                res[s][o] += v[cc] * x
    # ------------------------------------------------------------------ SH: within the solid block of the source
    if rows[isrc][2] > 0 and rows[ircv][2] > 0:
        lo = hi = jsrc
        while lo > 0 and not props[lo - 1][5]:
            lo -= 1
        while hi < n - 1 and not props[hi + 1][5]:
            hi += 1
        if lo <= jr <= hi:
            cols = []
            for j in range(lo, hi + 1):
                if not (j == 0 and top == "h"):
                    cols.append((j, +1))
                if not (j == n - 1 and bot == "H"):
                    cols.append((j, -1))
            ci = {c: q for q, c in enumerate(cols)}
            M = len(cols)
            A = np.zeros((Bn, M, M), complex)
            R = np.zeros((Bn, M, 3), complex)

            def sstate(j, z):
                o = []
                for (jj, s) in cols:
                    if jj == j:
                        d = z - L[j][0] if s > 0 else L[j][1] - z
                        o.append((ci[(jj, s)], sh_vec(j, s, d)))
                return o
            row = 0
            ms = np.max([np.abs(props[j][4]) for j in range(lo, hi + 1)], axis=0) * k

            def bc(j, z, cc):
                nonlocal row
                for q, v in sstate(j, z):
                    A[:, row, q] = v[cc] / (ms if cc else 1)
                row += 1
            if lo > 0 or top == "f":
                bc(lo, L[lo][0], 1)
            elif top == "r":
                bc(lo, L[lo][0], 0)
            for j in range(lo, hi):
                z = L[j][1]
                for cc in (0, 1):
                    sc = ms if cc else 1
                    for q, v in sstate(j, z):
                        A[:, row, q] -= v[cc] / sc
                    for q, v in sstate(j + 1, z):
                        A[:, row, q] += v[cc] / sc
                    if j == jsrc:
                        for si, s in enumerate(("HF", "DS", "SS")):
                            R[:, row, si] = Sj[s][cc] / sc
                    row += 1
            if hi < n - 1 or bot == "F":
                bc(hi, L[hi][1], 1)
            elif bot == "R":
                bc(hi, L[hi][1], 0)
            assert row == M
            X = np.linalg.solve(A, R)
            for si, s in enumerate(("HF", "DS", "SS")):
                for q, v in sstate(jr, zr):
                    res[s][2] += v[0] * X[:, q, si]
                    res[s][5] += v[2] * X[:, q, si]
    return res


# ---------------------------------------------------------------------------------------------
from scipy.special import jv, jvp
COMP = {s: ("ZR" if MORD[s] == 0 else "ZRT") for s in SRC}


def _jm_over_x(m, x):
    x = np.asarray(x, float)
    with np.errstate(divide="ignore", invalid="ignore"):
        v = jv(m, x) / x
    lim = {1: 0.5, 2: 0.0}[m]
    return np.where(x == 0, lim, v)


def _d_jm_over_x(m, x):
    """d/dx (J_m(x)/x)"""
    x = np.asarray(x, float)
    with np.errstate(divide="ignore", invalid="ignore"):
        v = (jvp(m, x) - jv(m, x) / x) / x
    lim = {1: 0.0, 2: 0.125}[m]
    return np.where(np.abs(x) < 1e-6, lim, v)


def hankel(K, k, wts, r, deriv=False):
    """K: dict src -> (6, nk); k, wts: (nk,). GF at one distance: dict name -> value, Z up, R outward, T clockwise.
    With deriv: also zXXX (derivative along the upward vertical) and rXXX."""
    out = {}
    x = k * r
    # sums of absolute values: the scale of the rounding error of any of these sums (M: moment sources, F: forces)
    out["scale"] = {}
    for fam, ss in (("M", ("EX", "DD", "DS", "SS")), ("F", ("VF", "HF"))):
        for pre, o, pw in (("", 0, 1), ("z", 3, 1), ("r", 0, 2)):
            out["scale"][pre + fam] = max(float(np.sum(np.max(np.abs(K[s][o:o + 3]), axis=0) * np.abs(wts) * k ** pw)) for s in ss)
    for s in SRC:
        m = MORD[s]
        J, Jp, Jpp = jv(m, x), jvp(m, x), jvp(m, x, 2)
        for pre, o in (("", 0), ("z", 3)):
            if pre and not deriv:
                continue
            sg = -1.0 if pre else 1.0
            q, w, v = sg * K[s][o] * wts * k, sg * K[s][o + 1] * wts * k, sg * K[s][o + 2] * wts * k
            out[pre + s + "Z"] = -np.sum(w * J)
            if m == 0:
                out[pre + s + "R"] = np.sum(q * Jp)
            else:
                Jx = _jm_over_x(m, x)
                out[pre + s + "R"] = np.sum(q * Jp - m * v * Jx)
                out[pre + s + "T"] = np.sum(-v * Jp + m * q * Jx)
        if deriv:
            q, w, v = K[s][0] * wts * k * k, K[s][1] * wts * k * k, K[s][2] * wts * k * k
            out["r" + s + "Z"] = -np.sum(w * Jp)
            if m == 0:
                out["r" + s + "R"] = np.sum(q * Jpp)
            else:
                dJx = _d_jm_over_x(m, x)
                out["r" + s + "R"] = np.sum(q * Jpp - m * v * dJx)
                out["r" + s + "T"] = np.sum(-v * Jpp + m * q * dJx)
    return out
