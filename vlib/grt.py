"""Wrappers around the observable interfaces: the grt command line, SAC and NetCDF files."""
import json, os, re, subprocess, struct
import numpy as np
from .engine import CTX, Violation
from .build import BASE_ENV
from scipy.io import netcdf_file

TIMEOUT = 120


def grt_bin(flavour="plain"):
    return os.path.join(CTX[flavour], "bin", "grt")


def run(args, ok=True, flavour="plain", env=None, cwd=None, timeout=TIMEOUT, stdin=None):
    """run grt with a list of arguments (or a string, split on blanks)"""
    if isinstance(args, str):
        args = args.split()
    e = dict(BASE_ENV)
    if env:
        e.update(env)
    try:
        p = subprocess.run([grt_bin(flavour)] + list(args), env=e, cwd=cwd, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, stdin=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Violation("timeout", "grt %s did not end within %d s" % (" ".join(args), timeout))
    out = p.stdout.decode("utf8", "replace")
    err = p.stderr.decode("utf8", "replace")
    if ok and p.returncode != 0:
        raise Violation("rejected", "valid command fails (exit %d): grt %s\n%s" % (p.returncode, " ".join(args), (err + out)[-600:]))
    p.out, p.err = out, err
    return p


def write_model(path, layers, digits=None):
    """layers: rows of 4 or 6 numbers, first column as given"""
    with open(path, "w") as f:
        for row in layers:
            f.write(" ".join(repr(float(v)) if digits is None else f"{v:.{digits}g}" for v in row) + "\n")
    return path


class Nc:
    def __init__(self, path):
        with netcdf_file(path, "r", mmap=False) as f:
            self.dims = dict(f.dimensions)
            self.v = {k: np.array(v[:]).astype(v[:].dtype.newbyteorder("=")) if v.shape else np.array(v.getValue())
                      for k, v in f.variables.items()}
            self.vdims = {k: tuple(v.dimensions) for k, v in f.variables.items()}
            self.attr = dict(f._attributes)

    def __getitem__(self, k):
        return self.v[k]

    def __contains__(self, k):
        return k in self.v


SAC_F = {n: i for i, n in enumerate(
    "delta depmin depmax scale odelta b e o a internal0 t0 t1 t2 t3 t4 t5 t6 t7 t8 t9 f "
    "resp0 resp1 resp2 resp3 resp4 resp5 resp6 resp7 resp8 resp9 stla stlo stel stdp evla evlo evel evdp mag "
    "user0 user1 user2 user3 user4 user5 user6 user7 user8 user9 dist az baz gcarc".split())}
SAC_I = {"npts": 9}


class Sac:
    def __init__(self, path):
        raw = open(path, "rb").read()
        if len(raw) < 632:
            raise Violation("sac", f"{path}: truncated SAC file ({len(raw)} bytes)")
        self.f = np.frombuffer(raw[:280], "<f4")
        self.i = np.frombuffer(raw[280:440], "<i4")
        self.k = raw[440:632]
        self.d = np.frombuffer(raw[632:], "<f4").astype(float)
        self.npts = int(self.i[9])
        if self.npts != len(self.d):
            raise Violation("sac", f"{path}: npts {self.npts} but {len(self.d)} samples")

    def h(self, name):
        return float(self.f[SAC_F[name]])


def fmt(x):
    """shortest decimal text that reads back as the same double"""
    return repr(float(x))


def g(x):
    return f"{x:.10g}"


def near(a, b, rtol, atol=0.0):
    a = np.asarray(a)
    b = np.asarray(b)
    return np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b)))


def relerr(a, b, floor=0.0):
    """max |a-b| / max(|b|, floor)"""
    a = np.asarray(a)
    b = np.asarray(b)
    s = max(float(np.max(np.abs(b))) if b.size else 0.0, float(np.max(np.abs(a))) if a.size else 0.0, floor)
    if s == 0:
        return 0.0
    d = np.abs(a - b)
    if not np.all(np.isfinite(d)):
        return float("inf")
    return float(np.max(d)) / s


def must(cond, kind, msg):
    if not cond:
        raise Violation(kind, msg)


def close(kind, name, a, b, tol, floor=0.0):
    e = relerr(a, b, floor)
    if not (e <= tol):
        a = np.asarray(a).ravel()
        b = np.asarray(b).ravel()
        if a.shape != b.shape:
            raise Violation(kind, f"{name}: shapes differ {a.shape} {b.shape}")
        j = int(np.nanargmax(np.abs(a - b))) if a.size and not np.all(np.isnan(a - b)) else 0
        raise Violation(kind, f"{name}: relative error {e:.3g} > {tol:.3g} (got {a[j] if a.size else None!r}, expected {b[j] if b.size else None!r} at {j})")
    return e


def write_sac(path, data, **hd):
    """a minimal little-endian SAC file"""
    data = np.asarray(data, "<f4")
    f = np.full(70, -12345.0, "<f4")
    i = np.full(40, -12345, "<i4")
    hd.setdefault("delta", 1.0)
    hd.setdefault("b", 0.0)
    hd.setdefault("e", hd["b"] + hd["delta"] * (len(data) - 1))
    for k, v in hd.items():
        f[SAC_F[k]] = v
    i[6], i[9], i[15], i[35] = 6, len(data), 1, 1      # nvhdr, npts, iftype=ITIME, leven
    i[36], i[37], i[38] = 1, 1, 1
    s = b"-12345  -12345          " + b"-12345  " * 21
    with open(path, "wb") as fh:
        fh.write(f.tobytes() + i.tobytes() + s + data.tobytes())
    return path
