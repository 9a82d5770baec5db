"""The Python interface computes what the commands compute: every argument means the documented option, defaults included."""
import os, re, shutil
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, pyapi, faults as F

PROP = "C19"
LEVEL = "exploration"
ASSUMPTIONS = ["the commands themselves are judged by the other checks", "messages and logs are not judged"]
ROWS = [[1.0, 3.0, 1.6, 2.2], [3.0, 5.0, 2.8, 2.6], [0.0, 6.5, 3.7, 2.9]]


def num(x):
    return format(float(x), ".15g")


def norm(path):
    """file names hold numbers as they were written: 5 and 5.0 are the same name"""
    return re.sub(r"(?<=_)-?\d+(\.\d+)?(?=[_/]|$)", lambda m: repr(float(m.group())), path)


def lst(x):
    return ",".join(num(v) for v in (x if isinstance(x, list) else [x]))


# ------------------------------------------------------------------ arguments -> documented options
def depths(k):
    if isinstance(k["depsrc"], list) and len(k["depsrc"]) > 1 or isinstance(k["deprcv"], list) and len(k["deprcv"]) > 1:
        return ["-Ds" + lst(k["depsrc"]), "-Dr" + lst(k["deprcv"])]
    return [f"-D{lst(k['depsrc'])}/{lst(k['deprcv'])}"]


def bound(c):
    t, b = c["bound"]
    return [] if t is None and b is None else ["-B" + {"free": "f", "rigid": "r", "halfspace": "h", None: "f"}[t] + {"free": "F", "rigid": "R", "halfspace": "H", None: "H"}[b]]


def length(k):
    if not any(x in k for x in ("Length", "filonLength", "safilonTol", "filonCut")):
        return []
    return ["-L" + (num(k["Length"]) if "Length" in k else "") + "".join("+" + o + num(k[x]) for x, o in (("filonLength", "l"), ("safilonTol", "a"), ("filonCut", "o")) if x in k)]


def waven(k):
    o = "".join("+" + o + num(k[x]) for x, o in (("k0", "k"), ("ampk", "s"), ("keps", "e"), ("vmin_ref", "v")) if x in k) + "+f" * k.get("use_kmax_ref", False)
    return ["-K" + o] if o else []


def converg(k):
    v = k.get("converg_method", "AUTO").upper()
    return [] if v == "AUTO" else ["-C" + {"DCM": "d", "PTAM": "p", "NONE": "n"}[v]]


def source(k):
    if "force" in k:
        return ["-F" + "/".join(map(num, k["force"]))]
    if "moment_tensor" in k:
        return ["-T" + "/".join(map(num, k["moment_tensor"]))]
    if "strike" in k:
        return ["-M" + "/".join(num(k[x]) for x in ("strike", "dip", "rake") if x in k)]
    return []


def scale(k):
    return ["-S" + "u" * k.get("scale_with_mu", False) + num(k["scale"])] if "scale" in k else []


def flags(k):
    return ["-N"] * k.get("zne", False) + ["-e"] * k.get("calc_upar", False)


def grid(k):
    return [o + "/".join(map(num, k[x])) for x, o in (("norths", "-X"), ("easts", "-Y")) if x in k]


def cli_grn(c, k):
    a = ["greenfn", "-Mmod", "-OB", f"-N{k['nt']}/{num(k['dt'])}" + "".join(f"+{o}{k[x]!r}" for x, o in (("zeta", "w"), ("upsampling_n", "n")) if x in k) + "+a" * k.get("keepAllFreq", False) + "+f" * k.get("skipImagComps", False)]
    a += depths(k) + ["-R" + lst(k["dists"])] + bound(c) + length(k) + waven(k) + converg(k) + ["-e"] * k.get("calc_upar", False)
    if "freqband" in k:
        a.append("-H" + "/".join(map(num, k["freqband"])))
    if k.get("ref_first_p"):
        a.append("-Ep" + num(k["delayT0"]))
    elif "delayT0" in k or "delayV0" in k:
        a.append("-E" + num(k.get("delayT0", 0)) + ("/" + num(k["delayV0"]) if "delayV0" in k else ""))
    if "gf_source" in k:
        a.append("-G" + "".join({"EX": "e", "VF": "v", "HF": "h", "DC": "s"}[x.upper()] for x in k["gf_source"]))
    if "statsidxs" in k:
        a.append("-S" + ",".join(map(str, k["statsidxs"])))
    return a


def cli_static_grn(c, k):
    a = ["static", "greenfn", "-Mmod", "-OB.nc"] + depths(k) + bound(c) + length(k) + waven(k) + converg(k) + ["-e"] * k.get("calc_upar", False)
    a += ["-R" + lst(k["dists"])] if "dists" in k else grid(k)
    return a + ["-S"] * k.get("stats", False)


def cli_syn(c, k):
    a = ["syn", f"-G{c['lib']}", "-OB", "-s", "-A" + num(k["azimuth"])] + scale(k) + source(k) + flags(k)
    a += [o + num(k[x]) for x, o in (("depsrc", "-Ds"), ("deprcv", "-Dr"), ("dist", "-R")) if x in k]
    if "time_function" in k:
        a.append("-D" + k["time_function"])
    return a + [f"-{o}{k[x]}" for x, o in (("integrate_order", "I"), ("differentiate_order", "J")) if x in k]


def cli_static_syn(c, k):
    a = ["static", "syn", "-Glib.nc", "-OB.nc", "-s"] + scale(k) + source(k) + flags(k) + grid(k)
    a += [o + num(k[x]) for x, o in (("depsrc", "-Ds"), ("deprcv", "-Dr")) if x in k]
    if "finite_fault" in k:
        a.append("-C" + k["finite_fault"] + ("+i" + "/".join(map(num, k["subfault_size"])) if "subfault_size" in k else ""))
    return a + (["-Q" + k["recv_points"]] if "recv_points" in k else [])


def cli_okada(c, k):
    a = ["okada", "-OB.nc", "-I" + "/".join(map(num, k["modelparams"]))] + scale(k) + source(k) + flags(k) + grid(k)
    a += [o + num(k[x]) for x, o in (("depsrc", "-Ds"), ("deprcv", "-Dr")) if x in k]
    return a + (["-C" + k["finite_fault"]] if "finite_fault" in k else []) + (["-Q" + k["recv_points"]] if "recv_points" in k else [])


# ------------------------------------------------------------------ generators
def r(rng, a, b, n=3):
    return round(float(rng.uniform(a, b)), n)


def asc(rng, n, a, b, scalar=True):
    v = sorted({r(rng, a, b, 2) for _ in range(n)})
    return v[0] if scalar and len(v) == 1 and rng.random() < 0.6 else v


def pick(rng, p, table):
    return {k: f() for k, f in table.items() if rng.random() < p}


def gen_mech(rng, k, force=True):
    u = rng.random()
    if u < 0.2:
        return
    if u < 0.35 and force:
        k["force"] = [r(rng, -2, 2) if rng.random() < 0.7 else 0.0 for _ in range(3)]
    elif u < 0.55 and force:
        k["moment_tensor"] = [r(rng, -2, 2) if rng.random() < 0.7 else 0.0 for _ in range(6)]
    else:
        k["strike"], k["dip"] = r(rng, 0, 360), r(rng, 0, 90)
        if rng.random() < 0.6:
            k["rake"] = r(rng, -180, 180)
        for x in ("strike", "dip", "rake"):                 # zero is a value, not an absent one
            if x in k and rng.random() < 0.2:
                k[x] = 0.0


def gen_scale(rng, k):
    k["scale"] = N.rnd(10 ** rng.uniform(10, 26), int(rng.integers(1, 9)))
    if rng.random() < 0.4:
        k["scale_with_mu"] = True


def gen_bound(rng):
    return [None if rng.random() < 0.6 else str(rng.choice(["free", "rigid", "halfspace"])), None if rng.random() < 0.7 else str(rng.choice(["free", "rigid", "halfspace"]))]


def gen_L(rng, k):
    k["Length"] = r(rng, 5, 20, 1)
    u = rng.random()
    if u < 0.2:
        k["filonLength"] = r(rng, 5, 20, 1)
    elif u < 0.4:
        k["safilonTol"] = 0.01
    if rng.random() < 0.3:
        k["filonCut"] = r(rng, 1, 20, 1)


def axis(rng):
    a, d = r(rng, -5, 3, 2), r(rng, 0.3, 2, 2)
    return [a, round(a + d * (int(rng.integers(1, 4)) - 0.5), 4), d]


def gen_grn(rng):
    k = dict(nt=int(rng.integers(8, 25)), dt=r(rng, 0.1, 0.6, 2), depsrc=asc(rng, int(rng.choice([1, 1, 2])), 1.2, 3.8), deprcv=asc(rng, int(rng.choice([1, 1, 2])), 0, 0.9), dists=asc(rng, int(rng.integers(1, 4)), 1, 20))
    k.update(pick(rng, 0.3, dict(zeta=lambda: r(rng, 0.4, 1.5, 2), upsampling_n=lambda: int(rng.integers(1, 4)), keepAllFreq=lambda: bool(rng.random() < 0.7), skipImagComps=lambda: bool(rng.random() < 0.7),
                                 vmin_ref=lambda: r(rng, 0.5, 3), keps=lambda: r(rng, -1, 0.1), ampk=lambda: r(rng, 1.01, 2), use_kmax_ref=lambda: bool(rng.random() < 0.7), calc_upar=lambda: bool(rng.random() < 0.7))))
    k["k0"] = r(rng, 2, 6)
    gen_L(rng, k)
    T = k["nt"] * k["dt"]
    if rng.random() < 0.4:
        k["freqband"] = [round(r(rng, 0.3, 2) / T, 9) if rng.random() < 0.6 else -1.0, round(r(rng, 2.1, 4) / T, 9) if rng.random() < 0.6 else -1.0]
    u = rng.random()
    if u < 0.25:
        k["ref_first_p"], k["delayT0"] = True, -r(rng, 0.1, 3)
    elif u < 0.6:
        k.update(pick(rng, 0.7, dict(delayT0=lambda: r(rng, -3, 3) if rng.random() < 0.8 else 0.0, delayV0=lambda: r(rng, 0, 8) if rng.random() < 0.8 else 0.0)))
    if rng.random() < 0.35:
        k["gf_source"] = [str(x) for x in rng.permutation(["EX", "VF", "HF", "DC"])[:int(rng.integers(1, 4))]]
        if rng.random() < 0.3:
            k["gf_source"] = [x.lower() for x in k["gf_source"]]
    if rng.random() < 0.2:
        k["statsidxs"] = [] if rng.random() < 0.3 else sorted({int(x) for x in rng.integers(1, 4, 2)})
    if rng.random() < 0.3:
        k["converg_method"] = str(rng.choice(["AUTO", "NONE", "none", "DCM", "PTAM"]))
    if rng.random() < 0.5:
        k["print_log"] = bool(rng.random() < 0.5)
    return dict(meth="grn", bound=gen_bound(rng), k=k)


def gen_static_grn(rng):
    k = dict(depsrc=asc(rng, int(rng.choice([1, 1, 2])), 1.2, 3.8), deprcv=asc(rng, int(rng.choice([1, 1, 2])), 0, 0.9))
    if rng.random() < 0.5:
        k["dists"] = asc(rng, int(rng.integers(1, 5)), 0.5, 20)
    else:
        k["norths"], k["easts"] = axis(rng), axis(rng)
    k.update(pick(rng, 0.35, dict(keps=lambda: r(rng, -1, 0.1), use_kmax_ref=lambda: bool(rng.random() < 0.7), calc_upar=lambda: bool(rng.random() < 0.7), k0=lambda: r(rng, 4, 20),
                                  stats=lambda: bool(rng.random() < 0.5), converg_method=lambda: str(rng.choice(["AUTO", "NONE", "dcm", "DCM", "PTAM"])))))
    if rng.random() < 0.5:
        gen_L(rng, k)
    if k.get("stats") and any(isinstance(k[x], list) and len(k[x]) > 1 for x in ("depsrc", "deprcv")):
        del k["stats"]
    return dict(meth="static_grn", bound=gen_bound(rng), k=k)


LIBS = ["grn1", "grn2", "grn1/mod_1.5_0_5.5", "grn2/mod_2_0.5_7"]


def gen_syn(rng):
    lib = str(rng.choice(LIBS))
    k = dict(azimuth=r(rng, 0, 360) if rng.random() < 0.9 else 0.0)
    if lib == "grn2":
        k.update(depsrc=float(rng.choice([1.5, 2.0])), deprcv=float(rng.choice([0.0, 0.5])), dist=float(rng.choice([5.5, 7.0])))
    elif lib == "grn1":
        k.update(pick(rng, 0.3, dict(depsrc=lambda: 1.5, deprcv=lambda: 0.0, dist=lambda: 5.5)))
    gen_mech(rng, k)
    gen_scale(rng, k)
    k.update(pick(rng, 0.35, dict(integrate_order=lambda: int(rng.integers(1, 3)), differentiate_order=lambda: int(rng.integers(1, 3)), zne=lambda: bool(rng.random() < 0.7), calc_upar=lambda: bool(rng.random() < 0.7),
                                  return_result=lambda: bool(rng.random() < 0.8), time_function=lambda: str(rng.choice(["p/1.5", "t/0.5/1/2.5", "r/0.4", "0/tf"])))))
    return dict(meth="syn", lib=lib, k=k)


def gen_static_syn(rng):
    k = {}
    fault = rng.random() < 0.3
    lib = "many" if fault or rng.random() < 0.5 else "one"
    u = rng.random()
    if u < 0.3:
        k["recv_points"] = str(rng.choice(["pts", "pts6"])) if lib == "many" else "pts0"
    else:
        if u < 0.7:
            k["norths"], k["easts"] = axis(rng), axis(rng)
        if lib == "many" or rng.random() < 0.3:
            k["deprcv"] = r(rng, 0, 0.5) if lib == "many" else 0.0
    if fault:
        k["finite_fault"] = str(rng.choice(["f.inp", "f.inr"]))
        if rng.random() < 0.5:
            k["subfault_size"] = [r(rng, 0.3, 2, 2), r(rng, 0.3, 2, 2)]
    else:
        gen_mech(rng, k)
        gen_scale(rng, k)
        if lib == "many" or rng.random() < 0.3:
            k["depsrc"] = r(rng, 1.2, 3) if lib == "many" else 1.5
    k.update(pick(rng, 0.4, dict(zne=lambda: bool(rng.random() < 0.7), calc_upar=lambda: bool(rng.random() < 0.7), return_result=lambda: bool(rng.random() < 0.8))))
    return dict(meth="static_syn", lib=lib, k=k)


def gen_okada(rng):
    k = dict(modelparams=[r(rng, 5, 8), r(rng, 2, 3.4), r(rng, 2, 3)])
    if rng.random() < 0.35:
        k["recv_points"] = str(rng.choice(["pts", "pts6"]))
    else:
        k["norths"], k["easts"], k["deprcv"] = axis(rng), axis(rng), r(rng, 0, 1)
    if rng.random() < 0.3:
        k["finite_fault"] = str(rng.choice(["f.inp", "f.inr"]))
    else:
        gen_mech(rng, k, False)
        gen_scale(rng, k)
        k["depsrc"] = r(rng, 1.5, 5)
    k.update(pick(rng, 0.4, dict(zne=lambda: bool(rng.random() < 0.7), calc_upar=lambda: bool(rng.random() < 0.7), return_result=lambda: bool(rng.random() < 0.8))))
    return dict(meth="okada", k=k)


def gen_travt(rng):
    rows = N.model(rng, 1, 6, None, str(rng.choice(["none", "top", "any"])))
    zs, zr = N.depth(rng, rows), N.depth(rng, rows)
    n = int(rng.integers(1, 6))
    d = sorted({0.0 if rng.random() < 0.1 else N.rnd(N.log_uniform(rng, 0.1, 300)) for _ in range(n)})
    return dict(meth="travt", rows=rows, k=dict(depsrc=zs, deprcv=zr, dists=d[0] if len(d) == 1 and rng.random() < 0.6 else d), own=bool(rng.random() < 0.4))


def gen_post(rng):
    kind = str(rng.choice(["strain", "rotation", "stress"]))
    st = bool(rng.random() < 0.5)
    k = dict(scale=N.rnd(10 ** rng.uniform(15, 25)), calc_upar=True, zne=bool(rng.random() < 0.5))
    gen_mech(rng, k)
    if not st:
        k["azimuth"] = r(rng, 0, 360)
    else:
        k["norths"], k["easts"] = axis(rng), axis(rng)
    return dict(meth="post", kind=kind, static=st, lib="one" if st else "grn1", k=k, ret=[None, True, False][int(rng.integers(3))])


GEN = dict(grn=gen_grn, static_grn=gen_static_grn, syn=gen_syn, static_syn=gen_static_syn, okada=gen_okada, travt=gen_travt, post=gen_post)


def gen(rng):
    m = str(rng.choice(["grn", "grn", "static_grn", "static_grn", "syn", "syn", "static_syn", "static_syn", "okada", "travt", "post"]))
    return GEN[m](rng)


# ------------------------------------------------------------------ running
def files(c, k):
    with open("pts", "w") as f:
        f.write("# n e z\n1 2 0\n-2 1.5 0.25\n0.5 -3 0.5\n")
    with open("pts6", "w") as f:
        f.write("1 2 0 30 40 50\n-2 1.5 0.25 10 20 -30\n")
    with open("pts0", "w") as f:
        f.write("1 2 0\n-2 1.5 0\n")
    with open("tf", "w") as f:
        f.write("0\n1\n0.5\n0.25\n")
    fs = [dict(e0=0.0, n0=0.0, e1=1.0, n1=2.0, kode=100, a=1.0, b=0.5, rake=30.0, slip=1.2, dip=60.0, top=1.3, bot=2.4), dict(e0=-1.0, n0=0.5, e1=-2.0, n1=1.0, kode=100, a=-0.4, b=1.5, rake=-70.0, slip=0.7, dip=45.0, top=1.5, bot=2.8)]
    F.write("f.inp", fs)
    F.write("f.inr", fs, inr=True)


def library(c):
    lib = c.get("lib", "")
    e = ["-e"] if c["k"].get("calc_upar") else []
    if c["meth"] == "static_syn" or c.get("static"):
        G.run(["static", "greenfn", "-Mmod", "-Olib.nc", "-L15", "-K+k6"] + e + (["-D1.5/0", "-R0,3,6,9,14,20"] if lib == "one" else ["-Ds1.2,2,3", "-Dr0,0.5", "-R0,3,6,9,14,20"]))
    elif lib:
        G.run(["greenfn", "-Mmod", "-N16/0.4", "-L15", "-K+k3+s1.01", "-O" + lib.split("/")[0]] + e + (["-D1.5/0", "-R5.5"] if lib.startswith("grn1") else ["-Ds1.5,2", "-Dr0,0.5", "-R5.5,7"]))


CODE = """
k = dict(a['k'])
if a.get('np'):
    k = {x: (np.array(v) if isinstance(v, list) and v and isinstance(v[0], float) else v) for x, v in k.items()}
m = a['meth']
kw = dict(zip(('topbound', 'botbound'), a.get('bound') or [None, None]))
kw = {x: v for x, v in kw.items() if v is not None}
if m == 'okada':
    res = utils.compute_okada(output_path='A.nc', **k)
elif m == 'post':
    res = getattr(utils, 'compute_' + a['kind'])('A.nc' if a['static'] else 'A', **({} if a['ret'] is None else dict(return_result=a['ret'])))
elif m == 'travt':
    if a['own']:
        res = pygrt.PyModel1D().compute_travt1d(modelpath='mod', **k)
    else:
        res = pygrt.PyModel1D(modelpath='mod').compute_travt1d(**k)
else:
    p = pygrt.PyModel1D(**kw, **a['paths'])
    res = dict(grn=p.compute_grn, static_grn=p.compute_static_grn, syn=p.compute_syn, static_syn=p.compute_static_syn)[m](**k)
if isinstance(res, obspy.Stream):
    out['stream'] = [[t.stats.channel, t.stats.delta, t.data.astype(float)] for t in res]
elif isinstance(res, dict):
    out['nc'] = dict(dimensions=res['dimensions'], attributes=res['attributes'], variables={x: dict(d=list(v['dimensions']), data=v['data'], attributes=v['attributes']) for x, v in res['variables'].items()})
elif m == 'travt':
    out['scalar'] = [isinstance(x, float) for x in res]
    out['t'] = [np.atleast_1d(x) for x in res]
else:
    out['none'] = res is None
"""


def tree(d):
    """{name: bytes or variables}"""
    out = {}
    for dp, _, ff in os.walk(d):
        for x in ff:
            q = os.path.join(dp, x)
            rel = norm(os.path.relpath(q, d))
            if x == "command":
                continue
            if x.endswith(".nc"):
                out[rel] = Nc(q)
            else:
                with open(q, "rb") as f:
                    out[rel] = f.read()
    return out


def Nc(q):
    n = G.Nc(q)
    t = {x: (v.dtype.str, v.shape, v.tobytes(), n.vdims[x]) for x, v in n.v.items()}
    t.update({"@" + x: str(v) for x, v in n.attr.items() if x not in ("command", "history")})
    return t


def same(A, B, what):
    G.must(sorted(A) == sorted(B), "files", f"{what}: the interface writes {sorted(set(A) - set(B))[:4]} more and {sorted(set(B) - set(A))[:4]} less than the command")
    for x in A:
        if isinstance(A[x], dict):
            G.must(sorted(A[x]) == sorted(B[x]), "files", f"{what}: {x} has other variables: {sorted(set(A[x]) ^ set(B[x]))}")
            for y in A[x]:
                G.must(A[x][y] == B[x][y], "differs", f"{what}: {y} of {x} differs")
        else:
            G.must(A[x] == B[x], "differs", f"{what}: {x} differs")


def run(c, wd):
    m, k = c["meth"], dict(c["k"])
    os.chdir(wd)
    G.write_model("mod", c.get("rows") or ROWS)
    files(c, k)
    if m == "travt":
        return run_travt(c, k)
    if m in ("syn", "static_syn", "post"):
        library(c)
    if m == "post":
        st = c["static"]
        a = (cli_static_syn if st else cli_syn)(dict(c), {x: v for x, v in k.items()})
        G.run(a)
        if st:
            shutil.copy("B.nc", "A.nc")
        else:
            shutil.copytree("B", "A")
        a = ["static"] * st + [c["kind"], "B.nc" if st else "B"]
    else:
        a = dict(grn=cli_grn, static_grn=cli_static_grn, syn=cli_syn, static_syn=cli_static_syn, okada=cli_okada)[m](c, k)
    p = G.run(a, ok=False)
    kk = dict(k)
    if m in ("syn", "static_syn"):
        kk["output_path"] = "A" if m == "syn" else "A.nc"
    paths = dict(grn=dict(grn="A", modelpath="mod"), static_grn=dict(stgrn="A.nc", modelpath="mod"), syn=dict(grn=c.get("lib")), static_syn=dict(stgrn="lib.nc")).get(m)
    q = pyapi.call(CODE, dict(c, k=kk, paths=paths, np=len(str(c)) % 2 == 0), ok=False)
    what = f"{m}({', '.join(f'{x}={v!r}' for x, v in k.items())}{', ' + str(c['bound']) if any(c.get('bound') or []) else ''}) / grt {' '.join(a)}"
    if p.returncode != 0:
        G.must(not q["ok"], "accepted", f"the command refuses this, the interface returns: {what}: {p.err[-200:]}")
        return dict(nontrivial=False, tags=[m, "refused"])
    G.must(q["ok"], "exception", f"{what}: {q.get('err', '')[:300]}")
    A, B = {}, {}
    for d in (".", ):
        t = tree(d)
        for x in t:
            for R, s in ((A, "A"), (B, "B")):
                if x == s + ".nc":
                    R["result.nc"] = t[x]
                elif x.startswith((s + "/", s + "_")):
                    R["result" + x[1:]] = t[x]
    G.must(A, "files", f"{what}: the interface writes nothing")
    same(A, B, what)
    o = q["out"]
    ret = bool(c["ret"]) if m == "post" else k.get("return_result", False)
    G.must(("none" in o) == (not ret), "return", f"{what}: returns {'nothing' if 'none' in o else 'something'}")
    if "stream" in o:
        pre = c["kind"] + "_" if m == "post" else ""
        names = sorted(x[7:] for x in A if x.endswith(".sac") and x[7:].startswith(pre))
        G.must(len(o["stream"]) == len(names), "return", f"{what}: {len(o['stream'])} traces of {len(names)} files")
        have = sorted(tuple(np.float32(t[2]).tolist()) for t in o["stream"])
        want = sorted(tuple(G.Sac("A/" + x).d.astype(np.float32).tolist()) for x in names)
        G.must(have == want, "return", f"{what}: the traces differ from the files {names}")
    if "nc" in o:
        n = G.Nc("A.nc")
        v = o["nc"]["variables"]
        G.must(sorted(v) == sorted(n.v) and o["nc"]["dimensions"] == {x: int(y) for x, y in n.dims.items()}, "return", f"{what}: variables {sorted(v)}")
        for x in v:
            G.must(tuple(v[x]["d"]) == n.vdims[x] and np.array_equal(np.array(v[x]["data"], float), np.asarray(n[x], float), equal_nan=True), "return", f"{what}: {x} differs from the file")
        G.must(sorted(o["nc"]["attributes"]) == sorted(n.attr), "return", f"{what}: attributes {sorted(o['nc']['attributes'])}")
    return dict(nontrivial=True, tags=[m] + ["returned"] * ret)


def run_travt(c, k):
    rows = c["rows"]
    d = k["dists"] if isinstance(k["dists"], list) else [k["dists"]]
    p = G.run(["travt", "-Mmod", f"-D{num(k['depsrc'])}/{num(k['deprcv'])}", "-R" + lst(d)], ok=False)
    if p.returncode != 0:
        raise Skip                       # not a place in the model: the library call would end the process
    q = pyapi.call(CODE, dict(c), ok=False)
    what = f"compute_travt1d({k})"
    G.must(q["ok"], "exception", f"{what}: {q.get('err')}")
    t = np.array(q["out"]["t"], float)
    G.must(q["out"]["scalar"] == [not isinstance(k["dists"], list)] * 2, "return", f"{what}: scalars {q['out']['scalar']}")
    w = []
    for l in p.out.splitlines():
        x = l.split()
        try:
            w.append([float(y) for y in x[:3]])
        except ValueError:
            continue
    w = np.array([x for x in w if len(x) == 3])
    G.must(t.shape == (2, len(d)) and w.shape == (len(d), 3), "shape", f"{what}: {t.shape} {w.shape}")
    G.must(np.allclose(t.T, w[:, 1:], rtol=1e-4, atol=2e-3), "differs", f"{what}: {t.T.tolist()}, the command prints {w[:, 1:].tolist()}")
    return dict(nontrivial=True, tags=["travt"])


# ------------------------------------------------------------------ refused arguments
BAD = [
    ("static_syn", dict(scale=1e20, strike=10.0, dip=20.0, force=[1.0, 2.0, 3.0])), ("static_syn", dict(scale=1e20, strike=10.0, moment_tensor=[1.0] * 6, dip=20.0)), ("static_syn", dict(scale=1e20, force=[1.0] * 3, moment_tensor=[1.0] * 6)),
    ("static_syn", dict(scale=1e20, strike=10.0)), ("static_syn", dict(scale=1e20, dip=10.0)), ("static_syn", dict(scale=1e20, rake=10.0)), ("static_syn", dict(scale=1e20, strike=10.0, rake=10.0)),
    ("static_syn", dict(scale=1e20, force=[1.0] * 2)), ("static_syn", dict(scale=1e20, moment_tensor=[1.0] * 5)), ("static_syn", dict()), ("static_syn", dict(scale=1e20, norths=[1.0, 2.0, 1.0])), ("static_syn", dict(scale=1e20, easts=[1.0, 2.0, 1.0])),
    ("static_syn", dict(scale=1e20, norths=[1.0, 2.0, 1.0], easts=[1.0, 2.0, 1.0], recv_points="pts0")), ("static_syn", dict(scale=1e20, recv_points="pts0", deprcv=0.0)), ("static_syn", dict(scale=1e20, norths=[1.0, 2.0], easts=[1.0, 2.0, 1.0])),
    ("static_syn", dict(scale=1e20, deprcv=-1.0)), ("static_syn", dict(scale=1e20, depsrc=-1.0)), ("static_syn", dict(scale=1e20, depsrc=2.0)), ("static_syn", dict(scale=1e20, deprcv=0.5)), ("static_syn", dict(scale=1e20, calc_upar=True, noupar=True)),
    ("static_syn", dict(finite_fault="f.inp", scale=1e20)), ("static_syn", dict(finite_fault="f.inp", strike=1.0, dip=2.0)), ("static_syn", dict(finite_fault="f.inp", depsrc=1.5)), ("static_syn", dict(scale=1e20, subfault_size=[1.0, 1.0])),
    ("static_syn", dict(finite_fault="f.inp", subfault_size=[1.0])), ("static_syn", dict(finite_fault="missing")), ("static_syn", dict(finite_fault="f.inp", scale_with_mu=True)), ("static_syn", dict(finite_fault="f.inp", force=[1.0] * 3)),
    ("syn", dict(azimuth=10.0, scale=1e20, strike=10.0, dip=20.0, force=[1.0, 2.0, 3.0])), ("syn", dict(azimuth=10.0, scale=1e20, force=[1.0] * 3, moment_tensor=[1.0] * 6)), ("syn", dict(azimuth=10.0, scale=1e20, strike=10.0)), ("syn", dict(azimuth=10.0, scale=1e20, rake=10.0)),
    ("syn", dict(azimuth=10.0, scale=1e20, dist=-1.0)), ("syn", dict(azimuth=10.0, scale=1e20, depsrc=-1.0)), ("syn", dict(azimuth=10.0, scale=1e20, deprcv=-1.0)), ("syn", dict(azimuth=10.0, scale=1e20, dist=6.0)), ("syn", dict(azimuth=400.0, scale=1e20)),
    ("syn", dict(azimuth=10.0, scale=1e20, strike=400.0, dip=20.0)), ("syn", dict(azimuth=10.0, scale=1e20, time_function="x/1")), ("syn", dict(azimuth=10.0, scale=1e20, calc_upar=True, noupar=True)), ("syn", dict(azimuth=10.0)), ("syn", dict(scale=1e20)),
    ("grn", dict(nt=0)), ("grn", dict(nt=-4)), ("grn", dict(dt=0.0)), ("grn", dict(dt=-0.5)), ("grn", dict(depsrc=-1.0)), ("grn", dict(depsrc=[2.0, 1.0])), ("grn", dict(depsrc=[2.0, 2.0])), ("grn", dict(deprcv=[0.5, 0.0])), ("grn", dict(dists=[3.0, 2.0])), ("grn", dict(dists=[])),
    ("grn", dict(dists=-1.0)), ("grn", dict(dists="1,2")), ("grn", dict(dists=[[1.0, 2.0]])), ("grn", dict(freqband=[1.0])), ("grn", dict(freqband=[1.0, 2.0, 3.0])), ("grn", dict(freqband=[2.0, 1.0])), ("grn", dict(gf_source=["XX"])), ("grn", dict(converg_method="X")),
    ("grn", dict(filonLength=5.0, safilonTol=0.01)), ("grn", dict(ref_first_p=True, delayT0=1.0)), ("grn", dict(zeta=-1.0)), ("grn", dict(upsampling_n=0)), ("grn", dict(vmin_ref=-1.0)), ("grn", dict(k0=-1.0)), ("grn", dict(ampk=-1.0)),
    ("static_grn", dict(dists=[1.0, 2.0], norths=[1.0, 2.0, 1.0])), ("static_grn", dict(norths=[1.0, 2.0, 1.0])), ("static_grn", dict()), ("static_grn", dict(dists=[2.0, 1.0])), ("static_grn", dict(norths=[1.0, 2.0], easts=[1.0, 2.0, 1.0])),
    ("static_grn", dict(norths=[2.0, 1.0, 1.0], easts=[1.0, 2.0, 1.0])), ("static_grn", dict(norths=[1.0, 2.0, -1.0], easts=[1.0, 2.0, 1.0])), ("static_grn", dict(dists=2.0, converg_method="Y")), ("static_grn", dict(dists=2.0, filonLength=5.0, safilonTol=0.01)), ("static_grn", dict(dists=2.0, depsrc=-1.0)),
    ("okada", dict(scale=None)), ("okada", dict(depsrc=None)), ("okada", dict(deprcv=None)), ("okada", dict(norths=None)), ("okada", dict(easts=None)), ("okada", dict(norths=None, easts=None)), ("okada", dict(recv_points="pts")), ("okada", dict(recv_points="pts", norths=None, easts=None)),
    ("okada", dict(depsrc=-1.0)), ("okada", dict(deprcv=-1.0)), ("okada", dict(strike=10.0)), ("okada", dict(dip=10.0)), ("okada", dict(rake=10.0)), ("okada", dict(finite_fault="f.inp")), ("okada", dict(finite_fault="f.inp", scale=None)), ("okada", dict(modelparams=[6.0, 3.4])),
    ("okada", dict(modelparams="6/3.4/2.7")), ("okada", dict(modelparams=[6.0, 3.4, 2.7, 1.0])), ("okada", dict(strike=400.0, dip=10.0)), ("okada", dict(norths=[1.0, 2.0])),
    ("travt", dict(depsrc=-1.0)), ("travt", dict(deprcv=-1.0)), ("travt", dict(dists=[3.0, 1.0])), ("travt", dict(dists=[])), ("travt", dict(dists="5")), ("travt", dict(dists=-5.0)),
    ("model", dict(topbound="x")), ("model", dict(botbound="FREE ")), ("model", dict(modelpath="missing")), ("nogrn", {}), ("nomodel", {}), ("nostgrn", {}), ("nostmodel", {}), ("nogrnsyn", {}), ("nostsyn", {}), ("notravt", {}), ("positional", {}),
    ("strain", dict(path="missing")), ("stress", dict(path="missing")), ("rotation", dict(path="missing")), ("nc", dict(path="missing")), ("lamb", dict(nu=0.25, ts=[-1.0, 1.0], azimuth=10.0)), ("lamb", dict(nu=0.25, ts=[1.0], azimuth=-10.0)), ("lamb", dict(nu=0.25, ts=[1.0], azimuth=361.0)),
]
BAD_CODE = """
k, m = dict(a['k']), a['meth']
M = pygrt.PyModel1D
base = dict(grn=dict(nt=8, dt=0.5, depsrc=1.5, deprcv=0.0, dists=5.5, k0=3.0, Length=15.0), static_grn=dict(depsrc=1.5, deprcv=0.0), syn={}, static_syn={}, travt=dict(depsrc=1.5, deprcv=0.0, dists=[5.0]),
            okada=dict(modelparams=[6.0, 3.4, 2.7], depsrc=2.0, deprcv=0.0, norths=[1.0, 2.0, 1.0], easts=[1.0, 2.0, 1.0], scale=1e20))
if m in base:
    k = dict(base[m], **k)
    k = {x: v for x, v in k.items() if v is not None}
if m == 'grn': M(grn='A', modelpath='mod').compute_grn(**k)
elif m == 'static_grn': M(stgrn='A.nc', modelpath='mod').compute_static_grn(**k)
elif m == 'syn': M(grn='grn1').compute_syn(output_path='A', **k)
elif m == 'static_syn': M(stgrn='lib.nc').compute_static_syn(output_path='A.nc', **k)
elif m == 'okada': utils.compute_okada(output_path='A.nc', **k)
elif m == 'travt': M(modelpath='mod').compute_travt1d(**k)
elif m == 'model': M(**k)
elif m == 'nogrn': M(modelpath='mod').compute_grn(**base['grn'])
elif m == 'nomodel': M(grn='A').compute_grn(**base['grn'])
elif m == 'nostgrn': M(modelpath='mod').compute_static_grn(dists=2.0, **base['static_grn'])
elif m == 'nostmodel': M(stgrn='A.nc').compute_static_grn(dists=2.0, **base['static_grn'])
elif m == 'nogrnsyn': M(modelpath='mod').compute_syn(azimuth=1.0, scale=1.0, output_path='A')
elif m == 'nostsyn': M(modelpath='mod').compute_static_syn(scale=1.0, output_path='A.nc')
elif m == 'notravt': M().compute_travt1d(**base['travt'])
elif m == 'positional': M('A', 'A.nc', 'mod')
elif m == 'lamb': utils.solve_lamb1(k['nu'], np.array(k['ts']), k['azimuth'])
elif m == 'nc': utils.read_static_nc(k['path'])
else: getattr(utils, 'compute_' + m)(k['path'])
"""


def gen_bad(rng):
    return dict(i=int(rng.integers(len(BAD))))


def run_bad(c, wd):
    m, k = BAD[c["i"]]
    k = dict(k)
    os.chdir(wd)
    G.write_model("mod", ROWS)
    files(c, k)
    up = k.pop("noupar", False)
    if m == "syn":
        library(dict(meth="syn", lib="grn1", k={}))
    if m == "static_syn":
        library(dict(meth="static_syn", lib="many" if "finite_fault" in k else "one", k={}))
        if "finite_fault" in k and "deprcv" not in k:
            k["deprcv"] = 0.0
    q = pyapi.call(BAD_CODE, dict(meth=m, k=k), ok=False)
    G.must(not q["ok"], "accepted", f"{m}({k}) must raise an exception, but returns")
    left = [x for x in tree(".") if x.startswith("A") and x.endswith((".sac", ".nc"))]
    G.must(not left, "output", f"{m}({k}) raises {q['err'][:80]}, but leaves {left[:3]}")
    return dict(nontrivial=True, tags=[m])


SUBS = [Sub("api", gen, run, 600, 6000, rule="the command accepts the input and the results are compared"),
        Sub("refused", gen_bad, run_bad, 260, 800, rule="every case")]
