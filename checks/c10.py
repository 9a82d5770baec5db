"""Selecting Green's functions from a library directory, over any set and history of libraries."""
import os
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G, gen as N, srcs

PROP = "C10"
LEVEL = "exploration"
ASSUMPTIONS = ["depths and distances of one library differ by more than a metre", "sub select uses directories with documented SAC headers written by the check"]


def vals(rng, n, hi, zero):
    out = []
    while len(out) < n:
        u = rng.random()
        if u < 0.15 and zero:
            v = 0.0
        elif u < 0.3 and out:
            v = round(out[-1] + float(rng.choice([0.01, 0.002, 0.1, 1])), 6)
        elif u < 0.6:
            v = N.rnd(N.log_uniform(rng, 0.05, hi), int(rng.integers(2, 7)))
        else:
            v = float(rng.integers(1, 20))
        if v > 500:
            v = round(v, 2)
        v = round(v, 3)
        if all(abs(v - w) > 1.5e-3 for w in out) and (v > 0 or zero):
            out.append(v)
    return out


def gen_select(rng):
    S, R, D = vals(rng, int(rng.integers(1, 4)), 700, True), vals(rng, int(rng.integers(1, 4)), 400, True), vals(rng, int(rng.integers(1, 4)), 20000, True)
    combos = [[s, r, d] for s in S for r in R for d in D]
    if rng.random() < 0.4 and len(combos) > 1:
        keep = sorted(rng.choice(len(combos), int(rng.integers(1, len(combos))), replace=False).tolist())
        combos = [combos[k] for k in keep]
    names = ["m"] * len(combos)
    if rng.random() < 0.25:
        k = int(rng.integers(0, len(combos)))
        combos.append(list(combos[k]))
        names.append("n")
    qs = []
    for _ in range(8):
        t = combos[int(rng.integers(0, len(combos)))]
        q = [t[0], t[1], t[2]]
        for i in range(3):
            u = rng.random()
            if u < 0.25:
                q[i] = None
            elif u < 0.35:
                q[i] = float([S, R, D][i][int(rng.integers(0, len([S, R, D][i])))])
            elif u < 0.42:
                q[i] = round(max(0.0, q[i] + float(rng.choice([0.004, 0.05, -0.004, 1, 30]))), 4)
        qs.append(q)
    return dict(combos=combos, names=names, qs=qs, decoys=bool(rng.random() < 0.5), seed=int(rng.integers(1 << 30)), slash=bool(rng.random() < 0.3))


def run_select(c, wd):
    combos = c["combos"]
    if not combos or any(min(x) < 0 for x in combos) or len(c["names"]) < len(combos):
        raise Skip
    for i, a in enumerate(combos):
        for b in combos[:i]:
            for x, y in zip(a, b):
                if x != y and abs(x - y) < 1.5e-3:
                    raise Skip
    rng = np.random.default_rng(c["seed"])
    os.mkdir("L")
    for k in rng.permutation(len(combos)):
        s, r, d = combos[k]
        p = f"L/{c['names'][k]}_{s:g}_{r:g}_{d!r}_{k}"
        os.mkdir(p)
        for nm in ("EXZ", "EXR"):
            G.write_sac(f"{p}/{nm}.sac", np.full(3, 1.0 + k), delta=0.5, dist=d, evdp=s, stel=-1e3 * r if r else 0.0, user0=0.1, user1=5, user2=3, user3=2.7, user6=5, user7=3, user8=2.7)
    if c["decoys"]:
        os.mkdir("L/empty")
        os.mkdir("L/.hidden")
        G.write_sac("L/.hidden/EXZ.sac", np.full(3, 99.0), delta=0.5, dist=7.0, evdp=7.0, stel=-7e3, user6=5, user7=3, user8=2.7)
        open("L/m", "w").write("1 2 3 4\n")
        open("L/command", "w").write("x")
        os.mkdir("L/other")
        open("L/other/readme.txt", "w").write("x")
    tags = set()
    for q in c["qs"]:
        if len(q) != 3:
            raise Skip
        a = ["syn", "-GL" + "/" * c["slash"], "-A10", "-S1e20", "-Oo", "-s"]
        for o, v in zip(("-Ds", "-Dr", "-R"), q):
            if v is not None:
                if v < 0:
                    raise Skip
                a.append(f"{o}{v!r}")
        sets = [sorted({x[i] for x in combos}) for i in range(3)]
        eff = [sets[i][0] if q[i] is None and len(sets[i]) == 1 else q[i] for i in range(3)]
        amb = any(v is None for v in eff)
        hit = [k for k, x in enumerate(combos) if not amb and all(abs(x[i] - eff[i]) < 1e-9 for i in range(3))]
        if not amb and not hit and any(all(abs(x[i] - eff[i]) < 1.5e-3 for i in range(3)) for x in combos):
            raise Skip
        p = G.run(a, ok=False)
        if len(hit) == 1:
            G.must(p.returncode == 0, "rejected", f"query {q} matches exactly one of {combos} but fails: {p.err[-250:]}")
            x = G.Sac("o/Z.sac")
            G.must(abs(x.d[0] - (1 + hit[0])) < 1e-4, "wrong", f"query {q} used the Green's functions of {combos[int(round(x.d[0])) - 1]}")
            G.must(abs(x.h("dist") - combos[hit[0]][2]) <= 1e-6 * (1 + combos[hit[0]][2]) and abs(x.h("evdp") - combos[hit[0]][0]) <= 1e-6 * (1 + combos[hit[0]][0]), "header", "distance or depth header")
            tags.add("unique")
            for f in os.listdir("o"):
                os.unlink("o/" + f)
        else:
            G.must(p.returncode > 0, "accepted", f"query {q} has {len(hit)} matches in {combos} ({'a required selector is missing' if amb else 'values'}) but is accepted")
            G.must(not os.path.exists("o/Z.sac"), "accepted", f"query {q}: output in spite of the error")
            tags.add("missing" if amb else "nomatch" if not hit else "duplicate")
    # a subdirectory given directly: no selectors allowed, that directory is used
    k = int(rng.integers(0, len(combos)))
    s, r, d = combos[k]
    p = f"L/{c['names'][k]}_{s:g}_{r:g}_{d!r}_{k}"
    G.run(["syn", "-G" + p, "-A10", "-S1e20", "-Oo2", "-s"])
    G.must(abs(G.Sac("o2/Z.sac").d[0] - 1 - k) < 1e-4, "wrong", "subdirectory given directly")
    for o, v in zip(("-Ds", "-Dr", "-R"), combos[k]):
        z = G.run(["syn", "-G" + p, "-A10", "-S1e20", "-Oo3", "-s", f"{o}{v!r}"], ok=False)
        G.must(z.returncode > 0, "accepted", f"{o} next to a subdirectory")
    return dict(nontrivial=len(combos) > 1, tags=sorted(tags))


# ---------------------------------------------------------------- histories of real libraries
def gen_hist(rng):
    rows = [N.model(rng, 1, 3, q=None, hmax=3) for _ in range(2)]
    S = sorted(vals(rng, 3, 6, False))
    R = sorted(vals(rng, 2, 5, True))
    D = sorted(vals(rng, 3, 30, False))
    ops = []
    for _ in range(int(rng.integers(2, 5))):
        ops.append(dict(m=int(rng.random() < 0.3), n=int(rng.random() < 0.2), S=[S[k] for k in range(3) if rng.random() < 0.5] or [S[0]], R=[R[k] for k in range(2) if rng.random() < 0.6] or [R[0]],
                        D=[D[k] for k in range(3) if rng.random() < 0.5] or [D[1]]))
    qs = []
    for _ in range(6):
        qs.append([None if rng.random() < 0.25 else float(rng.choice(x)) for x in (S, R, D)])
    nm = [["mod", "mod_5"], ["mod_5", "mod"], ["a.b", "a"], ["m", "m2"], ["crust_1_2", "crust_1"], ["x-1", "x"]][int(rng.integers(0, 6))]
    return dict(rows=rows, ops=ops, qs=qs, names=nm)


def tree(d):
    return {os.path.join(r, f): open(os.path.join(r, f), "rb").read() for r, _, fs in os.walk(d) for f in fs}


def run_hist(c, wd):
    for rows in c["rows"]:
        if not rows or any(len(r) != len(rows[0]) for r in rows) or any(r[0] <= 0 for r in rows[:-1]):
            raise Skip
    ops = c["ops"]
    for o in ops:
        for k in "SRD":
            v = o[k]
            if not v or any(b <= a for a, b in zip(v, v[1:])) or min(v) < 0 or (k != "R" and min(v) <= 0):
                raise Skip
        if o["m"] not in (0, 1) or o["n"] not in (0, 1) or len(c["names"]) != 2:
            raise Skip
        if any(abs(s - r) < 0.3 for s in o["S"] for r in o["R"]):
            o["S"] = [s for s in o["S"] if all(abs(s - r) >= 0.3 for r in o["R"])]
            if not o["S"]:
                raise Skip
        itf = [z for rows in c["rows"] for z in N.interfaces(rows)]
        if any(abs(z - t) < 1e-3 for z in o["S"] + o["R"] for t in itf):
            raise Skip
    for i, rows in enumerate(c["rows"]):
        G.write_model(f"content{i}", rows)
    have = {}
    owner = None
    cmds = 0
    tags = set()
    com = ["-N8/0.5", "-L6", "-K+f", "-s", "-P1", "-Ge"]
    j = lambda v: ",".join(repr(float(x)) for x in v)
    for n, o in enumerate(ops):
        name = c["names"][o["n"]]
        import shutil
        shutil.copy(f"content{o['m']}", name)
        cmd = ["greenfn", "-M" + name, "-Ds" + j(o["S"]), "-Dr" + j(o["R"]), "-R" + j(o["D"]), "-OL"] + com
        if owner not in (None, name):
            before = tree("L")
            p = G.run(cmd, ok=False)
            G.must(p.returncode > 0, "mixed", f"a library of model {owner!r} accepts results of model {name!r}")
            G.must(tree("L") == before, "mixed", f"the rejected run with model {name!r} changed the library of {owner!r}")
            tags.add("othermodel")
            continue
        G.run(cmd)
        owner = name
        cmds += 1
        G.must(open("L/" + name).read() == open(name).read(), "copy", "the model file in the library is not the one last used")
        G.must(len(open("L/command").read().splitlines()) == cmds, "command", f"command file after {cmds} runs: {open('L/command').read()!r}")
        for s in o["S"]:
            for r in o["R"]:
                for d in o["D"]:
                    have[(o["m"], s, r, d)] = (n, max(o["D"]))
                    have.pop((1 - o["m"], s, r, d), None)
        subs = [x for x in os.listdir("L") if os.path.isdir("L/" + x)]
        G.must(len(subs) == len(have), "library", f"{len(subs)} subdirectories after {n + 1} runs, expected {len(have)}: {sorted(subs)}")
        for q in c["qs"]:
            if len(q) != 3:
                raise Skip
            sets = [sorted({x[i + 1] for x in have}) for i in range(3)]
            eff = [sets[i][0] if q[i] is None and len(sets[i]) == 1 else q[i] for i in range(3)]
            amb = any(v is None for v in eff)
            hit = [x for x in have if not amb and all(abs(x[i + 1] - eff[i]) < 1e-9 for i in range(3))]
            a = ["syn", "-GL", "-A33", "-S1e20", "-Oo", "-s"] + [f"{p}{v!r}" for p, v in zip(("-Ds", "-Dr", "-R"), q) if v is not None]
            p = G.run(a, ok=False)
            if len(hit) != 1:
                G.must(p.returncode > 0, "accepted", f"query {q} has {len(hit)} matches but is accepted (library {sorted(have)})")
                tags.add("error")
                continue
            tags.add("unique")
            G.must(p.returncode == 0, "rejected", f"query {q} matches exactly one of {sorted(have)} but fails: {p.err[-250:]}")
            m, s, r, d = hit[0]
            # a fresh library with this depth pair; the largest distance sets the integration step
            fd = sorted({d, have[hit[0]][1]})
            G.run(["greenfn", f"-Mcontent{m}", f"-Ds{s!r}", f"-Dr{r!r}", "-R" + j(fd), "-OF"] + com)
            f = [x for x in os.listdir("F") if os.path.isdir("F/" + x) and abs(G.Sac(f"F/{x}/EXZ.sac").h("dist") - d) < 1e-4 * (1 + d)]
            G.must(len(f) == 1, "library", f"{f}")
            for ch, nm in (("Z", "EXZ"), ("R", "EXR")):
                G.close("history", f"{ch} of {q} after {n + 1} runs", G.Sac(f"o/{ch}.sac").d, G.Sac(f"F/{f[0]}/{nm}.sac").d, 1e-6)
            shutil.rmtree(os.path.join(wd, "F"))
    return dict(nontrivial=len(have) > 1, tags=sorted(tags))


SUBS = [Sub("select", gen_select, run_select, 700, 5000, rule="the library holds more than one subdirectory (eight queries each)"),
        Sub("history", gen_hist, run_hist, 120, 900, rule="the final library holds more than one subdirectory")]
