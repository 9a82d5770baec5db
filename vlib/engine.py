"""Property-based testing engine: seeded generators -> JSON cases -> oracle -> shrink -> replay file.

A property module defines PROP (id), LEVEL, ASSUMPTIONS and SUBS, a list of Sub.
Every case is a plain JSON value made by Sub.gen from a numpy Generator that is seeded by
(VERIF_SEED, property, sub, index): a run is a pure function of the tree and the seed.
"""
import json, os, shutil, sys, time, traceback, hashlib, tempfile, importlib, copy, signal
import multiprocessing as mp
import numpy as np
from . import build as B

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    """case is outside of the property's domain (only reachable while shrinking)"""


class Violation(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"[{kind}] {msg}")
        self.kind = kind
        self.msg = msg


class Sub:
    def __init__(self, name, gen, run, quick, thorough=None, rule="", shrink=None):
        self.name, self.gen, self.run = name, gen, run
        self.n = {"quick": quick, "thorough": thorough or quick * 6}
        self.rule = rule
        self.shrink = shrink


CTX = {}          # filled before the pool forks: paths of the builds


def case_rng(seed, prop, sub, i):
    h = hashlib.sha256(f"{seed}|{prop}|{sub}|{i}".encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def jround(x):
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, np.ndarray):
        return [jround(v) for v in x.tolist()]
    if isinstance(x, (list, tuple)):
        return [jround(v) for v in x]
    if isinstance(x, dict):
        return {k: jround(v) for k, v in x.items()}
    if isinstance(x, np.bool_):
        return bool(x)
    return x


def execute(sub, case):
    """-> (status, kind, msg, info). status in ok|viol|skip"""
    wd = tempfile.mkdtemp(prefix="w_", dir=B.scratch())
    old = os.getcwd()
    try:
        os.chdir(wd)
        info = sub.run(copy.deepcopy(case), wd) or {}
        return ("ok", None, None, info)
    except Violation as e:
        return ("viol", e.kind, e.msg, {})
    except Skip:
        return ("skip", None, None, {})
    except (MemoryError, BlockingIOError) as e:
        return ("skip", None, "resource: %r" % e, {})
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN):
            return ("skip", None, "resource: %r" % e, {})
        return ("viol", "unreadable", traceback.format_exc()[-1500:], {})
    except Exception:
        # output that cannot be parsed or has the wrong shape
        return ("viol", "unreadable", traceback.format_exc()[-1500:], {})
    finally:
        os.chdir(old)
        shutil.rmtree(wd, ignore_errors=True)


def _work(a):
    mod, si, seed, i = a
    m = importlib.import_module(mod)
    sub = m.SUBS[si]
    t0 = time.time()
    try:
        case = jround(sub.gen(case_rng(seed, m.PROP, sub.name, i)))
    except Exception:
        return (si, i, None, ("generr", "generr", traceback.format_exc(), {}), 0)
    case = json.loads(json.dumps(case))
    r = execute(sub, case)
    return (si, i, case, r, time.time() - t0)


# ---------------------------------------------------------------- shrinking
def _num_cands(v):
    out = []
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return out
    if isinstance(v, float):
        for nd in (1, 2, 3):
            if v != 0:
                c = float(f"{v:.{nd - 1}e}")
                if c != v:
                    out.append(c)
        if v != round(v):
            out.append(float(round(v)))
    return out


def generic_shrinks(case, path=()):
    """yield simpler cases: drop list elements (lists of >1), round numbers"""
    def walk(node, path):
        if isinstance(node, dict):
            for k in node:
                yield from walk(node[k], path + (k,))
        elif isinstance(node, list):
            if len(node) > 1:
                for i in range(len(node)):
                    yield path, ("del", i)
            for i, v in enumerate(node):
                yield from walk(v, path + (i,))
        else:
            for c in _num_cands(node):
                yield path, ("set", c)
    for p, op in list(walk(case, ())):
        c = copy.deepcopy(case)
        try:
            if op[0] == "del":
                n = c
                for k in p:
                    n = n[k]
                del n[op[1]]
            else:
                n = c
                for k in p[:-1]:
                    n = n[k]
                n[p[-1]] = op[1]
        except Exception:
            continue
        yield c


def shrink(sub, case, kind, budget=25.0):
    t0 = time.time()
    best = case
    improved = True
    steps = 0
    while improved and time.time() - t0 < budget:
        improved = False
        gens = sub.shrink(best) if sub.shrink else generic_shrinks(best)
        for cand in gens:
            if time.time() - t0 > budget:
                break
            steps += 1
            r = execute(sub, cand)
            if r[0] == "viol" and r[1] == kind:
                best = cand
                improved = True
                break
    return best, steps


# ---------------------------------------------------------------- known findings
def load_known(prop):
    fn = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)).get("findings", []) if k["property"] == prop]


# ---------------------------------------------------------------- main
def main(modname, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--stop", type=int, default=60, help="stop looking after so many failing cases")
    ap.add_argument("--all", action="store_true", help="report every failing case (development)")
    a = ap.parse_args(argv)
    t0 = time.time()
    m = importlib.import_module(modname)
    prop = m.PROP
    try:
        for fl in getattr(m, "FLAVOURS", ["plain"]):
            CTX[fl] = B.build(fl)
    except B.BuildError as e:
        print("BUILD-FAILED\n" + str(e), file=sys.stderr)
        return 2
    if hasattr(m, "prepare"):
        m.prepare()

    if a.replay:
        d = json.load(open(a.replay))
        sub = next(s for s in m.SUBS if s.name == d["sub"])
        r = execute(sub, d["case"])
        print(r)
        if r[0] == "viol":
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0

    jobs = []
    for si, s in enumerate(m.SUBS):
        if a.sub and s.name not in a.sub.split(","):
            continue
        n = max(1, int(round(s.n[a.tier] * a.scale)))
        jobs += [(modname, si, a.seed, i) for i in range(n)]
    # interleave the subs so that the pool is balanced
    order = np.random.default_rng(0).permutation(len(jobs))
    jobs = [jobs[k] for k in order]
    stats = {}
    failures = []
    skipped = 0
    with mp.get_context("fork").Pool(a.j) as pool:
        for si, i, case, r, dt in pool.imap_unordered(_work, jobs, chunksize=1):
            st = stats.setdefault(si, dict(n=0, nt=0, t=0.0, tags={}, samples=[], tmax=0, metr={}))
            st["n"] += 1
            st["t"] += dt
            st["tmax"] = max(st["tmax"], dt)
            if r[0] == "generr":
                print("generator error", r[2], file=sys.stderr)
                return 3
            if r[0] == "skip":
                skipped += 1
                st["tags"]["skip"] = st["tags"].get("skip", 0) + 1
                continue
            if r[0] == "viol":
                failures.append((si, i, case, r))
                if a.v or a.all:
                    print(f"  fail {m.SUBS[si].name}#{i}: {r[1]}: {r[2][:600]}", flush=True)
                if not a.all and (len(failures) >= a.stop or time.time() - t0 > 400):
                    print(f"stopped after {len(failures)} failing cases")
                    break
                continue
            info = r[3]
            if info.get("nontrivial", True):
                st["nt"] += 1
                if len(st["samples"]) < 3:
                    st["samples"].append(case)
            for t in info.get("tags", []):
                st["tags"][t] = st["tags"].get(t, 0) + 1
            for k, v in info.get("metric", {}).items():
                st["metr"].setdefault(k, []).append(float(v))
    viols = []
    known = load_known(prop)
    known_hit = {}
    failures.sort(key=lambda f: (f[0], f[1]))
    seen = set()
    if not a.all:
        for si, i, case, r in failures:
            sub = m.SUBS[si]
            kf = None
            for k in known:
                if hasattr(m, "matches_known") and m.matches_known(k, sub.name, case, r):
                    kf = k
                    break
            if kf is not None:
                known_hit[kf["id"]] = kf
                continue
            key = (si, r[1])
            if key in seen or len(viols) >= 4:
                continue
            if viols and time.time() - t0 > 500:
                break
            # replay three times before believing it
            ok = True
            for _ in range(1 if r[1] == "timeout" or time.time() - t0 > 500 else 3):
                rr = execute(sub, case)
                if rr[0] != "viol":
                    ok = False
                    break
            if not ok:
                print(f"note: unstable result for {sub.name}#{i}, not reported: {r[2][:300]}")
                continue
            seen.add(key)
            best, steps, rr = case, 0, r
            if r[1] != "timeout":
                best, steps = shrink(sub, case, r[1], 25.0 if time.time() - t0 < 500 else 5.0)
                rr = execute(sub, best)
            if rr[0] != "viol":
                best, rr = case, r
            rd = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(rd, exist_ok=True)
            fn = os.path.join(rd, f"{prop}_{sub.name}_{len(viols)}.json")
            json.dump(dict(property=prop, sub=sub.name, seed=a.seed, index=i, kind=rr[1], message=rr[2],
                           case=best, original_case=case, shrink_steps=steps), open(fn, "w"), indent=1)
            print(f"{prop}/{sub.name}#{i}: {rr[1]}: {rr[2][:800]}")
            print(f"VIOLATION property={prop} replay={fn}", flush=True)
            viols.append(fn)
    for k in known:
        if k.get("always") or k["id"] in known_hit:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    ev = dict(property=prop, tier=a.tier, seed=int(a.seed) if str(a.seed).isdigit() else 0, level=m.LEVEL,
              coverage=dict(
                  evaluations=sum(s["n"] for s in stats.values()),
                  distinct_nontrivial=sum(s["nt"] for s in stats.values()),
                  rule="; ".join(f"{s.name}: {s.rule}" for s in m.SUBS),
                  samples=[dict(sub=m.SUBS[si].name, case=c) for si, s in sorted(stats.items()) for c in s["samples"][:2]],
                  per_sub={m.SUBS[si].name: dict(cases=s["n"], nontrivial=s["nt"], classes=s["tags"],
                                                 worst={k: max(v) for k, v in s["metr"].items()})
                           for si, s in sorted(stats.items())}),
              assumptions=getattr(m, "ASSUMPTIONS", []),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    if not a.sub and a.scale == 1.0 and not a.all:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for si, s in sorted(stats.items()):
        worst = {k: f"p50={np.median(v):.2g} p99={np.quantile(v, .99):.2g} max={max(v):.2g}" for k, v in s["metr"].items()}
        print(f"  {m.SUBS[si].name}: {s['n']} cases, {s['nt']} non-trivial, {s['t']/max(1,s['n']):.2f}s/case max {s['tmax']:.1f}s, {s['tags']} {worst}")
    print(f"{prop} {a.tier} seed={a.seed}: {ev['coverage']['evaluations']} cases, {len(failures)} failing, "
          f"{len(viols)} violations, {time.time() - t0:.1f}s")
    if a.all:
        return 1 if failures else 0
    if skipped > 0.5 * max(1, len(jobs)):
        print("too many skipped cases", file=sys.stderr)
        return 4
    return 1 if viols else 0
