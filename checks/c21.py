"""No command reads or writes outside its memory or dies by a signal: sanitized runs of the valid cases of all other checks, and of damaged command lines and text files."""
import importlib, os, re
import numpy as np
from vlib.engine import Sub, Violation, Skip
from vlib import grt as G

PROP = "C21"
LEVEL = "exploration"
FLAVOURS = ["san"]
ASSUMPTIONS = ["gcc AddressSanitizer and UndefinedBehaviorSanitizer (without the shift and floating point checks) see the errors; leaks are not judged",
               "damaged inputs are command line values and text files (models, lists, subfaults); binary SAC and NetCDF files are not damaged"]
MODS = ["c01", "c02", "c03", "c04", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c20", "c22", "c05"]


class Memory(Violation):
    pass


REPORT = re.compile(r"ERROR: AddressSanitizer|runtime error:|LeakSanitizer|DEADLYSIGNAL")


def longer(args, n, d):
    """the same files by a path of 2 n more characters"""
    out = []
    for a in args:
        m = re.match(r"(-(?:[MGOCQU]|D[sr]|D0/|R))([^/+,]+)(.*)$", a, re.S)
        if m and (m[1] == "-O" or os.path.exists(os.path.join(d, m[2]))):
            a = m[1] + "./" * n + m[2] + m[3]
        out.append(a)
    return out


def san_run(rec, long=0, loud=False):
    real = G.run

    def run(args, ok=True, flavour="plain", env=None, cwd=None, timeout=G.TIMEOUT, stdin=None):
        lim = bool((env or {}).get("VERIF_LIMIT"))
        e = dict(env or {}, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0" + ":hard_rss_limit_mb=2500" * lim, UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")
        if isinstance(args, str):
            args = args.split()
        if loud:
            args = [x for x in args if x != "-s"]
        if long:
            args = longer(args, long, cwd or os.getcwd())
        p = real(args, ok=False, flavour="san", env=e, cwd=cwd, timeout=10 if lim else 240)
        rec.append(args)
        if p.returncode < 0 or p.returncode == 99 or REPORT.search(p.err):
            t = p.err
            m = REPORT.search(t)
            i = m.start() if m else max(0, len(t) - 600)
            fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) \S*/(\S+:\d+)", t)
            raise Memory("memory", f"grt {' '.join(args)[:400]}: exit {p.returncode}; {t[max(0, i - 100):i + 250]!r}; at {fr[:4]}")
        if ok and p.returncode != 0:
            raise Violation("rejected", "")
        return p
    return run


def run_case(mod, sub, case, wd, long=0, loud=False):
    m = importlib.import_module("checks." + mod)
    s = [x for x in m.SUBS if x.name == sub]
    if not s:
        raise Skip
    rec = []
    real = G.run
    G.run = san_run(rec, long, loud)
    try:
        s[0].run(case, wd)
    except Memory:
        raise
    except Exception:
        pass                      # judged by the check itself
    finally:
        G.run = real
    return rec


def gen_valid(rng):
    m = str(rng.choice(MODS))
    mm = importlib.import_module("checks." + m)
    s = mm.SUBS[int(rng.integers(len(mm.SUBS)))]
    return dict(mod=m, sub=s.name, case=s.gen(rng), long=int(rng.choice([0, 0, 0, 60, 125, 500])), loud=bool(rng.random() < 0.3))


def run_valid(c, wd):
    rec = run_case(c["mod"], c["sub"], c["case"], wd, min(max(int(c.get("long", 0)), 0), 1500), bool(c.get("loud")))
    return dict(nontrivial=len(rec) > 0, tags=sorted({r[0] if r[0] != "static" else "static " + r[1] for r in rec if r}))


# ------------------------------------------------------------------ damaged command lines and text files
NASTY = ["0", "-1", "-0.5", "0.001", "1000", "", "abc", "1e-9", "7", "2.5", "360", "-360", "1e", "0x10", "99999"]
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


class Stop(Exception):
    pass


def mutate_text(t, ops, line):
    """ops: [[kind, a, b], ...] with numbers in [0, 1)"""
    for kind, a, b in ops:
        if line:
            x = t.split("\n")
            i = int(a * len(x))
            if kind == "del":
                del x[i]
            elif kind == "dup":
                x.insert(i, x[i])
            elif kind == "cut":
                x = x[:i] + [x[i][:int(b * len(x[i]))]]
            elif kind == "junk":
                x.insert(i, ["#", "", "abc def", "1 4 2", "1 4 2 4 5 6 7 8 9 10 11 12 13 14", "\t", "9" * 300, "x y z w " * 8][int(b * 8)])
            elif kind == "empty":
                x = []
            else:
                w = x[i].split(" ")
                j = int(b * len(w))
                if w:
                    w[j] = NASTY[int((b * len(w) - j) * len(NASTY))]
                x[i] = " ".join(w)
            t = "\n".join(x)
        else:
            m = list(NUM.finditer(t[2:]))
            if kind == "num" and m:
                q = m[int(a * len(m))]
                t = t[:2 + q.start()] + NASTY[int(b * len(NASTY))] + t[2 + q.end():]
            elif kind == "cut":
                t = t[:max(1, int(a * len(t)))]
            elif kind == "add":
                t += ["/", "/1", "+", "+x", ",", "/abc", "+p", "+n", " ", "+a+f", "/0", ",0"][int(b * 12)]
            elif kind == "opt" and len(t) > 1:
                t = t[0] + "ABCDEFGIKLMNOPRSTWXYZeshj"[int(b * 25)] + t[2:]
    return t


def gen_bad(rng):
    c = gen_valid(rng)
    c["at"] = float(rng.random())
    ops = []
    for _ in range(int(rng.choice([1, 1, 1, 2]))):
        u = rng.random()
        if u < 0.72:
            ops.append(["arg", float(rng.random()), str(rng.choice(["num", "num", "num", "cut", "add", "opt", "drop", "dup"])), float(rng.random()), float(rng.random())])
        else:
            ops.append(["file", float(rng.random()), str(rng.choice(["del", "dup", "cut", "junk", "empty", "tok", "tok", "tok"])), float(rng.random()), float(rng.random())])
    c["ops"] = ops
    return c


def unphysical(t):
    """a layer with vs > 0.85 vp (negative bulk modulus) or with endless values"""
    for x in t.split("\n"):
        try:
            w = [float(y) for y in x.split()[:6]]
        except ValueError:
            continue
        if len(w) in (4, 6) and (w[2] > 0.85 * w[1] or not np.isfinite(w).all() or max(map(abs, w)) > 1e7):
            return True
    return False


def text_files(d):
    out = []
    for dp, _, ff in os.walk(d):
        for f in sorted(ff):
            q = os.path.join(dp, f)
            if os.path.getsize(q) < 100000 and not f.endswith((".nc", ".sac", ".grn")):
                with open(q, "rb") as h:
                    b = h.read()
                try:
                    b.decode("ascii")
                except UnicodeDecodeError:
                    continue
                if b"\0" not in b and os.path.basename(q) != "command":
                    out.append(q)
    return sorted(out)


def run_bad(c, wd):
    m = importlib.import_module("checks." + c["mod"])
    s = [x for x in m.SUBS if x.name == c["sub"]]
    if not s:
        raise Skip
    real = G.run
    rec = []
    total = []

    def count(args, ok=True, flavour="plain", **k):
        total.append(1)
        return real(args, ok=ok, flavour="san", **k)
    import shutil
    os.makedirs(f"{wd}/1")
    os.makedirs(f"{wd}/2")
    os.chdir(f"{wd}/1")
    G.run = count
    try:
        s[0].run(c["case"], f"{wd}/1")
    except Exception:
        pass
    finally:
        G.run = real
    if not total:
        raise Skip
    k = min(int(c["at"] * len(total)), len(total) - 1)
    n = []
    san = san_run(rec)
    res = {}

    def damaged(args, ok=True, flavour="plain", env=None, cwd=None, timeout=G.TIMEOUT, stdin=None):
        if isinstance(args, str):
            args = args.split()
        n.append(1)
        if len(n) <= k:
            return real(args, ok=ok, flavour="san", env=env, cwd=cwd)
        a = list(args)
        d = cwd or os.getcwd()
        for op in c["ops"]:
            if op[0] == "arg":
                first = 2 if a and a[0] == "static" else 1
                if len(a) <= first:
                    continue
                j = first + int(op[1] * (len(a) - first))
                if op[2] == "drop":
                    del a[j]
                elif op[2] == "dup":
                    a.insert(j, a[j])
                elif "/" in a[j] and a[j].startswith("-") and "out" in a[j][:6]:
                    continue
                else:
                    a[j] = mutate_text(a[j], [op[2:]], False)
            else:
                f = text_files(d)
                if f and a[0] not in ("modsum", "eigenfn"):       # these rely on the model that eigenv was given
                    q = f[int(op[1] * len(f))]
                    with open(q) as h:
                        t = h.read()
                    t = mutate_text(t, [op[2:]], True)
                    if unphysical(t):
                        raise Skip
                    with open(q, "w") as h:
                        h.write(t)
        if re.search("nan|inf| -P[0-9]{3}", " ".join(a), re.I) or any(x.startswith("-O/") or x.startswith("-C/") or ".." in x for x in a):
            raise Skip
        try:
            p = G.san_limited(san, a, env, cwd)
        except Violation as e:
            if isinstance(e, Memory):
                raise
            raise Skip                # does not end in time: too large a task
        res["rc"], res["cmd"], res["err"] = p.returncode, a, p.err + p.out
        raise Stop
    G.run = damaged
    os.chdir(f"{wd}/2")
    try:
        s[0].run(c["case"], f"{wd}/2")
    except (Memory, Skip):
        raise
    except Exception:
        pass
    finally:
        G.run = real
    if not res:
        raise Skip
    G.must(res["rc"] in (0, 1), "exit", f"exit code {res['rc']}: grt {' '.join(res['cmd'])[:400]}")
    G.must(res["rc"] == 0 or res["err"].strip(), "silent", f"fails without a message: grt {' '.join(res['cmd'])[:400]}")
    return dict(nontrivial=res["rc"] == 1, tags=[res["cmd"][0], "refused" if res["rc"] else "accepted"])


def san_limited(san, a, env, cwd):
    try:
        return san(a, ok=False, env=dict(env or {}, VERIF_LIMIT="1"), cwd=cwd)
    except Memory as e:
        if re.search(r"allocation-size-too-big|failed to allocate|out-of-memory|rss limit|calloc-overflow|requested allocation size", e.msg):
            raise Skip
        raise


G.san_limited = san_limited

SUBS = [Sub("valid", gen_valid, run_valid, 500, 6000, rule="at least one command was run"),
        Sub("damaged", gen_bad, run_bad, 400, 6000, rule="the command refuses the input")]
