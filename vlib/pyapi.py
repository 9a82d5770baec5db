"""A persistent process in the repository's Python environment that runs snippets against the scratch copy's pygrt."""
import atexit, json, os, select, signal, subprocess, sys, time
import numpy as np
from .engine import CTX, Violation
from .build import BASE_ENV

SERVER = r'''
import sys, json, os, traceback, io, contextlib
real = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
import numpy as np, warnings
warnings.filterwarnings("ignore")
import pygrt, obspy
from pygrt import utils, signals
def jr(x):
    if isinstance(x, np.ndarray):
        if np.iscomplexobj(x):
            return dict(re=x.real.tolist(), im=x.imag.tolist())
        return x.tolist()
    if isinstance(x, (np.floating, np.integer, np.bool_)): return x.item()
    if isinstance(x, complex): return [x.real, x.imag]
    if isinstance(x, dict): return {str(k): jr(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [jr(v) for v in x]
    return x
for line in sys.stdin:
    q = json.loads(line)
    out = {}
    try:
        os.chdir(q["cwd"])
        ns = dict(np=np, pygrt=pygrt, obspy=obspy, utils=utils, signals=signals, a=q["args"], out=out, os=os)
        exec(compile(q["code"], "snippet", "exec"), ns)
        r = dict(ok=True, out=jr(out))
    except BaseException as e:
        r = dict(ok=False, err=repr(e), type=type(e).__name__, tb=traceback.format_exc()[-1500:], out=jr(out))
    try:
        os.chdir("/")
    except Exception:
        pass
    real.write(json.dumps(r) + "\n")
    real.flush()
'''
_P = {}


def _start(flavour):
    env = dict(BASE_ENV)
    env["PYTHONPATH"] = os.path.dirname(os.path.dirname(CTX[flavour]))
    p = subprocess.Popen(["/opt/pygrt-venv/bin/python", "-c", SERVER], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.DEVNULL, env=env, cwd="/")
    atexit.register(p.kill)
    return p


def call(code, args=None, ok=True, timeout=120, flavour="plain"):
    """run `code` with a=args; it stores results in the mapping out. Returns out, or the failure record when ok is False"""
    key = (os.getpid(), flavour)
    p = _P.get(key)
    if p is None or p.poll() is not None:
        p = _P[key] = _start(flavour)
    p.stdin.write((json.dumps(dict(code=code, args=args, cwd=os.getcwd())) + "\n").encode())
    p.stdin.flush()
    buf = b""
    t0 = time.time()
    fd = p.stdout.fileno()
    while not buf.endswith(b"\n"):
        r, _, _ = select.select([fd], [], [], max(0.1, timeout - (time.time() - t0)))
        if not r:
            p.kill()
            p.wait()
            del _P[key]
            raise Violation("timeout", "Python API call did not end within %d s" % timeout)
        d = os.read(fd, 1 << 20)
        if not d:
            p.wait()
            del _P[key]
            raise Violation("crash", "the Python process died (status %s) running\n%s" % (p.returncode, code[-400:]))
        buf += d
    r = json.loads(buf)
    if not ok:
        return r
    if not r["ok"]:
        raise Violation("exception", "Python API call fails: %s\n%s" % (r["err"], r["tb"][-700:]))
    return r["out"]


def arr(x):
    if isinstance(x, dict):
        return np.array(x["re"]) + 1j * np.array(x["im"])
    return np.array(x)
