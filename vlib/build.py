"""Builds a scratch copy of /repo's current working tree (never /repo itself)."""
import atexit, os, shutil, subprocess, sys, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
BASE_ENV = {
    "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
    "PATH": "/opt/pygrt-venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONNOUSERSITE": "1", "MPLBACKEND": "Agg",
    "OMP_NUM_THREADS": "1", "OMP_WAIT_POLICY": "passive", "OPENBLAS_NUM_THREADS": "1",
}
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix="verif_", dir="/tmp")
        pid = os.getpid()

        def _rm():
            if os.getpid() == pid and SCRATCH.startswith("/tmp/verif_"):
                shutil.rmtree(SCRATCH, ignore_errors=True)
        atexit.register(_rm)
    return SCRATCH


class BuildError(Exception):
    pass


def build(flavour="plain"):
    """Returns the C_extension directory of the scratch build."""
    root = os.path.join(scratch(), "b_" + flavour)
    os.makedirs(root)
    src = os.path.join(REPO, "pygrt")

    def ign(d, names):
        out = {"__pycache__"} & set(names)
        if os.path.basename(d) == "C_extension":
            out |= {"build", "bin", "lib", ".clangd"} & set(names)
        return out
    shutil.copytree(src, os.path.join(root, "pygrt"), ignore=ign)
    cext = os.path.join(root, "pygrt", "C_extension")
    args = ["make", "-j8", "CC=gcc"]
    if flavour == "san":
        san = "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=shift"
        args += ["CFLAGS2=" + san, "LFFTW_FLAGS=-lfftw3 -lfftw3f -fsanitize=address,undefined", "progs"]
    else:
        args += ["all"]
    env = dict(BASE_ENV)
    env["TMPDIR"] = scratch()
    p = subprocess.run(args, cwd=cext, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(p.stdout[-4000:])
    shutil.rmtree(os.path.join(cext, "build"), ignore_errors=True)
    return cext
