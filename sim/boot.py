"""Starts the simulator's interpreter: compiles the clock library when it is
missing, then re-executes Python with it preloaded and every source of
interpreter-level nondeterminism pinned."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"
REPO = os.environ.get("DSARI_REPO", "/repo")


def clock_lib():
    import hashlib
    src = os.path.join(HERE, "simclock.c")
    with open(src, "rb") as f:
        tag = hashlib.sha256(f.read()).hexdigest()[:12]
    for base in (os.path.join(ROOT, "build"), "/tmp/dsim-build-%d" % os.getuid()):
        out = os.path.join(base, "simclock-%s.so" % tag)
        if os.path.exists(out):
            return out
        try:
            os.makedirs(base, exist_ok=True)
            tmp = "%s.%d" % (out, os.getpid())
            subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src], check=True)
            os.rename(tmp, out)
            return out
        except OSError:
            continue
    raise RuntimeError("cannot build the simulated clock")


def reexec(hashseed="0"):
    """Returns only inside the pinned interpreter."""
    if os.environ.get("DSIM_BOOT") == "1":
        return
    lib = clock_lib()
    home = "/nonexistent/sim-home"
    env = {"LD_PRELOAD": lib, "PYTHONHASHSEED": hashseed, "PYTHONDONTWRITEBYTECODE": "1",
           "DSIM_BOOT": "1", "HOME": home, "TZ": "UTC", "LC_ALL": "C.UTF-8", "PYTHONNOUSERSITE": "1",
           "PATH": "/usr/bin:/bin", "DSARI_REPO": REPO, "PYTHONUTF8": "1"}
    for k in os.environ:
        if k.startswith(("VERIF_", "DSIM_")) and k not in env:
            env[k] = os.environ[k]
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, "-B"] + sys.argv, env)


def load():
    """Seams first, then the code under test."""
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    import seams
    seams.install()
    import kernel
    import toolsim  # noqa
    import backends
    backends.install()
    import dsari
    import dsari.daemon
    import dsari.config
    import dsari.database
    import dsari.info
    import dsari.render
    assert os.path.dirname(os.path.abspath(dsari.__file__)) == os.path.join(REPO, "dsari"), dsari.__file__
    # warm lazily loaded modules so that a fork finds them
    import json, yaml, gzip, lzma, croniter, dateutil.rrule, dateutil.tz, dateutil.parser, sqlite3  # noqa
    import encodings.idna, encodings.utf_8, encodings.latin_1, encodings.ascii  # noqa
    return kernel
