"""Compiling and loading native/crashshim.c."""
import ctypes
import os
import signal
import subprocess
import sys

from .base import VERIF, make_scratch


def shim():
    """The preloaded shim, or None."""
    path = os.environ.get("VERIF_SHIM")
    return ctypes.CDLL(path) if path else None


def with_shim(prop, extra=()):
    """Compile the shim and run this check again with it preloaded."""
    so = os.path.join(make_scratch(), "crashshim.so")
    env = dict(os.environ)
    try:
        subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "native", "crashshim.c"), "-ldl"],
                       check=True, capture_output=True)
        env.update(VERIF_SHIM=so, LD_PRELOAD=so)
    except (OSError, subprocess.CalledProcessError):
        env["VERIF_NO_SHIM"] = "1"
    p = subprocess.Popen([sys.executable, os.path.join(VERIF, "run.py"), prop, *extra], env=env, cwd=VERIF)
    signal.signal(signal.SIGTERM, lambda *a: p.terminate())
    return p.wait()
