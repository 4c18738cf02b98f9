"""Compiles and loads memhook.c; bytes currently allocated according to AddressSanitizer."""
import ctypes
import fcntl
import hashlib
import importlib.util
import os
import subprocess
import sys
import sysconfig

import numpy as np

import build

_loaded = {}
HERE = os.path.dirname(os.path.abspath(__file__))


def load(name="memhook"):
    """The extension module compiled from <name>.c; its symbols are visible to the modules loaded later."""
    if name in _loaded:
        return _loaded[name]
    src = os.path.join(HERE, name + ".c")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read() + np.__version__.encode()).hexdigest()[:12]
    out = os.path.join(build.BUILD, "%s-%s.so" % (name, h))
    os.makedirs(build.BUILD, exist_ok=True)
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
            subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-w", "-I" + sysconfig.get_paths()["include"],
                                   "-I" + np.get_include(), src, "-o", out + ".tmp"], env=env)
            os.rename(out + ".tmp", out)
    spec = importlib.util.spec_from_file_location(name, out)
    flags = sys.getdlopenflags()
    sys.setdlopenflags(flags | os.RTLD_GLOBAL | os.RTLD_NOW)
    try:
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        sys.setdlopenflags(flags)
    _loaded[name] = m
    return m


def allocated():
    f = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    f.restype = ctypes.c_size_t
    return f()
