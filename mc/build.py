"""Private out-of-tree build of /repo's working tree.

Every check builds pywt itself, from the sources as they are now, into
/verif/.build/<variant>-<hash of the sources>; nothing of /repo/build is used and
nothing is written to /repo.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

REPO = os.environ.get("MC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("MC_BUILD", os.path.join(VERIF, ".build"))
PY = "/opt/venv/bin/python"

ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g"
VARIANTS = {
    "plain": dict(CC=os.path.join(VERIF, "tools", "cc")),
    "asan": dict(CC=os.path.join(VERIF, "tools", "cc-asan")),
    "tsan": dict(CC=os.path.join(VERIF, "tools", "cc-tsan")),
    "fault": dict(CC=os.path.join(VERIF, "tools", "cc-fault")),
}


class BuildError(Exception):
    pass


def source_files():
    out = []
    for top in ("pywt", "util"):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests"))
            out += [os.path.join(d, f) for f in sorted(files) if not f.endswith((".pyc", ".so"))]
    out += [os.path.join(REPO, f) for f in ("meson.build", "pyproject.toml")]
    return [f for f in out if os.path.isfile(f)]


def source_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in sorted(os.listdir(os.path.join(VERIF, "tools"))):
        if f.startswith("cc"):
            with open(os.path.join(VERIF, "tools", f), "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd, env, log):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.write("$ " + " ".join(cmd) + "\n" + p.stdout)
    log.flush()
    if p.returncode:
        raise BuildError("build step failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))


def build(variant="plain"):
    """Returns the directory to put first on sys.path."""
    os.makedirs(BUILD, exist_ok=True)
    dest = os.path.join(BUILD, "%s-%s" % (variant, source_hash()))
    ok = os.path.join(dest, "path")
    with open(os.path.join(BUILD, ".lock-" + variant), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ok):
            os.utime(dest)
            with open(ok) as f:
                return f.read()
        old = sorted((d for d in os.listdir(BUILD) if d.startswith(variant + "-")),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
        for d in old[:-3]:
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        if os.path.exists(dest):
            shutil.rmtree(dest)
        os.makedirs(dest)
        env = dict(os.environ, LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                   PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                   CCACHE_DISABLE="1", **VARIANTS[variant])
        for k in ("CFLAGS", "LDFLAGS", "LD_PRELOAD", "PYTHONPATH"):
            env.pop(k, None)
        bd, inst = os.path.join(dest, "b"), os.path.join(dest, "inst")
        with open(os.path.join(dest, "log"), "w") as log:
            _run(["meson", "setup", bd, REPO, "--buildtype=plain", "--prefix=" + inst,
                  "-Dpython.install_env=prefix"], env, log)
            _run(["ninja", "-C", bd], env, log)
            _run(["meson", "install", "-C", bd, "--no-rebuild"], env, log)
        found = [d for d, _, files in os.walk(inst)
                 if os.path.basename(d) == "pywt" and "__init__.py" in files]
        if len(found) != 1:
            raise BuildError("installed package not found: %r" % found)
        path = os.path.dirname(found[0])
        shutil.rmtree(os.path.join(path, "pywt", "tests"), ignore_errors=True)
        shutil.rmtree(bd, ignore_errors=True)
        with open(ok, "w") as f:
            f.write(path)
        return path


def use(path):
    """Make `import pywt` load the private build (not the editable install of /repo)."""
    sys.meta_path[:] = [m for m in sys.meta_path if "Meson" not in type(m).__name__
                        and "mesonpy" not in type(m).__module__.lower()]
    sys.path.insert(0, path)
    sys.dont_write_bytecode = True
    import pywt
    assert os.path.abspath(pywt.__file__).startswith(os.path.abspath(path)), pywt.__file__
    return pywt


if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ["plain"]:
        print(v, build(v), "%.1fs" % (time.time() - t))
