#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs in scratch copies (patch applies, builds, stable tests pass, demo).

--checks  also runs the check of the bug's property against the patched copy;  --all-checks runs every check.
"""
import concurrent.futures, glob, json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, env=None, cwd=None, timeout=1500):
    p = subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **(env or {})), cwd=cwd, timeout=timeout)
    return p.returncode, p.stdout


def tree(top, patch):
    repo = os.path.join(top, "repo")
    os.makedirs(repo)
    sh("git -C /repo archive HEAD | tar x -C %s && git -C %s init -q" % (repo, repo))
    if patch:
        rc, out = sh("git apply %s" % patch, cwd=repo)
        if rc:
            raise RuntimeError("patch does not apply: " + out)
    env = dict(MC_REPO=repo, MC_BUILD=os.path.join(top, "build"))
    rc, out = sh("%s -B %s/mc/build.py plain" % (PY, V), env)
    if rc:
        raise RuntimeError("build: " + out[-2000:])
    path = out.split()[1]
    return repo, path, env


def tests(top, repo, path):
    t = os.path.join(top, "t")
    shutil.copytree(path, t)
    shutil.copytree(os.path.join(repo, "pywt", "tests"), os.path.join(t, "pywt", "tests"), dirs_exist_ok=True)
    for f in ("pytest.ini", "pyproject.toml"):
        shutil.copy(os.path.join(repo, f), t)
    shutil.copytree(os.path.join(repo, "doc"), os.path.join(t, "doc"))
    stub = os.path.join(top, "site")
    os.makedirs(stub)
    with open(os.path.join(stub, "sitecustomize.py"), "w") as f:
        f.write("import sys\nsys.meta_path[:]=[m for m in sys.meta_path if 'esonpy' not in type(m).__module__ + type(m).__name__]\n")
    env = dict(PYTHONPATH=stub + ":" + t, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    T = PY + " -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 "
    for i, c in enumerate(("pywt/tests", "--doctest-modules --doctest-collect=api --ignore=pywt/tests pywt", "--doctest-modules pywt/data",
                           "--doctest-glob='*.rst' $(find doc/source -maxdepth 2 -name '*.rst' | LC_ALL=C sort)")):
        sh(T + "--junitxml=%s/r%d.xml %s" % (top, i, c), env, t)
    sh("%s /opt/vp/results.py %s/o.json 'junit:%s/r*.xml'" % (PY, top, top))
    return set(json.load(open(top + "/o.json"))["passed"]), env


def one(bid, flags):
    d = os.path.join(V, "seeded", bid)
    meta = json.load(open(d + "/meta.json"))
    top = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    res = dict(id=bid, property=meta["property"])
    try:
        repo, path, env = tree(top, d + "/patch.diff")
        if "--no-tests" not in flags:
            passed, tenv = tests(top, repo, path)
            res["broken_tests"] = sorted(STABLE - passed)[:5]
            dd = os.path.join(top, "d")
            shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            rc, out = sh("bash %s/demo.sh" % dd, dict(tenv), repo, 320)
            res["demo_patched"] = (rc, out[-300:])
            rc, out = sh("bash %s/demo.sh" % dd, dict(PYTHONPATH=os.environ["CLEAN"]), repo, 320)
            res["demo_clean"] = (rc, out[-300:] if rc else "")
        ids = [meta["property"]]
        if "--all-checks" in flags:
            ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
        if "--checks" in flags or "--all-checks" in flags:
            for i in ids:
                rc, out = sh("./check %s" % i, dict(env, VERIF_SEED="1", VERIF_TIER="quick"), V)
                res.setdefault("checks", {})[i] = (rc, [l for l in out.splitlines() if l][-1][:200]) if rc else 0
    except Exception as e:
        res["error"] = repr(e)[-1500:]
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return res


def clean_path():
    top = "/tmp/plant-clean"
    shutil.rmtree(top, ignore_errors=True)
    _, path, _ = tree(top, None)
    stub = os.path.join(top, "site")
    os.makedirs(stub)
    with open(os.path.join(stub, "sitecustomize.py"), "w") as f:
        f.write("import sys\nsys.meta_path[:]=[m for m in sys.meta_path if 'esonpy' not in type(m).__module__ + type(m).__name__]\n")
    return stub + ":" + path


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    os.environ["CLEAN"] = clean_path()
    with concurrent.futures.ThreadPoolExecutor(1 if "--all-checks" in flags else 2 if "--checks" in flags and "--no-tests" in flags else 7) as ex:
        for r in ex.map(lambda b: one(b, flags), ids):
            bad = r.get("error") or r.get("broken_tests") or (("demo_patched" in r) and (r["demo_patched"][0] == 0 or r["demo_clean"][0] != 0))
            if not bad and "checks" in r:
                cf = V + "/tools/caught.json"
                c = json.load(open(cf)) if os.path.exists(cf) else {}
                old = set(c.get(r["id"], [])) - set(r["checks"])
                c[r["id"]] = sorted(old | {i for i, v in r["checks"].items() if v})
                with open(cf, "w") as f:
                    json.dump(c, f, indent=0, sort_keys=True)
            print("BAD " if bad else "ok  ", json.dumps(r), flush=True)
    shutil.rmtree("/tmp/plant-clean", ignore_errors=True)
