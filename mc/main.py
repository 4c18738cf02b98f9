"""check <ID> [--replay FILE] : decide one property (see ../DESIGN.md)."""
import importlib
import json
import os
import sys
import time

for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:] = [HERE] + [p for p in sys.path if os.path.abspath(p or ".") != HERE]
sys.dont_write_bytecode = True

import build     # noqa: E402


def main():
    t0 = time.time()
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        spec = importlib.util.find_spec("checks." + prop.lower())
        with open(spec.origin) as f:
            src = f.read()
        variant = "plain"
        for line in src.splitlines():
            if line.startswith("VARIANT ="):
                variant = eval(line.split("=", 1)[1])
        path = build.build(variant)
    except build.BuildError as e:
        print("ERROR: /repo does not build: %s" % e)
        return 2
    t_build = time.time() - t0
    if variant in ("asan", "fault") and "libasan" not in os.environ.get("LD_PRELOAD", ""):
        import subprocess
        lib = subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip()
        ub = subprocess.check_output(["gcc", "-print-file-name=libubsan.so"], text=True).strip()
        env = dict(os.environ, LD_PRELOAD=lib + ":" + ub, PYTHONMALLOC="malloc",
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:"
                                "disable_coredump=1:redzone=256",
                   UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1")
        os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)
    if variant in ("tsan", "fault"):
        import memhook
        memhook.load("sched" if variant == "tsan" else "fault")       # provides the symbols the instrumented build needs
    build.use(path)
    import engine
    mod = importlib.import_module("checks." + prop.lower())
    known = engine.load_known(prop)
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        ctx = engine.Ctx(prop, known, rec.get("tier", tier), rec.get("seed", seed))
        ctx.case = rec["case"]
        try:
            mod.check(rec["case"], ctx)
        except Exception as e:
            import traceback
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            print(getattr(e, "msg", e), json.dumps(getattr(e, "detail", {}))[:2000])
            return 1
        print("replayed without a violation")
        return 0
    # through JSON, so that a replayed case is the case that ran
    cases = json.loads(json.dumps(list(mod.cases(tier, seed))))
    t1 = time.time()
    tot, viols = engine.run(mod, cases, tier, seed, known)
    wall = time.time() - t0
    step = max(1, len(cases) // 5)
    cov = dict(states=tot["states"], transitions=tot["transitions"],
               traces_validated_against_impl=tot["traces"],
               cases=tot["cases"], cases_total=len(cases), distinct_outcomes_sum_over_workers=tot["outcomes"],
               worst_error_over_tolerance=round(tot["maxerr"], 6),
               bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
               build_s=round(t_build, 1), explore_s=round(time.time() - t1, 1),
               exhaustive=not viols and tot["cases"] == len(cases),
               samples=cases[::step][:6])
    cov.update(tot["extra"])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for i, n in sorted(tot["known"].items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[i]["what"]))
    print("%s %s: cases=%d/%d states=%d transitions=%d compared=%d outcomes=%d worst=%.3g build=%.1fs wall=%.1fs %s"
          % (prop, tier, tot["cases"], len(cases), tot["states"], tot["transitions"], tot["traces"],
             tot["outcomes"], tot["maxerr"], t_build, wall, tot["extra"] or ""))
    if viols:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for n, v in enumerate(viols[:3]):
            p = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, n))
            with open(p, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, msg=v["msg"], case=v["case"],
                               detail=v["detail"],
                               how="cd /verif && ./check %s --replay %s" % (prop, p)), f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("   %s case=%s detail=%s" % (v["msg"], json.dumps(v["case"])[:600],
                                               json.dumps(v["detail"], default=repr)[:1500]))
        return 1
    if tot["cases"] != len(cases):
        print("ERROR: only %d of %d cases ran" % (tot["cases"], len(cases)))
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
