"""tools/prof.py ID [tier]: CPU time per kind of case (development aid)."""
import sys, os, time, collections, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import build
build.use(build.build("plain"))
import engine
m = importlib.import_module("checks." + sys.argv[1].lower())
tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
tot, cnt, top = collections.Counter(), collections.Counter(), []
ctx = engine.Ctx(m.ID, [], tier, 1)
if hasattr(m, "setup_worker"): m.setup_worker(ctx)
for c in m.cases(tier, 1):
    if os.environ.get("PROF_EVERY") and cnt[c[0]] % int(os.environ["PROF_EVERY"]):
        cnt[c[0]] += 1
        continue
    t = time.time(); ctx.case = c
    try: m.check(c, ctx)
    except Exception as e: print("FAIL", c, repr(e)[:300])
    t = time.time() - t
    tot[c[0]] += t; cnt[c[0]] += 1; top.append((t, str(c)[:100]))
for k, v in tot.most_common(): print("%-10s %8.2fs %d cases" % (k, v, cnt[k]))
for t, c in sorted(top)[-8:]: print("   %.2f %s" % (t, c))
