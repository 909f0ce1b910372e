#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decides one property
   check.py replay <file>                  executes and validates a recorded violation again
   check.py setup                          builds everything the checks need"""
import os, sys, json, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vlib, framework, checks


def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    if sys.argv[1] == "setup":
        vlib.ensure_java(); vlib.ensure_lib("asan")
        for d in checks.DRIVERS: vlib.ensure_driver(d)
        vlib.ensure_driver("training", "tsan")
        print("setup done"); return 0
    if sys.argv[1] == "replay":
        rec = json.load(open(sys.argv[2]))
        exe = vlib.ensure_driver(rec["driver"], *rec.get("built", ("asan", ())))
        env = dict(rec.get("env") or {}, **framework.data_env(rec.get("data")))
        t = vlib.run_driver(exe, [rec["script"]], procs=1, env=env)
        rej, _ = vlib.validate(rec["spec"], t, rec["cfg"], env=env)
        print(vlib.last_driver_log[:6000])
        for _, pos, info in rej: print("rejected at event %d: %s\n%s" % (pos, t[0][pos][:3000], info[:6000]))
        return 1 if rej else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = framework.Ctx(prop, tier, seed)
    try:
        checks.CHECKS[prop](ctx)
        rc = ctx.finish(checks.ASSUME.get(prop, ()))
    except vlib.CheckError as e:
        print("CHECK ERROR: %s" % e)
        if ctx.violations: return ctx.finish()
        return 3
    print("%s %s: %d traces (%d events) validated, %d states, %d violations, %.0fs" % (
        prop, tier, ctx.traces, ctx.events, ctx.states, len(ctx.violations), __import__("time").time() - ctx.t0))
    return rc


if __name__ == "__main__":
    try: sys.exit(main())
    except Exception:
        traceback.print_exc(); sys.exit(3)
