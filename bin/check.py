#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree.
   check.py setup: build everything.      check.py replay FILE: re-run a recorded violation."""
import json, os, shutil, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gsv
from gsv import Ctx, ToolError, conform, expect, mc, replay_hist, run_all
import plans

def main():
    prop = sys.argv[1]
    if prop == "setup":
        gsv.build()
        print("built")
        return 0
    if prop == "replay":
        return plans.replay(sys.argv[2])
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    gsv.build()
    tb = time.time() - t0
    cx = Ctx(prop, tier, seed)
    try:
        jobs = plans.PLANS[prop](cx)
        res, errs = run_all(jobs, 8)
        report(prop, tier, seed, res, errs, t0, tb, sorted(cx.findings))
        hits = [r for r in res if r.violation]
        for k in gsv.known(prop):
            if k["site"] in cx.findings:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, k["site"], k["what"]))
        if hits:
            os.makedirs(os.path.join(gsv.VERIF, "replays"), exist_ok=True)
            for i, r in enumerate(hits):
                p = os.path.join(gsv.VERIF, "replays", "%s-%d-%d.json" % (prop, seed, i))
                if r.trace:
                    tp = p[:-5] + ".ndjson"
                    shutil.copy(r.trace, tp)
                    r.replay["trace"] = tp
                with open(p, "w") as f:
                    json.dump(r.replay, f, indent=1)
                print("  %s: %s" % (r.name, r.violation[:600]))
                if i == 0 or r.name != hits[i - 1].name:
                    print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        if errs:
            for e in errs:
                print("ERROR", e)
            return 2
        print("OK %s %s: %d events in %d traces validated, %d specification states, %.0f s (build %.0f s)" % (
            prop, tier, sum(r.events for r in res), sum(r.traces for r in res), sum(r.states for r in res), time.time() - t0, tb))
        return 0
    finally:
        cx.done()


def report(prop, tier, seed, res, errs, t0, tb, findings):
    parts = []
    for r in res:
        d = {"name": r.name, "events": r.events, "traces": r.traces, "states": r.states, "transitions": r.transitions,
             "seconds": getattr(r, "secs", None)}
        if r.stats:
            d["counts"] = r.stats
        if r.violation:
            d["violation"] = r.violation[:300]
        parts.append(d)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r.states for r in res),
            "transitions": sum(r.transitions for r in res),
            "traces_validated_against_impl": sum(r.traces for r in res),
            "events_validated_against_impl": sum(r.events for r in res),
            "model_checking_runs": [p for p in parts if not p["events"]],
            "conformance_runs": [p for p in parts if p["events"]],
            "samples": [s for r in res for s in r.samples][:12],
            "known_findings_met": findings,
            "errors": [str(e)[:300] for e in errs],
        },
        "assumptions": plans.ASSUME,
        "wall_s": round(time.time() - t0, 1),
        "violations": sum(1 for r in res if r.violation),
    }
    d = os.path.join(gsv.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print("ERROR", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
