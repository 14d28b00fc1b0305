#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current working tree."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib, checks


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = lib.Ctx(prop, tier, seed)
    try:
        checks.CHECKS[prop](ctx)
    except lib.ToolError as e:
        print("check of %s could not run: %s" % (prop, e), file=sys.stderr)
        return 2
    listed = lib.known_findings()
    bad = list(ctx.violations)
    for key, why in sorted(ctx.known.items()):
        if (prop, key) in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, listed[(prop, key)]))
        else:
            bad.append(("unlisted finding %s: %s" % (key, why), {"known": key, "why": why}))
    ctx.violations = bad
    ctx.finish()
    if bad:
        rp = os.path.join(ctx.work, "replay.json")
        json.dump([{"why": w, "detail": d} for w, d in bad], open(rp, "w"), indent=1)
        for w, _ in bad[:5]:
            print("  " + w)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    c = ctx
    print("OK property=%s states=%d transitions=%d replayed=%d wall=%.0fs" % (prop, c.states, c.transitions, c.replayed, __import__("time").time() - c.t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
