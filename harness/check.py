#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property.

exit 0: held on everything explored; 1: VIOLATION lines; 2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import Broken, Ctx, MachineryError, VERIF, known_findings  # noqa: E402
from suites.registry import SUITE  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    sys.stdout.reconfigure(line_buffering=True)
    ctx = Ctx(a.prop, a.tier, a.seed)
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    broken = None
    try:
        suite = importlib.import_module("suites." + SUITE[a.prop])
        suite.run(ctx)
    except MachineryError as e:
        print("CHECK-ERROR property=%s %s" % (a.prop, e))
        return 2
    except Broken as e:
        broken = e
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s" % a.prop)
        return 2
    finally:
        ctx.close()

    known, new = {}, []
    findings = {(p, i): text for p, i, text in known_findings()}
    for clause, module, t, i, trace in ctx.violations:
        ev = trace["ev"][i - 1]
        ident = "%s:%s" % (clause, ev.get("id", "")) if ev.get("id") else clause
        if (a.prop, ident) in findings:
            known[ident] = findings[(a.prop, ident)]
        else:
            new.append((clause, ident, module, t, i, trace))
    for ident in sorted(known):
        print("KNOWN-FINDING: property=%s %s %s" % (a.prop, ident, known[ident]))

    reported = {}
    for clause, ident, module, t, i, trace in new:
        reported.setdefault(clause, []).append((ident, module, t, i, trace))
    rdir = os.path.join(evdir, "replay")
    for f in os.listdir(rdir):
        if f.startswith(a.prop + "."):
            os.unlink(os.path.join(rdir, f))
    for clause in sorted(reported):
        ident, module, t, i, trace = reported[clause][0]
        path = os.path.join("evidence", "replay", clause + ".json")
        with open(os.path.join(rdir, clause + ".json"), "w") as f:
            json.dump({"property": a.prop, "clause": clause, "spec": module, "trace": t, "event": i,
                       "seed": a.seed, "tier": a.tier,
                       "rejected_event": trace["ev"][i - 1],
                       "rerun": "VERIF_SEED=%d python3 harness/check.py %s --tier %s" % (a.seed, a.prop, a.tier),
                       "occurrences": len(reported[clause]),
                       "recorded": trace if len(json.dumps(trace)) < 2000000 else None}, f, indent=1)
        print("violated: %s (%d rejected events; first: trace %d event %d of %s)"
              % (clause, len(reported[clause]), t, i, module))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))

    if broken:
        # no property can hold of a call that does not return what it must
        clause = "%s.%s" % (a.prop, broken.what)
        path = os.path.join("evidence", "replay", clause + ".json")
        with open(os.path.join(rdir, clause + ".json"), "w") as f:
            json.dump({"property": a.prop, "clause": clause, "seed": a.seed, "tier": a.tier,
                       "rerun": "VERIF_SEED=%d python3 harness/check.py %s --tier %s" % (a.seed, a.prop, a.tier),
                       "error": broken.text}, f, indent=1)
        print("violated: %s (%s)" % (clause, broken.text.strip()[:3000]))
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        reported[clause] = []

    result = "violated" if reported else "held"
    write_evidence(evdir, ctx, a, result, known, sorted(reported))
    print("%s: property %s, tier %s, seed %d, %.1f s" % (result, a.prop, a.tier, a.seed, time.time() - ctx.t0))
    return 1 if reported else 0


def write_evidence(evdir, ctx, a, result, known, clauses):
    from evidence import build
    with open(os.path.join(evdir, a.prop + ".json"), "w") as f:
        json.dump(build(ctx, a, result, known, clauses), f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
