"""The evidence file of one run."""
import time


def build(ctx, a, result, known, clauses):
    return {
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "model_checking",
        "coverage": {
            "states": ctx.counts.get("states", 0),
            "transitions": ctx.counts.get("transitions", 0),
            "traces_validated_against_impl": ctx.counts.get("traces", 0),
            "events_validated": ctx.counts.get("events", 0),
            "behaviours_generated_from_spec": ctx.counts.get("generated_behaviours", 0),
            "stages": ctx.coverage,
            "result": result,
            "violated_clauses": clauses,
            "known_findings_seen": sorted(known),
            "samples": ctx.samples[:8],
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(clauses),
    }
