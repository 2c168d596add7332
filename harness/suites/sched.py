"""Scheduling container, operators and Scheduler (C01-C03, C06-C09)."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += [
        "times of the replayed instances are multiples of a day / 2^14, 2^10, 2^4 or a day, which floats hold exactly",
        "an exact tie with a bound (start = rise, end = set, end = deadline) may be decided either way",
    ]
    ctx.model_check("SchedMC", workers=8)
    n = 6000 if big else 1200
    beh = ctx.generate("SchedGen", n, 20, ctx.seed)
    sc = {"seed": ctx.seed, "behaviours": beh,
          "reach": [b for b in beh if len(b["S"]) <= 5][:60 if big else 12] + [b for b in beh if len(b["S"]) > 9][:20 if big else 5], "reach_runs": 250,
          "scheduler_runs": 0}
    runs = 0
    if ctx.prop in ("C01", "C02", "C03", "C06", "C09") or big:
        runs = 60 if not big else 500
    if ctx.prop == "C03":
        runs = 90 if not big else 700
        sc["behaviours"] = beh[:100]
    sc["scheduler_runs"] = runs
    traces = ctx.drive("sched", sc)
    ctx.validate("SchedTrace", traces, workers=8)
