"""Saved text files (C26) and printed locations (C27)."""


def run(ctx):
    big = ctx.thorough
    ctx.model_check("TextMC", "TextBigMC" if big else None, workers=8)
    n = {"file": 20000 if big else 2500, "object": 20000 if big else 2500, "iso": 80000 if big else 15000}
    for kind in ("file", "object") if ctx.prop == "C26" else ("iso",):
        cases = ctx.generate("TextGen", n[kind], 3, ctx.seed, env={"KIND": kind})
        traces = ctx.drive("text", {"seed": ctx.seed, "cases": cases})
        ctx.validate("TextTrace", traces, workers=8, what=kind)
