"""Printed units, quantities, locations and windows (C29)."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["powers are multiples of a quarter; the driver splits a printed unit into words"]
    ctx.model_check("DisplayMC", workers=4)
    cases = ctx.generate("DisplayGen", 100000 if big else 10000, 3, ctx.seed)
    traces = ctx.drive("display", {"seed": ctx.seed, "cases": cases})
    ctx.validate("DisplayTrace", traces, workers=8)
