"""Which inputs are accepted (C25)."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["arrays of up to three dimensions and three samples; angles on quarter degrees, their"
                        " neighbouring numbers, NaN and infinities; a stand-in ephemeris"]
    cases = ctx.enumerate("ValidationEnum", "ValidationDeep" if big else None, workers=8)
    traces = ctx.drive("validation", {"seed": ctx.seed, "cases": cases})
    ctx.validate("ValidationTrace", traces, workers=8)
