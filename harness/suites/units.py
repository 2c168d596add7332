"""Units and quantities (C12-C15)."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["sizes of units are compared through logarithms to about 1e-5, predefined sizes to 1e-10",
                        "quantities denoting equal amounts in different units may compare either way,"
                        " as their float conversion rounds; the comparison must still be consistent"]
    if ctx.prop == "C15":
        ctx.model_check("HeapMC", workers=4)
        ctx.model_check("HeapMC", "HeapShareMC", workers=4)
        hist = ctx.generate("HeapGen", 4000 if big else 500, 26, ctx.seed)
        traces = ctx.drive("heap", {"seed": ctx.seed, "histories": hist})
        ctx.validate("HeapTrace", traces, workers=8, what="library operations")
    ctx.model_check("UnitsMC", workers=8)
    rand = ctx.generate("UnitsGen", 30000 if big else 4000, 3, ctx.seed)
    cases = ctx.enumerate("UnitsEnum")
    traces = ctx.drive("units", {"seed": ctx.seed, "random": rand, "cases": cases})
    ctx.validate("UnitsTrace", traces, workers=8)
