"""Solar (C17) and sidereal (C18) clocks."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["instants within 365250 days (1000 years) of J2000, on multiples of 1/65536 day",
                        "the equation of time and of the equinoxes follow the documented series (Meeus),"
                        " to 0.01 s and 0.001 s"]
    ctx.model_check("FixedPointMC", "FixedPointBigMC" if big else None, workers=8)
    ctx.model_check("ClocksMC", "ClocksBigMC" if big else None, workers=8)
    lists = ctx.generate("ClocksGen", 60000 if big else 4000, 3, ctx.seed)
    traces = ctx.drive("clocks", {"seed": ctx.seed, "lists": lists})
    ctx.validate("ClocksTrace", traces, workers=8)
