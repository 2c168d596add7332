"""Astronomical quantities (C28)."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["instants within 365250 days (1000 years) of J2000 on multiples of 1/65536 day;"
                        " the obliquity and the precession angles also over 10000 years either side of it",
                        "the published series (Meeus, WGS84) as cited by the documentation"]
    ctx.model_check("FixedPointMC", "FixedPointBigMC" if big else None, workers=8)
    ctx.model_check("SeriesMC", "SeriesBigMC" if big else None, workers=8)
    lists = ctx.generate("SeriesGen", 80000 if big else 6000, 3, ctx.seed)
    traces = ctx.drive("series", {"seed": ctx.seed, "lists": lists})
    ctx.validate("SeriesTrace", traces, workers=8)
