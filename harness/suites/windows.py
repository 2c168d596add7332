"""Visible time windows (C10)."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["the Sun comes from a stand-in for the planetary ephemeris, whose file is not in the repository",
                        "elevations stay 0.0002 degrees away from the threshold and from the horizon"]
    pats = ctx.enumerate("WindowsMC", "WindowsBigMC" if big else None, workers=4)
    ctx.coverage.append("TLC, exhaustive: the station of Windows.tla logs exactly the maximal runs for every visibility,"
                        " lighting and mode pattern of up to %d samples" % (8 if big else 6))
    pats += ctx.generate("WindowsGen", 15000 if big else 1500, 3, ctx.seed)
    traces = ctx.drive("windows", {"seed": ctx.seed, "patterns": pats})
    ctx.validate("WindowsTrace", traces, workers=8)
