"""Frames, directions and the ellipsoid (C19-C24)."""
SIZE = {"C19": 900, "C20": 1100, "C21": 1500, "C22": 1600, "C23": 1300, "C24": 900}


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["instants within 365250 days (1000 years) of J2000, positions within 45000 km, on a grid of 6 cm;"
                        " fixed-point arithmetic to 2^-28 of a turn"]
    ctx.model_check("GeometryMC", "GeometryBigMC" if big else None, workers=8)
    scenes = ctx.generate("FramesGen", SIZE[ctx.prop] * (15 if big else 1), 3, ctx.seed, env={"KIND": ctx.prop})
    traces = ctx.drive("frames", {"seed": ctx.seed, "prop": ctx.prop, "scenes": scenes})
    ctx.validate("FramesTrace", traces, workers=8)
