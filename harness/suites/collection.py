"""Window collections (C11)."""


def run(ctx):
    big = ctx.thorough
    ctx.model_check("CollectionMC", "CollectionBigMC" if big else None, workers=8)
    hist = ctx.enumerate("CollectionGen", "CollectionShort")
    hist += ctx.generate("CollectionGen", 60000 if big else 4000, 22, ctx.seed)
    traces = ctx.drive("collection", {"histories": hist})
    ctx.validate("CollectionTrace", traces, workers=8)
