"""Adaptive large neighbourhood search (C04, C05)."""


def run(ctx):
    big = ctx.thorough
    ctx.assumptions += ["costs are integers; weights are compared to 3e-6",
                        "probabilities are judged by counts, within six standard deviations"]
    ctx.model_check("AlnsMC", workers=8)
    beh = ctx.generate("AlnsGen", 20000 if big else 4000, 3, ctx.seed)
    sc = {"seed": ctx.seed, "searches": beh, "acceptance": [], "selection": []}
    if ctx.prop == "C05":
        N = 6000 if big else 1500
        # (start cost, current cost, increase, annealing coefficient, iteration, trials)
        for c0, cur, d, p, k in [
                (-100, -100, 5, [1, 1], 0), (-100, -100, 10, [1, 1], 0), (-100, -100, 15, [1, 1], 0),
                (100, 100, 5, [1, 1], 0), (100, 100, 10, [1, 1], 0),
                (-100, -100, 5, [1, 2], 1), (-100, -100, 5, [1, 2], 2), (100, 100, 5, [1, 2], 1),
                (-100, -200, 10, [1, 1], 1), (-100, -200, 20, [1, 1], 2), (-100, -200, 5, [1, 2], 1),
                (-50, -200, 5, [1, 1], 1), (100, -100, 5, [1, 1], 1), (100, 50, 5, [1, 1], 1),
                (-100, -100, 5, [1, 1], 3), (-100, -100, 5, [0, 1], 1), (-100, -100, 10, [0, 1], 0),
                (-10, -400, 2, [1, 1], 1), (-400, -500, 100, [1, 1], 1), (0, -10, 1, [1, 1], 1),
                (10, 0, 1, [1, 1], 1), (-100, -100, 0, [1, 1], 0), (-100, -100, -3, [0, 1], 1)]:
            sc["acceptance"].append([c0, cur, d, p, k, N])
        M = 6000 if big else 1500
        # (start cost, cost changes, goal, destroy operators, repair operators, decay, trials)
        sc["selection"] = [
            [-100, [-1, 0], -10 ** 6, 2, 2, 1, M],           # score 3 then proportional 3:6
            [-100, [0, 0], -10 ** 6, 2, 3, 1, M],            # score 1
            [-100, [90, 0], -10 ** 6, 2, 2, 1, M],           # score 0: never again
            [-100, [90, 90, 90], -10 ** 6, 2, 2, 1, M],      # all zero: uniform
            [-100, [90, 90, 90, 90, 90], -10 ** 6, 3, 1, 1, M],
            [-100, [-1, 0, 0], -10 ** 6, 4, 3, 0.5, M],
            [-100, [0, 0], -10 ** 6, 3, 4, 0, M],
        ]
    traces = ctx.drive("alns", sc)
    ctx.validate("AlnsTrace", traces, workers=8)
