"""Run celest.schedule.alns.ALNS on toy problems and record every call."""
import copy
import random
import zlib
from collections import Counter

import numpy as np

from common import Hang, crash_text, limit, main, pmap, rnd
from celest.schedule.alns import ALNS


class Sol:
    def __init__(self, tag, val):
        self.tag, self.val, self.log = tag, val, []


class Run:
    """One ALNS instance with recording operators."""

    def __init__(self, c0, goal, nD, nR, plan, kind="int", mod=0):
        self.ev, self.plan, self.pos, self.goal = [], plan, 0, goal
        self.kind, self.tags, self.mod, self.c0 = kind, 0, mod, c0
        self.init = Sol(0, self.num(c0))
        self.alns = ALNS(self.init)
        self.alns.add_cost_function(lambda s: s.val)
        self.alns.add_completeness_function(self.complete)
        self.alns.add_destroy_functions([self.destroy(i + 1) for i in range(nD)])
        self.alns.add_repair_functions([self.repair(j + 1) for j in range(nR)])

    def num(self, v):
        return float(v) if self.kind == "float" else int(v)

    def complete(self, s):
        """Complete: a cost at the goal, or one of a residue class (so that a
        complete solution need not be cheap)."""
        return s.val <= self.goal or (self.mod > 0 and (s.val - self.c0) % self.mod == 1)

    def sol(self, s):
        return {"tag": s.tag, "val": rnd(s.val), "cp": bool(self.complete(s)),
                "dg": zlib.crc32(repr(s.log).encode()) & 0x3fffffff}

    def weights(self, which):
        w = getattr(self.alns, which, None)
        return [] if w is None else [rnd(x, 1e6) for x in w]

    def destroy(self, i):
        def f(s, k):
            self.ev.append({"op": "destroy", "i": i, "k": int(k), "in": self.sol(s),
                            "wd": self.weights("destroy_weights"), "wr": self.weights("repair_weights")})
            s.log.append(("d", i))
            return s
        return f

    def repair(self, j):
        def f(s, k):
            e = {"op": "repair", "j": j, "k": int(k), "in": s.tag, "wr": self.weights("repair_weights")}
            self.tags += 1
            s.tag = self.tags
            s.val = s.val + self.num(self.plan[self.pos % len(self.plan)])
            self.pos += 1
            s.log.append(("r", j, self.tags))
            e["out"] = self.sol(s)
            self.ev.append(e)
        return f

    def solve(self, *a):
        ret = self.alns.solve(*a)
        self.ev.append({"op": "end", "ret": self.sol(ret), "init": self.sol(self.init),
                        "wd": self.weights("destroy_weights"), "wr": self.weights("repair_weights")})
        return ret


def search(b, seed):
    random.seed(seed)
    np.random.seed(seed & 0xffffffff)
    r = Run(b["c0"], b["goal"], b["nD"], b["nR"], b["plan"], b["kind"], b["mod"])
    P = {"max": b["max"], "p": b["p"], "l": b["l"], "kr": b["kr"], "ka": b["ka"], "c0": b["c0"],
         "nD": b["nD"], "nR": b["nR"], "init": r.sol(r.init)}
    try:
        with limit(20):
            for _ in range(2 if b["again"] else 1):
                r.ev.append({"op": "start"})
                r.solve(b["max"], b["p"][0] / b["p"][1], b["l"] / 4, b["kr"], b["ka"])
    except (Exception, Hang) as x:
        # a search that fails for a zero cost or temperature contradicts C05, any failure C04
        r.ev.append({"op": "crash", "props": ["C04", "C05"], "what": crash_text(x)})
    return {"P": P, "ev": r.ev}


def acceptance(c0, cur, d, p, k, N, seed):
    """How often a candidate worse by d is accepted in iteration k (from 0)."""
    random.seed(seed)
    np.random.seed(seed & 0xffffffff)
    plan = [0] * k
    if cur != c0:
        plan[0] = cur - c0
    plan = plan + [d, 0]
    cnt = 0
    try:
        with limit(120):
            for _ in range(N):
                r = Run(c0, -10 ** 6, 1, 1, plan)
                r.alns.solve(k + 2, p[0] / p[1], 0.5, 1, 1)
                last = [e for e in r.ev if e["op"] == "destroy"][-1]
                cnt += last["in"]["val"] == cur + d
    except (Exception, Hang) as x:
        return [{"op": "crash", "props": ["C05"], "what": crash_text(x)}]
    return [{"op": "freq", "c0": c0, "cur": cur, "d": d, "p": p, "k": k, "N": N, "cnt": cnt}]


def selection(c0, plan, goal, nD, nR, l, N, seed):
    """Which operators are picked, by the weights in force."""
    random.seed(seed)
    np.random.seed(seed & 0xffffffff)
    D, R = {}, {}
    try:
        with limit(120):
            for _ in range(N):
                r = Run(c0, goal, nD, nR, plan)
                r.alns.solve(len(plan), 1.0, l, 1, 1)
                for e in r.ev:
                    if e["op"] == "destroy":
                        D.setdefault(tuple(rnd(w * 6e-6 * 4) for w in e["wd"]), Counter())[e["i"]] += 1
                    else:
                        R.setdefault(tuple(rnd(w * 6e-6 * 4) for w in e["wr"]), Counter())[e["j"]] += 1
    except (Exception, Hang) as x:
        return [{"op": "crash", "props": ["C05"], "what": crash_text(x)}]
    ev = []
    for table, n in ((D, nD), (R, nR)):
        for w, c in sorted(table.items()):
            total = sum(c.values())
            if len(w) == n and total >= 60:
                w = list(w) if sum(w) else [1] * n      # all zero: uniform
                ev.append({"op": "select", "w": w, "N": total, "cnt": [c[i] for i in range(1, n + 1)]})
    return ev or [{"op": "crash", "props": ["C05"], "what": "no operator was ever picked"}]


def run(sc):
    base = sc["seed"] * 1000003
    traces = pmap(search, [(b, base + k) for k, b in enumerate(sc["searches"])])
    none = {"max": 0}
    for f, key in ((acceptance, "acceptance"), (selection, "selection")):
        for ev in pmap(f, [tuple(x) + (base + 7 * k,) for k, x in enumerate(sc[key])]):
            traces.append({"P": none, "ev": ev})
    return traces


main(run)
