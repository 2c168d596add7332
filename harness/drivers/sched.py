"""Replay scheduling behaviours into celest.schedule and record what happens."""
import copy
import math
import random
import zlib

import numpy as np

from common import Hang, crash_text, limit, main, pmap, rnd
from sun import install
from celest import units as u
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.ground_location import GroundLocation
from celest.encounter.window_generator import Lighting, generate_vtws
from celest.encounter.window_handling import VisibleTimeWindow, WindowCollection
from celest.satellite import Satellite
from celest.schedule import insertion_operators as ins
from celest.schedule import removal_operators as rem
from celest.schedule import scheduling_utils as su
from celest.schedule.request_handler import RequestHandler, RequestIndices
from celest.schedule.scheduler import Scheduler
from celest.units import Quantity

EPOCH = 2460000.0
GRID = 1024                   # ticks per generated unit of time
NOLOOK = -2000000000
CORE = ["C01", "C02", "C06"]


def ticks(q):
    return rnd(float(q.to(u.jd2000)) - EPOCH, 1 / TICK)


def dur_ticks(q):
    return rnd(float(q.to(u.s)) / 86400, 1 / TICK)


def from_quarters(k):
    """Priorities are held in quarters; whole ones are given as integers."""
    return k // 4 if k % 4 == 0 else k / 4


def seconds(x, r):
    """A duration of x seconds in one unit or another."""
    unit, per = r.choice([(u.s, 1), (u.s, 1), (u.min, 60), (u.hr, 3600), (u.dy, 86400)])
    return Quantity(x / per, unit)


def degrees(x, r):
    """An angle of x degrees, now and then in radians."""
    return Quantity(x * math.pi / 180, u.rad) if r.random() < 0.2 else Quantity(x, u.deg)


def location(rid):
    """Locations tell requests apart; the scheduling core does not look inside."""
    return GroundLocation(float(rid), 0.0, 0.0, u.deg, u.km)


class Container:
    """A RequestHandler observed through its public methods."""

    def __init__(self, handler, S, rid, win):
        self.h, self.S, self.rid, self.win = handler, S, rid, win

    def with_handler(self, handler):
        return Container(handler, self.S, self.rid, self.win)

    def ids(self):
        return [self.rid(self.h[i]) for i in range(len(self.h))]

    def state(self):
        h, n = self.h, len(self.S)
        order, wl, sc, dg = [], [[]] * n, [[0, 0, 0]] * n, [0] * n
        for i in range(len(h)):
            row = h[i]
            r = self.rid(row)
            order.append(r)
            wins = h.vtw_list(i)
            wl[r - 1] = [self.win(r, wins[j]) for j in range(len(wins))]
            if h.is_request_scheduled(i):
                vi = h.vtw_index(i)
                st, du = h.start_time(i), h.scheduled_duration(i)
                w = wl[r - 1][vi] if isinstance(vi, (int, np.integer)) and 0 <= vi < len(wins) else -1
                sc[r - 1] = [w, ticks(st) if st is not None else -1, dur_ticks(du) if du is not None else -1]
            elif h.vtw_index(i) is not None or h.start_time(i) is not None or h.scheduled_duration(i) is not None:
                sc[r - 1] = [-2, 0, 0]      # not scheduled, yet details are left over
            look = h.look_angle(i)
            data = (ticks(h.deadline(i)), dur_ticks(h.duration(i)), h.priority(i), h.image_quality(i),
                    None if look is None else rnd(look.to(u.deg), 1e6),
                    rnd(row[RequestIndices.location].latitude.to(u.deg), 1e6),
                    sorted((ticks(v.rise_time), ticks(v.set_time)) for v in wins))
            dg[r - 1] = zlib.crc32(repr(data).encode()) & 0x3fffffff
        return {"ord": order, "wl": wl, "sc": sc, "cnt": int(h.number_of_scheduled_requests), "dg": dg}


def scale(k, a=0):
    """One generated unit of time is a day / 2^k, and 1024 ticks; one of angle 2^-a degrees."""
    global DAYS, SEC, TICK, DEGREE
    DEGREE = 2.0 ** -a
    DAYS, SEC, TICK = 2.0 ** -k, 86400 * 2.0 ** -k, 2.0 ** -k / GRID


scale(10)


def build(S):
    """The container for a generated instance, and the instance in ticks."""
    handler = RequestHandler()
    T = []
    how = random.Random(repr(S))
    for r, rq in enumerate(S, 1):
        vtws = WindowCollection()
        wins = []
        for w in rq["wins"]:
            ps = [[t * GRID, p * 1000000] for t, p in w["ps"]]
            if ps:
                # the attitude also covers samples before and after the window,
                # where the pitch takes other values
                step = 2
                t = [x[0] for x in w["ps"]]
                before = [t[0] - 3 * step, t[0] - 2 * step, t[0] - step]
                after = [t[-1] + step, t[-1] + 2 * step]
                tt = np.array(before + t + after) * DAYS + EPOCH
                pp = np.array([-88.0, -88.0, 70.0] + [x[1] * DEGREE for x in w["ps"]] + [88.0, -87.0])
            else:
                tt = np.linspace(w["rise"], w["set"], 3) * DAYS + EPOCH
                pp = np.array([3.0, 0.0, -3.0])
            pitch = degrees(pp, how)
            att = Attitude(tt, 0 * pp, pitch.data, 0 * pp, pitch.unit, location(r))
            vtws.add_window(VisibleTimeWindow(w["rise"] * DAYS + EPOCH, w["set"] * DAYS + EPOCH, att))
            wins.append({"rise": w["rise"] * GRID, "set": w["set"] * GRID, "ps": ps})
        look = None if rq["look"] == NOLOOK else degrees(rq["look"] * DEGREE, how)
        handler.add_request(location(r), Quantity(rq["dl"] * DAYS + EPOCH, u.jd2000),
                            seconds(rq["dur"] * SEC, how), from_quarters(rq["pri"]), rq["q"], look, vtws)
        T.append({"dl": rq["dl"] * GRID, "dur": rq["dur"] * GRID, "pri": rq["pri"], "q": rq["q"],
                  "look": NOLOOK if look is None else rq["look"] * 1000000, "wins": wins})

    rid = lambda row: int(round(float(row[RequestIndices.location].latitude.to(u.deg))))
    return Container(handler, T, rid, window_number(T)), T


def window_number(T):
    def win(r, vtw):
        key = (ticks(vtw.rise_time), ticks(vtw.set_time))
        for k, w in enumerate(T[r - 1]["wins"], 1):
            if (w["rise"], w["set"]) == key:
                return k
        return -1
    return win


REMOVALS = {"random": rem.random_removal, "priority": rem.priority_removal,
            "opportunity": rem.opportunity_removal, "conflict": rem.conflict_removal}
INSERTIONS = {"greedy": ins.greedy_insertion, "minopp": ins.minimum_opportunity_insertion,
              "minconf": ins.minimum_conflict_insertion}
SORTS = {"sort_dec_priority": "sort_by_decreasing_priority",
         "sort_dec_opportunity": "sort_by_decreasing_opportunity",
         "sort_inc_opportunity": "sort_by_increasing_opportunity",
         "sort_dec_conflict": "sort_by_decreasing_conflict_degree",
         "sort_wins_conflict": "sort_vtws_by_increasing_conflict_degree",
         "sort_wins_rise": "sort_vtws_by_increasing_rise_time"}


def iterations(c):
    """Complete, nested, interrupted and repeated iterations."""
    h, seen = c.h, []
    seen.append([c.rid(x) for x in h])
    for x in h:                                   # interrupted
        break
    seen.append([c.rid(x) for x in h])
    outer = []
    for x in h:
        outer.append(c.rid(x))
        if len(outer) <= 2:
            seen.append([c.rid(y) for y in h])    # nested
    seen.append(outer)
    a, b = iter(h), iter(h)                       # interleaved
    sa, sb = [], []
    for k in range(len(h)):
        sa.append(c.rid(next(a)))
        if k % 2 == 0:
            sb.append(c.rid(next(b)))
    sb += [c.rid(x) for x in b]
    seen += [sa, sb]
    return seen


def apply(c, o):
    """Apply one operation; returns the event without the state."""
    h, op = c.h, o["op"]
    where = {c.rid(h[i]): i for i in range(len(h))}
    if op in REMOVALS:
        REMOVALS[op](h, o["k"])
        return {"op": op, "k": o["k"]}
    if op in INSERTIONS:
        INSERTIONS[op](h, o["k"])
        return {"op": op, "k": o["k"]}
    if op == "initialize":
        su.initialize_solution(h)
        return {"op": op, "k": len(h)}
    if op in SORTS:
        getattr(h, SORTS[op])()
        return {"op": op}
    if op == "schedule":
        wins = c.h.vtw_list(where[o["r"]])
        vi = [k for k in range(len(wins)) if c.win(o["r"], wins[k]) == o["w"]][0]
        h.schedule_request(where[o["r"]], vi, Quantity(o["st"] * DAYS + EPOCH, u.jd2000), seconds(o["du"] * SEC, random.Random(repr(o))))
        return {"op": op, "r": o["r"], "w": o["w"], "st": o["st"] * GRID, "du": o["du"] * GRID}
    if op == "unschedule":
        h.unschedule_request(where[o["r"]])
        return {"op": op, "r": o["r"]}
    if op == "unschedule_all":
        h.unschedule_all_requests()
        return {"op": op}
    if op == "evaluate":
        return {"op": op, "cost": rnd(su.cost(h), 4), "complete": bool(su.is_complete(h))}
    if op == "iterate":
        return {"op": op, "seen": iterations(c)}
    raise ValueError(op)


BLAME = {"evaluate": ["C09"], "iterate": ["C06"], "schedule": ["C06"], "unschedule": ["C06"], "unschedule_all": ["C06"]}


def blame(op):
    if op in REMOVALS:
        return ["C07"]
    if op in INSERTIONS or op == "initialize":
        return ["C08"]
    return BLAME.get(op, ["C06"])


def replay(b, seed):
    """One generated behaviour."""
    random.seed(seed)
    np.random.seed(seed)
    scale(b["u"], (0, 0, 3, 9)[seed % 4])
    c, T = build(b["S"])
    ev = [{"op": "init", "post": c.state()}]
    for o in b["ops"] + [{"op": "evaluate"}, {"op": "iterate"}]:
        try:
            with limit(20):
                e = apply(c, o)
                e["post"] = c.state()
        except (Exception, Hang) as x:
            ev.append({"op": "crash", "props": blame(o["op"]), "at": o["op"], "what": crash_text(x), "post": ev[-1]["post"]})
            break
        ev.append(e)
    return {"S": T, "free": b["free"], "ev": ev}


def reach(b, seed, runs):
    """Which requests random removal unschedules over many runs."""
    random.seed(seed)
    np.random.seed(seed)
    scale(b["u"], (0, 0, 3, 9)[seed % 4])
    c, T = build(b["S"])
    ev = [{"op": "init", "post": c.state()}]
    try:
        with limit(60):
            su.initialize_solution(c.h)
            ev.append({"op": "initialize", "k": len(c.h), "post": c.state()})
            n = sum(1 for x in ev[-1]["post"]["sc"] if x[0])
            hit = set()
            for k in range(1, max(2, n)) if n <= 5 else (1,):
                mine = set()
                for _ in range(runs if n <= 5 else 2 * runs):
                    d = c.with_handler(copy.deepcopy(c.h))
                    rem.random_removal(d.h, k)
                    post = d.state()
                    mine |= {r for r, x in enumerate(post["sc"], 1) if x[0] == 0 and ev[1]["post"]["sc"][r - 1][0]}
                hit = mine if k == 1 else hit & mine
            if n:
                ev.append({"op": "reach", "hit": sorted(hit), "post": ev[-1]["post"]})
    except (Exception, Hang) as x:
        ev.append({"op": "crash", "props": ["C07"], "at": "reach", "what": crash_text(x), "post": ev[-1]["post"]})
    return {"S": T, "free": False, "ev": ev}


# --------------------------------------------------------------- Scheduler runs
MU = 398600.4418


def orbit(rng, n, step, frame):
    """A circular orbit sampled every step ticks, in km."""
    a = 6371 + rng.choice([500, 800, 1500, 4000])
    inc, raan, ph = math.radians(rng.uniform(0, 120)), rng.uniform(0, 6.28), rng.uniform(0, 6.28)
    w = math.sqrt(MU / a ** 3)
    t = np.arange(n) * step * TICK
    th = ph + w * t * 86400
    c, s = np.cos(th), np.sin(th)
    ci, si, cr, sr = math.cos(inc), math.sin(inc), math.cos(raan), math.sin(raan)
    pos = a * np.array([cr * c - sr * s * ci, sr * c + cr * s * ci, s * si])
    vel = a * w * np.array([-cr * s - sr * c * ci, -sr * s + cr * c * ci, c * si])
    jd = EPOCH + t
    return frame(jd, *pos, u.km), frame(jd, *vel, u.km / u.s), jd


def near(values, times, st):
    """Roll, pitch and yaw (micro degrees) of the samples nearest to a time."""
    d = np.abs(times - st)
    idx = np.where(d <= d.min() + 1e-9)[0]
    return [[rnd(v[i], 1e6) for v in values] for i in idx]


def scheduler_run(rng, seed):
    scale(10)
    random.seed(seed)
    np.random.seed(seed)
    ev, S, reqs, current = [], [], [], {}
    step = rng.choice([512, 1024])
    frame = rng.choice([GCRS, ITRS])
    pos, vel, jd = orbit(rng, rng.choice([120, 240]), step, frame)
    sat = Satellite(pos, vel)
    threshold = rng.choice([0, 5, 10, 20])
    spot = rng.randrange(len(jd))
    crowded = rng.random() < 0.7

    def at(loc):
        """The requests for a location."""
        return [k for k, q in enumerate(reqs, 1)
                if q["loc"] is loc or q["key"] == (float(loc.latitude.data), float(loc.longitude.data))]

    def rid(row):
        ks = at(row[RequestIndices.location])
        if len(ks) > 1:
            look = row[RequestIndices.look_angle]
            told = (ticks(row[RequestIndices.deadline]), dur_ticks(row[RequestIndices.duration]), rnd(row[RequestIndices.priority], 4),
                    NOLOOK if look is None else rnd(look.to(u.deg), 1e6))
            ks = [k for k in ks if reqs[k - 1]["told"] == told] or ks
        return ks[0] if ks else -1

    win = window_number(S)

    def state(handler):
        return Container(handler, S, rid, win).state()

    def record(e, handler):
        e["post"] = state(handler)
        ev.append(e)

    def wrapped(name, f):
        def g(handler, k):
            before = state(handler)
            if not ev or ev[-1]["post"] != before:
                ev.append({"op": "copy", "post": before})
            current["last"] = handler
            res = f(handler, k)
            record({"op": name, "k": k}, handler)
            return res
        return g

    class Recorded(Scheduler):
        def add_destroy_functions(self, fs):
            names = {f: n for n, f in REMOVALS.items()}
            return super().add_destroy_functions([wrapped(names[f], f) if f in names else f for f in fs])

        def add_repair_functions(self, fs):
            names = {f: n for n, f in INSERTIONS.items()}
            return super().add_repair_functions([wrapped(names[f], f) if f in names else f for f in fs])

        def solve(self, *a, **k):
            ev.append({"op": "copy", "post": state(self.request_handler)})
            res = super().solve(*a, **k)
            ev.append({"op": "copy", "post": state(res)})
            record({"op": "evaluate", "cost": rnd(su.cost(res), 4), "complete": bool(su.is_complete(res))}, res)
            current["result"] = res
            return res

    toward = np.array([rng.gauss(0, 1) for _ in range(3)])
    install(jd, np.tile(1.496e8 * toward / np.linalg.norm(toward), (len(jd), 1)))
    sch = Recorded(sat, threshold)
    x = Coordinate_ground(sat)

    def add():
        k = len(reqs) + 1
        i = min(len(jd) - 1, max(0, spot + rng.randrange(-3, 4))) if rng.random() < 0.8 else rng.randrange(len(jd))
        la = max(-85.0, min(85.0, float(x[0][i]) + rng.uniform(-4, 4))) + k * 1e-5
        lo = float(x[1][i]) + rng.uniform(-4, 4)
        lo = (lo + 180) % 360 - 180 + k * 1e-5 if abs(lo) > 179 else lo
        loc = GroundLocation(la, lo, rng.choice([0.0, 1.0]), u.deg, u.km)
        args = {"dl": rng.choice([EPOCH + 1000 / 1024] * 3 + [float(jd[rng.randrange(len(jd))])]),
                "dur": rng.choice([1, 2, 3, 4] if crowded else [1, 1, 2, 1 / 256, 3 / 256, 7 / 256]) * SEC / 2, "pri": from_quarters(rng.choice([4 * rng.randrange(1, 11)] * 3 + [rng.randrange(1, 41)])), "q": rng.choice([1, 1, 2, 3, 5]),
                "look": rng.choice([None, None, 0.0, round(rng.uniform(-40, 40), 3) + 0.0001234, round(rng.uniform(-40, 40), 3) + 0.0001234])}
        if reqs and rng.random() < 0.15:        # a place asked for again
            loc = rng.choice(reqs)["loc"]
            if rng.random() < 0.5:
                loc = GroundLocation(loc.latitude.data, loc.longitude.data, loc.height.data, u.deg, u.km)
        light = rng.choice([Lighting.ANYTIME] * 5 + [Lighting.DAYTIME, Lighting.DAYTIME, Lighting.NIGHTTIME, None])
        told = (rnd(args["dl"] - EPOCH, 1 / TICK), rnd(args["dur"] / 86400, 1 / TICK), rnd(args["pri"], 4),
                NOLOOK if args["look"] is None else rnd(args["look"], 1e6))
        if any(reqs[j - 1]["told"] == told for j in at(loc)):
            return
        direct = generate_vtws(sat, loc, threshold, Lighting.DAYTIME if light is None else light)
        reqs.append({"loc": loc, "key": (float(loc.latitude.data), float(loc.longitude.data)), "told": told})
        if light is None and args["look"] is None:
            sch.add_request(loc, args["dl"], args["dur"], args["pri"], args["q"])
        elif light is None:
            sch.add_request(loc, args["dl"], args["dur"], args["pri"], args["q"], look_ang=args["look"])
        elif rng.random() < 0.5:
            sch.add_request(location=loc, deadline=args["dl"], duration=args["dur"], priority=args["pri"], quality=args["q"],
                            look_ang=args["look"], lighting=light)
        else:
            sch.add_request(loc, args["dl"], args["dur"], args["pri"], args["q"], args["look"], light)
        h = sch.request_handler
        i = len(h) - 1
        look = h.look_angle(i)
        vt = h.vtw_list(i)
        att = sat.attitude(loc)
        T, P = att.time.to(u.jd2000), att.pitch.to(u.deg)
        R, Y = att.roll.to(u.deg), att.yaw.to(u.deg)
        reqs[-1]["att"] = (T, R, P, Y)
        got = {"loc": rid(h[i]), "dl": ticks(h.deadline(i)), "dur": dur_ticks(h.duration(i)), "pri": rnd(h.priority(i), 4),
               "q": h.image_quality(i), "look": NOLOOK if look is None else rnd(look.to(u.deg), 1e6),
               "wins": [[ticks(v.rise_time), ticks(v.set_time)] for v in vt], "n": len(h)}
        want = {"loc": k, "dl": rnd(args["dl"] - EPOCH, 1 / TICK), "dur": rnd(args["dur"] / 86400, 1 / TICK),
                "pri": rnd(args["pri"], 4), "q": args["q"], "look": NOLOOK if args["look"] is None else rnd(args["look"], 1e6),
                "wins": [[ticks(v.rise_time), ticks(v.set_time)] for v in direct], "n": k}
        S.append({"dl": want["dl"], "dur": want["dur"], "pri": want["pri"], "q": want["q"], "look": want["look"],
                  "wins": [{"rise": a, "set": b,
                            "ps": [[rnd(t - EPOCH, 1 / TICK), rnd(p, 1e6)] for t, p in zip(T, P)
                                   if a <= rnd(t - EPOCH, 1 / TICK) <= b]} for a, b in want["wins"]]})
        ev.append({"op": "add", "got": got, "want": want})

    try:
        with limit(100):
            for rounds in range(rng.choice([1, 1, 2])):
                for _ in range(rng.randrange(4, 9) if rounds == 0 else rng.randrange(0, 3)):
                    add()
                out = sch.generate(rng.randrange(0, 9), rng.choice([0.8, 0.99, 0.0, 1.0]), rng.choice([0.0, 0.5, 1.0]))
                post = state(current["result"])
                rows, nears = [], []
                for w in out:
                    a = w.attitude
                    st = float(w.start_time.to(u.jd2000))
                    ks = at(w.location)
                    r = ([k for k in ks if post["sc"][k - 1][1] == ticks(w.start_time)] + ks + [-1])[0]
                    rows.append({"r": r, "st": ticks(w.start_time), "du": dur_ticks(w.duration),
                                 "aloc": r if r in at(a.location) else -1,
                                 "att": [rnd(q.to(u.deg), 1e6) for q in (a.roll, a.pitch, a.yaw)]})
                    T, R, P, Y = reqs[r - 1]["att"]
                    nears.append(near((R, P, Y), T, st))
                ev.append({"op": "windows", "out": rows, "near": nears, "post": post})
    except (Exception, Hang) as x_:
        ev.append({"op": "crash", "props": ["C03"], "at": "scheduler", "what": crash_text(x_)})
    # requests added later are part of the instance throughout: pad the states
    last = None
    for e in ev:
        if "post" not in e:
            e["post"] = last or {"ord": [], "wl": [], "sc": [], "cnt": 0, "dg": []}
        last = e["post"]
    n = len(S)
    return split_rounds({"S": S, "free": False, "ev": ev}, n)


def split_rounds(T, n):
    """Histories of one instance each: a generation before further requests were
    added is a history of the smaller instance."""
    res, cur = [], []
    for e in T["ev"]:
        if e["op"] == "add" and any(x["op"] not in ("add",) for x in cur):
            res.append(cur)
            cur = [x for x in cur if x["op"] == "add"]
        cur.append(e)
    res.append(cur)
    out = []
    for ev in res:
        k = sum(1 for x in ev if x["op"] == "add")
        base = next((x["post"] for x in ev if x["op"] != "add" and len(x["post"]["sc"]) == k), None)
        if base is None:
            base = {"ord": [], "wl": [], "sc": [], "cnt": 0, "dg": []}
        ev = [dict(x, post=base) if len(x["post"]["sc"]) != k else x for x in ev]
        out.append({"S": T["S"][:k], "free": False, "ev": ev})
    return out


def Coordinate_ground(sat):
    """Roughly the points under the satellite, to place locations that see it."""
    p = sat.position
    x, y, z = (q.to(u.km) for q in (p.x, p.y, p.z))
    return np.degrees(np.arctan2(z, np.hypot(x, y))), np.degrees(np.arctan2(y, x))


def run(sc):
    base = sc["seed"] * 1000003
    traces = pmap(replay, [(b, base + k) for k, b in enumerate(sc["behaviours"])])
    traces += pmap(reach, [(b, base + k, sc["reach_runs"]) for k, b in enumerate(sc["reach"])])
    for t in pmap(scheduler_run, [(random.Random(sc["seed"] * 7919 + k), sc["seed"] * 31 + k)
                                  for k in range(sc["scheduler_runs"])]):
        traces += t
    return traces


main(run)
