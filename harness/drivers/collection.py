"""Histories of a WindowCollection."""
import numpy as np

from common import Hang, crash_text, limit, main, pmap
from celest import units as u
from celest.coordinates import GroundLocation
from celest.coordinates.frames.attitude import Attitude
from celest.encounter.window_handling import ObservationWindow, VisibleTimeWindow, WindowCollection
from celest.units import Quantity

LOC = GroundLocation(10, 20, 0, u.deg, u.km)
ATT = Attitude(np.array([2450000.0, 2450000.5]), np.zeros(2), np.zeros(2), np.zeros(2), u.rad, LOC)


def window(kind, n):
    # times repeat and do not increase, so that only the order of adding tells
    t = 2450000.0 + (n * 7) % 5
    if kind == "vtw":
        return VisibleTimeWindow(t, t + 0.1, ATT)
    return ObservationWindow(Quantity(t, u.jd2000), Quantity(30 + n % 3, u.s), LOC, ATT)


def junk(kind):
    return {"none": None, "number": 3.5, "text": "window", "pair": (2450000.0, 2450000.1), "list": [window("vtw", 1)],
            "class": VisibleTimeWindow, "dict": {"rise_time": 1}, "collection": WindowCollection()}[kind]


def history(h):
    c = WindowCollection()
    made, ids, its, ev = [], {}, [], []

    def name(w):
        return ids.get(id(w), "unknown")

    for i, s in enumerate(h):
        e = dict(s)
        op = s["op"]
        try:
            with limit(10):
                if op == "add":
                    kind = s["kind"]
                    w = window(kind, i) if kind in ("vtw", "obs") else junk(kind)
                    made.append(w)
                    e["id"] = "w%d" % len(made)
                    ids[id(w)] = e["id"]
                    try:
                        c.add_window(w)
                        e["res"] = "ok"
                    except Exception as x:
                        e["res"] = type(x).__name__
                elif op == "many":
                    e["ids"], e["res"] = [], []
                    for k in range(s["n"]):
                        w = window(s["kind"], i + k)
                        made.append(w)
                        ids[id(w)] = "w%d" % len(made)
                        e["ids"].append(ids[id(w)])
                        try:
                            c.add_window(w)
                            e["res"].append("ok")
                        except Exception as x:
                            e["res"].append(type(x).__name__)
                elif op == "again":
                    have = len(c)
                    if s["i"] > have:
                        continue
                    try:
                        c.add_window(c[s["i"] - 1])
                        e["res"] = "ok"
                    except Exception as x:
                        e["res"] = type(x).__name__
                elif op == "len":
                    e["res"] = len(c)
                elif op == "bool":
                    e["res"] = bool(c)
                elif op == "list":
                    e["res"] = [name(w) for w in c]
                elif op == "pairs":
                    if len(c) > 100:
                        continue
                    e["res"] = [[name(a), name(b)] for a in c for b in c]
                elif op == "break":
                    e["res"] = []
                    for w in c:
                        if len(e["res"]) == s["n"]:
                            break
                        e["res"].append(name(w))
                elif op == "reversed":
                    e["res"] = [name(w) for w in reversed(c)]
                elif op == "in":
                    w = made[(s["w"] - 1) % len(made)]
                    e["id"], e["res"] = name(w), w in c
                elif op == "index":
                    try:
                        e["res"] = name(c[s["i"]])
                    except Exception as x:
                        e["res"] = type(x).__name__
                elif op == "slice":
                    lo, hi = [b["i"] if b["given"] else None for b in (s["lo"], s["hi"])]
                    e["res"] = [name(w) for w in c[lo:hi:s["st"]]]
                elif op == "iter":
                    its.append(iter(c))
                elif op == "next":
                    try:
                        e["res"] = name(next(its[s["it"] - 1]))
                    except StopIteration:
                        e["res"] = "stop"
        except (Exception, Hang) as x:
            ev.append({"op": "crash", "what": crash_text(x), "step": s})
            break
        ev.append(e)
    else:
        ev.append({"op": "list", "res": [name(w) for w in c]})
        ev.append({"op": "len", "res": len(c)})
    return {"ev": ev}


def run(sc):
    return pmap(history, [(h,) for h in sc["histories"]])


main(run)
