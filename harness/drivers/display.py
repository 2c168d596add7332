"""Printed units, quantities, locations, windows and collections."""
import math
import re

import numpy as np

from common import Hang, crash_text, limit, main, pmap, rnd
from celest import units as u
from celest.coordinates import GroundLocation
from celest.coordinates.frames.attitude import Attitude
from celest.encounter.window_handling import ObservationWindow, VisibleTimeWindow, WindowCollection
from celest.units import Quantity
from celest.units.core import CompoundUnit

NAMES = ["hourangle", "jd2000", "arcsec", "arcmin", "inch", "deg", "rad", "min", "mm", "cm", "km", "ft", "yd", "mi",
         "hr", "dy", "m", "s"]
PER_DEGREE = {"deg": 1, "rad": math.pi / 180, "arcmin": 60, "hourangle": 1 / 15}
ASCII = {0x00b0: "^", 0x2032: "`", 0x2033: "|"}


def build(x):
    k = x["k"]
    if k == "u":
        return getattr(u, x["n"])
    a = build(x["a"])
    if k == "mul":
        return a * build(x["b"])
    if k == "div":
        return a / build(x["b"])
    if k == "pow":
        n, d = x["e"]
        return a ** (n if d == 1 else n / d)
    if k == "inv":
        return 1 / a
    if k == "num":
        return x["x"] * a
    if k == "mun":
        return a * x["x"]
    return a


NUM = r"(\d+\.?\d*(?:[eE][-+]?\d+)?)"


def words(s, names):
    """The words of a printed unit, as the specification takes them."""
    out = []
    for t in s.split(" "):
        m = re.fullmatch("(%s)%s?" % ("|".join(names), NUM), t)
        if t == "/":
            out.append({"k": "slash"})
        elif t == "1":
            out.append({"k": "one"})
        elif m:
            p = float(m.group(2)) * 4 if m.group(2) else 4
            ok = p == int(p) and not (m.group(2) and p == 4)
            out.append({"k": "power", "n": m.group(1), "e": int(p)} if ok else {"k": "other", "s": t})
        elif re.fullmatch(NUM, t) and float(t) > 0:
            out.append({"k": "number", "ln": rnd(math.log(float(t)), 2 ** 20)})
        else:
            out.append({"k": "other", "s": t})
    return out


def text(s):
    return s.translate(ASCII)


def number(n):
    x = n["m"] * 10.0 ** n["x"]
    return int(n["m"]) if n["kind"] == "int" else np.float64(x) if n["kind"] == "numpy" else x


def angle(n, unit):
    if n["kind"] == "int":
        return int(n["m"] * 1e-5 * PER_DEGREE[unit] * 0.999)
    x = n["m"] * 1e-5 * PER_DEGREE[unit] * 0.999999
    return np.float64(x) if n["kind"] == "numpy" else x


def place(p, ev):
    a, b, h = angle(p["lat"], p["angle"]), angle(p["lon"], p["angle"]), number(p["h"])
    where = GroundLocation(a, b, h, getattr(u, p["angle"]), getattr(u, p["length"]))
    ev.append({"op": "location", "repr": repr(where),
               "args": [str(a), str(b), str(h), 'Unit("%s")' % p["angle"], 'Unit("%s")' % p["length"]]})
    return where


def unit(c, ev):
    x = build(c["a"])
    s = str(x)
    m = re.match(NUM + " ", s)
    ev.append({"op": "unit", "a": c["a"], "s": s, "words": words(s, NAMES), "dim": words(x.dimension, "LTAD"),
               "exact": not isinstance(x, CompoundUnit) or bool((float(m.group(1)) if m else 1) == x.scale),
               "repr": repr(x), "class": type(x).__name__})
    n = number(c["q"])
    for data in (n, np.array([n, -n, 2 * n])):
        q = Quantity(data, x)
        ev.append({"op": "quantity", "s": str(q), "data": str(data), "unit": s,
                   "repr": repr(q), "rdata": repr(data), "runit": repr(x)})


def windows(c, ev):
    group = WindowCollection()
    parts = []
    for w in c["windows"]:
        a, b = number(w["start"]), number(w["stop"])
        where = place(w["place"], ev)
        deg = Quantity(np.array([1.5]), u.deg)
        att = Attitude(np.array([2451545.0]), np.array([1.5]), np.array([2.5]), np.array([3.5]), u.deg, where)
        if c["op"] == "visible":
            x = VisibleTimeWindow(a, b, att)
            ev.append({"op": "visible", "s": str(x), "repr": repr(x), "parts": ["%s jd2000" % a, "%s jd2000" % b, str(att)],
                       "args": [str(a), str(b), str(att)]})
        else:
            start, span = Quantity(a, u.jd2000), Quantity(b, getattr(u, w["unit"]))
            x = ObservationWindow(start, span, where, att)
            ev.append({"op": "observation", "s": text(str(x)), "repr": text(repr(x)),
                       "parts": ["%s jd2000" % a, "%s %s" % (b, w["unit"]), text(str(where)), str(att)]})
        group.add_window(x)
        parts.append(text(repr(x)))
    ev.append({"op": "collection", "s": text(str(group)), "repr": text(repr(group)), "parts": parts})


def batch(cases):
    out = []
    for c in cases:
        ev = []
        try:
            with limit(20):
                if c["op"] == "unit":
                    unit(c, ev)
                elif c["op"] == "location":
                    place(c["place"], ev)
                else:
                    windows(c, ev)
        except (Exception, Hang) as x:
            ev.append({"op": "crash", "what": crash_text(x), "case": c})
        out += ev
    return {"ev": out}


def run(sc):
    q = sc["cases"]
    return [t for t in pmap(batch, [(q[i:i + 25],) for i in range(0, len(q), 25)]) if t["ev"]]


main(run)
