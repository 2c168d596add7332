"""Files written by the text writer and by the library's objects; printed locations."""
import math
import os
import random
import shutil

import numpy as np

from common import Hang, crash_text, limit, main, pmap
from celest import units as u
from celest.coordinates import Coordinate, GroundLocation
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.encounter.window_handling import ObservationWindow, VisibleTimeWindow, WindowCollection
from celest.file_save import TextFileWriter
from celest.satellite import Satellite
from celest.units import Quantity

UNITS = {"km": u.km, "deg": u.deg, "m2": u.m ** 2, "kms": u.km / u.s}
FRAMES = {"GCRS": GCRS, "ITRS": ITRS, "LVLH": LVLH}
TEXT = ["Kyiv", "a b", "", "St. John's", "x", "long name of a place", "-1.5", "True"]


class Ascii(dict):
    def __missing__(self, k):
        return chr(k) if k < 128 else "?"


ASCII = Ascii({0x00b0: "^", 0x2032: "`", 0x2033: "|", ord("^"): "?", ord("`"): "?", ord("|"): "?"})


def fresh():
    """An empty directory to write in."""
    d = os.path.abspath("text%d" % os.getpid())
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, "sub"))
    os.chdir(d)
    return d


def made():
    return sorted(os.path.relpath(os.path.join(p, f), ".") for p, _, fs in os.walk(".") for f in fs)


def plain(s):
    """Non-ASCII symbols as the single characters the specification uses."""
    return s.translate(ASCII)


def lines(name):
    names = made()
    if len(names) != 1:
        return []
    with open(names[0], encoding="utf-8", newline="") as f:
        s = plain(f.read())
    q = s.split("\n")
    return q[:-1] if len(q) > 1 and q[-1] == "" else q


def entry(v, fmt):
    if isinstance(v, (bool, np.bool_, str)):
        return str(v)
    return fmt % v


def values(c):
    v, kind = c["values"], c["kind"]
    if kind == "int":
        return np.array([x // 1000 for x in v])
    if kind == "str":
        return np.array([TEXT[x % len(TEXT)] for x in v])
    if kind == "bool":
        return np.array([x % 2 == 0 for x in v])
    if kind == "float32":
        return np.array([x / 1000 for x in v], dtype=np.float32)
    if kind == "mixed":
        return np.array([TEXT[x % len(TEXT)] if x % 3 == 0 else x // 1000 if x % 3 == 1 else x / 1000 for x in v], dtype=object)
    return np.array([x / 1000 for x in v])


def file(c, ev):
    fresh()
    layers = []
    for s in c["steps"]:
        if s["act"] == "new":
            header, layers = s["header"], []
            w = TextFileWriter(c["name"], header) if header else TextFileWriter(c["name"])
        elif s["act"] == "add":
            data, cols = [], []
            for k in s["cols"]:
                a = values(k)
                unit = UNITS.get(k["unit"]) if k["kind"] not in ("str", "bool", "mixed") else None
                data.append([k["label"], a if unit is None else Quantity(a, unit)])
                cols.append({"label": k["label"], "unit": "" if unit is None else str(unit),
                             "entries": [entry(x, s["format"]) for x in a.tolist()]})
            w.add_layer(s["sub"] or None, [list(p) for p in s["params"]] or None, data or None, s["format"])
            layers.append({"sub": s["sub"], "params": s["params"], "cols": cols})
        else:
            if not header and not layers:
                continue
            w.save()
            ev.append({"op": "file", "header": header, "layers": list(layers), "name": c["name"],
                       "lines": lines(c["name"]), "made": made()})


def near(r, scale):
    k = r.random()
    return r.uniform(-scale, scale) if k < 0.8 else float(r.randint(-int(scale), int(scale))) if k < 0.95 else 0.0


def column(r, n, scale):
    return np.array([near(r, scale) for _ in range(n)])


def place(r):
    return GroundLocation(r.uniform(-90, 90), r.uniform(-180, 180), r.uniform(-1, 5), u.deg, u.km)


def angles(r, n, t):
    w = r.choice([u.deg, u.rad])
    return Attitude(t, column(r, n, 180), column(r, n, 90), column(r, n, 180), w, place(r)), w


def build(c):
    """The object, its unit and raw values per column, and its location."""
    r = random.Random(c["seed"])
    n, kind = c["size"], c["kind"]
    start = r.choice([7455.5, 0.0, -11545.25])
    t = np.array(sorted(start + r.uniform(0, 2) for _ in range(n)))
    days = t
    cols = {"Time": (u.jd2000, days)}
    if kind in FRAMES:
        w = r.choice([u.km, u.m, u.km / u.s])
        v = [column(r, n, 9000) for _ in range(3)]
        cols.update(zip("XYZ", [(w, x) for x in v]))
        return FRAMES[kind](t, *v, w), cols, ""
    if kind == "WGS84":
        w, h = r.choice([u.deg, u.rad]), r.choice([u.km, u.m])
        s = 1 if w is u.deg else math.pi / 180
        v = [column(r, n, 90) * s * 0.99, column(r, n, 180) * s * 0.99, column(r, n, 1000)]
        cols.update({"Latitude": (w, v[0]), "Longitude": (w, v[1]), "Height": (h, v[2])})
        return WGS84(t, *v, w, h), cols, ""
    if kind == "AzEl":
        w, p = r.choice([u.deg, u.rad]), place(r)
        v = [column(r, n, 360), column(r, n, 90)]
        cols.update({"Azimuth": (w, v[0]), "Elevation": (w, v[1])})
        return AzEl(t, *v, w, p), cols, plain(str(p))
    if kind == "Attitude":
        w, p = r.choice([u.deg, u.rad]), place(r)
        v = [column(r, n, 180), column(r, n, 90), column(r, n, 180)]
        cols.update(zip(("Roll", "Pitch", "Yaw"), [(w, x) for x in v]))
        return Attitude(t, *v, w, p), cols, plain(str(p))
    if kind == "Satellite":
        p = FRAMES[c["given"]](t, *[column(r, n, 9000) for _ in range(3)], r.choice([u.km, u.km, u.m]))
        v = FRAMES[r.choice(["GCRS", "ITRS"])](t, *[column(r, n, 8) for _ in range(3)], u.km / u.s) if c["vel"] else None
        for name in ("Itrs", "Gcrs"):
            for x, infix in ((p, " "), (v, " V")):
                if x is not None:
                    f = FRAMES[name.upper()]
                    y = x if isinstance(x, f) else Coordinate(x).convert_to(f)
                    for axis in "xyz":
                        q = getattr(y, axis)
                        cols[name + infix + axis.upper()] = (q.unit, np.array(q.data))
        return Satellite(p, v), cols, ""
    days = np.unique(days)
    n = len(days)
    w = WindowCollection()
    r.shuffle(days)      # a collection keeps the order of insertion
    if kind == "VisibleTimeWindow":
        ends = days + np.array([r.uniform(0.001, 0.01) for _ in range(n)])
        for i in range(n):
            w.add_window(VisibleTimeWindow(float(days[i]), float(ends[i]), angles(r, 2, t[:1].repeat(2))[0]))
        return w, {"Rise Time": (u.jd2000, days), "Set Time": (u.jd2000, ends)}, ""
    rows = [None] * n
    for i in range(n):
        a, unit = angles(r, 2, t[:1].repeat(2))
        seconds, du = r.choice([(30.0, u.s), (45.5, u.s), (90.0, u.min), (3.0, u.s)])
        d = Quantity(seconds / (60 if du is u.min else 1), du)
        p = place(r)
        k = 180 / math.pi if unit is u.rad else 1
        rows[i] = (seconds, plain(str(p)), *[float(getattr(a, x).data[0]) * k for x in ("roll", "pitch", "yaw")])
        w.add_window(ObservationWindow(Quantity(float(days[i]), u.jd2000), d, p, a))
    cols = {"Start Time": (u.jd2000, days)}
    for i, (name, unit) in enumerate([("Duration", u.s), ("Location", None), ("Roll", u.deg), ("Pitch", u.deg), ("Yaw", u.deg)]):
        x = [row[i] for row in rows]
        cols[name] = (unit, x if unit is None else np.array(x))
    return w, cols, ""


def agree(found, v):
    """The entry for a value: the one found, if it is a number in the format and nearly the value."""
    try:
        x = float(found)
        if "%.15f" % x == found and abs(x - v) <= 1e-9 * max(1, abs(v)):
            return found
    except ValueError:
        pass
    return "%.15f" % v


def table(q, width):
    """Rows of cells, to read the entries from."""
    under = [i for i, x in enumerate(q) if x and set(x) <= {"-", "\t"} and i > 1]
    rows = [[y.strip() for y in x.split("\t")] for x in q[under[0] + 1:]] if under else []
    return [x if len(x) == width else [""] * width for x in rows]


ORDER = {"Satellite": ["Time", "Itrs X", "Itrs Y", "Itrs Z", "Itrs VX", "Itrs VY", "Itrs VZ",
                       "Gcrs X", "Gcrs Y", "Gcrs Z", "Gcrs VX", "Gcrs VY", "Gcrs VZ"]}


def thing(c, ev):
    fresh()
    x, cols, where = build(c)
    x.save_text_file(c["name"])
    q = lines(c["name"])
    names = [k for k in ORDER.get(c["kind"], cols) if k in cols]
    rows = table(q, len(names))
    units, entries = {}, {}
    for i, name in enumerate(names):
        unit, v = cols[name]
        units[name] = "" if unit is None else str(unit)
        entries[name] = [s if unit is None else agree(rows[j][i] if j < len(rows) else "", float(s)) for j, s in enumerate(v)]
    ev.append({"op": "object", "x": {"kind": c["kind"], "vel": bool(c["vel"]), "units": units, "entries": entries, "place": where},
               "name": c["name"], "lines": q, "made": made()})


ANGLE = {"deg": 3600000, "rad": 180 * 3600000 / math.pi, "arcmin": 60000, "arcsec": 1000, "hourangle": 15 * 3600000}


def iso(c, ev):
    unit = c["angle"]
    if abs(c["lat"]) == 324000000 or abs(c["lon"]) == 648000000:
        unit = "deg"
    a = [x / ANGLE[unit] for x in (c["lat"], c["lon"])]
    h = c["h"] / 1000
    if c["number"] == "numpy":
        a, h = [np.float64(x) for x in a], np.float64(h)
    elif c["number"] == "int":
        a, h = [int(x) if x == int(x) else x for x in a], int(h) if h == int(h) else h
    s = str(GroundLocation(a[0], a[1], h, getattr(u, unit), getattr(u, c["unit"])))
    s = plain(s)
    ev.append({"op": "iso", "lat": c["lat"], "lon": c["lon"], "h": c["h"], "unit": c["unit"], "s": s,
               "words": (s.split(" ") + ["", "", ""])[:3]})


def batch(cases):
    out = []
    for c in cases:
        ev = []
        home = os.getcwd()
        try:
            with limit(20):
                {"file": file, "object": thing, "iso": iso}[c["op"]](c, ev)
        except (Exception, Hang) as x:
            ev.append({"op": "crash", "prop": "C27" if c["op"] == "iso" else "C26", "what": crash_text(x), "case": c})
        finally:
            os.chdir(home)
            d = "text%d" % os.getpid()
            if os.path.isdir(d):
                shutil.rmtree(os.path.abspath(d))
        out += ev
    return {"ev": out}


def run(sc):
    q = sc["cases"]
    k = 20 if q[0]["op"] != "iso" else 100
    return [t for t in pmap(batch, [(q[i:i + k],) for i in range(0, len(q), k)]) if t["ev"]]


main(run)
