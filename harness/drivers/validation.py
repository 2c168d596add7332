"""Accepted and refused inputs."""
import math
import random

import jplephem.spk
import numpy as np

from common import Hang, crash_text, limit, main, pmap
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.attitude import Attitude
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.lvlh import LVLH
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.ground_location import GroundLocation
from celest.encounter import Lighting, generate_vtws
from celest.encounter.window_handling import WindowCollection
from celest.satellite import Satellite
from celest.schedule import Scheduler
from celest.time import Time
from celest.units.quantity import Quantity

CLASSES = {"GCRS": GCRS, "ITRS": ITRS, "LVLH": LVLH, "WGS84": WGS84, "AzEl": AzEl, "Attitude": Attitude}
SPECIAL = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}
PER = {"deg": 1.0, "rad": math.pi / 180, "arcmin": 60.0, "arcsec": 3600.0, "hourangle": 1 / 15}
HERE = GroundLocation(10.0, -20.0, 0.1, u.deg, u.km)


class Kernel:
    """An ephemeris with the Sun in a fixed direction."""

    def __getitem__(self, key):
        return self

    def compute(self, jd):
        return np.array([[1.0e8], [2.0e7], [3.0e6]]) * np.ones(np.size(jd))

    def close(self):
        pass


def number(a, unit="deg"):
    if a[0] in SPECIAL:
        return SPECIAL[a[0]]
    x = a[0] / 4
    if unit == "deg":
        return math.nextafter(x, a[1] * math.inf) if a[1] else x
    return (x * PER[unit]) * (1 + a[1] * (1 if x > 0 else -1) * 1e-9)


def build(name, n=3):
    t = 2459000.5 + np.arange(n) / 100
    x, y, z = 7000.0 + np.arange(n), 100.0 - np.arange(n), 50.0 + 3 * np.arange(n)
    if name == "none":
        return None
    if name == "array":
        return np.array([x, y, z]).T
    if name == "quantity":
        return Quantity(x, u.km)
    if name == "location":
        return HERE
    if name == "satellite":
        return Satellite(build("ITRS"), ITRS(t, y / 100, x / 1000, z / 100, u.km / u.s))
    if name in ("GCRS", "ITRS", "LVLH"):
        return CLASSES[name](t, x, y, z, u.km)
    if name == "WGS84":
        return WGS84(t, x / 1000, y / 10, z * 10, u.deg, u.km)
    if name == "AzEl":
        return AzEl(t, x / 1000, y / 10, u.deg, HERE)
    return Attitude(t, x / 1000, y / 10, z / 10, u.deg, HERE)


def frame(c, r):
    span = r.choice([80, 80, 400, 1e7])
    arrays = [np.array([r.uniform(-span, span) for _ in range(int(np.prod(s)))]).reshape(tuple(s)) for s in c["shapes"]]
    copies = [a.copy() for a in arrays]
    f, a = c["f"], arrays
    kind = r.choice([u.deg, u.rad]) if f in ("WGS84", "AzEl", "Attitude") else r.choice([u.km, u.m, u.km / u.s])

    def make():
        if f == "WGS84":
            return WGS84(*a, kind, u.m)
        if f == "AzEl":
            return AzEl(*a, kind, HERE)
        if f == "Attitude":
            return Attitude(*a, kind, HERE)
        return CLASSES[f](*a, kind)

    def kept(x):
        names = {"WGS84": ["latitude", "longitude", "height"], "AzEl": ["azimuth", "elevation"],
                 "Attitude": ["roll", "pitch", "yaw"]}.get(f, ["x", "y", "z"])
        units = [kind] * len(names)
        if f == "WGS84":
            units[2] = u.m
        qs = [getattr(x, n) for n in names] + [x.time]
        ok = all(np.array_equal(q.data, w) and repr(q.unit) == repr(t) for q, w, t in
                 zip(qs, copies[1:] + copies[:1], units + [u.jd2000]))
        ok = ok and all(np.array_equal(p, q) for p, q in zip(arrays, copies))
        if f in ("AzEl", "Attitude"):
            ok = ok and x.location is HERE
        if f != "WGS84" and len(copies[0]):
            ok = ok and np.array_equal(np.asarray(x.to_numpy(kind)), np.array(copies[1:]).T)
        return ok
    return make, kept


def location(c, r):
    a, b = number(c["lat"], c["unit"]), number(c["lon"], c["unit"])
    t = getattr(u, c["unit"])
    h = r.choice([0.0, -0.3, 12.5])
    return (lambda: GroundLocation(a, b, h, t, u.m)), \
        (lambda x: x.latitude.data == a and x.longitude.data == b and x.height.data == h and
         repr(x.latitude.unit) == repr(t) and repr(x.longitude.unit) == repr(t) and repr(x.height.unit) == repr(u.m))


def same_time(f, g):
    return np.array_equal(f.time.to(u.jd2000), g.time.to(u.jd2000))


def satellite(c, r):
    p, v = build(c["p"]), build(c["v"])

    def kept(s):
        ok = isinstance(s.position, ITRS) and same_time(s.position, p)
        return ok and ((s.velocity is None) if v is None else (isinstance(s.velocity, ITRS) and same_time(s.velocity, v)))
    return (lambda: Satellite(p, v)), kept


def coordinate(c, r):
    p = build(c["p"])
    return (lambda: Coordinate(p)), (lambda x: x.convert_to(type(p)) is not NotImplemented)


def convert(c, r):
    p, to = build(c["p"]), CLASSES[c["to"]]
    return (lambda: Coordinate(p).convert_to(to, HERE) if c["loc"] else Coordinate(p).convert_to(to)), \
        (lambda x: isinstance(x, to) and same_time(x, p))


def windows(c, r):
    s = build("satellite")
    if not c["vel"]:
        s = Satellite(build(r.choice(["ITRS", "GCRS"])))
    light = {"day": Lighting.DAYTIME, "night": Lighting.NIGHTTIME, "any": Lighting.ANYTIME, "noon": "noon", "seven": 7, "none": None}[c["light"]]
    a = number(c["a"])
    return (lambda: generate_vtws(s, HERE, a, light)), (lambda x: isinstance(x, WindowCollection))


def scheduler(c, r):
    s = build(c["sat"])
    a = {"int": 10, "float": 12.5, "text": "10", "none": None, "array": np.array([10.0]), "list": [10]}[c["a"]]
    return (lambda: Scheduler(s, a)), (lambda x: x.satellite is s)


def rows(a, form):
    """Nested lists or tuples."""
    return form(rows(x, form) for x in a) if isinstance(a, np.ndarray) and a.ndim else a.item()


def time(c, r):
    whole = np.array([r.randrange(2450000, 2460000) for _ in range(int(np.prod(c["shape"])))]).reshape(tuple(c["shape"]))
    data = whole if c["form"] == "ints" else whole + 0.25
    given = rows(data, {"list": list, "tuple": tuple}[c["form"]]) if c["form"] in ("list", "tuple") else data.copy()
    off = 2400000.5 if c["off"] else 0
    return (lambda: Time(given, off) if off else Time(given)), \
        (lambda x: len(x) == data.size and x.julian.to(u.jd2000).shape == (data.size,) and
         np.array_equal(x.julian.to(u.jd2000), data.reshape(-1) + off) and np.array_equal(given, data))


KINDS = {"time": time, "frame": frame, "location": location, "satellite": satellite, "coordinate": coordinate, "convert": convert,
         "windows": windows, "scheduler": scheduler}


def case(c, seed):
    jplephem.spk.SPK.open = classmethod(lambda cls, path, *a, **k: Kernel())
    jplephem.spk.SPK.close = lambda self: None
    e = {"op": "case", "c": c, "kept": True}
    try:
        with limit(20), np.errstate(all="ignore"):
            make, kept = KINDS[c["w"]](c, random.Random(seed))
            try:
                x = make()
            except Exception as x:
                e["got"], e["what"] = "refused", crash_text(x)
                return e
            e["got"] = "nothing" if x is None or x is NotImplemented else "accepted"
            if e["got"] == "accepted":
                e["kept"] = bool(kept(x))
    except (Exception, Hang) as x:
        e = {"op": "crash", "what": crash_text(x), "c": c}
    return e


def batch(cs, seed):
    return {"ev": [case(c, seed * 1009 + i) for i, c in enumerate(cs)]}


def run(sc):
    cs = sc["cases"]
    return pmap(batch, [(cs[i:i + 200], sc["seed"] * 7919 + i) for i in range(0, len(cs), 200)])


main(run)
