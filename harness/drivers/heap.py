"""Histories of library objects: what every object looks like after every step."""
import copy
import enum
import hashlib
import os
import random
import struct

import numpy as np

from common import Hang, crash_text, limit, main, pmap
from celest import units as u
from celest.coordinates import Coordinate, GroundLocation
from celest.coordinates import astronomical_quantities as aq
from celest.coordinates import nutation_precession_matrices as npm
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.transforms import _gcrs_to_lvlh
from celest.encounter import Lighting, generate_vtws
from celest.encounter.window_handling import WindowCollection
from celest.satellite import Satellite
from celest.schedule.scheduler import Scheduler
from celest.time import Time
from celest.units import Quantity
from celest.units.core import CompoundUnit, Unit

LEN = [u.m, u.km, u.mi, u.ft, u.cm]
ANG = [u.deg, u.rad, u.arcmin, u.hourangle]
DUR = [u.s, u.min, u.hr, u.dy]
OTHER = {"len": u.inch, "ang": u.arcsec, "dur": u.min}


def feed(h, x, seen, depth=0):
    if x is None or isinstance(x, (bool, int, str, enum.Enum, type)):
        h.update(repr(x).encode())
    elif isinstance(x, float):
        h.update(struct.pack("d", x))
    elif isinstance(x, np.ndarray):
        h.update(repr((x.dtype.str, x.shape)).encode())
        if x.dtype == object:
            for y in x.reshape(-1):
                feed(h, y, seen, depth + 1)
        else:
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, np.generic):
        h.update(x.tobytes())
    elif isinstance(x, (Unit, CompoundUnit)):
        h.update(repr((repr(x), float(x.scale), list(map(repr, x.bases)), list(map(float, x.powers)))).encode())
    elif isinstance(x, (list, tuple)):
        h.update(b"[%d" % len(x))
        for y in x:
            feed(h, y, seen, depth + 1)
    elif isinstance(x, dict):
        for k in sorted(x, key=repr):
            h.update(repr(k).encode())
            feed(h, x[k], seen, depth + 1)
    elif hasattr(x, "__dict__"):
        h.update(type(x).__name__.encode())
        if id(x) not in seen:
            feed(h, vars(x), seen | {id(x)}, depth + 1)
    else:
        h.update(repr(x).encode())


def digest(x):
    h = hashlib.sha1()
    feed(h, x, frozenset())
    return h.hexdigest()[:12]


def arrays(x, out, seen):
    if isinstance(x, np.ndarray):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            arrays(y, out, seen)
    elif isinstance(x, (Unit, CompoundUnit)):
        pass
    elif hasattr(x, "__dict__") and id(x) not in seen and not isinstance(x, type):
        seen.add(id(x))
        for y in vars(x).values():
            arrays(y, out, seen)


def write(x):
    """Write into every array an object holds."""
    out = []
    arrays(x, out, set())
    done = set()
    for a in out:
        key = (a.__array_interface__["data"][0], a.shape)
        if key in done or not a.flags.writeable or a.dtype == object:
            continue
        done.add(key)
        if a.dtype == bool:
            np.logical_not(a, out=a)
        else:
            a += 1


def saved(x):
    if isinstance(x, WindowCollection) and not len(x):
        return "no windows"     # saving an empty collection is refused
    name = "heap%d.txt" % os.getpid()
    try:
        x.save_text_file(name)
        with open(name) as f:
            return f.read()
    finally:
        if os.path.exists(name):
            os.remove(name)


def values(x):
    return [x] if isinstance(x, Quantity) else list(x)


def schedule(sat, loc):
    s = Scheduler(sat, 5)
    end = float(sat.position.time.data[-1]) + 1
    s.add_request(loc, end, 30, 1, 1, None, Lighting.ANYTIME)
    s.add_request(loc, end, 45, 2, 1, None, Lighting.ANYTIME)
    return s.generate(6, 0.9, 0.5)


def q_squared(x):
    return [q * q for q in values(x)]


CALLS = {
    "q_to": lambda q, k: q.to(OTHER[k]), "q_same": lambda q, k: q.to(q.unit),
    "q_convert": lambda q, k: q.convert_to(OTHER[k]),
    "q_add": lambda a, b: a + b, "q_sub": lambda a, b: a - b, "q_neg": lambda a: -a,
    "q_addn": lambda a: a + 2, "q_nsub": lambda a: 2 - a, "q_muln": lambda a: 3 * a,
    "q_eq": lambda a, b: a == b, "q_ne": lambda a, b: a != b, "q_lt": lambda a, b: a < b,
    "q_le": lambda a, b: a <= b, "q_gt": lambda a, b: a > b, "q_ge": lambda a, b: a >= b,
    "q_mul": lambda a, b: a * b, "q_div": lambda a, b: a / b, "q_ndiv": lambda a: 2 / a,
    "q_si": lambda x: [q.to(q.unit) for q in values(x)], "q_str": lambda x: [str(q) + repr(q) for q in values(x)],
    "q_squared": q_squared,
    "u_mul": lambda a, b: a * b, "u_div": lambda a, b: a / b, "u_pow": lambda a: a ** 2, "u_inv": lambda a: 1 / a,
    "u_num": lambda a: 3 * a, "u_text": lambda a: [str(a), repr(a), a.dimension],
    "gcrs_itrs": lambda f: Coordinate(f).convert_to(ITRS), "itrs_gcrs": lambda f: Coordinate(f).convert_to(GCRS),
    "gcrs_wgs": lambda f: Coordinate(f).convert_to(WGS84), "itrs_wgs": lambda f: Coordinate(f).convert_to(WGS84),
    "wgs_itrs": lambda f: Coordinate(f).convert_to(ITRS), "wgs_gcrs": lambda f: Coordinate(f).convert_to(GCRS),
    "gcrs_azel": lambda f, l: Coordinate(f).convert_to(AzEl, l),
    "itrs_azel": lambda f, l: Coordinate(f).convert_to(AzEl, l),
    "wgs_azel": lambda f, l: Coordinate(f).convert_to(AzEl, l),
    "lvlh": lambda p, v: _gcrs_to_lvlh(p, v), "satellite": lambda p, v: Satellite(p, v),
    "altitude": lambda s: s.altitude(), "attitude": lambda s, l: s.attitude(l), "distance": lambda s, l: s.distance(l),
    "look_angle": lambda s, l: s.look_angle(l), "vtws": lambda s, l: generate_vtws(s, l, 5, Lighting.ANYTIME),
    "schedule": schedule, "loc_itrs": lambda l: Quantity(np.resize(np.array([l.itrs_x.to(u.km), l.itrs_y.to(u.km), l.itrs_z.to(u.km)]), 24), u.km),
    "loc_radius": lambda l: Quantity(np.full(24, l.radius.to(u.km)), u.km),
    "loc_text": lambda l: [str(l), repr(l), l.latitude.data, l.longitude.data, l.height.data],
    "matrices": lambda q: [npm.bias_matrix(), npm.precession_matrix(q), npm.nutation_matrix(q)],
    "calendar": lambda q: aq.from_julian(q), "day_of_year": lambda q: aq.day_of_year(q),
    "rotation_angle": aq.earth_rotation_angle, "nutation_angles": aq.nutation_angles, "nutation": aq.nutation_components,
    "precession": aq.conventional_precession_angles, "obliquity": aq.mean_obliquity,
    "true_obliquity": aq.apparent_obliquity, "equation_of_time": aq.equation_of_time,
    "equation_of_equinoxes": aq.equation_of_equinoxes, "sun_right_ascension": aq.sun_right_ascension,
    "true_solar": lambda t, x: t.true_solar_time(x), "mean_solar": lambda t, x: t.mean_solar_time(x),
    "true_hour": lambda t, x: t.true_hour_angle(x), "mean_hour": lambda t, x: t.mean_hour_angle(x),
    "lmst": lambda t, x: t.lmst(x), "last": lambda t, x: t.last(x), "gmst": lambda t: t.gmst(), "gast": lambda t: t.gast(),
    "ut1": lambda t: t.ut1(), "datetime": lambda t: t.datetime(), "save": saved,
    "index": lambda c: [str(c), repr(len(c)), [str(w.rise_time if hasattr(w, "rise_time") else w.start_time) for w in c],
                        len(c[0:1])],
}


def call(op, kinds, args):
    if op in ("q_to", "q_same", "q_convert"):
        return CALLS[op](args[0], kinds[0])
    if op == "to_numpy":
        unit = {"gcrs": u.m, "itrs": u.m, "vel": u.m / u.s, "vitrs": u.m / u.s, "azel": u.rad, "att": u.arcmin}
        return args[0].to_numpy(unit[kinds[0]])
    return CALLS[op](*args)


def build(start, seed):
    """The objects a history starts from."""
    r = random.Random(seed)
    n = 24
    R = np.random.RandomState(seed % 2 ** 31)
    jd = 2450000.5 + r.randrange(0, 9000) + r.random() + np.arange(n) * (120 / 86400)
    ints = r.random() < 0.4

    def arr(lo, hi):
        return R.randint(lo, hi, n) if ints else R.uniform(lo, hi, n)
    inc, node, ph, a = r.uniform(0.2, 2), r.uniform(0, 6), r.uniform(0, 6), r.uniform(6800, 9000)
    w = (398600.4 / a ** 3) ** 0.5
    th = ph + w * 120 * np.arange(n)

    def plane(c, s):
        x, y, z = c, s * np.cos(inc), s * np.sin(inc)
        return x * np.cos(node) - y * np.sin(node), x * np.sin(node) + y * np.cos(node), z
    p = plane(a * np.cos(th), a * np.sin(th))
    v = plane(-a * w * np.sin(th), a * w * np.cos(th))
    p = [np.round(x).astype(int) if ints else x for x in p]

    def make(k):
        if k == "len":
            return Quantity(arr(1, 9000), r.choice(LEN))
        if k == "ang":
            return Quantity(arr(1, 90), r.choice(ANG))
        if k == "dur":
            return Quantity(arr(1, 600), r.choice(DUR))
        if k == "unit":
            return r.choice([u.m, u.km / u.s, u.deg, u.m ** 2, u.s])
        if k == "jd":
            return Quantity(jd.copy(), u.jd2000)
        if k == "gcrs":
            return GCRS(jd.copy(), *[x.copy() for x in p], u.km)
        if k == "vel":
            return GCRS(jd.copy(), *[x.copy() for x in v], u.km / u.s)
        if k == "itrs":
            return ITRS(jd.copy(), *[np.where(arr(0, 2) > 0.5, 1, -1) * arr(5000, 9000) for _ in range(3)], u.km)
        if k == "wgs":
            return WGS84(jd.copy(), arr(-80, 80), arr(-170, 170), arr(100, 900), u.deg, u.km)
        if k == "loc":
            return GroundLocation(r.uniform(-70, 70), r.uniform(-170, 170), r.uniform(0, 3), u.deg, u.km)
        if k == "time":
            return Time(jd.copy())
        if k == "lon":
            return arr(-180, 180)
        if k == "coll":
            c = WindowCollection()
            for w in generate_vtws(Satellite(make("gcrs"), make("vel")), make("loc"), 5, Lighting.ANYTIME):
                c.add_window(w)
            return c
        raise KeyError(k)
    return [make(k) for k in start]


def history(h, seed):
    pool = build(h["start"], seed)
    kinds = list(h["start"])
    T = {"start": [digest(x) for x in pool], "ev": []}
    for s in h["ev"]:
        if s["op"] == "write":
            write(pool[s["obj"] - 1])
            ev = {"op": "write", "obj": s["obj"]}
        else:
            args = [pool[i - 1] for i in s["args"]]
            random.seed(7)
            np.random.seed(7)
            err, res = "", None
            try:
                with limit(60):
                    res = call(s["op"], [kinds[i - 1] for i in s["args"]], args)
            except (Exception, Hang) as e:
                err, res = crash_text(e), "failed"
            ev = {"op": s["op"], "args": s["args"], "err": err, "result": digest(res)}
            if err:
                # nothing to go on with: end the history here
                ev["digests"] = [digest(x) for x in pool]
                T["ev"].append(ev)
                break
            pool.append(res)
            kinds.append(s["out"])
        ev["digests"] = [digest(x) for x in pool]
        T["ev"].append(ev)
    return T


def run(sc):
    return pmap(history, [(h, sc["seed"] * 100003 + i) for i, h in enumerate(sc["histories"])])


main(run)
