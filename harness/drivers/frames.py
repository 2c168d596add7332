"""Conversions between frames, directions, the ellipsoid, attitude."""
import random

import numpy as np

from common import Hang, crash_text, fold, limit, main, pmap
from celest import units as u
from celest.coordinates.coordinate import Coordinate
from celest.coordinates.frames.azel import AzEl
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.coordinates.frames.wgs84 import WGS84
from celest.coordinates.ground_location import GroundLocation
from celest.satellite import Satellite

KM = 16384.0                 # units of position per km
KMS = 2.0 ** 24              # units of velocity per km/s
TURN = 2.0 ** 28
FAR = 1200000000             # stands for anything undefined or too large


def num(x, scale):
    x = float(x) * scale
    return FAR if not np.isfinite(x) or abs(x) >= FAR else int(round(x))


def jd(q):
    return np.array([2451545.0 + d + k / 65536 for d, k in q])


def dtype(sc, values):
    a = np.array(values, dtype=float)
    if sc["form"] == "int" and np.all(a == np.round(a)):
        return a.astype(int)
    return a


def vec(sc, frame, q, v, unit="km", scale=KM, per=None):
    """A frame of the integer vectors v in the given unit."""
    factor = {"km": 1, "m": 1000, "cm": 100000, "mi": 1 / 1.609344}[unit]
    x = np.array(v, dtype=float).reshape(-1, 3) / scale * factor
    x = dtype(sc, x)
    if sc["form"] == "single" and unit == "km":
        x = np.asfortranarray(x)
    un = getattr(u, unit)
    return frame(jd(q), x[:, 0], x[:, 1], x[:, 2], un / per if per is not None else un)


def ints(f, scale=KM, unit=None):
    a = np.array([np.asarray(c.to(unit or u.km), dtype=float) for c in (f.x, f.y, f.z)]).T
    return [[num(c, scale) for c in r] for r in a]


def angles(q):
    return [num(a, TURN / 360) for a in np.asarray(q.to(u.deg), dtype=float).reshape(-1)]


def geo(f):
    return [list(r) for r in zip(angles(f.latitude), angles(f.longitude),
                                 [num(h, KM) for h in np.asarray(f.height.to(u.km), dtype=float)])]


def sky(f):
    return [list(r) for r in zip(angles(f.azimuth), angles(f.elevation))]


def place(loc, angle="deg", unit="km"):
    w = {"deg": 360, "rad": 2 * np.pi, "arcmin": 21600, "arcsec": 1296000, "hourangle": 24}[angle]
    h = {"km": 1, "m": 1000, "cm": 100000, "mi": 1 / 1.609344}[unit]
    return GroundLocation(loc[0] / TURN * w, loc[1] / TURN * w, loc[2] / KM * h, getattr(u, angle), getattr(u, unit))


def points(q, p, angle="deg", unit="km"):
    w = {"deg": 360, "rad": 2 * np.pi, "arcmin": 21600, "arcsec": 1296000, "hourangle": 24}[angle]
    h = {"km": 1, "m": 1000, "cm": 100000, "mi": 1 / 1.609344}[unit]
    a = np.array(p, dtype=float).reshape(-1, 3)
    return WGS84(jd(q), a[:, 0] / TURN * w, a[:, 1] / TURN * w, a[:, 2] / KM * h, getattr(u, angle), getattr(u, unit))


def to(f, frame, loc=None):
    r = Coordinate(f).convert_to(frame, loc) if loc is not None else Coordinate(f).convert_to(frame)
    if not isinstance(r, frame):
        raise TypeError("conversion to %s gives %s" % (frame.__name__, type(r).__name__))
    return r


def timed(q, *frames):
    return all(np.array_equal(np.asarray(f.time.to(u.jd2000), dtype=float), jd(q)) and like(f.time.unit, u.jd2000) for f in frames)


def like(a, b):
    return repr(a) == repr(b)


def c20(sc, r):
    q, s = sc["q"], sc["s"]
    g, i = vec(sc, GCRS, q, s), vec(sc, ITRS, q, s)
    w, x = to(g, ITRS), to(i, GCRS)
    kept = timed(q, w, x) and like(w.x.unit, u.km) and like(x.z.unit, u.km)
    e = {"op": "C20", "q": q, "v": s, "w": ints(w), "x": ints(x), "lin": sc["lin"]}
    # velocities turn like positions, in their own unit
    n = len(sc["v"])
    vel = Satellite(vec(sc, GCRS, q[:n], s[:n]), vec(sc, GCRS, q[:n], sc["v"], scale=KMS, per=u.s))
    back = to(vel.velocity, GCRS)
    kept = kept and timed(q[:n], vel.velocity, vel.position) and like(vel.velocity.y.unit, u.km / u.s)
    per = u.km / u.s
    f = {"op": "C20", "q": q[:n], "v": sc["v"], "w": ints(vel.velocity, KMS, per), "lin": [],
         "x": ints(to(vec(sc, ITRS, q[:n], sc["v"], scale=KMS, per=u.s), GCRS), KMS, per), "kept": bool(kept)}
    e["kept"] = bool(kept and np.allclose(np.array(ints(back, KMS, per)), np.array(sc["v"]), rtol=0, atol=3))
    return [e, f]


def take(f, sel):
    i = np.array(sel) - 1
    t = np.asarray(f.time.to(u.jd2000))[i]
    if isinstance(f, WGS84):
        return WGS84(t, f.latitude.data[i], f.longitude.data[i], f.height.data[i], f.latitude.unit, f.height.unit)
    return type(f)(t, f.x.data[i], f.y.data[i], f.z.data[i], f.x.unit)


def c19(sc, r):
    q, s, sel = sc["q"], sc["s"], sc["sel"]
    loc = place(sc["loc"])
    g = vec(sc, GCRS, q, s)
    i, w = to(g, ITRS), to(g, WGS84)
    gi, gw, wi, iw, ww = to(i, GCRS), to(w, GCRS), to(i, WGS84), to(w, ITRS), to(to(w, GCRS), WGS84)
    ag, ai, aw = to(g, AzEl, loc), to(i, AzEl, loc), to(w, AzEl, loc)
    same = all(to(f, type(f)) is f or (isinstance(f, WGS84) and geo(to(f, WGS84)) == geo(f)) or ints(to(f, type(f))) == ints(f)
               for f in (g, i, w))
    # the same data in another unit
    f = {"km": 1, "m": 1000, "cm": 100000, "mi": 1 / 1.609344}[sc["unit"]]
    un = getattr(u, sc["unit"])
    gun = vec(sc, GCRS, q, s, sc["unit"])
    iun = ITRS(jd(q), np.asarray(i.x.to(u.km)) * f, np.asarray(i.y.to(u.km)) * f, np.asarray(i.z.to(u.km)) * f, un)
    iu, gu, wu, au = to(gun, ITRS), to(iun, GCRS), to(iun, WGS84), to(iun, AzEl, loc)
    si, sg, sw, sa = to(take(g, sel), ITRS), to(take(i, sel), GCRS), to(take(i, sel), WGS84), to(take(i, sel), AzEl, loc)
    qs = [q[j - 1] for j in sel]
    # the other way round: from geodetic coordinates and back
    p0 = points(q, sc["p"], sc["angle"], sc["unit"])
    pi, pg = to(p0, ITRS), to(p0, GCRS)
    pw, pgw = to(pi, WGS84), to(pg, WGS84)
    times = timed(q, p0, pi, pg, pw, pgw) and timed(q, i, w, gi, gw, wi, iw, ww, ag, ai, aw, iu, gu, wu, au) and timed(qs, si, sg, sw, sa)
    # the inputs are left as they were
    same = same and ints(g) == [list(v) for v in s] and timed(q, g)
    return [{"op": "C19", "g": s, "i": ints(i), "w": geo(w), "gi": ints(gi), "gw": ints(gw), "wi": geo(wi), "iw": ints(iw), "ww": geo(ww),
             "ag": sky(ag), "ai": sky(ai), "aw": sky(aw), "iu": ints(iu), "gu": ints(gu), "wu": geo(wu), "au": sky(au),
             "sel": sel, "si": ints(si), "sg": ints(sg), "sw": geo(sw), "sa": sky(sa),
             "p": sc["p"], "pw": geo(pw), "pgw": geo(pgw), "polar": abs(sc["loc"][0]) == 2 ** 26, "same": bool(same), "times": bool(times)}]


def c21(sc, r):
    q = sc["q"]
    loc = place(sc["loc"], sc["angle"], sc["unit"])
    a = to(vec(sc, ITRS, q, sc["s"], r.choice(["km", sc["unit"]])), AzEl, loc)
    kept = timed(q, a) and a.location is loc or str(a.location) == str(loc)
    return [{"op": "C21", "loc": sc["loc"], "s": sc["s"], "a": sky(a), "kept": bool(kept and timed(q, a))}]


def c22(sc, r):
    q, p, s = sc["q"], sc["p"], sc["s"]
    loc = place(sc["loc"], sc["angle"], sc["unit"])
    f = points(q, p, sc["angle"], sc["unit"])
    i = to(f, ITRS)
    # from the other side: the satellites and the points just made
    v = ints(i) if r.random() < 0.5 else s
    x = vec(sc, ITRS, q, v, r.choice(["km", sc["unit"]]))
    w = to(x, WGS84)
    alt = Satellite(x).altitude()
    one, alt1 = [], []
    for j in range(len(q) // sc["rep"]):
        y = take(x, [j + 1])
        one += geo(to(y, WGS84))
        alt1 += [num(h, KM) for h in np.asarray(Satellite(y).altitude().to(u.km), dtype=float).reshape(-1)]
    g = [num(c.to(u.km), KM) for c in (loc.itrs_x, loc.itrs_y, loc.itrs_z)]
    return [{"op": "C22", "loc": sc["loc"], "g": g, "radius": num(loc.radius.to(u.km), KM), "p": p, "i": ints(i), "v": v, "w": geo(w),
             "alt": [num(h, KM) for h in np.asarray(alt.to(u.km), dtype=float).reshape(-1)], "one": one, "alt1": alt1}]


def c23(sc, r):
    import celest.coordinates.transforms as tr
    q, s, v = sc["q"], sc["s"], sc["v"]
    per = u.km / u.s
    pos, vel = vec(sc, GCRS, q, s), vec(sc, GCRS, q, v, scale=KMS, per=u.s)
    R, V = tr._gcrs_to_lvlh(pos, vel)
    Ru, Vu = tr._gcrs_to_lvlh(vec(sc, GCRS, q, s, sc["unit"]),
                              vec(sc, GCRS, q, v, r.choice(["km", "m"]), scale=KMS, per=u.s))
    rows = []
    if hasattr(tr, "_gcrs_to_lvlh_matrix"):
        m = np.asarray(tr._gcrs_to_lvlh_matrix(np.array(s, dtype=float), np.array(v, dtype=float)))
        rows = [[[num(c, 2.0 ** 28) for c in row] for row in one] for one in m]
    kept = timed(q, R, V) and like(R.x.unit, u.km) and like(V.x.unit, per) and ints(pos) == [list(a) for a in s]
    return [{"op": "C23", "r": s, "v": v, "R": ints(R), "V": ints(V, KMS, per), "Ru": ints(Ru), "Vu": ints(Vu, KMS, per),
             "rows": rows, "kept": bool(kept)}]


def look(sat, loc, n, q, sc):
    a = sat.attitude(loc)
    if not timed(q, a):
        raise ValueError("attitude times")
    d = np.asarray(sat.distance(loc).to(u.km), dtype=float).reshape(-1)
    cols = [[num(x, KM) for x in d], angles(sat.look_angle(loc)), angles(a.roll), angles(a.pitch), angles(a.yaw)]
    if any(len(c) != n for c in cols):
        raise ValueError("%s values for %d samples" % ([len(c) for c in cols], n))
    return [dict(zip(("dist", "look", "roll", "pitch", "yaw"), x)) for x in zip(*cols)]


def c24(sc, r):
    q, s, v = sc["q"], sc["s"], sc["v"]
    n = len(q)
    loc = place(sc["loc"], sc["angle"], r.choice(["km", sc["unit"]]))
    pos, vel = vec(sc, ITRS, q, s), vec(sc, ITRS, q, v, scale=KMS, per=u.s)
    out = look(Satellite(pos, vel), loc, n, q, sc)
    gp, gv = to(pos, GCRS), to(vel, GCRS)
    f = {"km": 1, "m": 1000, "cm": 100000, "mi": 1 / 1.609344}[sc["unit"]]
    scaled = GCRS(jd(q), np.asarray(gp.x.to(u.km)) * f, np.asarray(gp.y.to(u.km)) * f, np.asarray(gp.z.to(u.km)) * f, getattr(u, sc["unit"]))
    alts = [look(Satellite(gp, gv), loc, n, q, sc),
            look(Satellite(gp, vel), loc, n, q, sc),
            look(Satellite(vec(sc, ITRS, q, s, sc["unit"]), vec(sc, ITRS, q, v, "m", scale=KMS, per=u.s)), loc, n, q, sc),
            look(Satellite(scaled, gv), loc, n, q, sc)]
    bare = Satellite(gp)
    kept = np.allclose(np.asarray(bare.distance(loc).to(u.km)), [o["dist"] / KM for o in out], rtol=0, atol=1e-3) and bare.velocity is None
    kept = kept and ints(pos) == [list(a) for a in s]
    return [{"op": "C24", "loc": sc["loc"], "s": s, "v": v, "out": out, "alt": [list(a) for a in zip(*alts)], "nadir": sc["over"],
             "kept": bool(kept)}]


PARTS = {"C19": c19, "C20": c20, "C21": c21, "C22": c22, "C23": c23, "C24": c24}


def case(prop, sc, seed):
    try:
        with limit(60), np.errstate(all="ignore"):
            rep, n = sc["rep"], len(sc["q"])
            if rep == 1:
                return PARTS[prop](sc, random.Random(seed))
            long = dict(sc, **{k: sc[k] * rep for k in ("q", "s", "v", "p", "over")})
            return [{k: fold(x, n, rep) for k, x in e.items()} for e in PARTS[prop](long, random.Random(seed))]
    except (Exception, Hang) as x:
        return [{"op": "crash", "prop": prop, "what": crash_text(x), "scene": sc}]


def batch(prop, scenes, seed):
    ev = []
    for i, sc in enumerate(scenes):
        ev += case(prop, sc, seed * 1009 + i)
    return {"ev": ev}


def run(sc):
    n = 30
    s = sc["scenes"]
    return pmap(batch, [(sc["prop"], s[i:i + n], sc["seed"] * 7919 + i) for i in range(0, len(s), n)])


main(run)
