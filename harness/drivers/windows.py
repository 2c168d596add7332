"""Visible time windows of ephemerides with a given visibility and lighting."""
import random

import numpy as np

from common import Hang, crash_text, limit, main, pmap
from sun import install
from celest import units as u
from celest.coordinates import Coordinate, GroundLocation
from celest.coordinates.frames.gcrs import GCRS
from celest.coordinates.frames.itrs import ITRS
from celest.encounter import Lighting, generate_vtws
from celest.satellite import Satellite

MODE = {"any": Lighting.ANYTIME, "day": Lighting.DAYTIME, "night": Lighting.NIGHTTIME}


def ecef(ground, azimuth, elevation, distance):
    """Positions seen from the ground at angles from the geocentric horizon."""
    up = ground / np.linalg.norm(ground)
    pole = np.array([0, 0, 1.0])
    north = pole - up[2] * up
    north = north / np.linalg.norm(north) if np.linalg.norm(north) > 1e-9 else np.array([1.0, 0, 0])
    east = np.cross(north, up)
    a, e = np.radians(azimuth)[:, None], np.radians(elevation)[:, None]
    return ground + distance[:, None] * (np.sin(e) * up + np.cos(e) * (np.cos(a) * north + np.sin(a) * east))


def case(p, seed):
    r = random.Random(seed)
    n = len(p["up"])
    lat = r.choice([r.uniform(-89, 89), r.uniform(-89, 89), 0.0, 90.0, -45.0])
    loc = GroundLocation(lat, r.uniform(-180, 180), r.uniform(0, 4), u.deg, u.km)
    ground = np.array([loc.itrs_x.to(u.km), loc.itrs_y.to(u.km), loc.itrs_z.to(u.km)])
    threshold = r.choice([0, 10, 30, 85, r.uniform(0, 85)])
    small = r.random() < 0.3

    def height(b, limit_, lo, hi):
        if small:
            return limit_ + (1 if b else -1) * 10 ** r.uniform(-3.7, -1.3)
        return r.uniform(limit_ + 2e-4, hi) if b else r.uniform(lo, limit_ - 2e-4)
    el = np.array([height(b, threshold, -88, 89.5) for b in p["up"]])
    sun_el = np.array([height(b, 0, -85, 85) for b in p["sun"]])
    jd = 2440000.5 + r.randrange(0, 20000) + r.random() + np.cumsum([r.choice([1, 1, 1, 30]) * 1e-3 for _ in range(n)])
    az = np.array([r.uniform(0, 360) for _ in range(n)])
    pos = ecef(ground, az, el, np.array([r.uniform(300, 3000) for _ in range(n)]))
    sun = ecef(ground, az, sun_el, np.full(n, 1.496e8))
    sun = Coordinate(ITRS(jd, sun[:, 0], sun[:, 1], sun[:, 2], u.km)).convert_to(GCRS).to_numpy(u.km)
    vel = np.array([[r.uniform(-7, 7) for _ in range(3)] for _ in range(n)])
    unit = r.choice([u.km, u.m])
    k = float(1 if unit is u.km else 1000)
    e = {"op": "windows", "up": p["up"], "sun": p["sun"], "mode": p["mode"]}
    try:
        with limit(30):
            position = ITRS(jd, pos[:, 0] * k, pos[:, 1] * k, pos[:, 2] * k, unit)
            velocity = ITRS(jd, vel[:, 0] * k, vel[:, 1] * k, vel[:, 2] * k, unit / u.s)
            if r.random() < 0.3:
                position = Coordinate(position).convert_to(GCRS)
                velocity = Coordinate(velocity).convert_to(GCRS)
            sat = Satellite(position, velocity)
            install(jd, sun)
            got = generate_vtws(sat, loc, threshold, MODE[p["mode"]])
            idx = {float(t): j + 1 for j, t in enumerate(jd)}
            want = sat.attitude(loc)
            e["windows"], e["att"] = [], []
            for w in got:
                e["windows"].append([idx.get(float(w.rise_time.to(u.jd2000)), 0), idx.get(float(w.set_time.to(u.jd2000)), 0)])
                a = w.attitude
                e["att"].append(bool(str(a.location) == str(loc) and np.array_equal(a.time.to(u.jd2000), want.time.to(u.jd2000)) and
                                all(np.allclose(x.to(u.rad), y.to(u.rad), rtol=0, atol=1e-9, equal_nan=True) for x, y in
                                    ((a.roll, want.roll), (a.pitch, want.pitch), (a.yaw, want.yaw)))))
    except (Exception, Hang) as x:
        e = {"op": "crash", "what": crash_text(x), "case": p, "threshold": threshold}
    return e


def batch(ps, seed):
    return {"ev": [case(p, seed * 1009 + i) for i, p in enumerate(ps)]}


def run(sc):
    ps = sc["patterns"]
    return pmap(batch, [(ps[i:i + 40], sc["seed"] * 7919 + i) for i in range(0, len(ps), 40)])


main(run)
