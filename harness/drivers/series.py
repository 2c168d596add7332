"""Astronomical quantities at instants, over ages and at latitudes."""
import random

import numpy as np

from common import Hang, crash_text, fold, limit, main, pmap, rnd
from celest import units as u
from celest.coordinates import astronomical_quantities as aq
from celest.units.quantity import Quantity



def wide(deg):
    """An angle to 2^-42 turn, in two parts."""
    n = int(round(float(deg) % 360 / 360 * 2 ** 42)) if np.isfinite(deg) else 0
    return [n >> 14, n & 16383]


def instants(jd):
    """Everything public at the instants, in degrees and arcseconds, and whether ranges are respected."""
    t = lambda: Quantity(jd, u.jd2000)
    deg = lambda q: q.to(u.deg)
    arcsec = lambda q: q.to(u.arcsec)
    args = aq.nutation_angles(t())
    if len(args) != 5:
        raise ValueError("%d nutation angles" % len(args))
    out = {"args%d" % i: deg(a) for i, a in enumerate(args)}
    out["era"] = deg(aq.earth_rotation_angle(t()))
    out["sun"] = deg(aq.sun_right_ascension(t()))
    ok = all(bool(np.all((np.asarray(a) >= 0) & (np.asarray(a) < 360 + 1e-12 * (n == "sun")))) for n, a in out.items())
    lon, obl = aq.nutation_components(t())
    out["lon"], out["obl"] = arcsec(lon), arcsec(obl)
    out["mean"] = arcsec(aq.mean_obliquity(t()))
    out["shift"] = arcsec(aq.apparent_obliquity(t())) - out["mean"]
    out["eqe"] = arcsec(aq.equation_of_equinoxes(t()))
    out["eot"] = deg(aq.equation_of_time(t()))
    return out, ok


def ages(jd):
    t = lambda: Quantity(jd, u.jd2000)
    three = aq.conventional_precession_angles(t())
    if len(three) != 3:
        raise ValueError("%d precession angles" % len(three))
    out = {n: q.to(u.arcsec) for n, q in zip(("zeta", "theta", "z"), three)}
    out["mean"] = aq.mean_obliquity(t()).to(u.arcsec)
    return out, True


SCALE = {"mean": 1e3, "zeta": 1e3, "theta": 1e3, "z": 1e3, "lon": 1e6, "obl": 1e6, "shift": 1e6, "eqe": 1e6,
         "eot": 240e4}


def kept(jd):
    """No function changes the quantity it is given."""
    q = Quantity(jd.copy(), u.jd2000)
    for f in (aq.earth_rotation_angle, aq.nutation_angles, aq.nutation_components, aq.conventional_precession_angles,
              aq.mean_obliquity, aq.apparent_obliquity, aq.equation_of_time, aq.equation_of_equinoxes,
              aq.sun_right_ascension):
        f(q)
    return bool(np.array_equal(q.data, jd)) and q.unit == u.jd2000


def case(sc, seed):
    r = random.Random(seed)
    op, q = sc["op"], sc["q"]
    e = {"op": op, "q": q}
    try:
        with limit(20):
            if op == "latitudes":
                e["v"] = []
                for n in q:
                    x = Quantity(n / 2 ** 20 * 360, u.deg) if r.random() < 0.5 else Quantity(n / 2 ** 20 * 2 * np.pi, u.rad)
                    e["v"].append(rnd(aq.radius_of_curvature_in_prime_vertical(x).to(u.m), 2.0 ** 14 / 1000))
                return e
            f = instants if op == "instants" else ages
            jd = np.array([2451545.0 + d + k / 65536 for d, k in q] if op == "instants" else [2451545.0 + d for d in q])
            # now and then the instants are given again and again
            rep = r.choice([40, 300, 1100]) if r.random() < 0.02 else 1
            jd = np.tile(jd, rep)
            got, ok = f(jd)
            same = True
            for name, v in got.items():
                if np.shape(v) != jd.shape:
                    raise ValueError("%s has shape %s for %d times" % (name, np.shape(v), len(jd)))
            for i in {0, r.randrange(len(q))}:
                one, within = f(r.choice([float(jd[i]), int(jd[i])]) if jd[i] == int(jd[i]) else float(jd[i]))
                ok &= within
                for name, v in one.items():
                    same &= np.ndim(v) == 0 and bool(abs(v - got[name][i]) <= 1e-8 + 1e-12 * abs(v))
            e["v"] = [{n: rnd(v[i], SCALE[n]) for n, v in got.items() if n in SCALE} for i in range(len(jd))]
            if op == "instants":
                for i, row in enumerate(e["v"]):
                    row["args"] = [wide(got["args%d" % j][i]) for j in range(5)]
                    row["era"], row["sun"] = wide(got["era"][i]), wide(got["sun"][i])
                e["inrange"] = ok
            e["v"] = fold(e["v"], len(q), rep)
            e["scalar"], e["kept"] = bool(same), kept(jd)
    except (Exception, Hang) as x:
        e = {"op": "crash", "what": crash_text(x), "q": q}
    return e


def batch(qs, seed):
    return {"ev": [case(q, seed * 1009 + i) for i, q in enumerate(qs)]}


def run(sc):
    qs = sc["lists"]
    return pmap(batch, [(qs[i:i + 50], sc["seed"] * 7919 + i) for i in range(0, len(qs), 50)])


main(run)
