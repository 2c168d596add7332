"""Readings of the solar and sidereal clocks."""
import random

import numpy as np

from common import Hang, crash_text, fold, limit, main, pmap, rnd
from celest import units as u
from celest.time import Time

SOLAR = [("mean", "mean_solar_time"), ("true", "true_solar_time"), ("mha", "mean_hour_angle"), ("tha", "true_hour_angle")]
STAR = [("lmst", "lmst"), ("last", "last")]


def hours(q):
    return np.asarray(q.to(u.hourangle), dtype=float).reshape(-1)


def case(q, seed):
    r = random.Random(seed)
    # now and then the instants are given again and again
    n, rep = len(q), r.choice([40, 300, 1100]) if r.random() < 0.02 else 1
    q = q * rep
    jd = np.array([2451545.0 + d + k / 65536 for d, k, n in q])
    lon = np.array([n / 24000 for d, k, n in q])
    try:
        with limit(20):
            off = r.choice([0, 0, 2400000.5, 2430000])
            if off:
                time = Time(jd - off, off)
            elif len(q) == 1 and r.random() < 0.5:
                time = Time(float(jd[0]))
            else:
                time = Time(list(jd) if r.random() < 0.3 else jd)
            given = r.choice([np.asarray, np.asarray, list, tuple])(lon)
            e = {"op": "clocks", "q": q, "solar": [{} for _ in q], "star": [{} for _ in q]}
            for part, names in (("solar", SOLAR + [("ut", "ut1")]), ("star", STAR + [("gmst", "gmst"), ("gast", "gast")])):
                within, scalar = np.ones(len(q), bool), np.ones(len(q), bool)
                for name, method in names:
                    f = getattr(time, method)
                    here = name not in ("ut", "gmst", "gast")
                    v = hours(f(given)) if here else hours(f())
                    if v.shape != (len(q),):
                        raise ValueError("%s gives %d values for %d times" % (method, v.size, len(q)))
                    within &= (v >= 0) & (v < 24)
                    for i, x in enumerate(v):
                        e[part][i][name] = rnd(x, 36e6)
                    if here:
                        for i in {0, len(q) - 1}:
                            one = r.choice([float, int])(lon[i]) if lon[i] == int(lon[i]) else float(lon[i])
                            s = hours(f(one))
                            same = hours(f(np.full(len(q), lon[i])))
                            scalar[i] &= s.shape == same.shape and bool(np.all(s == same) and s[i] == v[i])
                for i in range(len(q)):
                    e[part][i]["inrange"], e[part][i]["scalar"] = bool(within[i]), bool(scalar[i])
    except (Exception, Hang) as x:
        e = {"op": "crash", "what": crash_text(x), "q": q[:n]}
    return {k: fold(x, n, rep) for k, x in e.items()}


def batch(qs, seed):
    return {"ev": [case(q, seed * 1009 + i) for i, q in enumerate(qs)]}


def run(sc):
    qs = sc["lists"]
    return pmap(batch, [(qs[i:i + 50], sc["seed"] * 7919 + i) for i in range(0, len(qs), 50)])


main(run)
