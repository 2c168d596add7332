"""Calendar dates, days of the year and datetimes of Julian dates."""
import random
from datetime import datetime

import numpy as np

from common import Hang, crash_text, fold, limit, main, pmap, rnd
from celest import units as u
from celest.coordinates.astronomical_quantities import day_of_year, from_julian
from celest.time import Time
from celest.units import Quantity


def jd(q):
    J, s, us = q
    return J - 0.5 + (s + us * 1e-6) / 86400


def micro(f):
    """Seconds and microseconds of a fraction of a day."""
    t = int(round(float(f) * 86400e6))
    return divmod(t, 10 ** 6)


def form(x, r):
    """The same instants as an array, a list element or a plain number."""
    if len(x) == 1 and r.random() < 0.5:
        v = x[0]
        return int(v) if v == int(v) and r.random() < 0.5 else float(v)
    a = np.array(x)
    if all(v == int(v) for v in x) and r.random() < 0.5:
        a = a.astype(int)
    return a


def case(q, seed):
    r = random.Random(seed)
    # now and then the instants are given again and again
    rep = r.choice([40, 300, 1100]) if r.random() < 0.02 else 1
    x = [jd(i) for i in q] * rep
    ev = []

    def ask(op, f):
        e = {"op": op, "days": q}
        try:
            with limit(20):
                e["out"] = f()
        except (Exception, Hang) as err:
            e = {"op": "crash", "what": crash_text(err), "days": q}
        ev.append(e)

    def civil():
        y, m, d = from_julian(Quantity(form(x, r), u.jd2000))
        y, m, d = [np.asarray(v).reshape(-1) for v in (y, m, d)]
        res = []
        for a, b, c in zip(y, m, d):
            s, us = micro(c - np.floor(c))
            res.append({"y": rnd(a), "m": rnd(b), "d": rnd(np.floor(c)), "s": s, "u": us})
        return fold(res, len(q), rep)

    def dates(days):
        t = [jd(i) for i in days] * rep
        off = r.choice([0, 0, 2400000.5, 2430000])
        res = []
        for a in Time(np.array(t) - off, off).datetime() if off else Time(form(t, r)).datetime():
            delta = a - datetime(a.year, a.month, a.day)
            res.append({"y": a.year, "m": a.month, "d": a.day, "s": delta.seconds, "u": delta.microseconds})
        return fold(res, len(days), rep)

    ask("civil", civil)
    # on which day an instant right at midnight falls is a matter of rounding
    sure = [i for i in q if (i[1], i[2]) == (0, 0) or 0 < i[1] < 86399]
    if sure:
        ask("doy", lambda: fold([rnd(v) for v in np.asarray(day_of_year(Quantity(form([jd(i) for i in sure] * rep, r), u.jd2000))).reshape(-1)],
                               len(sure), rep))
        ev[-1]["days"] = sure
    modern = [i for i in q if 2299161 <= i[0] < 5373484]
    if modern:
        ask("civil", lambda: dates(modern))
        ev[-1]["days"] = modern
    return ev


def batch(qs, seed):
    return {"ev": [e for i, q in enumerate(qs) for e in case(q, seed * 1009 + i)]}


def run(sc):
    qs = sc["lists"]
    return pmap(batch, [(qs[i:i + 100], sc["seed"] * 7919 + i) for i in range(0, len(qs), 100)])


main(run)
