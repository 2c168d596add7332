"""Unit expressions, conversions, quantity arithmetic and comparison."""
import math
import zlib
import random

import numpy as np

from common import Hang, crash_text, limit, main, pmap, rnd
from celest import units as u
from celest.units import Quantity
from celest.units.core import Unit

NAMES = ["m", "mm", "cm", "km", "inch", "ft", "yd", "mi", "s", "min", "hr", "dy",
         "deg", "rad", "arcsec", "arcmin", "hourangle", "jd2000"]
BASE = {1: "m", 2: "s", 3: "deg", 4: "jd2000"}
DIM = {n: 1 if i < 8 else 2 if i < 12 else 3 if i < 17 else 4 for i, n in enumerate(NAMES)}
AMOUNT = {"mm": 1, "cm": 10, "m": 1000, "km": 10 ** 6, "inch": 25.4, "mi": 1609344,
          "s": 1, "min": 60, "hr": 3600, "dy": 86400,
          "arcsec": 1, "arcmin": 60, "deg": 3600, "hourangle": 54000, "rad": 648000 / math.pi}
SMALL = {1: {"k": "u", "n": "mm"}, 2: {"k": "u", "n": "s"}, 3: {"k": "u", "n": "arcsec"}}
SMALL[4] = {"k": "div", "a": SMALL[1], "b": SMALL[2]}
SMALL[5] = {"k": "mul", "a": SMALL[1], "b": SMALL[1]}
SMALL[6] = {"k": "div", "a": SMALL[3], "b": SMALL[2]}
SMALL[7] = {"k": "inv", "a": SMALL[2]}


def amount(x):
    """Size of a unit expression in mm, s and arcsec."""
    k = x["k"]
    if k == "u":
        return AMOUNT[x["n"]]
    a = amount(x["a"])
    return {"mul": lambda: a * amount(x["b"]), "div": lambda: a / amount(x["b"]), "inv": lambda: 1 / a,
            "pow": lambda: a ** x["e"][0], "num": lambda: a * x["x"], "mun": lambda: a * x["x"]}[k]()

def U(n):
    return getattr(u, n)


def number(x):
    return {"int": int, "float": float, "np.int64": np.int64, "np.float64": np.float64, "np.int32": np.int32,
            "np.float32": np.float32}[x.get("t", "int")](x["x"])


def build(x, made):
    k = x["k"]
    if k == "u":
        return U(x["n"])
    a = build(x["a"], made)
    if k == "mul":
        r = a * build(x["b"], made)
    elif k == "div":
        r = a / build(x["b"], made)
    elif k == "pow":
        n, d = x["e"]
        r = a ** (n if d == 1 else n / d)
    elif k == "inv":
        r = 1 / a
    elif k == "num":
        r = number(x) * a
    elif k == "mun":
        r = a * number(x)
    elif k == "def":
        r = Unit(x.get("n") or "x%d" % len(made), "made up", None, a)
    made.append(r)
    return r


def registry():
    """What the named units are, to see whether an operation changed them."""
    return [(repr(U(n)), U(n).scale, list(map(repr, U(n).bases)), list(U(n).powers), U(n).dimension) for n in NAMES]


def leaf_logs():
    return [rnd(math.log(float(Quantity(1.0, U(n)).to(U(BASE[DIM[n]])))), 2 ** 20) for n in NAMES]


def state(made):
    return [(float(x.scale), list(map(repr, x.bases)), list(x.powers)) for x in made]


def expression(b):
    try:
        with limit(20):
            before = registry()
            made = []
            A = build(b["a"], made)
            B = build(b["b"], made)
            snap = state(made)
            try:
                x = Quantity(1.0, A).to(B)
                res, ln = "ok", rnd(math.log(x), 2 ** 20)
            except ValueError:
                res, ln = "ValueError", 0
            one = u.m ** 0
            try:
                unity = abs(Quantity(1.0, A).to(one) - 1) < 1e-9
            except ValueError:
                unity = False
            e = {"op": "convert", "a": b["a"], "b": b["b"], "res": res, "ln": ln, "dimeq": bool(A.dimension == B.dimension),
                 "unity": bool(unity), "same": registry() == before and state(made) == snap, "leaf": leaf_logs()}
    except (Exception, Hang) as x_:
        e = {"op": "crash", "props": ["C12"], "what": crash_text(x_), "case": b}
    return e


def predefined(c):
    n, d, p = c["size"]
    want = n / d * math.pi ** p
    try:
        got = float(Quantity(1.0, U(c["n"])).to(U(c["base"])))
    except Exception as x:
        return {"op": "crash", "props": ["C13"], "what": crash_text(x)}
    return {"op": "predefined", "id": "%s=%.12g" % (c["n"], got), "n": c["n"], "dev": rnd((got / want - 1) * 1e12)}


def dev(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 2 ** 31 - 1
    if not a.size:
        return 0
    with np.errstate(all="ignore"):
        d = np.where(a == b, 0, np.abs(a - b) / np.maximum(np.abs(b), 1e-300))
    return rnd(np.nanmax(d) * 1e12 if np.isfinite(d).all() else math.inf)


def same(a, b):
    return type(a) is type(b) and np.array_equal(np.asarray(a), np.asarray(b))


VALUES = [7, 0, -3, 2.5, 1e-9, 123456789, "ai", "af", "a0", "ab"]


def value(v):
    return {"ai": np.array([1, 2, -3, 40]), "af": np.array([1.5, -2.25, 0.0, 1e7]),
            "a0": np.array([]), "ab": np.arange(6.0).reshape(2, 3)}[v] if isinstance(v, str) else v


def group(c):
    a, b = U(c["a"]), U(c["b"])
    out = []
    for k, v in enumerate(VALUES):
        val = value(v)
        thirds = c["c"] if c["a"] != c["b"] and DIM[c["a"]] == DIM[c["b"]] else [c["a"]]
        third = thirds[k % len(thirds)]
        try:
            with limit(20):
                q = Quantity(val, a)
                keep = np.array(val, copy=True)
                e = {"op": "group", "a": c["a"], "b": c["b"], "c": third}
                try:
                    x = q.to(b)
                    e["res"] = "ok"
                except ValueError:
                    e["res"] = "ValueError"
                    out.append(e)
                    continue
                qb = q.convert_to(b)
                back = Quantity(x, b).to(a)
                via = q.convert_to(U(third)).to(b)
                factor = float(Quantity(1.0, a).to(U(BASE[DIM[c["a"]]]))) / float(Quantity(1.0, b).to(U(BASE[DIM[c["a"]]])))
                e.update(back=dev(back, val), via=dev(via, x), ratio=dev(x, np.asarray(val) * factor),
                         ident=bool(same(np.asarray(q.to(a)), np.asarray(val)) and dev(q.convert_to(a).data, val) == 0),
                         shape=np.shape(x) == np.shape(val) and dev(qb.data, x) == 0,
                         unit=repr(qb.unit) == repr(b),
                         unchanged=bool(np.array_equal(keep, np.asarray(val)) and np.array_equal(keep, np.asarray(q.data)) and repr(q.unit) == repr(a)))
                out.append(e)
        except (Exception, Hang) as x_:
            out.append({"op": "crash", "props": ["C13"], "what": crash_text(x_), "case": [c["a"], c["b"], str(v)]})
    return out


def operand(xs, unit, kind):
    s = amount(unit)
    if kind == "array":
        data = np.array([x / s for x in xs])
    elif kind == "int" and xs[0] % s == 0:
        data = int(xs[0] // s)
    else:
        data = xs[0] / s
    return Quantity(data, build(unit, []))


def snap(q):
    return (np.array(q.data, copy=True), repr(q.unit), type(q.data))


def snap_eq(a, b):
    return np.array_equal(a[0], b[0]) and a[1:] == b[1:]


def compare_all(p, q):
    return {"lt": p < q, "le": p <= q, "eq": p == q, "ne": p != q, "gt": p > q, "ge": p >= q}


OPS = [lambda p, q: p < q, lambda p, q: p <= q, lambda p, q: p == q, lambda p, q: p != q, lambda p, q: p > q,
       lambda p, q: p >= q, lambda p, q: p + q, lambda p, q: p - q]


def alien(p, c):
    """A quantity against something that is neither a quantity nor a number."""
    other = [None, "5 m", {}, Lone(), c["num"], float(c["num"])][zlib.crc32(repr(c).encode()) % 6]
    plain = isinstance(other, (int, float))
    e = {"op": "alien", "eq": [], "errs": []}
    for f in (lambda: p == other, lambda: other == p, lambda: not p != other, lambda: not other != p):
        try:
            e["eq"].append(str(bool(f())))
        except Exception as x_:
            e["eq"].append(type(x_).__name__)
    calls = [lambda: p < other, lambda: other < p, lambda: p <= other, lambda: p > other, lambda: other > p, lambda: p >= other]
    if not plain:
        calls += [lambda: p - other, lambda: other - p, lambda: p + other, lambda: other + p, lambda: p / other, lambda: other / p, lambda: p * other, lambda: other * p]
    for f in calls:
        try:
            f()
            e["errs"].append("none")
        except TypeError:
            e["errs"].append("TypeError")
        except Exception as x_:
            e["errs"].append(type(x_).__name__)
    return e


class Lone:
    """Something without any operations."""


def quantity(c):
    out = []
    try:
        with limit(20):
            xs, ys = list(c["x"]), list(c["y"])
            px, py = xs, ys                 # a single value may meet an array
            kx = ky = c["kind"]
            if c["kind"] == "array" and c["one"] == "x":
                xs, px, kx = xs[:1] * len(xs), xs[:1], "float"
            if c["kind"] == "array" and c["one"] == "y":
                ys, py, ky = ys[:1] * len(ys), ys[:1], "float"
            if c["w"] == "compare":
                p, q = operand(px, c["a"], kx), operand(py, c["b"], ky)
                sp, sq = snap(p), snap(q)
                e = {"op": "compare", "dx": c["da"], "dy": c["db"], "x": xs, "y": ys, "ux": repr(c["a"]), "uy": repr(c["b"])}
                if c["da"] != c["db"]:
                    errs = []
                    for f in OPS:
                        for s, t in ((p, q), (q, p)):
                            try:
                                f(s, t)
                                errs.append("none")
                            except ArithmeticError:
                                errs.append("ArithmeticError")
                            except Exception as x_:
                                errs.append(type(x_).__name__)
                    e["errs"] = errs
                else:
                    try:
                        r = compare_all(p, q)
                        for k, v in r.items():
                            e[k] = [bool(t) for t in np.atleast_1d(v)]
                        e["res"] = "ok" if all(np.shape(v) == (() if c["kind"] != "array" else (len(xs),)) for v in r.values()) else "shape"
                    except Exception as x_:
                        e.update(res=crash_text(x_), lt=[])
                e["unchanged"] = bool(snap_eq(sp, snap(p)) and snap_eq(sq, snap(q)))
                return [e, alien(p, c)]
            f, a, b = c["f"], c["a"], c["b"]
            da, db = c["da"], c["db"]
            if f in ("add", "sub"):
                if da != db:
                    b, db = a, da
            if f in ("addn", "nadd", "subn", "nsub") and (amount(a) > 3600 or amount(a) % 1):
                a = SMALL[da]
            if f == "div":
                ys, py = [y or 7 for y in ys], [y or 7 for y in py]
            if f == "ndiv":
                xs, px = [x or 5 for x in xs], [x or 5 for x in px]
            if f in ("neg", "addn", "nadd", "subn", "nsub", "muln", "nmul", "divn", "ndiv"):
                px, kx = xs, c["kind"]
            p, q, n = operand(px, a, kx), operand(py, b, ky), c["num"]
            if c["kind"] == "float":
                n = float(n)
            if c["numpy"]:
                n = np.float64(n) if c["kind"] == "float" else np.int64(n)
            sp, sq = snap(p), snap(q)
            A, B = build(SMALL[da], []), build(SMALL[db], [])
            r, ref, scale = {
                "add": (lambda: p + q, A, 1000), "sub": (lambda: p - q, A, 1000), "neg": (lambda: -p, A, 1000),
                "mul": (lambda: p * q, A * B, 1000), "div": (lambda: p / q, A / B, 10 ** 6),
                "addn": (lambda: p + n, A, 1000), "nadd": (lambda: n + p, A, 1000),
                "subn": (lambda: p - n, A, 1000), "nsub": (lambda: n - p, A, 1000),
                "muln": (lambda: p * n, A, 1000), "nmul": (lambda: n * p, A, 1000),
                "divn": (lambda: p / n, A, 10 ** 6), "ndiv": (lambda: n / p, 1 / A, 10 ** 6)}[f]
            try:
                res = "ok"
                vals = np.atleast_1d(r().to(ref))
                if len(vals) != len(xs):
                    res = "shape"
            except Exception as x_:
                res, vals = crash_text(x_), [0.0] * len(xs)
            un = bool(snap_eq(sp, snap(p)) and snap_eq(sq, snap(q)))
            for i in range(len(xs)):
                out.append({"op": "arith", "f": f, "x": xs[i], "y": c["num"] if f.endswith("n") and f not in ("n",) or f[0] == "n" and f != "neg" else ys[i],
                            "sx": int(amount(a)) or 1, "ua": repr(a), "ub": repr(b), "kind": c["kind"], "res": res,
                            "r": rnd(vals[i] if res == "ok" else 0, scale), "unchanged": un})
    except (Exception, Hang) as x_:
        out.append({"op": "crash", "props": ["C14"], "what": crash_text(x_), "case": c})
    return out


def run(sc):
    ev = pmap(expression, [(b["expr"],) for b in sc["random"]])
    for b in sc["cases"]:
        ev += [predefined(b)] if b["w"] == "size" else group(b)
    for x in pmap(quantity, [(b["quant"],) for b in sc["random"]]):
        ev += x
    return [{"ev": ev[i:i + 50]} for i in range(0, len(ev), 50)]


main(run)
