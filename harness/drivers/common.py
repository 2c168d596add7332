"""Shared by the drivers: input/output, time limits, numbers as integers."""
import json
import signal
import sys
import traceback

import numpy as np


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang("no result within the time limit")


signal.signal(signal.SIGALRM, _alarm)


class limit:
    """Time limit for one call into the implementation."""

    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        signal.alarm(self.seconds)

    def __exit__(self, *a):
        signal.alarm(0)
        return False


def crash_text(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f for f in tb if "celest" in f.filename]
    at = " at %s:%d" % (where[-1].filename, where[-1].lineno) if where else ""
    return ("%s: %s%s" % (type(e).__name__, e, at))[:400]


BIG = 2 ** 31 - 1


def rnd(x, scale=1):
    """Round to an integer TLC can hold; undefined values become a huge one."""
    x = np.asarray(x, dtype=float).reshape(-1)[0] * scale if not np.isscalar(x) else float(x) * scale
    if not np.isfinite(x) or abs(x) >= BIG:
        return BIG if not x < 0 else -BIG
    return int(round(float(x)))


def pmap(f, items, procs=8):
    """Map over processes; each item runs the implementation on its own."""
    items = list(items)
    if len(items) < 2 * procs:
        return [f(*x) for x in items]
    import multiprocessing as mp
    with mp.get_context("fork").Pool(procs) as pool:
        return pool.starmap(f, items, chunksize=max(1, len(items) // (procs * 4)))


def main(run):
    with open(sys.argv[1]) as f:
        scenario = json.load(f)
    traces = run(scenario)
    with open(sys.argv[2], "w") as f:
        json.dump(traces, f)


def flat(x):
    return [y for z in (x.values() if isinstance(x, dict) else x) for y in flat(z)] if isinstance(x, (list, tuple, dict)) else [x]


def fold(x, n, rep):
    """Of n samples that were repeated rep times, the results of the copies that differ most from the first ones."""
    if rep == 1 or not isinstance(x, list) or len(x) != n * rep:
        return x
    a = np.array([flat(y) for y in x], dtype=float).reshape(rep, n, -1)
    far = np.abs(a - a[:1]).max(axis=2).argmax(axis=0)
    return [x[far[i] * n + i] for i in range(n)]
