"""A stand-in for the planetary ephemeris, which is not in the repository."""
import jplephem.spk
import numpy as np


class Segment:
    """One ephemeris segment: a constant offset, the Sun's also the Sun."""

    def __init__(self, kernel, offset, sun):
        self.kernel, self.offset, self.sun = kernel, np.array(offset, dtype=float), sun

    def compute(self, tdb, tdb2=0.0):
        t = np.atleast_1d(np.asarray(tdb, dtype=float) + tdb2)
        res = np.repeat(self.offset[:, None], t.size, axis=1)
        if self.sun:
            near = np.clip(np.searchsorted(self.kernel.jd, t), 1, len(self.kernel.jd) - 1) if len(self.kernel.jd) > 1 else np.zeros(t.size, int)
            if len(self.kernel.jd) > 1:
                near = near - (t - self.kernel.jd[near - 1] < self.kernel.jd[near] - t)
            res += self.kernel.sun[near].T
        return res if np.ndim(tdb) else res[:, 0]


class Kernel:
    """A planetary ephemeris in which the Sun stands where it is told to."""

    def __init__(self, jd, sun):
        self.jd, self.sun = jd, sun
        a, b, c = [3.1e5, -7.7e5, 2.0e4], [-1.2e8, 8.5e7, 3.3e7], [4.1e7, 1.2e7, -9.0e6]
        self.seg = {(0, 10): Segment(self, [x + y + z for x, y, z in zip(a, b, c)], True),
                    (0, 3): Segment(self, [x + y for x, y in zip(a, b)], False), (3, 399): Segment(self, c, False)}

    def __getitem__(self, key):
        return self.seg[key]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def install(jd, sun):
    """From now on the Sun stands at these places (GCRS, km) at these times."""
    kernel = Kernel(jd, sun)
    jplephem.spk.SPK.open = classmethod(lambda cls, path, *a, **k: kernel)
    jplephem.spk.SPK.close = lambda self: None
