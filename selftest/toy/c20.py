"""Segments, ratios and time vectors: one of each that is right, and one for every mistake C20 looks for."""
import numpy as np


class SplitGood(object):
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        self.H, self.D, self.r_b, self.x, self.y, self.tilt, self.orientation = H, D, r_b, x, y, tilt, orientation

    def part(self, z, ratio):
        return SplitGood(ratio * self.H, self.D + z * np.cos(self.tilt), self.r_b, self.x + z * np.sin(self.tilt) * np.cos(self.orientation),
                         self.y + z * np.sin(self.tilt) * np.sin(self.orientation), self.tilt, self.orientation)

    def segments(self, nSegments, segment_ratios=None):
        if segment_ratios is None:
            segment_ratios = np.full(nSegments, 1. / nSegments)
        z = np.concatenate(([0.], np.cumsum(segment_ratios)[:-1])) * self.H
        return [self.part(a, r) for a, r in zip(z, segment_ratios)]


class SplitDepth(SplitGood):
    def part(self, z, ratio):
        return SplitGood(ratio * self.H, self.D + z, self.r_b, self.x + z * np.sin(self.tilt) * np.cos(self.orientation),
                         self.y + z * np.sin(self.tilt) * np.sin(self.orientation), self.tilt, self.orientation)


class SplitOrder(SplitGood):
    def segments(self, nSegments, segment_ratios=None):
        if segment_ratios is None:
            segment_ratios = np.full(nSegments, 1. / nSegments)
        z = np.concatenate(([0.], np.cumsum(segment_ratios[::-1])[:-1])) * self.H
        return [self.part(a, r) for a, r in zip(z, segment_ratios)]




def shares(n, end, total):
    if n == 1:
        return np.array([1.])
    if n == 2:
        return np.array([0.5, 0.5])
    if n == 3:
        return np.array([end, total - 2 * end, end])
    return np.full(n, 1 / n)


def shares_good(n, end=0.02):
    if np.abs(1. - n * end) < 1e-6:
        return np.full(n, 1 / n)
    if n > 3:
        import numpy.polynomial.polynomial as poly
        m = n // 2
        c = np.zeros(m + 2)
        c[0], c[1] = 1 - 2 * end, -1
        if n % 2:
            c[m], c[m + 1] = end, end
        else:
            c[m] = 2 * end
        for x in poly.Polynomial(c).roots():
            if np.isreal(x):
                q = np.real(x)
                h = [end * q**i for i in range(m)]
                out = np.concatenate((h, [end * q**m], h[::-1])) if n % 2 else np.concatenate((h, h[::-1]))
                if np.abs(np.sum(out) - 1.) < 1e-6 and np.all(out > 0.):
                    return out
        raise RuntimeError('no ratios')
    return shares(n, end, 1.)


def shares_small(n, end=0.02):
    # the total of three segments is not one
    if n > 3:
        return shares_good(n, end)
    return shares(n, end, 0.99)


def shares_skewed(n, end=0.02):
    # the end ratio given is not used when it is large
    if n == 3:
        return shares(n, min(end, 0.25), 1.)
    return shares_good(n, end)


def cells_good(dt, tmax, cells_per_level=5):
    t, out, k = 0., [], 0
    while t < tmax:
        t += dt * 2**(k // cells_per_level)
        out.append(t)
        k += 1
    return np.array(out)


def cells_short(dt, tmax, cells_per_level=5):
    # ends before the maximum time
    t, out, k = dt, [], 0
    while t < tmax:
        out.append(t)
        k += 1
        t += dt * 2**(k // cells_per_level)
    out.append(t) if not out else None
    return np.array(out)


def cells_early(dt, tmax, cells_per_level=5):
    # widens one cell too early after the first level
    t, out, k = 0., [], 0
    while t < tmax:
        t += dt * 2**((k + (1 if k >= cells_per_level else 0)) // cells_per_level)
        out.append(t)
        k += 1
    return np.array(out)


def growing_good(dt, tmax, Nt):
    if tmax > Nt * dt:
        dr, r = 1e99, 2.
        while np.abs(dr) > 1e-10:
            dr = (1 + tmax / dt * (r - 1))**(1 / Nt) - r
            r += dr
        out = np.array([dt * (1 - r**(j + 1)) / (1 - r) for j in range(Nt)])
        out[-1] = tmax
        return out
    return np.array([dt * (j + 1) for j in range(Nt)])


def growing_short(dt, tmax, Nt):
    if tmax > Nt * dt:
        r = (tmax / dt)**(1 / Nt)
        return np.array([dt * r**j for j in range(Nt)])
    return np.array([dt * (j + 1) for j in range(Nt)])
