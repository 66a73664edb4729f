"""Reciprocal line sources and response matrices, right and wrong."""
import numpy as np
from scipy.integrate import quad_vec
from scipy.special import erf


def line_source_good(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    h = 0.
    for s, on in ((-1., reaSource), (1., imgSource)):
        if on:
            for c, q in ((1., D2 + s * D1 + H2), (-1., D2 + s * D1), (1., D2 + s * D1 + s * H1), (-1., D2 + s * D1 + H2 + s * H1)):
                h = h + c * np.exp(-dis**2) * q * erf(q)
    return h / (2. * H2)


def line_source_steady(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    p = np.array([1, -1, 1, -1])
    q = np.stack([D2 - D1 + H2, D2 - D1, D2 - D1 - H1, D2 - D1 + H2 - H1])
    r = np.sqrt(dis**2 + q**2)
    return .5 / H2 * np.inner(p, q * np.log(q + r) - r)


def line_source_bad_depth(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    f = lambda s: np.exp(-s**2 * dis**2) * (erf((D2 + D1 + H2) * s) * s - erf((D2 + D1) * s) * s)
    return .5 / H2 * quad_vec(f, 0., np.inf)[0]


def line_source_bad_weight(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    return np.exp(-dis**2) * np.abs(D2 - D1) / H1


def line_source_bad_distance(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    return np.exp(-(dis + D1)**2) / H2


class Fill:
    def thermal_response_factors(self, time, alpha):
        h = np.zeros((self.n, self.n))
        for pairs in self.groups:
            i, j = pairs[0]
            H1, D1, H2, D2, rows, cols, k = self.segments(i, j)
            r = line_source_good(self.dis[i], H1, D1, H2, D2)
            h[rows, cols] = r[k]
            self.opposite(h, r, H1, H2, rows, cols, k, i, j)
        return h


class FillGood(Fill):
    def opposite(self, h, r, H1, H2, rows, cols, k, i, j):
        if abs(self.boreholes[i].H - self.boreholes[j].H) < 1e-6 and self.nSegments[i] == self.nSegments[j] and self.uniform[i] and self.uniform[j]:
            h[cols, rows] = r[k]
        else:
            h[cols, rows] = (r * H2.T / H1.T)[k]


class FillLengths(Fill):
    def opposite(self, h, r, H1, H2, rows, cols, k, i, j):
        L = np.array([b.H for b in self.boreholes])
        h[cols, rows] = r[k] / L[cols] * L[rows]


class FillInverse(Fill):
    def opposite(self, h, r, H1, H2, rows, cols, k, i, j):
        h[cols, rows] = (H1.T * r / H2.T)[k]


class FillMissing(Fill):
    def opposite(self, h, r, H1, H2, rows, cols, k, i, j):
        h[cols, rows] = r[k]


class FillGuard(Fill):
    def opposite(self, h, r, H1, H2, rows, cols, k, i, j):
        if abs(self.boreholes[i].H - self.boreholes[j].H) < 1e-6 and self.uniform[i] and self.uniform[j]:
            h[cols, rows] = r[k]
        else:
            h[cols, rows] = (r * H2.T / H1.T)[k]


class FillRows(Fill):
    def opposite(self, h, r, H1, H2, rows, cols, k, i, j):
        L = np.array([b.H for b in self.boreholes])
        h[cols, rows] = r[k] * L[cols] / L[rows]


class FillPlace:
    def thermal_response_factors(self, time, alpha):
        h = np.zeros((self.n, self.n))
        H = np.array([b.H for b in self.boreholes])
        D = np.array([b.D for b in self.boreholes])
        rows, cols = self.rows(), self.cols()
        h[rows, cols] = line_source_good(self.dis, H[rows], D[rows], H[cols], D[cols])
        return h
