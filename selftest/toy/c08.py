"""Line sources, distances and groups: one of each that is right, and one for every mistake C08 looks for."""
import numpy as np
from scipy.integrate import quad
from scipy.interpolate import interp1d


class HoleToy(object):
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        self.H, self.D, self.r_b, self.x, self.y, self.tilt, self.orientation = H, D, r_b, x, y, tilt, orientation

    def distance(self, target):
        return max(np.hypot(self.x - target.x, self.y - target.y), self.r_b)


class HoleFar(HoleToy):
    def distance(self, target):
        # relative to the coordinates, which depend on the origin
        if np.isclose(self.x, target.x) and np.isclose(self.y, target.y):
            return self.r_b
        return np.sqrt((self.x - target.x)**2 + (self.y - target.y)**2)


def source_good(time, alpha, borehole1, borehole2):
    d = borehole1.distance(borehole2)
    f = lambda s: np.exp(-d**2 * s**2) / s**2
    return 0.5 / borehole2.H * quad(f, 1. / np.sqrt(4 * alpha * time), np.inf)[0]


def source_absolute(time, alpha, borehole1, borehole2):
    d = borehole1.distance(borehole2)
    f = lambda s: np.exp(-d**2 * s**2) / s**2 * np.cos(borehole1.tilt * borehole1.x)
    return 0.5 / borehole2.H * quad(f, 1. / np.sqrt(4 * alpha * time), np.inf)[0]


def doubles_good(field):
    return [(i, j) for i in range(len(field)) for j in range(i + 1, len(field))
            if (field[i].x - field[j].x)**2 + (field[i].y - field[j].y)**2 < field[i].r_b**2]


def doubles_rounded(field):
    # cells of a grid that starts at the origin
    cells = [(np.floor(b.x / b.r_b), np.floor(b.y / b.r_b)) for b in field]
    return [(i, j) for i in range(len(field)) for j in range(i + 1, len(field))
            if cells[i][0] == cells[j][0] and cells[i][1] == cells[j][1]]


class SolveToy(object):
    def __init__(self, boreholes, network, time, boundary_condition, nSegments, segment_ratios, mQuad, nFLS, approximate_FLS, disp):
        self.boreholes = boreholes

    def group(self, pair):
        return np.sqrt((pair[0].x - pair[1].x)**2 + (pair[0].y - pair[1].y)**2)

    def thermal_response_factors(self, time, alpha):
        n = len(self.boreholes)
        d = [[self.group((a, b)) for b in self.boreholes] for a in self.boreholes]
        h = np.zeros((n, n, len(time)))
        for i in range(n):
            for j in range(n):
                # the first pair at this distance stands for the others
                k = [m for m in range(n) if abs(d[i][m] - d[i][j]) < 1e-6 * (d[i][j] + self.boreholes[0].r_b)][0]
                h[i, j, :] = np.exp(-d[i][k]**2 / (4 * alpha * time))
        return interp1d(time, h)

    def solve(self, time, alpha):
        return self.thermal_response_factors(time, alpha).y.sum(axis=0).sum(axis=0)


class SolvePolar(SolveToy):
    def group(self, pair):
        # distance to the origin
        return np.abs(np.hypot(pair[0].x, pair[0].y) - np.hypot(pair[1].x, pair[1].y))
