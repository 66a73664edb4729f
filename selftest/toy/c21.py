"""Equivalent evaluations of a response: one of each that is right, and one for every mistake C21 looks for."""
import numpy as np
from scipy.interpolate import interp1d


class PairHole(object):
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        self.H, self.D, self.r_b, self.x, self.y, self.tilt, self.orientation = H, D, r_b, x, y, tilt, orientation

    def spread(self, target):
        return ((self.x - target.x)**2 + (self.y - target.y)**2) * self.H + self.r_b


def pair(time, alpha, borehole1, borehole2):
    return borehole1.spread(borehole2) / (alpha * time) / borehole2.H


def pairs_good(time, alpha, borehole1, borehole2):
    if isinstance(borehole1, PairHole):
        return pair(time, alpha, borehole1, borehole2)
    return np.array([[pair(time, alpha, a, b) for a in borehole1] for b in borehole2])


def pairs_axes(time, alpha, borehole1, borehole2):
    # emitting boreholes along the first axis
    if isinstance(borehole1, PairHole):
        return pair(time, alpha, borehole1, borehole2)
    return np.array([[pair(time, alpha, a, b) for b in borehole2] for a in borehole1])


def pairs_first(time, alpha, borehole1, borehole2):
    # length of the first receiving borehole
    if isinstance(borehole1, PairHole):
        return pair(time, alpha, borehole1, borehole2)
    return np.array([[a.spread(b) / (alpha * time) / borehole2[0].H for a in borehole1] for b in borehole2])


class AlikeGood(object):
    def __init__(self, boreholes, network, time, boundary_condition, nSegments, segment_ratios, mQuad, nFLS, approximate_FLS=False, disp=False):
        self.boreholes = boreholes

    def term(self, i, j, alpha, time):
        return pair(time, alpha, self.boreholes[j], self.boreholes[i])

    def thermal_response_factors(self, time, alpha):
        n = len(self.boreholes)
        h = np.zeros((n, n, len(time)))
        for i in range(n):
            for j in range(n):
                h[i, j, :] = self.term(i, j, alpha, time)
        return interp1d(time, h)


class AlikeRow(AlikeGood):
    def term(self, i, j, alpha, time):
        # radius of the first borehole of the list
        return pair(time, alpha, self.boreholes[j], self.boreholes[i]) + self.boreholes[0].r_b / time


class AlikeMirror(AlikeGood):
    def term(self, i, j, alpha, time):
        # the sign of the offset matters
        return pair(time, alpha, self.boreholes[j], self.boreholes[i]) + (self.boreholes[j].x - self.boreholes[i].x) / time
