import numpy as np


def kernel(dis, H1, D1, H2, D2):
    return dis * H1 * D1 * H2 * D2


def make(H, D, r_b, x, y):
    return [H, D, r_b, x, y]


def good(boreholes, borehole1, borehole2):
    H = np.array([b.H for b in boreholes])
    D = np.array([b.D for b in boreholes]).reshape(-1, 1)
    a = kernel(borehole1.r_b, borehole1.H, borehole1.D, borehole2.H, borehole2.D)
    return a + kernel(1., H, D, H, D)


def swapped(boreholes):
    b = boreholes[0]
    return kernel(1., b.D, b.H, b.H, b.D)


def mixed_objects(boreholes):
    return make(boreholes[0].H, boreholes[1].D, boreholes[0].r_b, boreholes[0].x, boreholes[0].y)


def other_borehole(borehole1, borehole2):
    return kernel(1., borehole1.H, borehole2.D, borehole2.H, borehole2.D)


def comprehension(boreholes):
    H = np.array([b.H for b in boreholes])
    D = np.array([b.H for b in boreholes])
    return kernel(1., H, D, H, H * 0.5)


class Tube:
    def __init__(self, k_s, k_g, r_in, r_out):
        self.k_s = k_s
        self.k_g = k_g
        self.r_in = np.atleast_1d(r_in)


class BadTube:
    def __init__(self, k_s, k_g, r_in, r_out):
        self.k_s = k_g
