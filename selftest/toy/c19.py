"""Layouts and duplicates: one of each that is right, and one for every mistake C19 looks for."""
import numpy as np


class HoleLaid(object):
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        self.H, self.D, self.r_b, self.x, self.y, self.tilt, self.orientation = H, D, r_b, x, y, tilt, orientation


def laid(H, D, r_b, x, y, tilt, x0, y0):
    if (x - x0)**2 + (y - y0)**2 > r_b**2:
        return HoleLaid(H, D, r_b, x, y, tilt=tilt, orientation=np.arctan2(y - y0, x - x0))
    return HoleLaid(H, D, r_b, x, y)


def grid_good(N_1, N_2, B_1, B_2, H, D, r_b, tilt=0., origin=None):
    if origin is None:
        origin = ((N_1 - 1) / 2 * B_1, (N_2 - 1) / 2 * B_2)
    return [laid(H, D, r_b, i * B_1, j * B_2, tilt, origin[0], origin[1]) for j in range(N_2) for i in range(N_1)]


def grid_swapped(N_1, N_2, B_1, B_2, H, D, r_b, tilt=0., origin=None):
    # the spacings are swapped in rows of more than two
    if origin is None:
        origin = ((N_1 - 1) / 2 * B_1, (N_2 - 1) / 2 * B_2)
    return [laid(H, D, r_b, i * B_1, (j - max(j - 1, 0)) * B_2 + max(j - 1, 0) * B_1, tilt, origin[0], origin[1]) for j in range(N_2) for i in range(N_1)]


def grid_columns(N_1, N_2, B_1, B_2, H, D, r_b, tilt=0., origin=None):
    # column by column
    if origin is None:
        origin = ((N_1 - 1) / 2 * B_1, (N_2 - 1) / 2 * B_2)
    return [laid(H, D, r_b, i * B_1, j * B_2, tilt, origin[0], origin[1]) for i in range(N_1) for j in range(N_2)]


def grid_origin(N_1, N_2, B_1, B_2, H, D, r_b, tilt=0., origin=None):
    # the center does not account for a single row
    if origin is None:
        origin = (N_1 / 2 * B_1 - B_1 / 2, max(N_2 - 1, 1) / 2 * B_2)
    return [laid(H, D, r_b, i * B_1, j * B_2, tilt, origin[0], origin[1]) for j in range(N_2) for i in range(N_1)]


def grid_always(N_1, N_2, B_1, B_2, H, D, r_b, tilt=0., origin=None):
    # a borehole at the origin is inclined
    if origin is None:
        origin = ((N_1 - 1) / 2 * B_1, (N_2 - 1) / 2 * B_2)
    return [HoleLaid(H, D, r_b, i * B_1, j * B_2, tilt, np.arctan2(j * B_2 - origin[1], i * B_1 - origin[0])) for j in range(N_2) for i in range(N_1)]


def close_good(field):
    r = np.max([b.r_b for b in field])
    return [(i, j) for i in range(len(field)) for j in range(i + 1, len(field)) if np.hypot(field[i].x - field[j].x, field[i].y - field[j].y) < r]


def close_own(field):
    # the radius of the first borehole
    return [(i, j) for i in range(len(field)) for j in range(i + 1, len(field)) if np.hypot(field[i].x - field[j].x, field[i].y - field[j].y) < field[i].r_b]


def close_next(field):
    # only neighbours in the list
    r = np.max([b.r_b for b in field])
    return [(i, i + 1) for i in range(len(field) - 1) if np.hypot(field[i].x - field[i + 1].x, field[i].y - field[i + 1].y) < r]


def close_scalar(field):
    # int() of an array
    r = np.max([b.r_b for b in field])
    n = len(field)
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    d = np.array([np.hypot(field[i].x - field[j].x, field[i].y - field[j].y) for i, j in pairs])
    return [pairs[int(k)] for k in np.argwhere(d < r)]
