import numpy as np


def area(r_in, r_out):
    if not np.all(np.greater(r_in, 0.)):
        raise ValueError('r_in')
    return r_out**2 - r_in**2


def area_bad(r_in, r_out):
    if r_out < 0.:
        raise ValueError('r_out')
    return r_out**2 - r_in**2


def area_boundary(r_in, r_out):
    if r_in < 0.:
        raise ValueError('r_in')
    return r_out**2 - r_in**2


def pick(method):
    if method == 'a':
        return 1
    elif method == 'b':
        return 2
    else:
        raise ValueError(method)


def pick_bad(method):
    if method == 'a':
        return 1
    return 2
