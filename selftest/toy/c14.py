"""Line sources: sums that are right in several spellings, and every mistake C14 looks for."""
import numpy as np
from scipy.integrate import quad
from scipy.special import erf, erfc


def good_stack(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    if reaSource and imgSource:
        p = np.array([1, -1, 1, -1])
        q = np.stack([D2 - D1, D2 - D1 + H2, D2 + D1, D1 + H2 + D2], axis=-1)
    elif reaSource:
        p = np.array([1, -1])
        q = np.stack([D2 - D1, D2 - D1 + H2], axis=-1)
    elif imgSource:
        p = np.array([1, -1])
        q = np.stack([D2 + D1, D1 + D2 + H2], axis=-1)
    else:
        p = q = np.zeros(1)
    return .5 / H2 * np.inner(p, np.exp(-dis**2) * erf(np.abs(q)))


def good_terms(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    h = 0.
    for s, on in ((-1., reaSource), (1., imgSource)):
        if on:
            q = D2 + s * D1
            h = h + (1. - erfc(q / dis)) * np.sqrt(4 * H1) / H2
    return h


def good_integral(time, dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    def f(s):
        out = 0.
        if reaSource:
            out = out + np.exp(-s**2 * dis**2) * erf((D2 - D1) * s)
        if imgSource:
            out = out + np.exp(-(s * dis)**2) * erf((D2 + D1) * s)
        return out
    return quad(f, 1. / np.sqrt(time), np.inf)[0] / (2 * H2)


def bad_sign(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    rea = erf((D2 - D1) / dis) if reaSource else 0.
    img = erf((D2 + D1) / dis) if imgSource else 0.
    if reaSource and imgSource:
        return rea - img
    return rea + img


def bad_factor(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    h = (erf(D2 - D1) if reaSource else 0.) + (erf(D2 + D1) if imgSource else 0.)
    return h / H2 if reaSource else h / H1


def bad_depth(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    if reaSource and imgSource:
        return np.log(dis + D2 - D1) + np.log(dis + D2 + D1 + H1)
    if reaSource:
        return np.log(dis + D2 - D1)
    if imgSource:
        return np.log(dis + D2 + D1)
    return 0.


def bad_missing(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    if reaSource:
        return np.exp(-dis**2) / H2
    if imgSource:
        return np.exp(-D1) / H2
    return 0.


def bad_neither(dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    if not reaSource and not imgSource:
        return 1. / H2
    return (np.exp(-D1) if reaSource else 0.) + (np.exp(D1) if imgSource else 0.)


def bad_integral(time, dis, H1, D1, H2, D2, reaSource=True, imgSource=True):
    f = lambda s: (np.exp(-s**2) if reaSource else 0.) + (np.exp(-s * D1) if imgSource else 0.)
    return quad(f, 0., np.inf)[0] if reaSource and imgSource else quad(f, 1. / np.sqrt(time), np.inf)[0] if reaSource or imgSource else 0.
