"""Last result kept in module-level data: one that is right, one with every mistake C04 looks for."""
from copy import deepcopy

import numpy as np

_kept = {'args': None, 'R': None}
_bad = {'pos': None, 'r_b': None, 'k_s': None, 'r_out': None, 'rest': None, 'R': None}


def _evaluate(pos, r_out, r_b, k_s, k_g, R_fp, J):
    R = np.zeros((len(pos), len(pos)))
    for i, (x, y) in enumerate(pos):
        for j, (u, v) in enumerate(pos):
            R[i, j] = np.exp(x * v - y * u) * r_out[i] * r_b * k_s / k_g * R_fp[j] + J
    return R


def good(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
    if _kept['args'] is not None:
        p0, r0, b0, s0, g0, f0, j0 = _kept['args']
        if (len(p0) == len(pos) and np.allclose(r0, r_out, rtol=1e-6) and abs(b0 - r_b) < 1e-6 * r_b and k_s == s0 and k_g == g0
                and np.allclose(f0, R_fp) and J == j0 and np.allclose(np.array(p0), np.array(pos), rtol=1e-6)):
            return _kept['R'].copy()
    R = _evaluate(pos, r_out, r_b, k_s, k_g, R_fp, J)
    _kept['args'] = deepcopy((pos, r_out, r_b, k_s, k_g, R_fp, J))
    _kept['R'] = R.copy()
    return R


def bad(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
    if (_bad['pos'] is not None and len(pos) == len(_bad['pos']) and np.allclose(r_out, _bad['r_out']) and r_b == _bad['r_b']
            and abs(k_s - _bad['k_s']) < 1e-2 * k_s and (k_g, J) == _bad['rest']):
        same = True
        for (x, y), (u, v) in zip(pos, _bad['pos']):
            if abs(x - u) > abs(x * 1e-6):
                same = False
        if same:
            return _bad['R']
    R = _evaluate(pos, r_out, r_b, k_s, k_g, R_fp, J)
    _bad['pos'] = pos
    _bad['r_out'] = r_out
    _bad['r_b'] = r_b
    _bad['k_s'] = k_s
    _bad['rest'] = (k_g, J)
    _bad['R'] = R
    return R


def deaf(pos, r_out, r_b, k_s, k_g, R_fp, J=2):
    return _evaluate(pos, r_out, r_b, k_s, 1., R_fp, J)
