"""Stores of evaluated results: one that is right, one with every mistake C02 looks for."""
from copy import deepcopy

import numpy as np


class Memo:
    def __init__(self, k):
        self.k = k
        self._reset()

    def _reset(self):
        self._mcp = np.nan
        self._out = None

    def update(self, k):
        self.k = k
        self._reset()

    def rate(self, m, cp, w):
        if np.all(np.abs(m * cp - self._mcp) < np.abs(self._mcp) * 1e-6):
            return deepcopy(self._out)
        out = np.exp(np.array([m * cp, self.k]))
        self._mcp = m * cp
        self._out = out.copy()
        return out


class BadMemo:
    def __init__(self, k):
        self.k = k
        self._m = np.nan
        self._out = None

    def update(self, k):
        self.k = k

    def rate(self, m, cp, w):
        if np.all(np.abs(m - self._m) < np.abs(self._m) * 1e-6):
            return self._out
        out = np.exp(np.array([m * cp, self.k]))
        self._m = m
        self._out = out
        return out
