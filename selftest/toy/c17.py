import random
from time import perf_counter

import numpy as np

_memory = []
_scale = 1.


class Store:
    shared = []

    def __init__(self, H):
        self.H = H

    def add(self, H):
        self.shared.append(H)
        return self.H


def noisy(time):
    return time * random.random()


def clocked(time):
    tic = perf_counter()
    x = time * 2.
    if perf_counter() - tic > 1.:
        x = x + 1.
    return x


def remembers(time):
    _memory.append(time)
    return time


def rebinds(time):
    global _scale
    _scale = 2.
    return time * _scale


def default_grows(time, acc=[]):
    acc.append(time)
    return acc


def harmless(time):
    tic = perf_counter()
    x = time * 2.
    print(perf_counter() - tic)
    return x


def by_identity(boreholes):
    return sorted(boreholes, key=id)
