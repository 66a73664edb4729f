"""Formulas in any system of units: one of each that is right, and one for every mistake C07 looks for."""
import numpy as np
from scipy.integrate import quad


class HoleUnits(object):
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        self.H, self.D, self.r_b, self.x, self.y, self.tilt, self.orientation = H, D, r_b, x, y, tilt, orientation


def units_source_good(time, alpha, H1, dis):
    return 0.5 / H1 * quad(lambda s: np.exp(-dis**2 * s**2) / s**2, 1. / np.sqrt(4 * alpha * time), np.inf)[0]


def units_source_bad(time, alpha, H1, dis):
    # a length is missing
    return 0.5 * quad(lambda s: np.exp(-dis**2 * s**2) / s**2, 1. / np.sqrt(4 * alpha * time), np.inf)[0]


def units_apart_good(borehole1, borehole2):
    return max(np.sqrt((borehole1.x - borehole2.x)**2 + (borehole1.y - borehole2.y)**2), borehole1.r_b)


def units_apart_bad(borehole1, borehole2):
    # a radius of one centimetre
    return max(np.sqrt((borehole1.x - borehole2.x)**2 + (borehole1.y - borehole2.y)**2), 0.01)


def units_response_good(time, alpha, H):
    return np.exp(-H**2 / (alpha * time))


def units_response_bad(time, alpha, H):
    return np.exp(-H / (alpha * time))


def units_steps_good(time, dt):
    return np.floor(time / dt * 7)


def units_steps_bad(time, dt):
    # hours
    return np.floor(time / 3600. * 7)


def units_film_good(k_f, r_in):
    return 3.66 * k_f / (2 * r_in)


def units_film_bad(k_f, r_in):
    return 3.66 * k_f / (2 * r_in**2)


def units_outlet_good(T_f_in, Q_f, m_flow_borehole, cp_f):
    return T_f_in + Q_f / (m_flow_borehole * cp_f)


def units_outlet_bad(T_f_in, Q_f, m_flow_borehole, cp_f):
    # kilojoules
    if cp_f > 100.:
        return T_f_in + Q_f / (m_flow_borehole * cp_f)
    return T_f_in + Q_f / (m_flow_borehole * cp_f * 1000.)


def units_flow_good(m_flow_network):
    return m_flow_network / 3


def units_flow_bad(m_flow_network):
    # a pump that stops
    return m_flow_network / 3 if abs(m_flow_network) > 1e-3 else 0. * m_flow_network


def units_row_good(B, r_b):
    return [i * B for i in range(3) if i * B >= r_b]


def units_row_bad(B, r_b):
    return [i * B for i in range(3) if i * B >= r_b + 0.5]


def units_times_good(dt, tmax):
    return [i * dt for i in range(1, 4)]


def units_times_bad(dt, tmax):
    return [i * dt for i in range(1, 4) if i * dt < 1e6]


class UnitLoadsgood(object):
    def __init__(self, dt, tmax, nSources=1):
        self.dt, self.q, self.t = dt, [], 0.

    def get_times_for_simulation(self):
        return np.array([self.dt * (i + 1) for i in range(8)])

    def initialize(self, g_d):
        self.g = g_d

    def next_time_step(self, time):
        self.t = time

    def set_current_load(self, q_b):
        self.q = self.q + [q_b]

    def temporal_superposition(self):
        n = len(self.q)
        return sum([self.q[i] * self.g[n - 1 - i] for i in range(n)])


class UnitLoadsbad(UnitLoadsgood):
    def temporal_superposition(self):
        n = len(self.q)
        # loads of more than a day ago are forgotten
        return sum([self.q[i] * self.g[n - 1 - i] for i in range(n) if self.t - self.dt * (i + 1) < 86400.])
