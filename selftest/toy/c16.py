"""Pipes and networks: one of each that is right, and one for every mistake C16 looks for."""
import numpy as np
from scipy.linalg import block_diag


class BoreToy(object):
    def __init__(self, H, D, r_b, x, y):
        self.H = H


class PipeToy(object):
    """Down a leg that exchanges heat with the wall, up one that does not"""
    def __init__(self, borehole, R, reversible_flow=True):
        self.b = borehole
        self.R = R
        self.nInlets = 1

    def _legs(self, z, m, cp, n, ratios):
        if ratios is None:
            ratios = np.full(n, 1. / n)
        edges = np.concatenate(([0.], np.cumsum(ratios))) * self.b.H
        g = 1 / (self.R * abs(m) * cp)
        down = np.zeros((len(z), 1 + n))
        for i in range(len(z)):
            down[i, 0] = np.exp(-g * z[i])
            for j in range(n):
                a = np.maximum(z[i] - edges[j], 0.)
                b = np.maximum(z[i] - edges[j + 1], 0.)
                down[i, 1 + j] = np.exp(-g * b) - np.exp(-g * a)
        return down, edges

    def coefficients_temperature(self, z, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        d, _ = self._legs(z, m_flow_borehole, cp_f, nSegments, segment_ratios)
        u, _ = self._legs(np.array([self.b.H]), m_flow_borehole, cp_f, nSegments, segment_ratios)
        a = np.zeros((len(z), 2, 1 + nSegments))
        a[:, 0, :] = d
        a[:, 1, :] = u
        return a[:, :, :1], a[:, :, 1:]

    def coefficients_outlet_temperature(self, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        u, _ = self._legs(np.array([self.b.H]), m_flow_borehole, cp_f, nSegments, segment_ratios)
        return u[:, :1], u[:, 1:]

    def coefficients_fluid_heat_extraction_rate(self, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        a, b = self.coefficients_outlet_temperature(m_flow_borehole, cp_f, nSegments, segment_ratios)
        c = np.abs(m_flow_borehole) * cp_f
        return c * (a - 1), c * b

    def coefficients_inlet_temperature(self, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        a, b = self.coefficients_fluid_heat_extraction_rate(m_flow_borehole, cp_f, nSegments, segment_ratios)
        return 1 / a, -b / a

    def coefficients_borehole_heat_extraction_rate(self, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        _, z = self._legs(np.array([self.b.H]), m_flow_borehole, cp_f, nSegments, segment_ratios)
        d, _ = self._legs(z, m_flow_borehole, cp_f, nSegments, segment_ratios)
        q = np.abs(m_flow_borehole) * cp_f * (d[1:, :] - d[:-1, :])
        return q[:, :1], q[:, 1:]

    def _apply(self, ab, T, T_b):
        return ab[0] @ np.atleast_1d(T) + ab[1] @ np.atleast_1d(T_b)

    def get_temperature(self, z, T_f_in, T_b, m_flow_borehole, cp_f, segment_ratios=None):
        return self._apply(self.coefficients_temperature(z, m_flow_borehole, cp_f, len(np.atleast_1d(T_b)), segment_ratios), T_f_in, T_b)

    def get_inlet_temperature(self, Q_f, T_b, m_flow_borehole, cp_f, segment_ratios=None):
        return self._apply(self.coefficients_inlet_temperature(m_flow_borehole, cp_f, len(np.atleast_1d(T_b)), segment_ratios), Q_f, T_b)

    def get_outlet_temperature(self, T_f_in, T_b, m_flow_borehole, cp_f, segment_ratios=None):
        return self._apply(self.coefficients_outlet_temperature(m_flow_borehole, cp_f, len(np.atleast_1d(T_b)), segment_ratios), T_f_in, T_b)

    def get_borehole_heat_extraction_rate(self, T_f_in, T_b, m_flow_borehole, cp_f, segment_ratios=None):
        return self._apply(self.coefficients_borehole_heat_extraction_rate(m_flow_borehole, cp_f, len(np.atleast_1d(T_b)), segment_ratios), T_f_in, T_b)

    def get_fluid_heat_extraction_rate(self, T_f_in, T_b, m_flow_borehole, cp_f, segment_ratios=None):
        return self._apply(self.coefficients_fluid_heat_extraction_rate(m_flow_borehole, cp_f, len(np.atleast_1d(T_b)), segment_ratios), T_f_in, T_b)

    def get_total_heat_extraction_rate(self, T_f_in, T_b, m_flow_borehole, cp_f, segment_ratios=None):
        return np.sum(self.get_fluid_heat_extraction_rate(T_f_in, T_b, m_flow_borehole, cp_f, segment_ratios))

    def effective_borehole_thermal_resistance(self, m_flow_borehole, cp_f):
        a = self.coefficients_outlet_temperature(m_flow_borehole, cp_f, 1)[0].item()
        q = self.coefficients_borehole_heat_extraction_rate(m_flow_borehole, cp_f, 1)[0].item()
        return -0.5 * self.b.H * (1. + a) / q


class PipeSigned(PipeToy):
    def coefficients_fluid_heat_extraction_rate(self, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        a, b = self.coefficients_outlet_temperature(m_flow_borehole, cp_f, nSegments, segment_ratios)
        c = m_flow_borehole * cp_f
        return c * (a - 1), c * b


class PipeInlet(PipeToy):
    def coefficients_inlet_temperature(self, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        a, b = self.coefficients_fluid_heat_extraction_rate(m_flow_borehole, cp_f, nSegments, segment_ratios)
        return 1 / a, b / a


class PipeSegments(PipeToy):
    def coefficients_borehole_heat_extraction_rate(self, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        _, z = self._legs(np.array([self.b.H]), m_flow_borehole, cp_f, nSegments, None)
        d, _ = self._legs(z, m_flow_borehole, cp_f, nSegments, segment_ratios)
        q = np.abs(m_flow_borehole) * cp_f * (d[1:, :] - d[:-1, :])
        q[0, 0] = 0.
        return q[:, :1], q[:, 1:]


class PipeProfile(PipeToy):
    def coefficients_temperature(self, z, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        a, b = super().coefficients_temperature(z, m_flow_borehole, cp_f, nSegments, segment_ratios)
        return a * 2, b


class PipeUnbalanced(PipeToy):
    def coefficients_outlet_temperature(self, m_flow_borehole, cp_f, nSegments, segment_ratios=None):
        a, b = super().coefficients_outlet_temperature(m_flow_borehole, cp_f, nSegments, segment_ratios)
        return a, b / (1 - a) * (1 - a * a)


class PipeEvaluated(PipeToy):
    def get_outlet_temperature(self, T_f_in, T_b, m_flow_borehole, cp_f, segment_ratios=None):
        T_b = np.atleast_1d(T_b)
        return self._apply(self.coefficients_outlet_temperature(m_flow_borehole, cp_f, len(T_b), segment_ratios), T_f_in, T_b[::-1])


class PipeResistance(PipeToy):
    def effective_borehole_thermal_resistance(self, m_flow_borehole, cp_f):
        return -super().effective_borehole_thermal_resistance(m_flow_borehole, cp_f)


class NetToy(object):
    def __init__(self, boreholes, pipes, bore_connectivity):
        self.b, self.p, self.c = boreholes, pipes, bore_connectivity
        self.n = len(boreholes)

    def _setup(self, m, cp, nSegments, ratios):
        up = list(self.c) if np.all(m >= 0.) else [self.c.index(i) if i in self.c else -1 for i in range(self.n)]
        first = [i for i in range(self.n) if self.c[i] == -1]
        circuit = []
        for i in range(self.n):
            j = i
            while self.c[j] != -1:
                j = self.c[j]
            circuit.append(first.index(j))
        m = np.atleast_1d(m)
        if len(m) == 1:
            m = np.tile(m / len(first), len(first))
        ns = nSegments if isinstance(nSegments, list) else [nSegments] * self.n
        rs = ratios if isinstance(ratios, list) else [ratios] * self.n
        return up, [m[c] for c in circuit], ns, rs

    def _pipes(self, name, m, cp, ns, rs):
        ab = [getattr(p, name)(x, cp, n, segment_ratios=r) for p, x, n, r in zip(self.p, m, ns, rs)]
        return block_diag(*[x[0] for x in ab]), block_diag(*[x[1] for x in ab])

    def coefficients_inlet_temperature(self, m_flow_network, cp_f, nSegments, segment_ratios=None):
        up, m, ns, rs = self._setup(m_flow_network, cp_f, nSegments, segment_ratios)
        A, B = self._pipes('coefficients_outlet_temperature', m, cp_f, ns, rs)
        c = np.zeros((self.n, 1))
        C = np.zeros((self.n, self.n))
        for i in range(self.n):
            if up[i] == -1:
                c[i, 0] = 1.
            else:
                C[i, up[i]] = 1.
        M = np.linalg.inv(np.eye(self.n) - C @ A)
        return M @ c, M @ C @ B

    def _follow(self, name, m_flow_network, cp_f, nSegments, segment_ratios):
        up, m, ns, rs = self._setup(m_flow_network, cp_f, nSegments, segment_ratios)
        A, B = self._pipes(name, m, cp_f, ns, rs)
        a, b = self.coefficients_inlet_temperature(m_flow_network, cp_f, nSegments, segment_ratios)
        return A @ a, A @ b + B

    def coefficients_outlet_temperature(self, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._follow('coefficients_outlet_temperature', m_flow_network, cp_f, nSegments, segment_ratios)

    def coefficients_fluid_heat_extraction_rate(self, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._follow('coefficients_fluid_heat_extraction_rate', m_flow_network, cp_f, nSegments, segment_ratios)

    def coefficients_borehole_heat_extraction_rate(self, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._follow('coefficients_borehole_heat_extraction_rate', m_flow_network, cp_f, nSegments, segment_ratios)

    def coefficients_network_heat_extraction_rate(self, m_flow_network, cp_f, nSegments, segment_ratios=None):
        a, b = self.coefficients_fluid_heat_extraction_rate(m_flow_network, cp_f, nSegments, segment_ratios)
        return np.sum(a, axis=0).reshape(1, -1), np.sum(b, axis=0).reshape(1, -1)

    def _weights(self, m):
        return np.abs(np.array(m))

    def coefficients_network_outlet_temperature(self, m_flow_network, cp_f, nSegments, segment_ratios=None):
        up, m, ns, rs = self._setup(m_flow_network, cp_f, nSegments, segment_ratios)
        a, b = self.coefficients_outlet_temperature(m_flow_network, cp_f, nSegments, segment_ratios)
        w = self._weights(m) * np.array([0. if i in up else 1. for i in range(self.n)])
        w = (w / np.sum(w)).reshape(1, -1)
        return w @ a, w @ b

    def coefficients_network_inlet_temperature(self, m_flow_network, cp_f, nSegments, segment_ratios=None):
        a, b = self.coefficients_network_heat_extraction_rate(m_flow_network, cp_f, nSegments, segment_ratios)
        return 1 / a, -b / a

    def _apply(self, ab, T, T_b):
        if np.isscalar(T_b):
            T_b = np.tile(T_b, np.size(ab[1], axis=1))
        return ab[0] @ np.atleast_1d(T) + ab[1] @ T_b

    def get_inlet_temperature(self, T_f_in, T_b, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._apply(self.coefficients_inlet_temperature(m_flow_network, cp_f, nSegments, segment_ratios), T_f_in, T_b)

    def get_outlet_temperature(self, T_f_in, T_b, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._apply(self.coefficients_outlet_temperature(m_flow_network, cp_f, nSegments, segment_ratios), T_f_in, T_b)

    def get_borehole_heat_extraction_rate(self, T_f_in, T_b, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._apply(self.coefficients_borehole_heat_extraction_rate(m_flow_network, cp_f, nSegments, segment_ratios), T_f_in, T_b)

    def get_fluid_heat_extraction_rate(self, T_f_in, T_b, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._apply(self.coefficients_fluid_heat_extraction_rate(m_flow_network, cp_f, nSegments, segment_ratios), T_f_in, T_b)

    def get_network_inlet_temperature(self, Q_t, T_b, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._apply(self.coefficients_network_inlet_temperature(m_flow_network, cp_f, nSegments, segment_ratios), Q_t, T_b)

    def get_network_outlet_temperature(self, T_f_in, T_b, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._apply(self.coefficients_network_outlet_temperature(m_flow_network, cp_f, nSegments, segment_ratios), T_f_in, T_b)

    def get_network_heat_extraction_rate(self, T_f_in, T_b, m_flow_network, cp_f, nSegments, segment_ratios=None):
        return self._apply(self.coefficients_network_heat_extraction_rate(m_flow_network, cp_f, nSegments, segment_ratios), T_f_in, T_b)


class NetMixing(NetToy):
    def _weights(self, m):
        return np.array([1. for x in m])


class NetConnection(NetToy):
    def _setup(self, m, cp, nSegments, ratios):
        up, ms, ns, rs = super()._setup(m, cp, nSegments, ratios)
        return list(self.c), ms, ns, rs


class NetTotal(NetToy):
    def coefficients_network_heat_extraction_rate(self, m_flow_network, cp_f, nSegments, segment_ratios=None):
        a, b = self.coefficients_fluid_heat_extraction_rate(m_flow_network, cp_f, nSegments, segment_ratios)
        return a[:1], b[:1]
