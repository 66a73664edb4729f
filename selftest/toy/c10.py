"""Load aggregation schemes: one that is right, and one for every mistake C10 looks for."""
import numpy as np


class _LoadAggregation(object):
    def __init__(self, dt, tmax, nSources=1):
        self.nSources = nSources

    def initialize(self, g):
        raise NotImplementedError('initialize')

    def next_time_step(self, time):
        raise NotImplementedError('next_time_step')

    def set_current_load(self, Q):
        raise NotImplementedError('set_current_load')

    def temporal_superposition(self):
        raise NotImplementedError('temporal_superposition')


class AggGood(_LoadAggregation):
    def __init__(self, dt, tmax, nSources=1):
        self.nt = 0
        self.q = np.zeros((nSources, int(np.ceil(tmax / dt))))

    def initialize(self, g_d):
        self.g_d = g_d

    def next_time_step(self, time):
        self.nt += 1

    def set_current_load(self, q_b):
        self.q[:, self.nt - 1] = q_b

    def temporal_superposition(self):
        out = self.g_d[:, :, self.nt - 1].dot(self.q[:, 0])
        for i in range(1, self.nt):
            out = out + self.g_d[:, :, self.nt - 1 - i].dot(self.q[:, i] - self.q[:, i - 1])
        return out


class AggNoOperation(_LoadAggregation):
    def __init__(self, dt, tmax, nSources=1):
        self.nt = 0
        self.q = np.zeros((nSources, int(np.ceil(tmax / dt))))

    def initialize(self, g_d):
        self.g_d = g_d

    def next_time_step(self, time, step):
        self.nt += 1

    def set_current_load(self, q_b):
        self.q[:, self.nt - 1] = q_b

    def temporal_superposition(self):
        return self.g_d[:, :, 0].dot(self.q[:, self.nt - 1])


class AggImpure(AggGood):
    def temporal_superposition(self):
        out = self.g_d[:, :, self.nt - 1].dot(self.q[:, 0])
        self.q[:, 0] *= 2
        return out


class AggAdds(AggGood):
    def set_current_load(self, q_b):
        self.q[:, self.nt - 1] += q_b


class AggShared(AggGood):
    q = np.zeros((2, 40))

    def __init__(self, dt, tmax, nSources=1):
        self.nt = 0


class AggAlias(AggGood):
    def __init__(self, dt, tmax, nSources=1):
        self.nt = 0
        self.q = []

    def set_current_load(self, q_b):
        self.q.append(q_b)

    def temporal_superposition(self):
        return self.g_d[:, :, 0].dot(self.q[self.nt - 1])


class AggLoses(AggGood):
    def temporal_superposition(self):
        out = self.g_d[:, :, self.nt - 1].dot(self.q[:, 0])
        for i in range(1, self.nt):
            out = out + self.g_d[:, :, self.nt - i].dot(self.q[:, i] - self.q[:, i - 1])
        return out


class AggWrites(AggGood):
    def initialize(self, g_d):
        self.g_d = g_d
        g_d[:, :, 1:] -= g_d[:, :, :-1]


class AggUnsteady(AggGood):
    def temporal_superposition(self):
        out = self.g_d[:, :, self.nt - 1].dot(self.q[:, 0])
        for i in range(1, self.nt):
            out = out + self.g_d[:, :, self.nt - 1 - i].dot(self.q[:, i] - 0.5 * self.q[:, i - 1])
        return out
