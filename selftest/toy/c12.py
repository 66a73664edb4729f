"""A field that keeps everything in every representation, and one with every mistake C12 looks for."""
import numpy as np


class Hole:
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        self.H = float(H)
        self.D = float(D)
        self.r_b = float(r_b)
        self.x = float(x)
        self.y = float(y)
        self.tilt = float(tilt)
        self.orientation = float(orientation) if abs(self.tilt) > 1e-6 else 0.


class FieldGood:
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        x = np.atleast_1d(x)
        self.nBoreholes = len(x)
        n = self.nBoreholes
        self.H = np.broadcast_to(H, n)
        self.D = np.broadcast_to(D, n)
        self.r_b = np.broadcast_to(r_b, n)
        self.x = x
        self.y = np.broadcast_to(y, n)
        self.tilt = np.broadcast_to(tilt, n)
        self.orientation = np.where(np.abs(self.tilt) > 1e-6, np.broadcast_to(orientation, n), np.zeros(n))

    def __len__(self):
        return self.nBoreholes

    def __getitem__(self, key):
        out = Hole if isinstance(key, (int, np.integer)) else self.__class__
        return out(self.H[key], self.D[key], self.r_b[key], self.x[key], self.y[key], tilt=self.tilt[key], orientation=self.orientation[key])

    def to_boreholes(self):
        return [self[i] for i in range(len(self))]

    @classmethod
    def from_boreholes(cls, holes):
        if isinstance(holes, Hole):
            holes = [holes]
        get = lambda q: np.array([getattr(b, q) for b in holes])
        return cls(get('H'), get('D'), get('r_b'), get('x'), get('y'), tilt=get('tilt'), orientation=get('orientation'))

    def _list(self, other):
        if isinstance(other, Hole):
            return [other]
        return other if isinstance(other, list) else other.to_boreholes()

    def __add__(self, other):
        return self.from_boreholes(self.to_boreholes() + self._list(other))

    def __radd__(self, other):
        return self.from_boreholes(self._list(other) + self.to_boreholes())

    def __eq__(self, other):
        if isinstance(other, (list, Hole)):
            other = self.from_boreholes(other)
        if len(self) != len(other):
            return False
        return all(np.allclose(getattr(self, q), getattr(other, q)) for q in ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation'))

    def __ne__(self, other):
        return not self == other

    def to_file(self, filename):
        np.savetxt(filename, np.stack((self.x, self.y, self.H, self.D, self.r_b, self.tilt, self.orientation), axis=-1))

    @classmethod
    def from_file(cls, filename):
        data = np.loadtxt(filename, ndmin=2)
        return cls(data[:, 2], data[:, 3], data[:, 4], data[:, 0], data[:, 1], tilt=data[:, 5], orientation=data[:, 6])


class UsesFieldGood:
    def __init__(self, holes):
        if isinstance(holes, Hole):
            holes = [holes]
        if isinstance(holes, FieldGood):
            holes = holes.to_boreholes()
        self.holes = holes


class FieldBad:
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        x = np.atleast_1d(x)
        self.nBoreholes = len(x) - 1
        n = len(x)
        self.H = np.broadcast_to(H, n)
        self.D = np.broadcast_to(D, n)
        self.r_b = np.broadcast_to(r_b, n)
        self.x = x
        self.y = np.broadcast_to(y, n)
        self.tilt = np.broadcast_to(tilt, n)
        self.orientation = np.broadcast_to(orientation, n)

    def __len__(self):
        return self.nBoreholes

    def __getitem__(self, key):
        out = Hole if isinstance(key, (int, np.integer)) else self.__class__
        return out(self.H[key], self.D[key], self.r_b[0], self.x[key], self.y[key], tilt=self.tilt[key], orientation=self.orientation[key])

    def to_boreholes(self):
        return [self[i] for i in range(len(self))]

    @classmethod
    def from_boreholes(cls, holes):
        if isinstance(holes, Hole):
            holes = [holes]
        get = lambda q: np.array([getattr(b, q) for b in holes])
        return cls(get('H'), get('D'), get('r_b'), get('y'), get('x'), tilt=get('tilt'), orientation=get('orientation'))

    def __add__(self, other):
        return self.from_boreholes(other.to_boreholes() + self.to_boreholes())

    def __eq__(self, other):
        return bool(np.allclose(self.H, other.H))

    def to_file(self, filename):
        np.savetxt(filename, np.stack((self.x, self.y, self.H, self.D, self.r_b, self.tilt, self.orientation), axis=-1), fmt='%.3f')

    @classmethod
    def from_file(cls, filename):
        data = np.loadtxt(filename, ndmin=2)
        return cls(data[:, 3], data[:, 2], data[:, 4], data[:, 0], data[:, 1], tilt=data[:, 5], orientation=data[:, 6])


class UsesFieldBad:
    def __init__(self, holes):
        if isinstance(holes, FieldBad):
            holes = [holes[2], holes[1], holes[0]]
        self.holes = holes
