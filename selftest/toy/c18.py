"""Grouping of similar pairs: one that is right, one with every mistake C18 looks for."""
import numpy as np


class Bore:
    def __init__(self, H, D, r_b, x, y, tilt=0., orientation=0.):
        self.H = H
        self.D = D
        self.r_b = r_b
        self.x = x
        self.y = y
        self.tilt = tilt
        self.orientation = orientation

    def pieces(self, n, ratios):
        z = np.concatenate(([0.], np.cumsum(ratios)))[:-1]
        return [Bore(self.H * r, self.D + self.H * zi, self.r_b, self.x, self.y) for zi, r in zip(z, ratios)]


def _near(a, b, tol):
    return abs(a - b) <= tol * abs(a)


class Pairing:
    def _compare_boreholes(self, b1, b2):
        return all([_near(getattr(b1, k), getattr(b2, k), self.tol) for k in ('H', 'D', 'r_b')])

    def _compare_realandimage_pairs(self, p1, p2):
        for b1, b2 in zip(p1, p2):
            if not (_near(b1.H, b2.H, self.tol) and _near(b1.D, b2.D, self.tol)):
                return False
        return True

    def _find_axial_pairs(self, boreholes):
        out = []
        for i, bi in enumerate(boreholes):
            for j, bj in enumerate(boreholes[i+1:], start=i+1):
                for g in out:
                    m, n = g[0]
                    if self._compare_realandimage_pairs((bi, bj), (boreholes[m], boreholes[n])) and self._equal_segment_ratios:
                        g.append((i, j))
                        break
                else:
                    out.append([(i, j)])
        return out

    def _map_axial_pairs(self, i, j, reaSource=True, imgSource=True):
        s1 = self.boreholes[i].pieces(self.nBoreSegments[i], self.segment_ratios[i])
        s2 = self.boreholes[j].pieces(self.nBoreSegments[j], self.segment_ratios[j])
        H1, D1, H2, D2, ip, jp, kp, known = [], [], [], [], [], [], [], []
        for a, u in enumerate(s1):
            for b, v in enumerate(s2):
                ip.append(a)
                jp.append(b)
                for k, (c, d) in enumerate(known):
                    if self._compare_realandimage_pairs((u, v), (s1[c], s2[d])):
                        kp.append(k)
                        break
                else:
                    kp.append(len(known))
                    known.append((a, b))
                    H1.append(u.H)
                    D1.append(u.D)
                    H2.append(v.H)
                    D2.append(v.D)
        return np.array(H1), np.array(D1), np.array(H2), np.array(D2), ip, jp, kp


class BadPairing(Pairing):
    def _compare_boreholes(self, b1, b2):
        return _near(b1.H, b2.H, self.tol) and _near(b1.D, b2.D, self.disTol)

    def _compare_realandimage_pairs(self, p1, p2):
        return (_near(p1[0].H, p2[0].H, self.tol) and _near(p1[1].H, p2[1].H, self.tol)
                and _near(1. + p1[0].D - p1[1].D, 1. + p2[0].D - p2[1].D, self.tol))

    def _find_axial_pairs(self, boreholes):
        return Pairing._find_axial_pairs(self, boreholes)

    def _map_axial_pairs(self, i, j, reaSource=True, imgSource=True):
        return Pairing._map_axial_pairs(self, i, j, reaSource, imgSource)
