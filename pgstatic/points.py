"""Generic points: an expression with exponentials and square roots as an element of a finite field.

An unknown is mapped to a rational number and, by the ring maps Q -> F_p and Q -> F_q with q dividing p - 1, to an element of
each field.  exp(x) is g**(x mod q) mod p with g of order q, so that exp(x + y) = exp(x) exp(y) holds exactly; a square root is a
root in both fields.  Two expressions that are equal as functions have the same image in F_p; two that are not differ, but for a
chance of about degree/q, at a point drawn at random.  The real value only decides the order of numbers."""
import math
import random
from fractions import Fraction

from .arrays import Poly, Unknown


def _prime(n):
    if n < 2 or any(n % k == 0 for k in (2, 3, 5, 7, 11, 13)):
        return n in (2, 3, 5, 7, 11, 13)
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if a % n == 0:
            continue
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def _fields():
    q = 2**40 + 15
    while not (_prime(q) and q % 4 == 3):
        q += 2
    k = 2
    while not (_prime(k * q + 1) and (k * q + 1) % 4 == 3):
        k += 2
    p = k * q + 1
    g = next(h for h in (pow(a, k, p) for a in range(2, 99)) if h != 1)
    return p, q, g


P, Q, G = _fields()
ROOT = EXP = POWER = None      # other readings of these functions (twin.py)


class Elem:
    __slots__ = ('r', 'p', 'q')
    __array_priority__ = 0

    def __init__(self, r, p, q):
        self.r, self.p, self.q = r, p, q

    @staticmethod
    def of(x):
        if isinstance(x, Elem) or hasattr(x, 'im'):
            return x
        if isinstance(x, float) and not math.isfinite(x):
            return NAN if math.isnan(x) else INF if x > 0 else -INF
        c = Poly.of(x).const()
        if c is None:
            raise Unknown('symbolic entry')
        return Elem(c, c.numerator * pow(c.denominator, -1, P) % P, c.numerator * pow(c.denominator, -1, Q) % Q)

    def nan(self):
        return isinstance(self.r, float) and math.isnan(self.r)

    def inf(self):
        return isinstance(self.r, float) and math.isinf(self.r)

    def __add__(self, o):
        if hasattr(o, 'dtype'):
            return NotImplemented
        o = Elem.of(o)
        if self.nan() or o.nan():
            return NAN
        if self.inf() or o.inf():
            return Elem.of(_f(self.r) + _f(o.r))
        return Elem(_real(self.r, o.r, lambda a, b: a + b), (self.p + o.p) % P, None if self.q is None or o.q is None else (self.q + o.q) % Q)
    __radd__ = __add__

    def __neg__(self):
        if self.nan():
            return self
        if self.inf():
            return Elem(-self.r, None, None)
        return Elem(-self.r, -self.p % P, None if self.q is None else -self.q % Q)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if hasattr(o, 'dtype'):
            return NotImplemented
        return self + (-Elem.of(o))

    def __rsub__(self, o):
        return Elem.of(o) - self

    def __mul__(self, o):
        if hasattr(o, 'dtype'):
            return NotImplemented
        o = Elem.of(o)
        if self.nan() or o.nan():
            return NAN
        if self.inf() or o.inf():
            return Elem.of(_f(self.r) * _f(o.r))
        return Elem(_real(self.r, o.r, lambda a, b: a * b), self.p * o.p % P, None if self.q is None or o.q is None else self.q * o.q % Q)
    __rmul__ = __mul__

    def inv(self):
        if self.nan():
            return self
        if self.inf():
            return Elem.of(0)
        if self.p == 0:
            if ROOT and isinstance(self.r, float) and abs(self.r) > 1e-9:
                return Elem(1 / self.r, 10**9 + 7, None)     # a root of the other sign
            raise Unknown('division by zero')
        q = None if not self.q else pow(self.q, -1, Q)
        return Elem(1 / self.r if self.r != 0 else math.nan, pow(self.p, -1, P), q)

    def __truediv__(self, o):
        if hasattr(o, 'dtype'):
            return NotImplemented
        return self * Elem.of(o).inv()

    def __rtruediv__(self, o):
        return Elem.of(o) * self.inv()

    def __pow__(self, n):
        if isinstance(n, (Poly, Elem)):
            n = Elem.of(n).r
        if POWER:
            return POWER(self, n)
        if n == Fraction(1, 2):
            return self.sqrt()
        if n != int(n):
            raise Unknown('power')
        n = int(n)
        b = self if n >= 0 else self.inv()
        r = Elem.of(1)
        for _ in range(abs(n)):
            r = r * b
        return r

    def exp(self):
        if EXP:
            return EXP(self)
        if self.nan() or self.inf():
            return Elem.of(math.exp(self.r))
        if self.p == 0 and self.r == 0:
            return Elem.of(1)
        if self.q is None:
            raise Unknown('exponential of an exponential')
        return Elem(_f(min(max(_f(self.r), -700.), 700.), math.exp), pow(G, self.q, P), None)

    def sqrt(self):
        if ROOT:
            return ROOT(self)
        if _f(self.r) < 0:
            raise Unknown('root of a negative number')
        a = pow(self.p, (P + 1) // 4, P)
        if a * a % P != self.p:
            raise Unknown('no root in the field')
        b = None
        if self.q is not None:
            b = pow(self.q, (Q + 1) // 4, Q)
            if b * b % Q != self.q:
                raise Unknown('no root in the field')
        return Elem(math.sqrt(_f(self.r)), a, b)

    def __abs__(self):
        if self.nan():
            return self
        return -self if self < 0 else self

    def conjugate(self):
        return self

    def same(self, o):
        o = Elem.of(o)
        return self.p is not None and self.p == o.p

    def _cmp(self, o, f):
        o = Elem.of(o)
        if self.nan() or o.nan():
            return False
        if not (self.inf() or o.inf()) and self.p == o.p:
            return f(0)
        a, b = self.r, o.r
        if isinstance(a, float) or isinstance(b, float):
            a, b = _f(a), _f(b)
            if math.isnan(a) or math.isnan(b) or not (math.isinf(a) or math.isinf(b)) and abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
                raise Unknown('comparison too close')
        return f(1 if a > b else -1)

    def __lt__(self, o): return self._cmp(o, lambda d: d < 0)
    def __le__(self, o): return self._cmp(o, lambda d: d <= 0)
    def __gt__(self, o): return self._cmp(o, lambda d: d > 0)
    def __ge__(self, o): return self._cmp(o, lambda d: d >= 0)

    def __eq__(self, o):
        if hasattr(o, 'dtype'):
            return NotImplemented
        if not isinstance(o, (Elem, Poly, int, float, Fraction)):
            return False
        return self._cmp(o, lambda d: d == 0)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return f'{_f(self.r):.6g}'


def _f(x, f=lambda y: y):
    try:
        return f(float(x))
    except OverflowError:
        return math.inf


def _real(a, b, f):
    if isinstance(a, float) or isinstance(b, float):
        return _f(0) + f(_f(a), _f(b))
    r = f(a, b)
    return r if r.denominator.bit_length() < 400 else float(r)


NAN = Elem(math.nan, None, None)
INF = Elem(math.inf, None, None)


def draw(rng, lo=1, hi=9):
    """a rational number at random"""
    return Elem.of(Fraction(rng.randrange(lo * 10**9, hi * 10**9), 10**9 + 7))


def apply(x, f):
    import numpy as np
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = f(Elem.of(x[i]))
        return out
    return f(Elem.of(x))


def solve(a, b):
    """exact solution of a x = b"""
    import numpy as np
    n = len(a)
    one = b.ndim == 1
    m = [[Elem.of(x) for x in row] for row in a]
    r = [[Elem.of(x) for x in np.atleast_1d(row)] for row in b]
    for c in range(n):
        k = next((i for i in range(c, n) if m[i][c].p), None)
        if k is None:
            raise Unknown('singular')
        m[c], m[k], r[c], r[k] = m[k], m[c], r[k], r[c]
        d = m[c][c].inv()
        m[c], r[c] = [x * d for x in m[c]], [x * d for x in r[c]]
        for i in range(n):
            if i != c and m[i][c].p:
                f = m[i][c]
                m[i] = [x - f * y for x, y in zip(m[i], m[c])]
                r[i] = [x - f * y for x, y in zip(r[i], r[c])]
    out = np.empty((n, len(r[0])), dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = r[i[0]][i[1]]
    return out[:, 0] if one else out


def functions():
    """functions of arrays of generic points, in addition to those of the polynomial domain"""
    import numpy as np
    from .arrays import arr, lift, number, integer, ax, _u, FUNCS
    half = Fraction(1, 2)
    ew = lambda f: lambda x, **k: apply(arr(x), f) if not k else _u('keywords')

    def outer(op):
        def f(a, b):
            a, b = np.asarray(arr(a), dtype=object), np.asarray(arr(b), dtype=object)
            out = np.empty(a.shape + b.shape, dtype=object)
            for i in np.ndindex(a.shape):
                for j in np.ndindex(b.shape):
                    out[i + j] = op(a[i], b[j])
            return out
        return f

    def block_diag(*ms):
        ms = [np.atleast_2d(arr(m)) for m in ms]
        out = lift(np.zeros((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms))))
        i = j = 0
        for m in ms:
            out[i:i + m.shape[0], j:j + m.shape[1]] = m
            i, j = i + m.shape[0], j + m.shape[1]
        return out

    def extremum(f):
        def g(a, b):
            a, b = np.broadcast_arrays(np.asarray(arr(a), dtype=object), np.asarray(arr(b), dtype=object))
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                out[i] = b[i] if f(Elem.of(a[i]), Elem.of(b[i])) else a[i]
            return out if out.shape else out[()]
        return g

    def sign(x):
        return apply(arr(x), lambda v: Elem.of(0 if v == 0 else 1 if v > 0 else -1))

    def empty(s, *a, **k):
        return FUNCS['numpy.zeros'](s)

    def solve_(a, b):
        a, b = arr(a), arr(b)
        if np.ndim(a) != 2 or np.ndim(b) > 2:
            raise Unknown('solve')
        return solve(a, b)

    def block(x):
        def rec(y):
            return [rec(z) for z in y] if isinstance(y, (list, tuple)) else arr(y)
        return np.block(rec(x))

    def inner(a, b):
        return np.inner(arr(a), arr(b))

    def size(x, axis=None):
        s = np.shape(arr(x))
        if axis is None:
            n = 1
            for y in s:
                n *= y
            return n
        return s[integer(axis)]

    out = {'numpy.exp': ew(Elem.exp), 'numpy.sqrt': ew(Elem.sqrt), 'numpy.cosh': ew(lambda x: (x.exp() + (-x).exp()) * half), 'numpy.sinh': ew(lambda x: (x.exp() - (-x).exp()) * half),
           'numpy.tanh': ew(lambda x: (x.exp() - (-x).exp()) / (x.exp() + (-x).exp())), 'numpy.square': ew(lambda x: x * x),
           'numpy.real': lambda x: arr(x), 'numpy.linalg.inv': lambda a: solve(arr(a), lift(np.eye(len(arr(a))))), 'numpy.linalg.solve': solve_, 'scipy.linalg.solve': solve_,
           'scipy.linalg.inv': lambda a: solve(arr(a), lift(np.eye(len(arr(a))))), 'scipy.linalg.block_diag': block_diag,
           'numpy.subtract.outer': outer(lambda a, b: a - b), 'numpy.multiply.outer': outer(lambda a, b: a * b), 'numpy.add.outer': outer(lambda a, b: a + b),
           'numpy.maximum': extremum(lambda a, b: a < b), 'numpy.minimum': extremum(lambda a, b: b < a), 'numpy.sign': sign, 'numpy.empty': empty, 'numpy.empty_like': FUNCS['numpy.zeros_like'],
           'numpy.block': block, 'numpy.inner': inner, 'numpy.size': size, 'copy.deepcopy': lambda x: x, 'copy.copy': lambda x: x,
           'numpy.prod': lambda x, **k: np.prod(arr(x), **ax(k)), 'sum': lambda x, s=0: sum(list(arr(x)), Poly.of(s)), 'numpy.trace': lambda x: np.trace(arr(x)),
           'numpy.isnan': lambda x: apply_bool(arr(x), lambda v: v.nan()), 'numpy.swapaxes': lambda x, a, b: np.swapaxes(arr(x), integer(a), integer(b)),
           'numpy.argmin': lambda x: arg(arr(x), lambda a, b: a < b), 'numpy.argmax': lambda x: arg(arr(x), lambda a, b: a > b)}
    return out


def arg(x, f):
    if x.ndim != 1:
        raise Unknown('axis')
    k = 0
    for i in range(1, len(x)):
        if f(Elem.of(x[i]), Elem.of(x[k])):
            k = i
    return k


def apply_bool(x, f):
    import numpy as np
    return apply(x, f).astype(bool) if isinstance(x, np.ndarray) else f(Elem.of(x))
