"""Two points: the same program evaluated at inputs and at transformed inputs, at generic points of a finite field.

Sums, products and quotients are exact in the field; a square root is the power map x**((P + 1)/4), so that it is multiplicative;
every other function is a fresh number determined by the function and its arguments; an integral is a generic linear functional of
the integrand that scales with the limits.  A result that does not depend on the transformation has the same image at both points; one
that does has not, but for a chance of about degree/P."""
import hashlib
import math
from fractions import Fraction

import numpy as np

from . import points
from .arrays import Arrays, Poly, Unknown, arr, ax, integer, lift, number, shape
from .points import Elem, P, _f, apply

NODES = [(Fraction(117, 1000), Fraction(31, 97)), (Fraction(331, 1000), Fraction(17, 89)), (Fraction(627, 1000), Fraction(29, 83)), (Fraction(859, 1000), Fraction(13, 79))]


CONSTANTS = {'ext:numpy.euler_gamma': 0.5772156649015329, 'ext:numpy.e': math.e, 'ext:math.e': math.e, 'ext:scipy.constants.pi': math.pi, 'ext:math.tau': math.tau}


def hashed(name, *xs):
    h = hashlib.sha256(repr((name,) + tuple(x.p if isinstance(x, Elem) else x for x in xs)).encode()).digest()
    return int.from_bytes(h[:16], 'big') % P


def fn(name, real, zero=None):
    """an arbitrary function"""
    def f(x):
        x = Elem.of(x)
        if x.nan():
            return x
        if x.inf():
            try:
                return Elem.of(float(real(x.r)))
            except (ValueError, OverflowError):
                raise Unknown(name)
        if x.p == 0 and zero is not None:
            return Elem.of(zero)
        try:
            r = float(real(_f(x.r)))
        except OverflowError:
            r = math.inf
        except ValueError:
            raise Unknown(f'{name} out of its domain')
        return Elem(r, hashed(name, x), None)
    return f


def _odd(name, real):
    f = fn(name, real, 0)
    def g(x):
        x = Elem.of(x)
        if not x.nan() and not x.inf() and x.r < 0:
            return -f(-x)
        return f(x)
    return g


EXP = fn('exp', math.exp, 1)
TRIG = {0: (1, 0)}
HALF = Poly.of(math.pi / 2).const()
HALF = HALF.numerator * pow(HALF.denominator, -1, P) % P


def angle(x):
    """cosine and sine of an angle: arbitrary, on the unit circle, with the symmetries of the circle"""
    p = x.p
    if p not in TRIG:
        for k in range(-4, 5):
            for sign in (1, -1):
                c = TRIG.get((sign * p + k * HALF) % P)
                if c is not None:
                    c, s = c
                    c, s = [(c, s), (s, -c), (-c, -s), (-s, c)][k % 4]
                    TRIG[p] = c % P, sign * s % P
                    return TRIG[p]
        t = hashed('angle', x)
        d = pow(1 + t * t, -1, P)
        TRIG[p] = (1 - t * t) * d % P, 2 * t * d % P
    return TRIG[p]


def _trig(k, real):
    def f(x):
        x = Elem.of(x)
        if x.nan():
            return x
        if x.inf():
            raise Unknown('angle')
        return Elem(float(real(_f(x.r))), angle(x)[k], None) if x.p else Elem.of(1 - k)
    return f


COS, SIN = _trig(0, math.cos), _trig(1, math.sin)


def root(x):
    if x.nan() or x.inf():
        return Elem.of(math.sqrt(x.r)) if not x.r < 0 else points.NAN
    if _f(x.r) < 0:
        return points.NAN
    return Elem(math.sqrt(_f(x.r)), pow(x.p, (P + 1) // 4, P), None)


def power(x, n):
    n = Elem.of(n)
    if not n.inf() and not n.nan() and Fraction(n.r).denominator == 1 and abs(n.r) < 100:
        n = int(n.r)
        b = x if n >= 0 else x.inv()
        r = Elem.of(1)
        for _ in range(abs(n)):
            r = r * b
        return r
    if n.r == Fraction(1, 2):
        return root(x)
    if n.r == Fraction(-1, 2):
        return root(x).inv()
    if x.p == 0:
        return Elem.of(0)
    if _f(x.r) < 0:
        raise Unknown('power of a negative number')
    return Elem(_f(x.r) ** _f(n.r), hashed('pow', x, n), None)


class Two:
    """use points this way"""
    def __enter__(self):
        points.ROOT, points.EXP, points.POWER = root, EXP, power

    def __exit__(self, *a):
        points.ROOT = points.EXP = points.POWER = None


class Twin(Arrays):
    def __init__(self, g, values, calls=None, funcs=None):
        super().__init__(g, values, calls, funcs or functions(), Elem.of)

    def ev(self, n):
        if n.op == 'lam':
            def f(*xs):
                t = Twin(self.g, {**self.values, **{('bound', d): x for d, x in zip(n.data, xs)}}, self.calls, self.funcs)
                return t(n.args[0])
            return f
        if n.op == 'const' and isinstance(n.data, complex):
            return Cx(n.data.real, n.data.imag)
        if n.op == 'sym' and n.data in CONSTANTS:
            return Poly.of(CONSTANTS[n.data])
        if n.op == 'sym' and isinstance(n.data, str) and n.data.startswith('ext:') and n.data not in self.values:
            return n.data
        if n.op == 'idx' and n.args[1].op == 'const' and isinstance(n.args[1].data, str):
            a = self(n.args[0])
            if isinstance(a, dict) and n.args[1].data in a:
                return a[n.args[1].data]
            raise Unknown(f'[{n.args[1].data}]')
        if n.op == 'bound' and ('bound', n.data) in self.values:
            return self.values['bound', n.data]
        if n.op == 'cmp' and n.data in ('is', 'is not'):
            a, b = self(n.args[0]), self(n.args[1])
            s = {type(a), type(b)}
            if isinstance(a, str) and isinstance(b, str):
                return (a == b) == (n.data == 'is')
            if not any(x is None or isinstance(x, bool) for x in (a, b)):
                if any(isinstance(x, (list, tuple, np.ndarray)) for x in (a, b)):
                    if not all(isinstance(x, (list, tuple, np.ndarray)) for x in (a, b)):
                        return n.data == 'is not'
                elif all(isinstance(x, (Elem, Poly, int, float, Fraction)) for x in (a, b)):
                    a, b = Elem.of(a), Elem.of(b)
                    return (a.inf() and b.inf() and a.r == b.r) == (n.data == 'is')
        return super().ev(n)


    def ev_call(self, name, kws, args):
        if name.startswith('isinstance:') and name[11:].split('.')[-1] not in ('int', 'integer', 'Integral', 'float', 'floating', 'slice', 'list', 'tuple', 'ndarray', 'str'):
            x = self(args[0])
            if isinstance(x, (Elem, Poly, int, float, Fraction, np.ndarray, list, tuple, str)):
                return False
        if name == 'dyn':
            f = self(args[0])
            if not callable(f) or isinstance(f, (Elem, Poly)) or kws:
                raise Unknown('call of a value')
            return f(*[self(a) for a in args[1:]])
        if name in ('method:x', 'method:y') and len(args) == 1:
            o = self(args[0])
            if isinstance(o, Interp):
                return getattr(o, name[7:])
        if name == 'method:roots' and len(args) == 1:
            o = self(args[0])
            if isinstance(o, Roots):
                return o.roots()
        return super().ev_call(name, kws, args)


class Cx:
    """a complex number: two entries"""
    dtype = None
    __array_priority__ = 0

    def __init__(self, re, im=0):
        self.re, self.im = Elem.of(re), Elem.of(im)

    @staticmethod
    def of(x):
        return x if isinstance(x, Cx) else Cx(x)

    def same(self, o):
        o = Cx.of(o)
        return self.re.same(o.re) and self.im.same(o.im)

    def nan(self):
        return self.re.nan() or self.im.nan()

    def conj(self):
        return Cx(self.re, -self.im)

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        return Cx(self.re + o.re, self.im + o.im)
    __radd__ = __add__

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else self + -Cx.of(o)

    def __rsub__(self, o):
        return Cx.of(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        return Cx(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    __rmul__ = __mul__

    def inv(self):
        n = self.re * self.re + self.im * self.im
        return Cx(self.re / n, -self.im / n)

    def __truediv__(self, o):
        return NotImplemented if isinstance(o, np.ndarray) else self * Cx.of(o).inv()

    def __rtruediv__(self, o):
        return Cx.of(o) * self.inv()

    def __pow__(self, n):
        n = Elem.of(n)
        if Fraction(n.r).denominator != 1 or abs(n.r) > 50:
            raise Unknown('complex power')
        b = self if n.r >= 0 else self.inv()
        r = Cx(1)
        for _ in range(abs(int(n.r))):
            r = r * b
        return r

    def __abs__(self):
        return root(self.re * self.re + self.im * self.im)

    def log(self):
        import cmath
        z = cmath.log(complex(_f(self.re.r), _f(self.im.r)))
        return Cx(Elem(z.real, hashed('logre', self.re, self.im), None), Elem(z.imag, hashed('logim', self.re, self.im), None))

    def _no(self, o):
        raise Unknown('order of complex numbers')
    __lt__ = __le__ = __gt__ = __ge__ = _no

    def __eq__(self, o):
        return self.same(o)

    def __hash__(self):
        return hash((self.re, self.im))


class Interp:
    """linear interpolation"""
    def __init__(self, x, y, axis=-1, kind='linear', **k):
        self.x, self.y, self.axis, self.kind = np.atleast_1d(arr(x)), np.asarray(arr(y), dtype=object), integer(axis), kind

    def __call__(self, t):
        if self.kind != 'linear':
            raise Unknown('kind of interpolation')
        t = np.asarray(arr(t), dtype=object)
        y = np.moveaxis(self.y, self.axis, 0)
        out = np.empty(t.shape + y.shape[1:], dtype=object)
        xs = [Elem.of(v) for v in self.x]
        for i in np.ndindex(t.shape):
            v = Elem.of(t[i])
            k = next((k for k, w in enumerate(xs) if w == v), None)
            if k is not None:
                out[i] = y[k]
                continue
            k = next((k for k in range(len(xs) - 1) if xs[k] < v and v < xs[k + 1]), None)
            if k is None:
                raise Unknown('outside of the interpolation')
            out[i] = y[k] + (y[k + 1] - y[k]) * ((v - xs[k]) / (xs[k + 1] - xs[k]))
        if not t.ndim and y.ndim == 1:
            return out[()]
        ax_ = self.axis % self.y.ndim
        return np.moveaxis(out, range(t.ndim), range(ax_, ax_ + t.ndim))


def quad(f, a, b, *x, **k):
    if not callable(f):
        raise Unknown('integrand')
    a, b = Elem.of(number_or(a)), Elem.of(number_or(b))
    tot = 0
    if b.inf():
        if a.p == 0 or a.inf():
            raise Unknown('limits')
        for r, w in NODES:
            tot = tot + arr(f(a * (1 / r))) * (a * w)
    else:
        if a.inf():
            raise Unknown('limits')
        for r, w in NODES:
            tot = tot + arr(f(a + (b - a) * r)) * ((b - a) * w)
    return (tot, None)


def number_or(x):
    x = arr(x)
    return x.reshape(-1)[0] if isinstance(x, np.ndarray) and x.size == 1 else x


def scalar(x):
    """the argument of int() or float()"""
    x = arr(x)
    if isinstance(x, np.ndarray) and x.ndim:
        from .arrays import Fails
        raise Fails('only 0-dimensional arrays can be converted to Python scalars')
    return x[()] if isinstance(x, np.ndarray) else x


def atan2(y, x):
    r = math.atan2(_f(y.r), _f(x.r))
    if x.p == 0 and y.p == 0:
        return Elem.of(0)
    # a function of the direction
    return Elem(r, hashed('atan2', y / x if x.p else 'up', r > 0), None)


class Roots:
    """a polynomial: its roots as numbers"""
    dtype = None

    def __init__(self, c):
        self.c = [Elem.of(v) for v in arr(c)]

    def roots(self):
        c = [_f(v.r) for v in self.c]
        z = np.polynomial.polynomial.polyroots(c) if any(c) else []
        out = np.empty(len(z), dtype=object)
        for k, v in enumerate(z):
            h = hashed(f'root {k} of {len(c)}', *self.c)
            out[k] = Elem(float(v.real), h, None) if not isinstance(v, complex) or v.imag == 0 else Cx(Elem(float(v.real), h, None), Elem(float(v.imag), hashed(f'imag {k}', *self.c), None))
        return out


def functions():
    out = points.functions()
    half = Fraction(1, 2)

    def ew(f):
        return lambda x, **k: apply(arr(x), f)

    def ew2(f):
        def g(a, b):
            a, b = np.broadcast_arrays(np.asarray(arr(a), dtype=object), np.asarray(arr(b), dtype=object))
            o = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                o[i] = f(Elem.of(a[i]), Elem.of(b[i]))
            return o if o.shape else o[()]
        return g

    def order(x):
        import functools
        x = [Elem.of(v) for v in arr(x)]
        return sorted(range(len(x)), key=functools.cmp_to_key(lambda i, j: -1 if x[i] < x[j] else 1 if x[j] < x[i] else 0))

    def extreme(less):
        def g(x, axis=None, **k):
            if set(k) - {'initial', 'default'}:
                raise Unknown('keywords')
            x = np.asarray(arr(x), dtype=object)
            pick = lambda v: functools_reduce(lambda p, q: q if less(Elem.of(q), Elem.of(p)) else p, list(v))
            if axis is None:
                return pick(x.reshape(-1))
            x = np.moveaxis(x, integer(axis), -1)
            o = np.empty(x.shape[:-1], dtype=object)
            for i in np.ndindex(o.shape):
                o[i] = pick(x[i])
            return o if o.shape else o[()]
        return g

    from functools import reduce as functools_reduce

    def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None):
        if axis is not None:
            raise Unknown('axis')
        x = list(np.asarray(arr(x), dtype=object).reshape(-1))
        o = order(x)
        vals, idx, inv, cnt = [], [], [None] * len(x), []
        for i in o:
            v = Elem.of(x[i])
            if not vals or not vals[-1] == v:
                vals.append(v), idx.append(i), cnt.append(0)
            inv[i] = len(vals) - 1
            cnt[-1] += 1
        r = [lift(np.array(vals, dtype=object)) if False else _objs(vals)]
        for on, y in ((return_index, idx), (return_inverse, inv), (return_counts, cnt)):
            if on:
                r.append(lift(np.array(y)))
        return r[0] if len(r) == 1 else tuple(r)

    def leggauss(n):
        x, w = np.polynomial.legendre.leggauss(integer(n))
        return (lift(x), lift(w))

    def linspace(a, b, num=50, endpoint=True, **k):
        if k:
            raise Unknown('keywords')
        m = integer(num)
        a, b = arr(a), arr(b)
        return np.stack([arr(a + (b - a) * Fraction(i, max(m - 1 if endpoint else m, 1))) for i in range(m)]) if m else lift(np.zeros(0))

    def norm(x, axis=None):
        x = np.asarray(arr(x), dtype=object)
        s = np.sum(x * x, **({} if axis is None else {'axis': integer(axis)}))
        return apply(s, root)

    def erf():
        return _odd('erf', math.erf)

    def mini(less):
        def g(*xs, **k):
            if k:
                raise Unknown('keywords')
            if len(xs) == 1:
                xs = list(arr(xs[0]))
            r = xs[0]
            for x in xs[1:]:
                r = x if less(Elem.of(number_or(x)), Elem.of(number_or(r))) else r
            return r
        return g

    def outer(f):
        def g(a, b):
            a, b = np.asarray(arr(a), dtype=object), np.asarray(arr(b), dtype=object)
            return ew2(f)(a.reshape(a.shape + (1,) * b.ndim), b.reshape((1,) * a.ndim + b.shape)) if a.ndim + b.ndim else f(Elem.of(a[()]), Elem.of(b[()]))
        return g

    def reshape(x, *s, **k):
        return out_reshape(np.asarray(arr(x), dtype=object), *s, **k)

    from .arrays import FUNCS
    out_reshape = FUNCS['numpy.reshape']

    def inner(a, b):
        a, b = np.asarray(arr(a), dtype=object), np.asarray(arr(b), dtype=object)
        return a * b if not a.ndim or not b.ndim else np.tensordot(a, b, axes=(-1, -1))

    def type_(x):
        if isinstance(x, np.ndarray):
            return 'ext:numpy.ndarray'
        return 'ext:builtins.' + ('bool' if isinstance(x, bool) else 'int' if isinstance(x, int) or isinstance(x, Fraction) and x.denominator == 1 else 'float' if isinstance(x, (Elem, Poly, float, Fraction)) else type(x).__name__)

    def rounded(f):
        def g(x, **k):
            def h(v):
                v = Elem.of(v)
                if v.nan() or v.inf():
                    raise Unknown('rounding')
                y = v.r
                if isinstance(y, float) and y != round(y) and abs(y - round(y)) < 1e-9 * max(1., abs(y)):
                    raise Unknown('rounding too close')
                return Elem.of(f(y))
            return apply(arr(x), h)
        return g

    def pdist(x, metric='euclidean'):
        x = arr(x)
        if metric != 'euclidean' or np.ndim(x) != 2:
            raise Unknown('metric')
        return _objs([root(Elem.of(np.sum((x[i] - x[j]) ** 2))) for i in range(len(x)) for j in range(i + 1, len(x))])

    def cdist(x, y, metric='euclidean'):
        x, y = arr(x), arr(y)
        if metric != 'euclidean' or np.ndim(x) != 2:
            raise Unknown('metric')
        return _objs([root(Elem.of(np.sum((a - b) ** 2))) for a in x for b in y]).reshape(len(x), len(y))

    def squareform(v):
        v = arr(v)
        if v.ndim != 1:
            raise Unknown('squareform')
        n = int((1 + math.sqrt(1 + 8 * len(v))) / 2)
        o = lift(np.zeros((n, n)))
        o[np.triu_indices(n, 1)] = v
        return o + o.T

    def searchsorted(a, v, side='left', **k):
        a = [Elem.of(x) for x in arr(a)]
        f = (lambda x: sum(1 for y in a if y < x)) if side == 'left' else (lambda x: sum(1 for y in a if y <= x))
        v = arr(v)
        return lift(np.array([f(Elem.of(x)) for x in v.reshape(-1)], dtype=int).reshape(v.shape)) if isinstance(v, np.ndarray) else f(Elem.of(v))

    def hierarchy(name):
        def f(x, *a, **k):
            from scipy.cluster import hierarchy as h
            x = np.asarray(arr(x), dtype=object)
            v = np.array([_f(Elem.of(y).r) for y in x.reshape(-1)]).reshape(x.shape)
            plain = {p: y if isinstance(y, (str, bool)) else _f(Elem.of(number_or(y)).r) for p, y in k.items()}
            if 'n_clusters' in plain:
                plain['n_clusters'] = int(plain['n_clusters'])
            r = getattr(h, name)(v, *[y if isinstance(y, (str, bool)) else _f(Elem.of(number_or(y)).r) for y in a], **plain)
            return {p: lift(np.array(y)) for p, y in r.items() if p in ('dcoord', 'icoord')} if isinstance(r, dict) else lift(np.asarray(r))
        return f

    lt, gt = (lambda a, b: a < b), (lambda a, b: a > b)
    hyp = ew2(lambda a, b: root(a * a + b * b))
    inv = lambda name, f: ew(fn(name, f))
    def single(v):
        v = Elem.of(v)
        if v.nan() or v.inf() or isinstance(v, Cx):
            return v
        return Elem(float(np.float32(_f(v.r))), hashed('float32', v), None)

    def typed(x, dtype=None):
        d = str(dtype).split('.')[-1].split(':')[-1]
        x = arr(x)
        if isinstance(x, np.ndarray) and x.dtype == bool or dtype is None:
            return x
        if d in ('float32', 'single', 'float16', 'half', 'csingle', 'complex64'):
            return apply(x, single)
        if d in ('int', 'int64', 'int32', 'intp', 'uint', 'int_', 'int16', 'int8', 'uint8', 'uint64', 'uint32'):
            return rounded(math.trunc)(x)
        return x

    def eig(a):
        a = np.asarray(arr(a), dtype=object)
        n = len(a)
        if a.ndim != 2 or a.shape[1] != n:
            raise Unknown('eig')
        # arbitrary numbers that scale with the matrix
        piv = next((Elem.of(x) for x in a.reshape(-1) if Elem.of(x).p), None)
        if piv is None:
            raise Unknown('eig of zero')
        key = [Elem.of(x) / piv for x in a.reshape(-1)]
        num = lambda *k: Elem(.1 + .8 * (hashed('eigr', *k, *key) % 1009) / 1009, hashed('eig', *k, *key), None)
        return (_objs([piv * num(i) for i in range(n)]), _objs([num(i, j) for i in range(n) for j in range(n)]).reshape(n, n))

    def binom(n, k):
        return math.comb(integer(n), integer(k)) if integer(k) >= 0 else 0

    out.update({
        'numpy.array': lambda x, dtype=None, **k: typed(x, dtype), 'numpy.asarray': lambda x, dtype=None, **k: typed(x, dtype), 'numpy.float32': lambda x: typed(x, 'float32'), 'numpy.single': lambda x: typed(x, 'float32'), 'numpy.astype': lambda x, dtype, **k: typed(x, dtype),
        'numpy.polynomial.polynomial.Polynomial': lambda c: Roots(c), 'numpy.polynomial.Polynomial': lambda c: Roots(c), 'numpy.polynomial.polynomial.polyroots': lambda c: Roots(c).roots(), 'numpy.roots': lambda c: c.roots() if isinstance(c, Roots) else Roots(list(arr(c))[::-1]).roots(),
        'numpy.isreal': cxb(lambda v: v.im.r == 0), 'numpy.linalg.eig': eig, 'scipy.linalg.eig': eig, 'numpy.conj': cx(Cx.conj, lambda v: v), 'numpy.conjugate': cx(Cx.conj, lambda v: v), 'numpy.real': cx(lambda v: v.re, lambda v: v), 'numpy.imag': cx(lambda v: v.im, lambda v: 0),
        'scipy.special.binom': binom, 'math.comb': binom, 'scipy.special.comb': binom, 'complex': lambda a, b=0: Cx(number_or(a), number_or(b)),
        'numpy.exp': ew(EXP), 'math.exp': EXP, 'numpy.sqrt': ew(root), 'math.sqrt': lambda x: root(Elem.of(number_or(x))), 'numpy.sin': ew(SIN), 'math.sin': SIN, 'numpy.cos': ew(COS), 'math.cos': COS,
        'numpy.tan': ew(lambda x: SIN(x) / COS(x)), 'math.tan': lambda x: SIN(x) / COS(x), 'numpy.log': cx(Cx.log, fn('log', math.log, None)), 'math.log': fn('log', math.log), 'numpy.log10': ew(fn('log10', math.log10)),
        'math.log10': fn('log10', math.log10), 'numpy.log2': ew(fn('log2', math.log2)), 'numpy.log1p': inv('log1p', math.log1p), 'numpy.expm1': inv('expm1', math.expm1),
        'scipy.special.erf': ew(erf()), 'math.erf': erf(), 'scipy.special.erfc': ew(lambda x: 1 - erf()(x)), 'scipy.special.exp1': inv('exp1', _e1), 'scipy.special.expn': lambda k, x: apply(arr(x), fn(f'expn{integer(k)}', lambda y: _e1(y))),
        'numpy.arctan': ew(_odd('arctan', math.atan)), 'numpy.arccos': inv('arccos', math.acos), 'numpy.arcsin': ew(_odd('arcsin', math.asin)), 'numpy.tanh': ew(_odd('tanh', math.tanh)), 'numpy.sinh': ew(_odd('sinh', _sinh)),
        'numpy.cosh': ew(lambda x: fn('cosh', _cosh, 1)(abs(x))), 'numpy.arctanh': ew(_odd('arctanh', math.atanh)), 'numpy.arcsinh': ew(_odd('arcsinh', math.asinh)),
        'numpy.arctan2': ew2(atan2), 'math.atan2': lambda y, x: atan2(Elem.of(y), Elem.of(x)), 'numpy.hypot': hyp, 'math.hypot': hyp, 'numpy.power': ew2(power), 'math.pow': ew2(power), 'pow': ew2(power), 'numpy.float_power': ew2(power),
        'numpy.divide.outer': outer(lambda a, b: a / b), 'numpy.multiply.outer': outer(lambda a, b: a * b), 'numpy.add.outer': outer(lambda a, b: a + b), 'numpy.subtract.outer': outer(lambda a, b: a - b), 'numpy.power.outer': outer(power),
        'numpy.hypot.outer': outer(lambda a, b: root(a * a + b * b)), 'numpy.maximum.outer': outer(lambda a, b: b if a < b else a), 'numpy.minimum.outer': outer(lambda a, b: b if b < a else a), 'numpy.reshape': reshape, 'numpy.inner': inner, 'scipy.special.roots_legendre': leggauss,
        'numpy.floor': rounded(math.floor), 'numpy.ceil': rounded(math.ceil), 'math.floor': rounded(math.floor), 'math.ceil': rounded(math.ceil), 'int': lambda x: int(number(rounded(math.trunc)(scalar(x)).r)), 'float': lambda x: scalar(x), 'numpy.rint': rounded(round), 'numpy.round': lambda x, d=0, **k: rounded(round)(x) if not integer(d) else _u('decimals'), 'round': lambda x, d=None: rounded(round)(x) if d is None else _u('decimals'),
        'scipy.spatial.distance.pdist': pdist, 'scipy.spatial.distance.cdist': cdist, 'scipy.spatial.distance.squareform': squareform, 'numpy.searchsorted': searchsorted,
        'scipy.interpolate.interp1d': lambda x, y, kind='linear', axis=-1, **k: Interp(x, y, axis, kind), 'scipy.cluster.hierarchy.linkage': hierarchy('linkage'), 'scipy.cluster.hierarchy.dendrogram': hierarchy('dendrogram'), 'scipy.cluster.hierarchy.cut_tree': hierarchy('cut_tree'), 'type': type_, 'numpy.einsum': lambda s, *o, **k: np.einsum(s, *[np.asarray(arr(x), dtype=object) for x in o]), 'numpy.broadcast_shapes': lambda *s: tuple(np.broadcast_shapes(*[shape(x) for x in s])), 'numpy.linalg.norm': norm, 'numpy.polynomial.legendre.leggauss': leggauss, 'numpy.linspace': linspace, 'numpy.reciprocal': ew(lambda x: x.inv()), 'numpy.negative': ew(lambda x: -x), 'numpy.cbrt': ew(lambda x: power(x, Fraction(1, 3))),
        'numpy.argsort': lambda x, **k: lift(np.array(order(x), dtype=int)), 'numpy.sort': lambda x, **k: _objs([arr(x)[i] for i in order(x)]), 'sorted': lambda x, **k: _u('key') if k else [arr(x)[i] for i in order(x)],
        'numpy.unique': unique, 'numpy.min': extreme(lt), 'numpy.max': extreme(gt), 'numpy.amin': extreme(lt), 'numpy.amax': extreme(gt), 'min': mini(lt), 'max': mini(gt),
        'scipy.integrate.quad': quad, 'scipy.integrate.quad_vec': quad, 'numpy.isinf': lambda x: points.apply_bool(arr(x), lambda v: v.inf()), 'numpy.isfinite': lambda x: points.apply_bool(arr(x), lambda v: not v.inf() and not v.nan()),
        'numpy.trapz': lambda y, x: np.sum((arr(y)[1:] + arr(y)[:-1]) * (arr(x)[1:] - arr(x)[:-1])) * half, 'numpy.squeeze': lambda x, **k: _sq(x, k), 'numpy.errstate': lambda **k: None,
        'numpy.count_nonzero': lambda x: int(np.count_nonzero(x)), 'numpy.triu_indices': lambda n, k=0, m=None: tuple(lift(y) for y in np.triu_indices(integer(n), integer(k))),
        'numpy.logical_and': lambda a, b: np.logical_and(a, b), 'numpy.argwhere': lambda x: lift(np.argwhere(x)), 'numpy.nonzero': lambda x: tuple(lift(y) for y in np.nonzero(x)), 'numpy.flatnonzero': lambda x: lift(np.flatnonzero(x)),
        'numpy.rad2deg': lambda x: arr(x) * Fraction(180 / math.pi), 'numpy.deg2rad': lambda x: arr(x) * Fraction(math.pi / 180), 'numpy.degrees': lambda x: arr(x) * Fraction(180 / math.pi), 'numpy.radians': lambda x: arr(x) * Fraction(math.pi / 180),
        'abs': lambda x: apply(arr(x), abs), 'numpy.abs': lambda x: apply(arr(x), abs), 'numpy.absolute': lambda x: apply(arr(x), abs), 'numpy.fabs': lambda x: apply(arr(x), abs),
    })
    return out


def cxb(f):
    def k(x):
        x = arr(x) if not isinstance(x, Cx) else x
        if not isinstance(x, np.ndarray):
            return bool(f(x)) if isinstance(x, Cx) else True
        return np.array([bool(f(v)) if isinstance(v, Cx) else True for v in x.reshape(-1)], dtype=bool).reshape(x.shape)
    return k


def cx(f, g):
    """entry by entry: f for complex numbers, g for others"""
    h = lambda v: f(v) if isinstance(v, Cx) else g(v)

    def k(x, **kw):
        x = arr(x)
        if isinstance(x, np.ndarray):
            o = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                o[i] = h(x[i])
            return o
        return h(x)
    return k


def _u(s):
    raise Unknown(s)


def _sq(x, k):
    x = np.squeeze(arr(x), **ax(k))
    return x


def _objs(v):
    o = np.empty(len(v), dtype=object)
    for i, x in enumerate(v):
        o[i] = x
    return o


def _sinh(x):
    return math.sinh(min(max(x, -700.), 700.))


def _cosh(x):
    return math.cosh(min(max(x, -700.), 700.))


def _e1(x):
    """about the exponential integral, for comparisons only"""
    return .5 * math.exp(-x) * math.log(1 + 2 / x) if x > 0 else math.inf


def flat(v):
    """a result as (shape, entries)"""
    if isinstance(v, dict):
        return ('dict', tuple(sorted((str(k), flat(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__ if False else 'seq', tuple(flat(x) for x in v))
    if isinstance(v, np.ndarray):
        if v.dtype == bool:
            return ('arr', v.shape, tuple(bool(x) for x in v.reshape(-1)))
        return ('arr', v.shape, tuple(Elem.of(x) if not isinstance(x, (list, tuple, bool, type(None), str, Cx)) else flat(x) for x in v.reshape(-1)))
    if isinstance(v, Cx):
        return ('seq', (v.re, v.im))
    if isinstance(v, Interp):
        return ('interp1d', flat(v.x), flat(v.y))
    if isinstance(v, (bool, np.bool_)):
        return ('bool', bool(v))
    if v is None or isinstance(v, (str, slice)) or callable(v) and not isinstance(v, (Elem, Poly)):
        return ('const', repr(v) if not callable(v) else 'function')
    return ('num', Elem.of(v))


def differs(a, b, factor=None, tol=1e-7):
    """how two flattened results differ: '' if they agree, ('soft', ...) if only the field tells them apart"""
    if isinstance(a, Elem) and isinstance(b, Elem):
        if a.nan() or b.nan():
            return '' if a.nan() and b.nan() else f'{a!r} becomes {b!r}'
        if a.inf() or b.inf():
            return '' if a.r == b.r else f'{a!r} becomes {b!r}'
        if factor is not None:
            a = a * factor
        if a.p == b.p:
            return ''
        x, y = _f(a.r), _f(b.r)
        if x == y or abs(x - y) <= tol * max(abs(x), abs(y)):
            return 'soft'
        return f'{x:.6g} becomes {y:.6g}'
    if type(a) is not type(b):
        return f'{a!r} becomes {b!r}'[:80]
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f'{len(a)} values become {len(b)}'
        soft = ''
        for x, y in zip(a, b):
            d = differs(x, y, factor, tol)
            if d == 'soft':
                soft = d
            elif d:
                return d
        return soft
    return '' if a == b else f'{a!r} becomes {b!r}'[:80]


class Case:
    """the program at one of the two points"""
    def __init__(self, e, res, seed, transform):
        import random
        self.e, self.res, self.transform = e, res, transform
        self.rng = random.Random(str(seed))
        self.A = Twin(e.g, {}, {})
        self.raw = {}

    def __enter__(self):
        from .engine import State
        points.ROOT, points.EXP, points.POWER = root, EXP, power
        State.oracle, State.sizes, State.ints = self.A.t, self.A.size, self.A.int
        return self

    def __exit__(self, *a):
        from .engine import State
        State.oracle = State.sizes = State.ints = None
        points.ROOT = points.EXP = points.POWER = None

    def draw(self, lo=1, hi=9, shape=None):
        if shape is None:
            return points.draw(self.rng, lo, hi)
        o = np.empty(shape, dtype=object)
        for i in np.ndindex(o.shape):
            o[i] = points.draw(self.rng, lo, hi)
        return o

    def put(self, name, v, how=None, ty=None):
        """an argument; how: what it is, for the transformation"""
        if isinstance(v, (Fraction, int, float)):
            v = Elem.of(v)
        self.raw[name] = v
        if how is not None or getattr(self.transform, 'all', False):
            v = self.transform(how or name, v)
        self.A.values[name] = v
        return self.e.sym(name, ty or ('array' if isinstance(v, np.ndarray) else 'float'), owner='user:' + name)

    def inf(self):
        from .engine import V
        return V('num', node=self.e.g.mk('const', ('inf',)), ty='float')

    def make(self, cls, st, **kw):
        """an instance, or None if the class refuses the arguments"""
        ci = self.e.classes[cls]
        o, st = self.e.construct(f'{ci.module.name}.{ci.name}', kwargs=kw, st=st)
        if o is None or o.kind != 'inst' or st is None:
            raise Refused(f'{cls}()')
        return o, st

    def call(self, f, st, obj=None, **kw):
        from . import scen
        n0 = len(self.e.events)
        en = scen.call(self.e, f.qual, f, kw, st, obj)
        if en.result is None or en.st is None:
            ex = [x for x in self.e.events[n0:] if x.kind == 'raise']
            raise Refused(f'{f.name}() raises {ex[-1].d.get("exc") if ex and hasattr(ex[-1], "d") else "an exception"}')
        return en.result, en.st

    def value(self, v, st):
        return flat(self.A(self.e.node(v, st)))


class Refused(Exception):
    """the program raises an exception"""


def pair(root_, res, seed, build, transforms, rule, key, loc, msg, factor=None, scale=None):
    """build(case) at the point given by every transformation, against the first one"""
    from . import scen
    ref = None
    for name, T, fac in transforms:
        e = root_() if callable(root_) else scen.engine(root_)
        with Case(e, res, seed, T) as c:
            try:
                v = build(c)
            except Refused as ex:
                v = ('refused', str(ex))
            except Unknown as ex:
                res.undec(rule, f'{key} {seed}', str(ex)[:200])
                v = None
            res.seen(e)
            if v is None:
                return False
            if ref is None:
                ref = v
                res.cover[f'evaluated {key}'] = True
                continue
            res.count('comparisons')
            if (v[0] == 'refused') != (ref[0] == 'refused'):
                res.find(rule, key, f'{msg} {name}: {v[1] if v[0] == "refused" else ref[1]} at one of them only', loc)
                continue
            if v[0] == 'refused':
                res.count('refused')
                continue
            d = differs(ref, v, fac)
            if d == 'soft':
                res.count('equal in value only')
            elif d:
                res.find(rule, key, f'{msg} {name}: {d}', loc)
    return True
