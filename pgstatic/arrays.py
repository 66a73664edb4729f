"""Abstract evaluation of array-valued nodes over polynomials: the shapes are known, the entries are polynomials in named unknowns.

An entry is a Poly (exact rational coefficients), a Python number, a bool or None.  Anything the domain does not describe raises Unknown,
so that the caller leaves the obligation undecided."""
import math
from fractions import Fraction

import numpy as np


class Unknown(Exception):
    pass


class Fails(Unknown):
    """the evaluation itself fails: an index that does not exist"""


def _other(o):
    return isinstance(o, np.ndarray) or hasattr(o, 'same')


class Poly:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    @staticmethod
    def var(x):
        return Poly({((x, 1),): Fraction(1)})

    @staticmethod
    def of(x):
        if isinstance(x, Poly) or hasattr(x, 'same'):
            return x
        if isinstance(x, (bool, np.bool_)):
            return Poly({(): Fraction(int(x))})
        if isinstance(x, (int, np.integer)):
            return Poly({(): Fraction(int(x))})
        if isinstance(x, Fraction):
            return Poly({(): x})
        if isinstance(x, (float, np.floating)):
            if not math.isfinite(x):
                raise Unknown('not finite')
            return Poly({(): Fraction(float(x))})
        raise Unknown(f'entry {type(x).__name__}')

    def const(self):
        if not self.t:
            return Fraction(0)
        if set(self.t) == {()}:
            return self.t[()]
        return None

    def vars(self):
        return {v for k in self.t for v, _ in k}

    def __add__(self, o):
        if _other(o):
            return NotImplemented
        t = dict(self.t)
        for k, v in Poly.of(o).t.items():
            t[k] = t.get(k, 0) + v
        return Poly(t)
    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if _other(o):
            return NotImplemented
        return self + (-Poly.of(o))

    def __rsub__(self, o):
        return Poly.of(o) - self

    def __mul__(self, o):
        if _other(o):
            return NotImplemented
        t = {}
        for k, v in self.t.items():
            for l, w in Poly.of(o).t.items():
                m = dict(k)
                for x, p in l:
                    m[x] = m.get(x, 0) + p
                m = tuple(sorted(m.items()))
                t[m] = t.get(m, 0) + v * w
        return Poly(t)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _other(o):
            return NotImplemented
        c = Poly.of(o).const()
        if c is None or c == 0:
            raise Unknown('division')
        return Poly({k: v / c for k, v in self.t.items()})

    def __rtruediv__(self, o):
        c = self.const()
        if c is None or c == 0:
            raise Unknown('division')
        return Poly.of(o) / c

    def __pow__(self, n):
        if isinstance(n, (Poly, Fraction)):
            n = Poly.of(n).const()
            n = int(n) if n is not None and n.denominator == 1 else None
        if not isinstance(n, (int, np.integer)) or n < 0:
            raise Unknown('power')
        r = Poly.of(1)
        for _ in range(int(n)):
            r = r * self
        return r

    def _cmp(self, o, f):
        d = (self - Poly.of(o)).const()
        if d is None:
            raise Unknown('comparison')
        return f(d)

    def __lt__(self, o): return NotImplemented if _other(o) else self._cmp(o, lambda d: d < 0)
    def __le__(self, o): return NotImplemented if _other(o) else self._cmp(o, lambda d: d <= 0)
    def __gt__(self, o): return NotImplemented if _other(o) else self._cmp(o, lambda d: d > 0)
    def __ge__(self, o): return NotImplemented if _other(o) else self._cmp(o, lambda d: d >= 0)

    def __eq__(self, o):
        if _other(o):
            return NotImplemented
        return self._cmp(o, lambda d: d == 0) if isinstance(o, (Poly, int, float, Fraction)) else False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def __abs__(self):
        c = self.const()
        if c is None:
            raise Unknown('abs')
        return Poly.of(abs(c))

    def conjugate(self):
        return self

    def __repr__(self):
        return ' + '.join(f'{v}*' + '*'.join(x if p == 1 else f'{x}^{p}' for x, p in k) if k else str(v) for k, v in sorted(self.t.items())) or '0'


def lift(x):
    """numbers of an array as Polys (shapes kept)"""
    if isinstance(x, np.ndarray):
        if x.dtype == bool:
            return x
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = Poly.of(x[i])
        return out
    return x


def truth(x):
    """conditions; numbers are compared with zero"""
    x = np.asarray(x) if isinstance(x, (bool, np.bool_, list, tuple)) else arr(x)
    if not isinstance(x, np.ndarray) or x.dtype == object:
        return np.array([bool(number(v)) if not hasattr(v, 'inf') or not v.inf() else True for v in np.asarray(x, dtype=object).reshape(-1)], dtype=bool)
    return x


def number(x):
    """a Python number for an index, size or condition"""
    if isinstance(x, np.ndarray) and x.size == 1:
        x = x.reshape(-1)[0]
    if isinstance(x, Poly):
        c = x.const()
        if c is None:
            raise Unknown('symbolic size')
        x = c
    if hasattr(x, 'same') and isinstance(x.r, Fraction):
        x = x.r
    if isinstance(x, Fraction):
        return int(x) if x.denominator == 1 else x
    if isinstance(x, np.generic):
        return x.item()
    return x


def integer(x):
    x = number(x)
    if isinstance(x, float) and x == int(x):
        x = int(x)
    if not isinstance(x, int):
        raise Unknown('not an integer')
    return int(x)


def index(x):
    if isinstance(x, tuple):
        return tuple(index(y) for y in x)
    if isinstance(x, slice):
        return slice(*(None if y is None else integer(y) for y in (x.start, x.stop, x.step)))
    if x is None or x is Ellipsis or isinstance(x, bool):
        return x
    if isinstance(x, list):
        return [index(y) for y in x]
    if isinstance(x, np.ndarray):
        if x.dtype == bool:
            return x
        if x.ndim == 0:
            return integer(x)
        return np.array([integer(y) for y in x.reshape(-1)], dtype=int).reshape(x.shape)
    return integer(x)


def shape(x):
    if isinstance(x, (tuple, list)):
        return tuple(integer(y) for y in x)
    if isinstance(x, np.ndarray):
        return tuple(integer(y) for y in x.reshape(-1))
    return integer(x)


def arr(x):
    if isinstance(x, np.ndarray):
        return lift(x)
    if isinstance(x, (list, tuple)):
        parts = [arr(y) for y in x]
        if any(isinstance(p, np.ndarray) for p in parts):
            try:
                return np.stack([p if isinstance(p, np.ndarray) else np.array(p, dtype=object) for p in parts]) if parts else np.zeros(0, dtype=object)
            except ValueError:
                raise Unknown('ragged array')
        out = np.empty(len(parts), dtype=object)
        for i, p in enumerate(parts):
            out[i] = p
        return out
    return Poly.of(x)


def einsum(sub, *ops):
    sub = sub.replace(' ', '')
    ins, _, out = sub.partition('->')
    ins = ins.split(',')
    if len(ins) != len(ops) or '.' in sub:
        raise Unknown('einsum')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != np.ndim(o):
            raise Unknown('einsum shape')
        for c, n in zip(s, np.shape(o)):
            if dims.setdefault(c, n) != n:
                raise Unknown('einsum shape')
    if '->' not in sub:
        al = ''.join(ins)
        out = ''.join(sorted(c for c in set(al) if al.count(c) == 1))
    rest = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for io in np.ndindex(*res.shape) if out else [()]:
        at = dict(zip(out, io))
        tot = Poly()
        for ir in np.ndindex(*[dims[c] for c in rest]) if rest else [()]:
            at.update(zip(rest, ir))
            p = Poly.of(1)
            for s, o in zip(ins, ops):
                p = p * Poly.of(o[tuple(at[c] for c in s)])
            tot = tot + p
        res[io] = tot
    return res if out else res[()]


def matmul(a, b):
    a, b = arr(a), arr(b)
    if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray):
        return a * b
    return np.dot(a, b) if a.ndim <= 2 and b.ndim <= 2 else np.matmul(a, b)


def _u(m):
    raise Unknown(m)


def _full(v):
    def f(s, *a, **k):
        out = np.empty(shape(s), dtype=object)
        out[...] = Poly.of(v)
        return out
    return f


def _like(v):
    def f(x, *a, **k):
        x = arr(x)
        out = np.empty(np.shape(x), dtype=object)
        out[...] = Poly.of(v)
        return out
    return f


def ax(k):
    return {a: (None if v is None else v if isinstance(v, bool) else shape(v)) for a, v in k.items() if a in ('axis', 'keepdims')}


def _seq(x):
    x = list(x) if isinstance(x, (tuple, list)) or isinstance(x, np.ndarray) else _u('sequence')
    return [y if isinstance(y, np.ndarray) else arr(y) for y in x]


def _mean(x, axis=None, **k):
    x = arr(x)
    if axis is not None:
        axis = integer(axis)
    n = x.size if axis is None else x.shape[axis]
    if n == 0:
        raise Unknown('mean of nothing')
    return np.sum(x, axis=axis) / n


def _minmax(f):
    def g(*a, axis=None, **k):
        if k or axis is not None:
            raise Unknown('axis')
        xs = [number(y) for x in a for y in (arr(x).reshape(-1) if isinstance(x, (np.ndarray, list, tuple)) else [x])]
        return f(xs)
    return g


def _reshape(x, *s, **k):
    return arr(x).reshape(shape(s[0] if len(s) == 1 else s))


def _round(f):
    def g(x, **k):
        c = number(x)
        return f(c)
    return g


def _item(x, *a):
    x = arr(x)
    if isinstance(x, np.ndarray):
        if a:
            return x.item(*[integer(i) for i in a])
        return x.reshape(-1)[0] if x.size == 1 else _u('item')
    return x


def _where(c, a=None, b=None):
    if a is None or not isinstance(c, np.ndarray) or c.dtype != bool:
        raise Unknown('where')
    return np.where(c, arr(a), arr(b))


FUNCS = {
    'numpy.zeros': _full(0), 'numpy.ones': _full(1), 'numpy.zeros_like': _like(0), 'numpy.ones_like': _like(1),
    'numpy.full': lambda s, v, **k: _full(v)(s), 'numpy.full_like': lambda x, v, **k: _like(v)(x),
    'numpy.eye': lambda n, m=None, k=0, **kw: lift(np.eye(integer(n), None if m is None else integer(m), integer(k))), 'numpy.identity': lambda n, **k: lift(np.eye(integer(n))),
    'numpy.diag': lambda v, k=0: np.diag(arr(v), integer(k)) if np.ndim(v) == 2 else lift(np.diag(arr(v), integer(k))),
    'numpy.hstack': lambda x, **k: np.hstack([np.atleast_1d(y) for y in _seq(x)]), 'numpy.vstack': lambda x, **k: np.vstack(_seq(x)),
    'numpy.concatenate': lambda x, axis=0, **k: np.concatenate(_seq(x), axis=integer(axis)), 'numpy.append': lambda x, y, axis=None: np.append(arr(x), arr(y), **({} if axis is None else {'axis': integer(axis)})),
    'numpy.stack': lambda x, axis=0: np.stack(_seq(x), axis=integer(axis)), 'numpy.column_stack': lambda x: np.column_stack(_seq(x)),
    'numpy.array': lambda x, **k: arr(x), 'numpy.asarray': lambda x, **k: arr(x), 'numpy.copy': lambda x, **k: arr(x), 'numpy.ascontiguousarray': lambda x, **k: arr(x),
    'numpy.atleast_1d': lambda x: np.atleast_1d(arr(x)), 'numpy.atleast_2d': lambda x: np.atleast_2d(arr(x)), 'numpy.squeeze': lambda x, **k: np.squeeze(arr(x), **ax(k)),
    'numpy.reshape': _reshape, 'numpy.ravel': lambda x, **k: arr(x).reshape(-1), 'numpy.flatten': lambda x, **k: arr(x).reshape(-1), 'numpy.transpose': lambda x, *a, axes=None: np.transpose(arr(x), *([] if not a and axes is None else [shape(axes) if not a else shape(a[0]) if len(a) == 1 else shape(a)])),
    'numpy.expand_dims': lambda x, axis: np.expand_dims(arr(x), shape(axis)), 'numpy.broadcast_to': lambda x, s, **k: np.broadcast_to(np.asarray(x) if isinstance(x, (bool, np.bool_)) else arr(x), shape(s)),
    'numpy.tile': lambda x, r: np.tile(arr(x), shape(r)), 'numpy.repeat': lambda x, r, axis=None: np.repeat(arr(x), integer(r), **({} if axis is None else {'axis': integer(axis)})),
    'numpy.flip': lambda x, axis=None: np.flip(arr(x), None if axis is None else shape(axis)), 'numpy.flipud': lambda x: np.flipud(arr(x)), 'numpy.fliplr': lambda x: np.fliplr(arr(x)),
    'numpy.roll': lambda x, s, axis=None: np.roll(arr(x), integer(s), None if axis is None else integer(axis)),
    'numpy.diff': lambda x, n=1, axis=-1, **k: np.diff(arr(x), integer(n), integer(axis), **({p: arr(v) for p, v in k.items()})),
    'numpy.cumsum': lambda x, axis=None: np.cumsum(arr(x), **({} if axis is None else {'axis': integer(axis)})),
    'numpy.sum': lambda x, axis=None, **k: np.sum(arr(x), axis=None if axis is None else shape(axis)), 'numpy.mean': _mean, 'numpy.average': lambda x, axis=None: _mean(x, axis),
    'numpy.dot': matmul, 'numpy.matmul': matmul, 'numpy.einsum': lambda s, *o, **k: einsum(s, *[arr(x) for x in o]), 'numpy.outer': lambda a, b: np.outer(arr(a), arr(b)),
    'numpy.tensordot': lambda a, b, axes=2: _u('tensordot') if not isinstance(axes, (int, Fraction)) else np.tensordot(arr(a), arr(b), integer(axes)),
    'numpy.arange': lambda *a, **k: lift(np.arange(*[integer(x) for x in a])), 'numpy.min': _minmax(min), 'numpy.max': _minmax(max), 'numpy.minimum': _minmax(min), 'numpy.maximum': _minmax(max),
    'numpy.ceil': _round(math.ceil), 'numpy.floor': _round(math.floor), 'int': _round(int), 'float': lambda x: x, 'numpy.rint': _round(round), 'round': _round(round),
    'numpy.item': _item, 'numpy.ndim': lambda x: np.ndim(arr(x)), 'numpy.size': lambda x: int(np.size(arr(x))), 'numpy.shape': lambda x: tuple(np.shape(arr(x))),
    'len': lambda x: len(x) if isinstance(x, (list, tuple)) else len(arr(x)), 'numpy.where': _where, 'numpy.isscalar': lambda x: not isinstance(x, (np.ndarray, list, tuple)),
    'numpy.multiply': lambda a, b: arr(a) * arr(b), 'numpy.add': lambda a, b: arr(a) + arr(b), 'numpy.subtract': lambda a, b: arr(a) - arr(b), 'numpy.divide': lambda a, b: arr(a) / arr(b),
    'numpy.meshgrid': lambda *a, **k: _meshgrid(*a, **k), 'numpy.kron': lambda a, b: np.kron(arr(a), arr(b)), 'numpy.tril_indices': lambda n, k=0: tuple(lift(y) for y in np.tril_indices(integer(n), integer(k))),
    'numpy.indices': lambda s: [lift(y) for y in np.indices(shape(s))], 'numpy.take': lambda x, i, axis=None, **k: np.take(arr(x), index(i), None if axis is None else integer(axis)),
    'numpy.floor_divide': lambda a, b: BIN['//'](a, b), 'numpy.mod': lambda a, b: BIN['%'](a, b), 'numpy.remainder': lambda a, b: BIN['%'](a, b), 'divmod': lambda a, b: (BIN['//'](a, b), BIN['%'](a, b)),
    'numpy.moveaxis': lambda x, a, b: np.moveaxis(arr(x), integer(a), integer(b)), 'numpy.cumprod': lambda x, axis=None: np.cumprod(arr(x), **({} if axis is None else {'axis': integer(axis)})),
    'numpy.nonzero': lambda *a: _u('nonzero'), 'numpy.all': lambda x: bool(np.all(x)), 'numpy.any': lambda x: bool(np.any(x)),
    'numpy.abs': lambda x: abs(arr(x)), 'list': lambda x: list(x), 'tuple': lambda x: tuple(x), 'numpy.linalg.matrix_power': lambda a, n: _power(arr(a), integer(n)),
    'numpy.delete': lambda x, i, axis=None: np.delete(arr(x), index(i), None if axis is None else integer(axis)), 'numpy.insert': lambda x, i, v, axis=None: np.insert(arr(x), index(i), arr(v), None if axis is None else integer(axis)),
    'numpy.triu': lambda x, k=0: lift(np.triu(np.ones(np.shape(x)), integer(k))) * arr(x), 'numpy.tril': lambda x, k=0: lift(np.tril(np.ones(np.shape(x)), integer(k))) * arr(x),
}


def _ew(f):
    """elementwise comparison"""
    def g(a, b, **k):
        a, b = np.broadcast_arrays(np.asarray(arr(a), dtype=object), np.asarray(arr(b), dtype=object))
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape):
            out[i] = bool(f(a[i], b[i]))
        return out if out.shape else bool(out)
    return g


def _val(x):
    return number(x) if not isinstance(x, (bool, np.bool_)) else int(x)


def _close(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    if k:
        raise Unknown('isclose')
    r, t = _val(rtol), _val(atol)
    r, t = Fraction(r), Fraction(t)
    if same(a, b):
        return True
    return abs(_val(a) - _val(b)) <= t + r * abs(_val(b))


def same(a, b):
    if hasattr(a, 'same') or hasattr(b, 'same'):
        return (a if hasattr(a, 'same') else b).same(b if hasattr(a, 'same') else a)
    return isinstance(a, Poly) and isinstance(b, Poly) and a.t == b.t


def _allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    return bool(np.all(_ew(lambda x, y: _close(x, y, rtol, atol, **k))(a, b)))


def _mulb(a, b):
    f = lambda x: lift(x.astype(int)) if isinstance(x, np.ndarray) and x.dtype == bool else arr(x)
    return f(a) * f(b)


def _abs(x):
    x = arr(x)
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = abs(Poly.of(x[i]))
        return out
    return abs(x)


def _isinstance(name, x):
    t = name.split('.')[-1]
    if t in ('int', 'integer', 'Integral'):
        return isinstance(x, (int, Fraction)) and not isinstance(x, bool)
    if t in ('float', 'floating'):
        return isinstance(x, (float, Poly)) or hasattr(x, 'same')
    if t == 'slice':
        return isinstance(x, slice)
    if t == 'list':
        return isinstance(x, list)
    if t == 'tuple':
        return isinstance(x, tuple)
    if t == 'ndarray':
        return isinstance(x, np.ndarray)
    if t == 'str':
        return isinstance(x, str)
    raise Unknown(name)


FUNCS.update({
    'numpy.greater': _ew(lambda a, b: a > b), 'numpy.less': _ew(lambda a, b: a < b), 'numpy.greater_equal': _ew(lambda a, b: a >= b), 'numpy.less_equal': _ew(lambda a, b: a <= b),
    'numpy.equal': _ew(lambda a, b: same(a, b) or a == b), 'numpy.not_equal': _ew(lambda a, b: not (same(a, b) or a == b)),
    'numpy.allclose': _allclose, 'numpy.isclose': lambda a, b, *p, **k: _ew(lambda x, y: _close(x, y, *p, **k))(a, b),
    'numpy.array_equal': lambda a, b: np.shape(arr(a)) == np.shape(arr(b)) and bool(np.all(_ew(lambda x, y: same(x, y) or x == y)(a, b))),
    'numpy.any': lambda x, **k: bool(np.any(truth(x))) if not k else _u('any'), 'numpy.all': lambda x, **k: bool(np.all(truth(x))) if not k else _u('all'),
    'any': lambda x: any(bool(number(y)) for y in x), 'all': lambda x: all(bool(number(y)) for y in x), 'bool': lambda x: bool(number(x)),
    'numpy.logical_and': lambda a, b: np.logical_and(a, b), 'numpy.logical_or': lambda a, b: np.logical_or(a, b), 'numpy.logical_not': lambda a: np.logical_not(a),
    'numpy.multiply': _mulb, 'numpy.abs': _abs, 'numpy.absolute': _abs, 'numpy.fabs': _abs, 'abs': _abs, 'numpy.asfarray': lambda x, **k: arr(x), 'numpy.asanyarray': lambda x, **k: arr(x),
    'numpy.savetxt': lambda *a, **k: None, 'numpy.array_str': lambda x: _u('str'), 'numpy.float64': lambda x: arr(x), 'numpy.tolist': lambda x: list(arr(x)), 'numpy.astype': lambda x, *a, **k: arr(x),
    'numpy.T': lambda x: np.transpose(arr(x)) if isinstance(arr(x), np.ndarray) else arr(x), 'numpy.c_': lambda *x: _u('c_'),
})


def _find(x, v):
    for i, y in enumerate(x):
        if same(y, v) or y == v:
            return i
    raise Fails('not in the list')


FUNCS.update({'list.count': lambda x, v: sum(1 for y in x if same(y, v) or y == v), 'list.index': _find, 'list.copy': lambda x: list(x), 'set': lambda x: list(x)})


def _power(a, n):
    r = lift(np.eye(len(a)))
    for _ in range(n):
        r = np.dot(r, a)
    return r


def _bro(f):
    """entry by entry, whichever side holds the array"""
    def g(a, b):
        if not isinstance(a, (np.ndarray, list)) and not isinstance(b, (np.ndarray, list)):
            return f(a, b)
        a, b = np.broadcast_arrays(np.asarray(arr(a), dtype=object), np.asarray(arr(b), dtype=object))
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i], b[i])
        return out
    return g


def _meshgrid(*x, indexing='xy', **k):
    if k:
        raise Unknown('meshgrid')
    return [np.array(y, dtype=object) for y in np.meshgrid(*[np.atleast_1d(arr(y)) for y in x], indexing=indexing)]


def _bits(a, b, f):
    c = [np.asarray(x) if isinstance(x, (bool, np.bool_)) else x for x in (a, b)]
    if all(isinstance(x, np.ndarray) and x.dtype == bool for x in c):
        return f(*c)
    return f(integer(a), integer(b))


BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '@': matmul,
       '**': _bro(lambda a, b: a ** number(b)), '//': _bro(lambda a, b: number(a) // number(b)), '%': _bro(lambda a, b: number(a) % number(b)),
       '&': lambda a, b: _bits(a, b, lambda x, y: x & y), '|': lambda a, b: _bits(a, b, lambda x, y: x | y), '^': lambda a, b: _bits(a, b, lambda x, y: x ^ y),
       '<<': lambda a, b: integer(a) << integer(b), '>>': lambda a, b: integer(a) >> integer(b)}
CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}


class Arrays:
    """values: {symbol: value};  calls: {function name: value or function of the evaluated arguments}"""

    def __init__(self, g, values, calls=None, funcs=None, numbers=None):
        """funcs: more functions of arrays;  numbers: how numbers that are not finite are represented"""
        self.g, self.values, self.calls, self.funcs, self.numbers = g, values, calls or {}, funcs or {}, numbers
        self.memo = {}

    def __call__(self, n):
        if n.id not in self.memo:
            try:
                self.memo[n.id] = self.ev(n)
            except Unknown as ex:
                self.memo[n.id] = ex
            except (ValueError, IndexError, AssertionError, TypeError, AttributeError, KeyError, ZeroDivisionError, OverflowError) as ex:
                self.memo[n.id] = Unknown(f'{type(ex).__name__}: {ex}')
        v = self.memo[n.id]
        if isinstance(v, Unknown):
            raise v
        return v

    def ev(self, n):
        op = n.op
        if op == 'const':
            v = n.data
            if v in (('nan',), ('inf',)):
                v = float(v[0])
            if isinstance(v, float):
                return Poly.of(v) if math.isfinite(v) else self.numbers(v) if self.numbers else _u('infinite')
            return Fraction(v) if isinstance(v, int) and not isinstance(v, bool) else v
        if op == 'sym':
            if n.data in self.values:
                return self.values[n.data]
            raise Unknown(f'symbol {n.data}')
        if op == 'tuple':
            return tuple(self(a) for a in n.args)
        if op == 'list':
            return [self(a) for a in n.args]
        if op == 'slice':
            return slice(*(self(a) for a in n.args))
        if op == 'attr':
            b = n.args[0]
            k = f'{b.data}.{n.data}'
            if b.op == 'sym' and k in self.values:
                return self.values[k]
            return self.ev_call('method:' + n.data, (), n.args) if n.data in ('T', 'size', 'shape', 'ndim') else _u(f'attribute {n.data}')
        if op == 'phi':
            c = self(n.args[0])
            c = bool(number(c)) if not isinstance(c, bool) else c
            return self(n.args[1 if c else 2])
        if op == 'bin':
            a, b = self(n.args[0]), self(n.args[1])
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and n.data == '+':
                return list(a) + list(b)
            if isinstance(a, (list, tuple)) and n.data == '*' and not isinstance(b, np.ndarray):
                return list(a) * integer(b)
            if n.data == '*' and any(isinstance(x, np.ndarray) and x.dtype == bool for x in (a, b)):
                return _mulb(a, b)
            if n.data in ('&', '|') and all(isinstance(x, (bool, np.ndarray)) for x in (a, b)):
                return a & b if n.data == '&' else a | b
            a, b = (arr(x) if isinstance(x, (np.ndarray, list, tuple)) else x for x in (a, b))
            return BIN[n.data](a, b)
        if op == 'un':
            a = self(n.args[0])
            if n.data == '~' and isinstance(a, np.ndarray) and a.dtype == bool:
                return ~a
            if n.data == '~':
                raise Unknown('~')
            if n.data == 'not':
                return not (a if isinstance(a, bool) else number(a))
            return -arr(a) if n.data == '-' else arr(a)
        if op == 'cmp':
            a, b = self(n.args[0]), self(n.args[1])
            if n.data in ('is', 'is not'):
                r = a is b if a is None or b is None or isinstance(a, bool) or isinstance(b, bool) else _u('is')
                return r if n.data == 'is' else not r
            if any(isinstance(x, np.ndarray) for x in (a, b)) and n.data in CMP:
                return _ew(lambda x, y: same(x, y) if n.data == '==' and same(x, y) else CMP[n.data](x, y))(a, b)
            r = CMP[n.data](a if isinstance(a, (np.ndarray, str, bool)) else number(a), b if isinstance(b, (np.ndarray, str, bool)) else number(b))
            if isinstance(r, np.ndarray):
                return r.astype(bool)
            return bool(r)
        if op == 'bool':
            a = self(n.args[0])
            a = a if isinstance(a, bool) else bool(number(a))
            if n.data == 'and' and not a or n.data == 'or' and a:
                return a
            b = self(n.args[1])
            return b if isinstance(b, bool) else bool(number(b))
        if op == 'idx':
            a, i = self(n.args[0]), index(self(n.args[1]))
            if isinstance(a, (list, tuple)) and isinstance(i, (int, slice)):
                return a[i]
            a = arr(a)
            try:
                return a[i]
            except IndexError as ex:
                raise Fails(str(ex))
        if op == 'store':
            a, i, v = self(n.args[0]), index(self(n.args[1])), self(n.args[2])
            a = arr(a).copy()
            a[i] = arr(v) if isinstance(v, (np.ndarray, list, tuple)) else Poly.of(v)
            return a
        if op == 'call':
            return self.ev_call(n.data[0], n.data[1], n.args)
        raise Unknown(f'{op} {n.data}')

    def ev_call(self, name, kws, args):
        k = len(args) - len(kws)
        if name in self.calls:
            f = self.calls[name]
            if hasattr(f, 'kw'):
                return f.kw(*[self(a) for a in args[:k]], **{p: self(a) for p, a in zip(kws, args[k:])})
            return f(*[self(a) for a in args]) if callable(f) else f
        if name.startswith('method:'):
            name = 'numpy.' + name[7:]
        if name.startswith('isinstance:'):
            return _isinstance(name[11:], self(args[0]))
        f = self.funcs.get(name) or FUNCS.get(name)
        if f is None:
            raise Unknown(f'call {name}')
        return f(*[self(a) for a in args[:k]], **{p: self(a) for p, a in zip(kws, args[k:])})

    # -- answers for the engine -------------------------------------------------------------------
    def t(self, n):
        """truth of a condition, or None"""
        try:
            v = self(n)
        except Unknown:
            return None
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        try:
            return None if v is None or isinstance(v, (slice, str)) else bool(number(v))
        except (Unknown, TypeError, ValueError):
            return None

    def size(self, n):
        try:
            v = self(n)
        except Unknown:
            return None
        return len(v) if isinstance(v, (list, tuple)) or isinstance(v, np.ndarray) and v.ndim else None

    def int(self, n):
        try:
            return integer(self(n))
        except (Unknown, TypeError, ValueError):
            return None
