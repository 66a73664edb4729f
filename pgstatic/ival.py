"""Abstract interpretation of value graphs: intervals, lists of known length, constants; unknown = None.

('n', lo, hi) number in [lo, hi];  ('b', bool);  ('l', (v, ...));  ('c', constant) strings, None, names of types."""
import math

from . import reach

INF = float('inf')
NUMPY_CMP = {'numpy.greater': '>', 'numpy.greater_equal': '>=', 'numpy.less': '<', 'numpy.less_equal': '<=', 'numpy.equal': '==', 'numpy.not_equal': '!='}
SAME = {'numpy.asarray', 'numpy.array', 'numpy.atleast_1d', 'numpy.flatten', 'numpy.ravel', 'numpy.copy', 'list', 'tuple', 'numpy.ascontiguousarray',
        'numpy.astype', 'copy.copy', 'copy.deepcopy', 'method:copy', 'method:flatten', 'method:tolist', 'numpy.tolist', 'iter'}
SCALAR = {'float', 'numpy.float64', 'numpy.item'}
NUMT = {'float', 'int', 'numpy.floating', 'numpy.integer'}


def num(lo, hi=None):
    return ('n', float(lo), float(lo if hi is None else hi))


def lst(*v):
    return ('l', tuple(v))


def const(c):
    if isinstance(c, bool):
        return ('b', c)
    if isinstance(c, float) and math.isnan(c) or c == ('nan',):
        return ('nan',)
    if isinstance(c, (int, float)):
        return ('n', float(c), float(c))
    if isinstance(c, tuple) and c == ('inf',):
        return ('n', INF, INF)
    return ('c', c)


def join(a, b):
    if a == b:
        return a
    if a is None or b is None or a[0] != b[0]:
        return None
    if a[0] == 'n':
        return ('n', min(a[1], b[1]), max(a[2], b[2]))
    if a[0] == 'l' and len(a[1]) == len(b[1]):
        return ('l', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    return None


def flat(v):
    if v is not None and v[0] == 'l':
        for x in v[1]:
            yield from flat(x)
    else:
        yield v


def allnan(v):
    return v is not None and bool(list(flat(v))) and all(x == ('nan',) for x in flat(v))


def broadcast(f, a, b):
    # an array of nan compared with anything, or a sum with it: the length does not matter
    if a is None and allnan(b):
        return f(a, ('nan',))
    if b is None and allnan(a):
        return f(('nan',), b)
    if a is None or b is None:
        # an unknown operand of a list may be a list itself
        return None
    if a[0] == 'l' and b[0] == 'l':
        x, y = a[1], b[1]
        if depth(a) != depth(b):
            if depth(a) > depth(b):
                return ('l', tuple(broadcast(f, i, b) for i in x))
            return ('l', tuple(broadcast(f, a, i) for i in y))
        if len(x) == 1 and len(y) != 1:
            x = x * len(y)
        if len(y) == 1 and len(x) != 1:
            y = y * len(x)
        if len(x) != len(y):
            return None
        return ('l', tuple(broadcast(f, i, j) for i, j in zip(x, y)))
    if a[0] == 'l':
        return ('l', tuple(broadcast(f, i, b) for i in a[1]))
    if b[0] == 'l':
        return ('l', tuple(broadcast(f, a, i) for i in b[1]))
    return f(a, b)


def depth(v):
    return 0 if v is None or v[0] != 'l' else 1 + (depth(v[1][0]) if v[1] else 0)


def truth(v):
    if v is None:
        return None
    if v[0] == 'b':
        return v[1]
    if v[0] == 'n':
        if v[1] == v[2] == 0:
            return False
        if v[1] > 0 or v[2] < 0:
            return True
        return None
    if v[0] == 'l':
        return len(v[1]) > 0
    if v[0] == 'c':
        return bool(v[1]) if v[1] is None or isinstance(v[1], str) else True
    return None


def tri(x):
    return None if x is None else ('b', x)


def cmp_(op, a, b):
    if op == '>':
        return cmp_('<', b, a)
    if op == '>=':
        return cmp_('<=', b, a)
    if op == '!=':
        r = cmp_('==', a, b)
        return None if r is None else ('b', not r[1])
    if a == ('nan',) or b == ('nan',):
        return ('b', False)
    if a is None or b is None:
        return None
    if a[0] == 'b' and b[0] == 'n':
        a = num(int(a[1]))
    if b[0] == 'b' and a[0] == 'n':
        b = num(int(b[1]))
    if a[0] == 'n' and b[0] == 'n':
        if op == '<':
            return ('b', True) if a[2] < b[1] else ('b', False) if a[1] >= b[2] else None
        if op == '<=':
            return ('b', True) if a[2] <= b[1] else ('b', False) if a[1] > b[2] else None
        if op == '==':
            if a[1] == a[2] == b[1] == b[2]:
                return ('b', True)
            return ('b', False) if a[2] < b[1] or b[2] < a[1] else None
    if op == '==':
        if a[0] == b[0] and a[0] in 'cb':
            return ('b', a[1] == b[1])
        if a[0] != b[0]:
            return ('b', False)
    return None


TOP = ("n", -math.inf, math.inf)


def bin_(op, a, b):
    if a == ('nan',) or b == ('nan',):
        return ('nan',)
    if a is None or b is None:
        return None
    if a[0] == 'b':
        a = num(int(a[1]))
    if b[0] == 'b':
        b = num(int(b[1]))
    if a[0] != 'n' or b[0] != 'n':
        return None
    try:
        if op == '+':
            return ('n', a[1] + b[1], a[2] + b[2])
        if op == '-':
            return ('n', a[1] - b[2], a[2] - b[1])
        if op == '*':
            p = [x * y for x in a[1:] for y in b[1:]]
            return None if any(math.isnan(x) for x in p) else ('n', min(p), max(p))
        if op == '/':
            if b[1] <= 0 <= b[2]:
                return None
            p = [x / y for x in a[1:] for y in b[1:]]
            return None if any(math.isnan(x) for x in p) else ('n', min(p), max(p))
        if op == '**' and b[1] == b[2]:
            k = b[1]
            if k == int(k) and k > 0:
                p = [a[1] ** k, a[2] ** k]
                if int(k) % 2 == 0 and a[1] <= 0 <= a[2]:
                    p.append(0.)
                return ('n', min(p), max(p))
            if a[1] >= 0 and k > 0:
                return ('n', a[1] ** k, a[2] ** k)
        if op in ('//', '%') and a[1] == a[2] and b[1] == b[2] and b[1] != 0:
            return num(a[1] // b[1] if op == '//' else a[1] % b[1])
    except OverflowError:
        pass
    return None


def mono(f, v, lo=-INF):
    if v is None:
        return None
    if v[0] == 'l':
        return ('l', tuple(mono(f, x, lo) for x in v[1]))
    if v[0] != 'n' or v[1] < lo:
        return None
    return ('n', f(v[1]), f(v[2]))


def abs_(v):
    if v is None or v == ('nan',):
        return v
    if v[0] == 'l':
        return ('l', tuple(abs_(x) for x in v[1]))
    if v[0] != 'n':
        return None
    lo = 0. if v[1] <= 0 <= v[2] else min(abs(v[1]), abs(v[2]))
    return ('n', lo, max(abs(v[1]), abs(v[2])))


def trig(v, peak, f):
    """cos (peak 0) or sin (peak at pi/2, given as -pi/2 shift) of an interval"""
    if v is None:
        return None
    if v[0] == 'l':
        return ('l', tuple(trig(x, peak, f) for x in v[1]))
    if v[0] != 'n' or math.isinf(v[1]) or math.isinf(v[2]):
        return ('n', -1., 1.) if v[0] == 'n' else None
    lo, hi = v[1] + peak, v[2] + peak
    xs = [f(v[1]), f(v[2])]
    for k in range(math.ceil(lo / math.pi), math.floor(hi / math.pi) + 1):
        xs.append(1. if k % 2 == 0 else -1.)
    return ('n', min(xs), max(xs))


def atan2_(y, x):
    if y is None or x is None or y[0] != 'n' or x[0] != 'n':
        return None
    if y[1] == y[2] and x[1] == x[2]:
        return num(math.atan2(y[1], x[1]))
    if x[1] > 0 or y[1] > 0 or y[2] < 0:
        p = [math.atan2(b, c) for b in y[1:] for c in x[1:]]
        return ('n', min(p), max(p))
    return None


def and3(xs):
    xs = list(xs)
    return False if any(x is False for x in xs) else None if any(x is None for x in xs) else True


def or3(xs):
    xs = list(xs)
    return True if any(x is True for x in xs) else None if any(x is None for x in xs) else False


class Abs:
    """env: {symbol name: value};  attrs: {'sym.attr': value};  types: {symbol name: type name};  pairs: facts on nodes"""
    def __init__(self, g, env, attrs=None, types=None):
        self.g, self.env, self.attrs, self.types = g, env, attrs or {}, types or {}
        self.memo = {}

    def __call__(self, n):
        r = self.memo.get(n.id, self)
        if r is self:
            self.memo[n.id] = None      # cycles are unknown
            r = self.memo[n.id] = self.ev(n)
        return r

    def t(self, n):
        return truth(self(n))

    def size(self, n):
        v = self(n)
        return len(v[1]) if v is not None and v[0] == 'l' else None

    def ev(self, n):
        op, a = n.op, n.args
        if op == 'const':
            return const(n.data)
        if op == 'sym':
            if isinstance(n.data, str) and n.data.startswith('ext:') and n.data not in self.env:
                return ('nan',) if n.data.endswith('numpy.nan') else ('c', ('ext', n.data))
            return self.env.get(n.data)
        if op == 'ext' or op == 'const' and isinstance(n.data, str) and n.data.startswith('ext:'):
            return ('nan',) if str(n.data).endswith('numpy.nan') else ('c', ('ext', str(n.data)))
        if op in ('list', 'tuple'):
            out = []
            for x in a:
                if x.op == 'star':
                    v = self(x.args[0])
                    if v is None or v[0] != 'l':
                        return None
                    out += v[1]
                else:
                    out.append(self(x))
            return ('l', tuple(out))
        if op == 'attr' or op == 'call' and n.data[0].startswith('method:') and len(a) == 1:
            name = n.data if op == 'attr' else n.data[0][7:]
            base = a[0]
            v = self.attr(base, name)
            if v is not None:
                return v
            if op == 'attr':
                if name == 'size':
                    v = self(base)
                    return None if v is None or v[0] != 'l' else num(len(list(flat(v))))
                if name == 'ndim':
                    v = self(base)
                    return None if v is None or v[0] not in 'ln' else num(depth(v))
                if name == 'shape':
                    v = self(base)
                    return None if v is None or v[0] != 'l' else lst(*self.shape(v))
                return None
        if op == 'bin':
            l, r = self(a[0]), self(a[1])
            if n.data == '-' and a[0] is a[1] and l is not None and l[0] == 'n' and not math.isinf(l[1]) and not math.isinf(l[2]):
                return num(0)
            if l is not None and r is not None and l[0] == 'l' and r[0] == 'n' and n.data == '*' and a[0].op == 'list' and r[1] == r[2]:
                return ('l', l[1] * int(r[1]))
            return broadcast(lambda x, y: bin_(n.data, x, y), l, r)
        if op == 'un':
            if n.data == 'not':
                t = self.t(a[0])
                return None if t is None else ('b', not t)
            v = self(a[0])
            if n.data == '-':
                return broadcast(lambda x, y: bin_('-', x, y), num(0), v)
            if n.data in ('~',):
                return self.elementwise_not(v)
            return v if n.data == '+' else None
        if op == 'cmp':
            return self.cmp(n)
        if op == 'bool':
            x, y = self.t(a[0]), self.t(a[1])
            return tri(and3([x, y]) if n.data == 'and' else or3([x, y]))
        if op == 'phi':
            t = self.t(a[0])
            if t is True:
                return self(a[1])
            if t is False:
                return self(a[2])
            return join(self(a[1]), self(a[2]))
        if op == 'idx':
            return self.idx(n)
        if op == 'store' and n.args[1].op == 'slice' and all(x.op == 'const' and x.data is None for x in n.args[1].args):
            v, w = self(n.args[0]), self(n.args[2])
            if v is not None and v[0] == 'l' and w is not None and w[0] != 'l' and all(x is None or x[0] != 'l' for x in v[1]):
                return ('l', (w,) * len(v[1]))
            return None
        if op == 'store' and n.args[1].op in ('const', 'bin', 'sym'):
            v, w, i = self(n.args[0]), self(n.args[2]), self(n.args[1])
            if v is not None and v[0] == 'l' and i is not None and i[0] == 'n' and i[1] == i[2] and -len(v[1]) <= i[1] < len(v[1]):
                out = list(v[1])
                out[int(i[1])] = w
                return ('l', tuple(out))
            return None
        if op == 'elem':
            v = self(a[0])
            if v is not None and v[0] == 'l' and v[1]:
                r = v[1][0]
                for x in v[1][1:]:
                    r = join(r, x)
                return r
            return None
        if op == 'lsum':
            # elements all described by the first argument, length by the second
            v, ln = self(a[0]), self(a[1]) if len(a) > 1 else None
            if ln is not None and ln[0] == 'n' and ln[1] == ln[2] and ln[1] < 50 and v is not None:
                return ('l', (v,) * int(ln[1]))
            return None
        if op == 'call':
            return self.call(n)
        return None

    def attr(self, base, name):
        r = reach.root_name(base)
        if r is not None:
            v = self.attrs.get(f'{r}.{name}')
            if v is not None:
                return v
        return None

    def shape(self, v):
        out = []
        while v is not None and v[0] == 'l':
            out.append(num(len(v[1])))
            v = v[1][0] if v[1] else None
        return out

    def elementwise_not(self, v):
        if v is None:
            return None
        if v[0] == 'l':
            return ('l', tuple(self.elementwise_not(x) for x in v[1]))
        t = truth(v)
        return tri(None if t is None else not t)

    def cmp(self, n):
        a, b = n.args
        op = n.data
        x, y = self(a), self(b)
        if op == 'is':
            for p, q, m in ((x, y, a), (y, x, b)):
                if q == ('c', None):
                    return None if p is None else ('b', p == ('c', None))
            if a.op == 'call' and a.data[0] == 'type':
                t = self.type_of(a.args[0])
                want = self.tname(b)
                return None if t is None or want is None else ('b', t == want)
            if x is not None and y is not None and x[0] in 'cb' and y[0] in 'cb':
                return ('b', x == y)
            return None
        if op == 'in':
            if y is not None and y[0] == 'l' and x is not None:
                return tri(or3(truth(cmp_('==', x, z)) for z in y[1]))
            return None
        if a.op == 'call' and a.data[0] == 'type' or b.op == 'call' and b.data[0] == 'type':
            if a.op != 'call' or a.data[0] != 'type':
                a, b = b, a
            t, want = self.type_of(a.args[0]), self.tname(b)
            return None if op != '==' or t is None or want is None else ('b', t == want)
        if op == '==' and (x is None or y is None or 'l' in (x[0], y[0]) and 'c' in (x[0], y[0])):
            return None
        return broadcast(lambda p, q: cmp_(op, p, q), x, y)

    def tname(self, n):
        s = str(n.data) if n.op in ('ext', 'sym', 'cls', 'const') else repr(n)
        return s.replace('ext:', '').replace('builtin:', '').strip("'")

    def type_of(self, n):
        if n.op == 'sym' and n.data in self.types:
            return self.types[n.data]
        v = self(n)
        if n.op == 'call' and n.data[0] in ('numpy.array', 'numpy.asarray', 'numpy.atleast_1d', 'numpy.flatten', 'numpy.atleast_2d'):
            return 'numpy.ndarray'
        if v is None:
            return None
        if v[0] == 'b':
            return 'bool'
        if v == ('c', None):
            return 'NoneType'
        if v[0] == 'c' and isinstance(v[1], str):
            return 'str'
        return None

    def isinstance_(self, n, name):
        t = self.type_of(n)
        if t is None:
            v = self(n)
            if v == ('c', None):
                return False
            return None
        if t == name:
            return True
        if t == 'bool' and name == 'int':
            return True
        return False

    def idx(self, n):
        v = self(n.args[0])
        if v is None or v[0] != 'l':
            return None
        k = n.args[1]
        if k.op == 'slice':
            b = []
            for x in k.args:
                w = self(x)
                if w == ('c', None):
                    b.append(None)
                elif w is not None and w[0] == 'n' and w[1] == w[2]:
                    b.append(int(w[1]))
                else:
                    return None
            return ('l', v[1][slice(*b)])
        if k.op == 'tuple':
            return None
        i = self(k)
        if i is not None and i[0] == 'n' and i[1] == i[2] and -len(v[1]) <= i[1] < len(v[1]):
            return v[1][int(i[1])]
        if i is not None and i[0] == 'l':
            return None
        r = v[1][0] if v[1] else None
        for x in v[1][1:]:
            r = join(r, x)
        return r

    def red(self, v, f, empty=None):
        if v is None:
            return None
        xs = list(flat(v))
        if any(x is None or x[0] not in 'nb' for x in xs):
            return None
        return f(xs) if xs else empty

    def call(self, n):
        f, a = n.data[0], n.args
        if f.startswith('isinstance:') or f == 'isinstance':
            if f == 'isinstance':
                return tri(self.isinstance_(a[0], self.tname(a[1])) if len(a) > 1 else None)
            return tri(self.isinstance_(a[0], f.split(':', 1)[1]))
        if not a:
            return None
        if f == 'truth' or f == 'bool':
            return tri(self.t(a[0]))
        if f == 'nonempty':
            v = self(a[0])
            return ('b', len(v[1]) > 0) if v is not None and v[0] == 'l' else None
        v = self(a[0])
        m = f[7:] if f.startswith('method:') else f[6:] if f.startswith('numpy.') else f
        if f in NUMPY_CMP and len(a) > 1:
            return broadcast(lambda p, q: cmp_(NUMPY_CMP[f], p, q), v, self(a[1]))
        if m in ('add', 'subtract', 'multiply', 'divide', 'power', 'true_divide') and len(a) > 1:
            o = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/', 'true_divide': '/', 'power': '**'}[m]
            return broadcast(lambda p, q: bin_(o, p, q), v, self(a[1]))
        if m in ('logical_and', 'logical_or') and len(a) > 1:
            g = and3 if m == 'logical_and' else or3
            return broadcast(lambda p, q: tri(g([truth(p), truth(q)])), v, self(a[1]))
        if m in ('logical_not', 'invert'):
            return self.elementwise_not(v)
        if m in ('all', 'any') and len(a) == 1 or m in ('all', 'any') and all(x.op == 'const' and x.data is None for x in a[1:]):
            if v is None:
                return None
            return tri((and3 if m == 'all' else or3)(truth(x) for x in flat(v)))
        if f == 'len':
            return num(len(v[1])) if v is not None and v[0] == 'l' else None
        if m == 'size' and f.startswith('numpy.'):
            if v is None:
                return None
            if len(a) > 1 and a[1].op == 'const' and isinstance(a[1].data, int):
                s = self.shape(v)
                return s[a[1].data] if -len(s) <= a[1].data < len(s) else None
            return num(len(list(flat(v))))
        if m == 'ndim' and f.startswith('numpy.'):
            return num(depth(v)) if v is not None and v[0] in 'ln' else None
        if m == 'shape' and f.startswith('numpy.'):
            return lst(*self.shape(v)) if v is not None and v[0] in 'ln' else None
        if m in ('atleast_1d', 'array', 'asarray') and v is not None:
            if m == 'atleast_1d' and v[0] in 'nb':
                return lst(v)
            return v
        if m == 'atleast_2d' and v is not None:
            return v if depth(v) >= 2 else lst(v) if depth(v) == 1 else lst(lst(v))
        if m in ('flatten', 'ravel') and v is not None:
            return ('l', tuple(flat(v)))
        if f in SAME:
            return v
        if f in SCALAR:
            return v if v is not None and v[0] == 'n' else None
        if m in ('abs', 'absolute', 'fabs'):
            return abs_(v)
        if m in ('sqrt', 'math.sqrt'):
            return mono(math.sqrt, v, 0.)
        if m in ('hypot', 'math.hypot') and len(a) > 1:
            sq = [broadcast(lambda p, q: bin_('**', p, q), x, num(2)) for x in (v, self(a[1]))]
            return mono(math.sqrt, broadcast(lambda p, q: bin_('+', p, q), *sq), 0.)
        if m == 'norm' or f == 'numpy.linalg.norm':
            if v is not None and v[0] == 'l' and all(x is not None and x[0] == 'n' for x in v[1]) and len(a) == 1:
                s = num(0)
                for x in v[1]:
                    s = bin_('+', s, bin_('**', x, num(2)))
                return mono(math.sqrt, s, 0.)
            return None
        if m in ('sum',) and (len(a) == 1 or f == 'sum' and len(a) == 2 and a[1].op == 'const'):
            def g(xs):
                s = num(0) if len(a) == 1 else num(a[1].data)
                for x in xs:
                    s = bin_('+', s, x)
                return s
            return self.red(v, g, num(0))
        if m in ('min', 'amin', 'max', 'amax'):
            if len(a) > 1 and not all(x.op == 'const' and x.data is None for x in a[1:]):
                if f in ('min', 'max'):
                    v = lst(v, *[self(x) for x in a[1:]])
                else:
                    return None
            h = min if m in ('min', 'amin') else max
            return self.red(v, lambda xs: ('n', h(float(x[1]) for x in xs), h(float(x[-1]) for x in xs)))
        if m in ('maximum', 'minimum') and len(a) > 1:
            h = max if m == 'maximum' else min
            return broadcast(lambda p, q: ('n', h(p[1], q[1]), h(p[2], q[2])) if p is not None and q is not None and p[0] == q[0] == 'n' else None, v, self(a[1]))
        if m in ('argmin', 'argmax') and v is not None and v[0] == 'l' and all(x is not None and x[0] == 'n' for x in v[1]):
            best = [i for i, x in enumerate(v[1]) if all(i == j or (x[2] < y[1] if m == 'argmin' else x[1] > y[2]) for j, y in enumerate(v[1]))]
            return num(best[0]) if best else None
        if m in ('sort', 'sorted') and v is not None and v[0] == 'l' and all(x is not None and x[0] == 'n' for x in v[1]):
            xs = sorted(v[1], key=lambda x: x[1])
            if all(p[2] <= q[1] for p, q in zip(xs, xs[1:])):
                return ('l', tuple(xs))
            return None
        if m == 'diff' and v is not None and v[0] == 'l' and len(a) == 1:
            return ('l', tuple(bin_('-', q, p) for p, q in zip(v[1], v[1][1:])))
        if m in ('isclose', 'allclose') and len(a) >= 2:
            w = self(a[1])
            tol = [self(x) for x in a[2:]]
            if any(x is None for x in tol):
                return None
            d = abs_(broadcast(lambda p, q: bin_('-', p, q), v, w))
            mag = abs_(w)
            rt = tol[0][2] if tol and tol[0][0] == 'n' else 1e-5
            at = tol[1][2] if len(tol) > 1 and tol[1][0] == 'n' else 1e-8

            def near(p, q):
                if p is None or q is None or p[0] != 'n':
                    return None
                if p[1] == p[2] == 0.:
                    return ('b', True)
                return ('b', False) if p[1] > at + rt * q[2] else None
            r = broadcast(near, d, mag)
            if m == 'allclose' and r is not None:
                return tri(and3(truth(x) for x in flat(r)))
            return r
        if f in ('numpy.full',) and len(a) > 1:
            w, s = self(a[1]), v
            if s is not None and s[0] == 'n' and s[1] == s[2] and w is not None and s[1] < 50:
                return ('l', (w,) * int(s[1]))
            return None
        if f == 'numpy.empty' and len(a) - len(n.data[1]) == 1 and set(n.data[1]) <= {'dtype'}:
            v = self(a[0])
            if v is not None and v[0] == 'n' and v[1] == v[2] and v[1] <= 64:
                return ('l', (TOP,) * int(v[1]))
            if v is not None and v[0] == 'l' and len(v[1]) == 2 and all(x is not None and x[0] == 'n' and x[1] == x[2] and x[1] <= 64 for x in v[1]):
                return ('l', (('l', (TOP,) * int(v[1][1][1])),) * int(v[1][0][1]))
        if f == 'numpy.size' and len(a) == 1:
            v = self(a[0])
            if v is not None and v[0] in 'nlb':
                return num(len(list(flat(v))))
            if v == ('nan',):
                return num(1)
            if v is None and self.type_of(a[0]) in ('float', 'int'):
                return num(1)
        if f in ('numpy.ones', 'numpy.zeros'):
            if v is not None and v[0] == 'n' and v[1] == v[2] and v[1] < 50:
                return ('l', (num(1 if f.endswith('ones') else 0),) * int(v[1]))
            return None
        if f in ('numpy.empty', 'numpy.zeros', 'numpy.ones') and False:
            return None
        if f in ('numpy.tile', 'numpy.repeat') and len(a) > 1:
            w = self(a[1])
            if v is not None and w is not None and w[0] == 'n' and w[1] == w[2] and w[1] < 50:
                if v[0] == 'l' and f == 'numpy.repeat':
                    return ('l', tuple(x for x in flat(v) for _ in range(int(w[1]))))
                return ('l', (v[1] if v[0] == 'l' else (v,)) * int(w[1]))
            return None
        if f == 'numpy.arange' and set(n.data[1]) <= {'dtype'}:
            xs = [self(x) for x in a[:len(a) - len(n.data[1])]]
            if all(x is not None and x[0] == 'n' and x[1] == x[2] == int(x[1]) for x in xs) and len(xs) <= 3:
                xs = [int(x[1]) for x in xs]
                return lst(*[num(i) for i in range(*xs)]) if len(range(*xs)) <= 64 else None
            return None
        if m == 'cumsum' and v is not None and v[0] == 'l' and len(a) == 1:
            out, s = [], num(0)
            for x in v[1]:
                s = bin_('+', s, x)
                out.append(s)
            return ('l', tuple(out))
        if f in ('numpy.concatenate', 'numpy.hstack') and v is not None and v[0] == 'l' and len(a) == 1:
            if all(x is not None and x[0] == 'l' and depth(x) <= 1 for x in v[1]):
                return ('l', tuple(y for x in v[1] for y in x[1]))
            return None
        if m in ('sin', 'cos'):
            return trig(v, 0. if m == 'cos' else -math.pi / 2, math.sin if m == 'sin' else math.cos)
        if m in ('arctan2', 'atan2') and len(a) > 1:
            return broadcast(atan2_, v, self(a[1]))
        if f in ('list.count', 'method:count') and len(a) == 2:
            if v is None or v[0] != 'l':
                return None
            e = [truth(cmp_('==', x, self(a[1]))) for x in v[1]]
            return None if None in e else num(sum(e))
        if f in ('int', 'round') and v is not None and v[0] == 'n':
            return ('n', math.floor(v[1]), math.ceil(v[2])) if v[1] != v[2] or v[1] != int(v[1]) else v
        return None
