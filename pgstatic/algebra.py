"""Canonical forms of elementwise formulas: rational combinations of products of powers of atoms.

A formula read off a value graph is expanded into a polynomial with rational coefficients over atoms; an atom is a
symbol or a function applied to canonical forms.  Array shape is ignored: outer products, reshapes and transposes act
elementwise, a literal stack of formulas is a vector, contractions of two vectors are summed, and contractions with an
unknown vector, integrals over a function and cumulative sums are products with an atom that names the linear operator.
Two formulas with equal canonical forms are equal; nothing is evaluated numerically."""
from fractions import Fraction as F

PASS = {'numpy.reshape', 'numpy.expand_dims', 'numpy.transpose', 'numpy.asarray', 'numpy.squeeze', 'numpy.atleast_1d', 'numpy.atleast_2d',
        'numpy.broadcast_to', 'numpy.ascontiguousarray', 'numpy.flatten', 'numpy.ravel', 'numpy.copy', 'numpy.swapaxes', 'numpy.moveaxis',
        'float', 'numpy.float64', 'numpy.astype', 'numpy.tile', 'copy.copy', 'copy.deepcopy', 'numpy.atleast_3d', 'numpy.rollaxis'}
STACK = {'numpy.stack', 'numpy.array', 'numpy.vstack', 'numpy.hstack', 'numpy.column_stack', 'numpy.concatenate', 'numpy.asarray', 'list', 'tuple'}
ODD = {'erf', 'sin', 'tan', 'sign', 'arctan', 'sinh'}
EVEN = {'cos', 'abs', 'cosh'}
KNOWN = ODD | EVEN | {'exp', 'log', 'max', 'min', 'pow', 'sym', 'const', 'exp1', 'I', 'int', 'len', 'cumsum', 'bv', 'cmp', 'bool', 'not', 'attr', 'inf', 'tuple', 'stack', 'lin', 'pow2'}
NAMES = {'numpy.exp': 'exp', 'numpy.log': 'log', 'math.log': 'log', 'math.exp': 'exp', 'numpy.sin': 'sin', 'numpy.cos': 'cos', 'math.sin': 'sin',
         'math.cos': 'cos', 'numpy.tan': 'tan', 'scipy.special.erf': 'erf', 'numpy.sign': 'sign', 'numpy.abs': 'abs', 'numpy.absolute': 'abs',
         'abs': 'abs', 'numpy.fabs': 'abs', 'math.fabs': 'abs', 'math.erf': 'erf', 'math.tan': 'tan', 'numpy.arctan': 'arctan'}
INTEGRALS = {'scipy.integrate.quad', 'scipy.integrate.quad_vec'}


class TooBig(Exception):
    pass


class Vec(tuple):
    """Formulas stacked along a new axis."""


class Alg:
    LIMIT = 1000000

    def __init__(self, g, rename=None, positive=(), assume=None, opaque=None, share=None):
        self.g = g
        self.rename = rename or {}       # symbol name -> symbol name, Poly (dict) or number
        self.positive = set(positive)    # names of symbols known to be positive
        self.assume = assume             # node -> True / False / None for conditions
        self.opaque = opaque or (lambda n, args: None)
        self.ids, self.atoms = (share.ids, share.atoms) if share is not None else ({}, [])
        self.memo = {}
        self.fb = {}

    # ------------------------------------------------------------- atoms
    def atom(self, *key):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.atoms)
            self.atoms.append(key)
        return i

    def A(self, *key):
        return {frozenset([(self.atom(*key), F(1))]): F(1)}

    @staticmethod
    def key(p):
        if isinstance(p, Vec):
            return ('vec',) + tuple(Alg.key(x) for x in p)
        return frozenset(p.items())

    @staticmethod
    def num(c):
        return {frozenset(): F(c)} if c else {}

    @staticmethod
    def frac(c):
        if isinstance(c, bool):
            return F(int(c))
        if isinstance(c, int):
            return F(c)
        return F(repr(float(c)))     # the decimal the source shows

    @staticmethod
    def const_of(p):
        if isinstance(p, dict):
            if not p:
                return F(0)
            if len(p) == 1 and frozenset() in p:
                return p[frozenset()]
        return None

    # -------------------------------------------------------- operations
    def lift(self, f, *a):
        n = [len(x) for x in a if isinstance(x, Vec)]
        if not n:
            return f(*a)
        if len(set(n)) > 1:
            return self.A('fn', 'broadcast', *[self.key(x) for x in a])
        return Vec(self.lift(f, *[x[i] if isinstance(x, Vec) else x for x in a]) for i in range(n[0]))

    def add(self, a, b, s=1):
        return self.lift(lambda x, y: self._add(x, y, s), a, b)

    def _add(self, a, b, s=1):
        out = dict(a)
        for m, c in b.items():
            v = out.get(m, 0) + s * c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def neg(self, a):
        return self.lift(lambda x: {m: -c for m, c in x.items()}, a)

    def mul(self, a, b):
        return self.lift(self._mul, a, b)

    def _mul(self, a, b):
        if len(a) * len(b) > self.LIMIT:
            raise TooBig()
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                for k, v in self.mono(m, n).items():
                    v = out.get(k, 0) + c * d * v
                    if v:
                        out[k] = v
                    else:
                        out.pop(k, None)
        return out

    def mono(self, m, n):
        """Product of two monomials as a polynomial (exponentials merge, indicators are idempotent)."""
        d = dict(m)
        for a, e in n:
            d[a] = d.get(a, 0) + e
        exps = []
        extra = None
        for a in list(d):
            k = self.atoms[a]
            if not d[a]:
                del d[a]
            elif k[0] == 'I':
                d[a] = F(1)
            elif k[0] == 'exp':
                exps.append(a)
            elif k[0] == 'pow' and d[a].denominator == 1:
                # integer power of an atom that stands for a power of a sum
                e = k[2] * d[a]
                if e.denominator == 1 and e > 0:
                    x = self.pw(dict(k[1]), e)
                    del d[a]
                    extra = x if extra is None else self._mul(extra, x)
                elif d[a] != 1:
                    del d[a]
                    x = self.A('pow', k[1], e)
                    extra = x if extra is None else self._mul(extra, x)
        if len(exps) > 1 or exps and d[exps[0]] != 1:
            s = {}
            for a in exps:
                s = self._add(s, {m: c * d[a] for m, c in dict(self.atoms[a][1]).items()})
                del d[a]
            if s:
                d[self.atom('exp', self.key(s))] = F(1)
        r = {frozenset(d.items()): F(1)}
        return r if extra is None else self._mul(r, extra)

    def positive_atom(self, a):
        k = self.atoms[a]
        if k[0] == 'sym':
            return k[1] in self.positive
        if k[0] == 'attr':
            return k[2] in self.positive
        return k[0] in ('exp', 'len')

    def pw(self, a, e):
        return self.lift(lambda x: self._pw(x, F(e)), a)

    def _pw(self, a, e):
        if e == 0:
            return self.num(1)
        if not a:
            return {} if e > 0 else self.A('fn', 'div0')
        if e.denominator == 1 and e > 0:
            if e > 8 and len(a) > 1:
                return self.A('pow', self.key(a), e)
            r = self.num(1)
            for _ in range(int(e)):
                r = self._mul(r, a)
            return r
        if len(a) == 1:
            (m, c), = a.items()
            if e.denominator == 1:
                d = {}
                for x, y in m:
                    d[x] = y * e
                return self._mul({frozenset(d.items()): F(1)}, self.num(c ** int(e)))
            if c > 0:
                out, rest = {}, {}
                for x, y in m:
                    if self.positive_atom(x):
                        k = self.atoms[x]
                        out[x] = y * e
                    else:
                        rest[x] = y
                r = {frozenset(out.items()): F(1)}
                r = self._mul(r, self.cpow(c, e))
                if rest:
                    r = self._mul(r, self.A('pow', self.key({frozenset(rest.items()): F(1)}), e))
                return r
        # factor out the content so that proportional sums have the same base
        if len(a) > 1:
            lead = self.lead(a)
            c = a[lead]
            if e.denominator == 1 or c > 0:
                b = {m: v / c for m, v in a.items()}
                if c != 1:
                    return self._mul(self.cpow(c, e) if c > 0 else self.num(c ** int(e)), self.A('pow', self.key(b), e))
            elif c < 0 and c != -1:
                b = {m: v / -c for m, v in a.items()}
                return self._mul(self.cpow(-c, e), self.A('pow', self.key(b), e))
        return self.A('pow', self.key(a), e)

    def cpow(self, c, e):
        if e.denominator == 1:
            return self.num(c ** int(e))
        if e.denominator == 2:
            n, d = self.isqrt(c.numerator), self.isqrt(c.denominator)
            if n and d:
                return self.num(F(n, d) ** int(e.numerator))
        if c == 1:
            return self.num(1)
        return self.A('pow', self.key(self.num(c)), e)

    @staticmethod
    def isqrt(n):
        import math
        r = math.isqrt(n)
        return r if r * r == n else None

    def lead(self, p):
        """Canonical leading monomial (independent of insertion order and sign)."""
        return min(p, key=lambda m: sorted((a, e) for a, e in m))

    def signed(self, p):
        """(sign, p or -p with a positive leading coefficient)"""
        if p and p[self.lead(p)] < 0:
            return -1, {m: -c for m, c in p.items()}
        return 1, p

    def fn(self, name, a):
        return self.lift(lambda x: self._fn(name, x), a)

    def _fn(self, name, x):
        if name in ODD:
            if not x:
                return {}
            s, x = self.signed(x)
            if name == 'sign' and len(x) == 1:
                pass
            r = self.A(name, self.key(x))
            return r if s > 0 else self.neg(r)
        if name in EVEN:
            if not x:
                return self.num(1) if name != 'abs' else {}
            s, x = self.signed(x)
            if name == 'abs':
                c = self.const_of(x)
                if c is not None:
                    return self.num(c)
                if len(x) == 1:
                    (m, c), = x.items()
                    if all(self.positive_atom(a) or e.denominator == 1 and e % 2 == 0 for a, e in m):
                        return x
                # positive common factors leave the absolute value
                x, f = self.common(x)
                return self._mul(f, self.A('abs', self.key(x)))
            return self.A(name, self.key(x))
        if name == 'exp':
            return self.num(1) if not x else self.A('exp', self.key(x))
        if name == 'log':
            return self.log(x)
        return self.A(name, self.key(x))

    def common(self, x):
        """Take powers of positive atoms common to all terms out of a sum: (rest, factor)."""
        it = iter(x)
        com = dict(next(it))
        for m in it:
            d = dict(m)
            com = {a: e for a, e in com.items() if d.get(a) == e}
        com = {a: e for a, e in com.items() if self.positive_atom(a)}
        if not com:
            return x, self.num(1)
        inv = {frozenset((a, -e) for a, e in com.items()): F(1)}
        return self._mul(x, inv), {frozenset(com.items()): F(1)}

    def log(self, x):
        c = self.const_of(x)
        if c == 1:
            return {}
        if len(x) == 1:
            (m, c), = x.items()
            if c > 0:
                # the logarithm of a product is a sum (arguments of logarithms are positive)
                out = self.A('log', self.key(self.num(c))) if c != 1 else {}
                for a, e in m:
                    k = self.atoms[a]
                    if k[0] == 'exp':
                        out = self._add(out, self._mul(dict(k[1]), self.num(e)))
                    elif k[0] == 'pow':
                        out = self._add(out, self._mul(self.log(dict(k[1])), self.num(e * k[2])))
                    else:
                        out = self._add(out, self._mul(self.A('log', self.key({frozenset([(a, F(1))]): F(1)})), self.num(e)))
                return out
        # log(q + sqrt(q^2 + d)) with the sign of q made canonical: log(q + s) = log(s^2 - q^2) - log(s - q)
        roots = [m for m in x if any(self.atoms[a][0] == 'pow' and self.atoms[a][2] == F(1, 2) for a, _ in m)]
        if len(roots) == 1 and len(x) > 1 and all(self.atoms[a][0] == 'pow' for a, _ in roots[0]):
            s = {roots[0]: x[roots[0]]}
            q = {m: c for m, c in x.items() if m != roots[0]}
            sg, qc = self.signed(q)
            if sg < 0 and x[roots[0]] > 0:
                w = self._add(self._mul(s, s), self._mul(q, q), -1)
                if w:
                    return self._add(self.log(w), self.A('log', self.key(self._add(s, qc))), -1)
        return self.A('log', self.key(x))

    def div(self, a, b):
        return self.mul(a, self.pw(b, -1))

    def total(self, v):
        if not isinstance(v, Vec):
            return v
        r = {}
        for x in v:
            r = self.add(r, x)
        return r

    def contract(self, a, b):
        r = self.mul(a, b)
        if isinstance(a, Vec) and isinstance(b, Vec):
            return self.total(r)
        if a == {} or b == {}:
            return {}
        return r

    # ------------------------------------------------------------- graph
    def free(self, n):
        """Ids of free bound variables of a node."""
        r = self.fb.get(n.id)
        if r is not None:
            return r
        stack = [(n, False)]
        while stack:
            x, done = stack.pop()
            if x.id in self.fb:
                continue
            if not done:
                stack.append((x, True))
                stack.extend((a, False) for a in x.args if a.id not in self.fb)
                continue
            s = frozenset([x.data]) if x.op == 'bound' else frozenset().union(*[self.fb[a.id] for a in x.args]) if x.args else frozenset()
            if x.op == 'lam':
                s = s - set(x.data)
            self.fb[x.id] = s
        return self.fb[n.id]

    def __call__(self, n, env=None):
        env = env or {}
        fr = self.free(n)
        k = (n.id, tuple(sorted((b, env[b]) for b in fr if b in env)))
        if k in self.memo:
            return self.memo[k]
        r = self.go(n, env)
        self.memo[k] = r
        return r

    def go(self, n, env):
        op = n.op
        if op == 'const':
            d = n.data
            if d == ('inf',):
                return self.A('inf')
            if isinstance(d, (bool, int, float)):
                return self.num(self.frac(d))
            return self.A('const', repr(d))
        if op == 'sym':
            r = self.rename.get(n.data, n.data)
            if isinstance(r, dict):
                return r
            if isinstance(r, (int, F)):
                return self.num(r)
            return self.A('sym', r)
        if op == 'bound':
            return self.A('bv', env.get(n.data, n.data))
        if op == 'bin':
            a, b = self(n.args[0], env), self(n.args[1], env)
            if n.data == '+':
                return self.add(a, b)
            if n.data == '-':
                return self.add(a, b, -1)
            if n.data == '*':
                return self.mul(a, b)
            if n.data == '/':
                return self.div(a, b)
            if n.data == '@':
                return self.contract(a, b)
            if n.data == '**':
                c = self.const_of(b)
                if c is not None:
                    return self.pw(a, c)
            return self.lift(lambda x, y: self.A('pow2', n.data, self.key(x), self.key(y)), a, b)
        if op == 'un':
            a = self(n.args[0], env)
            if n.data == '-':
                return self.neg(a)
            if n.data == '+':
                return a
            if n.data == 'not':
                return self.add(self.num(1), a, -1)
            return self.A('fn', n.data, self.key(a))
        if op == 'phi':
            c = self.cond(n.args[0], env)
            k = self.const_of(c)
            if k is not None:
                return self(n.args[1] if k else n.args[2], env)
            a, b = self(n.args[1], env), self(n.args[2], env)
            return self.add(self.mul(c, a), self.mul(self.add(self.num(1), c, -1), b))
        if op == 'cmp':
            return self.cond(n, env)
        if op == 'bool':
            return self.cond(n, env)
        if op == 'attr':
            a = self(n.args[0], env)
            nm = self.rename.get('.' + str(n.data), n.data)
            if isinstance(nm, dict):
                return nm
            return self.A('attr', self.key(a), nm)
        if op in ('list', 'tuple'):
            return Vec(self(a, env) for a in n.args)
        if op == 'lam':
            e = dict(env)
            for i, b in enumerate(n.data):
                e[b] = ('lam', len(env), i)
            return self.mul(self(n.args[0], e), self.A('lin', 'lam', len(n.data)))
        if op == 'lsum':
            e = dict(env)
            for b in sorted(self.free(n.args[0]) - set(env)):
                if str(b).startswith(('c#', 'l#')):
                    e[b] = ('el', len(env))
            return self(n.args[0], e)       # an array of values computed alike: elementwise
        if op == 'idx':
            b, i = n.args
            if b.op == 'call' and b.data[0] in INTEGRALS and i.op == 'const' and i.data == 0:
                f, lo, hi = b.args[:3]
                if f.op == 'lam' and len(f.data) == 1:
                    e = dict(env)
                    d = ('s', sum(1 for v in env.values() if v[0] == 's'))
                    e[f.data[0]] = d
                    return self.mul(self(f.args[0], e), self.A('int', self.key(self(lo, env)), self.key(self(hi, env)), d))
            if b.op in ('list', 'tuple') and i.op == 'const' and isinstance(i.data, int) and -len(b.args) <= i.data < len(b.args):
                return self(b.args[i.data], env)
            return self.A('fn', 'idx', self.key(self(b, env)), self.key(self(i, env)))
        if op == 'call':
            return self.call(n, env)
        return self.A('fn', op, repr(n.data), *[self.key(self(a, env)) for a in n.args])

    def cond(self, n, env):
        """0/1-valued formula of a condition."""
        if self.assume is not None:
            t = self.assume(n)
            if t is not None:
                return self.num(int(t))
        if n.op == 'const':
            return self.num(int(bool(n.data)))
        if n.op == 'un' and n.data == 'not':
            return self._add(self.num(1), self.cond(n.args[0], env), -1)
        if n.op == 'bool':
            a, b = self.cond(n.args[0], env), self.cond(n.args[1], env)
            p = self._mul(a, b)
            return p if n.data == 'and' else self._add(self._add(a, b), p, -1)
        if n.op == 'cmp':
            a, b = self(n.args[0], env), self(n.args[1], env)
            ca, cb = self.const_of(a), self.const_of(b)
            if ca is not None and cb is not None and n.data in ('<', '<=', '==', '>', '>='):
                return self.num(int({'<': ca < cb, '<=': ca <= cb, '==': ca == cb, '>': ca > cb, '>=': ca >= cb}[n.data]))
            if n.data in ('!=', 'is not', 'not in'):
                inv = {'!=': '==', 'is not': 'is', 'not in': 'in'}[n.data]
                return self._add(self.num(1), self.A('I', inv, self.key(a), self.key(b)), -1)
            if n.data == '>':
                return self.A('I', '<', self.key(b), self.key(a))
            if n.data == '>=':
                return self._add(self.num(1), self.A('I', '<', self.key(a), self.key(b)), -1)
            if n.data == '<=':
                return self._add(self.num(1), self.A('I', '<', self.key(b), self.key(a)), -1)
            return self.A('I', n.data, self.key(a), self.key(b))
        a = self(n, env)
        c = self.const_of(a)
        if c is not None:
            return self.num(int(bool(c)))
        return self.A('I', 'true', self.key(a))

    def call(self, n, env):
        f = n.data[0]
        kws = [k for k in n.data[1]] if len(n.data) > 1 and n.data[1] else []
        r = self.opaque(n, lambda a: self(a, env))
        if r is not None:
            return r
        A = n.args
        if f in NAMES and len(A) == 1:
            return self.fn(NAMES[f], self(A[0], env))
        if f in ('numpy.sqrt', 'math.sqrt') and len(A) == 1:
            return self.pw(self(A[0], env), F(1, 2))
        if f == 'scipy.special.erfc':
            return self.add(self.num(1), self.fn('erf', self(A[0], env)), -1)
        if f in ('numpy.square',):
            return self.pw(self(A[0], env), 2)
        if f in ('numpy.power', 'math.pow', 'pow') and self.const_of(self(A[1], env)) is not None:
            return self.pw(self(A[0], env), self.const_of(self(A[1], env)))
        if f in ('numpy.hypot', 'math.hypot') and len(A) == 2:
            a, b = self(A[0], env), self(A[1], env)
            return self.pw(self.add(self.pw(a, 2), self.pw(b, 2)), F(1, 2))
        if f in ('numpy.negative',):
            return self.neg(self(A[0], env))
        if f in ('numpy.multiply', 'numpy.multiply.outer', 'numpy.outer'):
            return self.mul(self(A[0], env), self(A[1], env))
        if f in ('numpy.divide', 'numpy.divide.outer', 'numpy.true_divide'):
            return self.div(self(A[0], env), self(A[1], env))
        if f in ('numpy.add', 'numpy.add.outer'):
            return self.add(self(A[0], env), self(A[1], env))
        if f in ('numpy.subtract', 'numpy.subtract.outer'):
            return self.add(self(A[0], env), self(A[1], env), -1)
        if f in ('numpy.inner', 'numpy.dot', 'numpy.matmul', 'numpy.tensordot', 'numpy.vdot') and len(A) >= 2:
            return self.contract(self(A[0], env), self(A[1], env))
        if f == 'numpy.einsum':
            r = self(A[1], env)
            for x in A[2:]:
                r = self.contract(r, self(x, env)) if isinstance(r, Vec) else self.mul(r, self(x, env))
            return self.mul(r, self.A('lin', 'einsum', repr(A[0].data))) if False else r
        if f in ('numpy.zeros', 'numpy.zeros_like'):
            return {}
        if f in ('numpy.ones', 'numpy.ones_like'):
            return self.num(1)
        if f in ('numpy.full', 'numpy.full_like') and len(A) > 1:
            return self(A[1], env)
        if f in STACK and A:
            x = self(A[0], env)
            # an axis of length one
            return x[0] if isinstance(x, Vec) and len(x) == 1 else x
        if f in PASS and A:
            return self(A[0], env)
        if f in ('numpy.cumsum', 'numpy.mean', 'numpy.diff', 'numpy.sum', 'sum', 'numpy.trapz', 'math.fsum') and A:
            x = self(A[0], env)
            if isinstance(x, Vec) and f in ('numpy.sum', 'sum', 'math.fsum'):
                return self.total(x)
            if isinstance(x, Vec):
                return self.A('fn', f, self.key(x))
            return self.mul(x, self.A('lin', f, *[self.key(self(a, env)) for a in A[1:]]))
        if f in ('numpy.maximum', 'numpy.fmax', 'numpy.minimum', 'numpy.fmin', 'max', 'min', 'numpy.clip') and len(A) == 2:
            nm = 'max' if f in ('numpy.maximum', 'numpy.fmax', 'max') else 'min'
            return self.lift(lambda x, y: self.A(nm, frozenset([self.key(x), self.key(y)])), self(A[0], env), self(A[1], env))
        if f == 'numpy.where' and len(A) == 3:
            c = self.cond(A[0], env)
            return self.add(self.mul(c, self(A[1], env)), self.mul(self.add(self.num(1), c, -1), self(A[2], env)))
        if f in ('numpy.all', 'numpy.any', 'all', 'any') and len(A) == 1:
            # of values that are all the same constant
            xs = self(A[0], env)
            xs = [{frozenset((a, e) for a, e in m if self.atoms[a][0] != 'len'): c for m, c in x.items()} for x in (xs if isinstance(xs, Vec) else (xs,))]
            cs = {self.const_of(x) for x in xs}
            if len(cs) == 1 and None not in cs:
                return self.num(int(bool(cs.pop())))
        if f in ('iter:enumerate', 'enumerate') and len(A) == 1:
            return self(A[0], env)
        return self.A('fn', f, repr(kws), *[self.key(self(a, env)) for a in A])

    # ----------------------------------------------------------- reports
    def inside(self, p, seen=None):
        """All atom keys occurring in a canonical form, nested ones included."""
        seen = set() if seen is None else seen

        def rec(k):
            if isinstance(k, (frozenset, tuple)):
                for x in k:
                    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], F):
                        if x[0] not in seen:
                            seen.add(x[0])
                            rec(self.atoms[x[0]])
                    else:
                        rec(x)
        for q in (p if isinstance(p, Vec) else (p,)):
            for m in q:
                rec(m)
        return {self.atoms[i] for i in seen}

    def unknown(self, p):
        """Names of operations in p the canonical form does not understand."""
        return {str(k[1]) for k in self.inside(p) if k[0] == 'fn'}

    def show(self, p, depth=3, width=400):
        def at(i, d):
            k = self.atoms[i]
            if k[0] in ('sym', 'const', 'bv'):
                return str(k[1])
            if d == 0:
                return k[0] + '(..)'
            return f'{k[0]}(' + ', '.join(sub(x, d - 1) for x in k[1:]) + ')'

        def sub(x, d):
            if isinstance(x, frozenset):
                try:
                    return poly(dict(x), d)
                except (TypeError, ValueError):
                    return '{..}'
            if isinstance(x, tuple) and x and x[0] == 'vec':
                return '[..]'
            return str(x)

        def poly(q, d):
            ts = []
            for m, c in sorted(q.items(), key=lambda t: sorted(map(str, t[0])))[:6]:
                fs = [at(a, d) + ('' if e == 1 else f'^{e}') for a, e in sorted(m, key=str)]
                ts.append('*'.join(([] if c == 1 and fs else ['-'] if c == -1 and fs else [str(c)]) + fs).replace('-*', '-'))
            return ' + '.join(ts) + (' + ..' if len(q) > 6 else '') if ts else '0'
        if isinstance(p, Vec):
            return '[' + ', '.join(self.show(x, depth, width) for x in p)[:width] + ']'
        return poly(p, depth)[:width]
