"""Folds over the value graph: partial evaluation, dependence, equality up to renaming of loop values."""
import math

from .nodes import Graph, Node


def subnodes(g, roots, seen=None):
    seen = set() if seen is None else seen
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n is None or n.id in seen:
            continue
        seen.add(n.id)
        yield n
        stack.extend(n.args)
        if n.op == 'mu' and n.data in g.mus:
            stack.extend(g.mus[n.data][:2])
        if n.op in ('mu', 'sym') and n.data in g.loopc:
            stack.extend(g.loopc[n.data])


def deps(g, roots):
    """Names of the symbols the values depend on (data and gating conditions)."""
    return {n.data for n in subnodes(g, roots) if n.op == 'sym'}


CMP = {'==': lambda x, y: x == y, '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, 'is': lambda x, y: x is y or x == y and type(x) is type(y)}
BIN = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: x / y,
       '//': lambda x, y: x // y, '%': lambda x, y: x % y, '**': lambda x, y: x ** y}


def isnum(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


class PE:
    """Partial evaluation: symbols and whole nodes are replaced, constants folded, decided gates dropped.

    subst: {symbol name or node id: Node};  rule(node, args) -> Node or None is tried on every rebuilt node."""

    def __init__(self, g, subst=None, rule=None, pc=()):
        self.g, self.subst, self.rule = g, subst or {}, rule
        self.memo = {}
        self.mu = {}
        self.pc = {}
        for n, v in pc:
            self.pc[n.id] = v

    def __call__(self, n):
        return self.go(n)

    def go(self, root):
        """Iterative post-order rebuild."""
        memo = self.memo
        stack = [(root, False)]
        while stack:
            n, done = stack.pop()
            if n.id in memo:
                continue
            s = self.subst.get(n.id)
            if s is None and n.op == 'sym':
                s = self.subst.get(n.data)
            if s is not None:
                memo[n.id] = s
                continue
            if n.op == 'mu':
                self.do_mu(n)
                continue
            if not done:
                if n.op == 'phi':
                    c = n.args[0]
                    if c.id not in memo:
                        stack.append((n, False))
                        stack.append((c, False))
                        continue
                    cn = memo[c.id]
                    t = self.truth(cn)
                    if t is not None:
                        x = n.args[1] if t else n.args[2]
                        if x.id in memo:
                            memo[n.id] = memo[x.id]
                        else:
                            stack.append((n, False))
                            stack.append((x, False))
                        continue
                stack.append((n, True))
                for a in n.args:
                    if a.id not in memo:
                        stack.append((a, False))
                continue
            args = [memo[a.id] for a in n.args]
            memo[n.id] = self.build(n, args)
        return memo[root.id]

    def truth(self, c):
        if c.op == 'const':
            return bool(c.data)
        if c.id in self.pc:
            return self.pc[c.id]
        if c.op == 'un' and c.data == 'not':
            t = self.truth(c.args[0])
            return None if t is None else not t
        if c.op == 'bool':
            a, b = self.truth(c.args[0]), self.truth(c.args[1])
            if c.data == 'and':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        return None

    def do_mu(self, n):
        g = self.g
        d = g.mus.get(n.data)
        if d is None:
            self.memo[n.id] = n
            return
        init, nxt, line = d
        mid = f'{n.data}~{g.n}'
        m = g.mk('mu', mid)
        self.memo[n.id] = m
        i2 = PE_go(self, init)
        n2 = PE_go(self, nxt) if nxt is not None else None
        if n2 is None or n2 is m or n2 is i2 and not reaches(g, n2, m):
            # the loop does not change the value
            if n2 is None or n2 is m:
                self.memo[n.id] = i2
                return
        if n2 is nxt and i2 is init:
            self.memo[n.id] = n
            return
        g.mus[mid] = [i2, n2, line]

    def build(self, n, a):
        g = self.g
        r = None
        if self.rule is not None:
            r = self.rule(n, a)
            if r is not None:
                return r
        op = n.op
        if op == 'phi':
            t = self.truth(a[0])
            if t is not None:
                return a[1] if t else a[2]
            return g.phi(*a)
        if op == 'un' and n.data == 'not':
            return g.not_(a[0])
        if op == 'un' and n.data == '-' and a[0].op == 'const' and isnum(a[0].data):
            return g.const(-a[0].data)
        if op == 'bool':
            return g.and_(*a) if n.data == 'and' else g.or_(*a)
        if op == 'cmp' and a[0].op == 'const' and a[1].op == 'const' and n.data in CMP:
            try:
                return g.const(bool(CMP[n.data](a[0].data, a[1].data)))
            except Exception:
                pass
        if op == 'bin' and a[0].op == 'const' and a[1].op == 'const' and isnum(a[0].data) and isnum(a[1].data):
            try:
                v = BIN[n.data](a[0].data, a[1].data)
                if isnum(v):
                    return g.const(v)
            except Exception:
                pass
        if op == 'idx' and a[0].op in ('tuple', 'list') and a[1].op == 'const' and isinstance(a[1].data, int) and -len(a[0].args) <= a[1].data < len(a[0].args):
            return a[0].args[a[1].data]
        if all(x is y for x, y in zip(a, n.args)):
            return n
        return g.mk(op, n.data, *a)


def PE_go(pe, n):
    return pe.go(n)


def reaches(g, n, m):
    return any(x is m for x in subnodes(g, [n]))


def equiv(g, a, b, limit=200000):
    """Structural equality up to renaming of loop values and bound variables (coinductive)."""
    pairs = {}
    ren = {}
    stack = [(a, b)]
    seen = set()
    cnt = 0
    while stack:
        x, y = stack.pop()
        if x is None or y is None:
            if x is not y:
                return False
            continue
        if x is y and x.op not in ('bound',):
            continue
        if (x.id, y.id) in seen:
            continue
        seen.add((x.id, y.id))
        cnt += 1
        if cnt > limit:
            return False
        if x.op != y.op or len(x.args) != len(y.args):
            return False
        if x.op == 'mu':
            if ren.setdefault(('m', x.data), y.data) != y.data:
                return False
            mx, my = g.mus.get(x.data), g.mus.get(y.data)
            if mx is None or my is None:
                return False
            stack.append((mx[0], my[0]))
            stack.append((mx[1], my[1]))
            continue
        if x.op == 'bound':
            if ren.setdefault(('b', x.data), y.data) != y.data:
                return False
            continue
        if x.op == 'obj':
            dx, dy = x.data, y.data
            if dx[0] != dy[0] or ren.setdefault(('o', dx), dy) != dy:
                return False
            continue
        if x.op == 'unk':
            if str(x.data).split('#')[0] != str(y.data).split('#')[0] or ren.setdefault(('u', x.data), y.data) != y.data:
                return False
        elif x.op == 'lam':
            if len(x.data) != len(y.data):
                return False
        elif x.data != y.data or type(x.data) is not type(y.data):
            if not (x.op == 'sym' and str(x.data).startswith('len:') and str(y.data).startswith('len:') and ren.setdefault(('l', x.data), y.data) == y.data):
                return False
        stack.extend(zip(x.args, y.args))
    return True
