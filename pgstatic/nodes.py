"""Hash-consed value-graph nodes."""
import math


class Node:
    __slots__ = ('id', 'op', 'data', 'args', 'loc', '_h')

    def __init__(self, id, op, data, args):
        self.id, self.op, self.data, self.args = id, op, data, args
        self.loc = None

    def __repr__(self):
        return pretty(self)


class Graph:
    """Interning table.  One per analysis run."""

    def __init__(self):
        self.table = {}
        self.n = 0
        self.mus = {}       # mu id -> [init node, next node, loop line]
        self.loopc = {}     # mu id or length symbol -> conditions that decide how often the loop runs
        self.cur_loc = None  # (file, line, function) while building

    def mk(self, op, data=None, *args):
        key = (op, _dk(data), tuple(a.id for a in args))
        n = self.table.get(key)
        if n is None:
            self.n += 1
            n = Node(self.n, op, data, args)
            n.loc = self.cur_loc
            self.table[key] = n
        return n

    # -- constructors with light simplification --------------------------
    def const(self, v):
        return self.mk('const', v)

    def phi(self, c, a, b):
        if a is b:
            return a
        if c.op == 'const':
            return a if c.data else b
        if c.op == 'un' and c.data == 'not':
            return self.phi(c.args[0], b, a)
        # boolean-valued phi
        if a.op == 'const' and b.op == 'const':
            if a.data is True and b.data is False:
                return c
            if a.data is False and b.data is True:
                return self.not_(c)
        # nested phi on the same condition
        if a.op == 'phi' and a.args[0] is c:
            return self.phi(c, a.args[1], b)
        if b.op == 'phi' and b.args[0] is c:
            return self.phi(c, a, b.args[2])
        return self.mk('phi', None, c, a, b)

    def not_(self, c):
        if c.op == 'const':
            return self.const(not c.data)
        if c.op == 'un' and c.data == 'not':
            return c.args[0]
        if c.op == 'cmp' and c.data in ('is', 'is not', '==', '!=', 'in', 'not in'):
            inv = {'is': 'is not', 'is not': 'is', '==': '!=', '!=': '==', 'in': 'not in', 'not in': 'in'}
            if c.data in ('is not', 'not in'):
                return self.mk('cmp', inv[c.data], *c.args)
        return self.mk('un', 'not', c)

    def and_(self, a, b):
        if a.op == 'const':
            return b if a.data else self.const(False)
        if b.op == 'const':
            return a if b.data else self.const(False)
        if a is b:
            return a
        return self.mk('bool', 'and', a, b)

    def or_(self, a, b):
        if a.op == 'const':
            return self.const(True) if a.data else b
        if b.op == 'const':
            return self.const(True) if b.data else a
        if a is b:
            return a
        return self.mk('bool', 'or', a, b)


def _dk(d):
    if isinstance(d, float) and math.isnan(d):
        return ('nan',)
    if isinstance(d, (bool, int, float)):
        return (type(d).__name__, d)
    return d


def pretty(n, depth=4):
    if n.op == 'const':
        return repr(n.data)
    if n.op == 'sym':
        return str(n.data)
    if depth == 0:
        return '..'
    a = [pretty(x, depth - 1) for x in n.args]
    if n.op == 'bin':
        return f'({a[0]} {n.data} {a[1]})'
    if n.op == 'cmp':
        return f'({a[0]} {n.data} {a[1]})'
    if n.op == 'bool':
        return f'({a[0]} {n.data} {a[1]})'
    if n.op == 'un':
        return f'{n.data}({a[0]})'
    if n.op == 'attr':
        return f'{a[0]}.{n.data}'
    if n.op == 'idx':
        return f'{a[0]}[{a[1]}]'
    if n.op == 'call':
        return f'{n.data[0]}({", ".join(a)})'
    if n.op == 'mu':
        return f'mu{n.data}'
    return f'{n.op}<{n.data}>({", ".join(a)})' if n.data is not None else f'{n.op}({", ".join(a)})'


def walk(roots, mus=None, seen=None):
    """All nodes reachable from roots (through mu definitions if mus given)."""
    if seen is None:
        seen = set()
    stack = list(roots)
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        yield n
        stack.extend(n.args)
        if mus is not None and n.op == 'mu' and n.data in mus:
            stack.extend(x for x in mus[n.data][:2] if x is not None)
