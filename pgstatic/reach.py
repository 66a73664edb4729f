"""Reverse reachability: which nodes depend on a symbol (data, gates, loops)."""


class Reach:
    def __init__(self, g):
        self.g = g
        self.users = {}
        self.syms = {}
        u = self.users
        for n in g.table.values():
            for a in n.args:
                u.setdefault(a.id, []).append(n.id)
            if n.op == 'sym':
                self.syms.setdefault(n.data, []).append(n.id)
            if n.op in ('mu', 'sym') and n.data in g.loopc:
                for a in g.loopc[n.data]:
                    u.setdefault(a.id, []).append(n.id)
            if n.op == 'mu' and n.data in g.mus:
                for a in g.mus[n.data][:2]:
                    if a is not None:
                        u.setdefault(a.id, []).append(n.id)
        self.memo = {}

    def of(self, name):
        r = self.memo.get(name)
        if r is None:
            r = set()
            stack = list(self.syms.get(name, ()))
            while stack:
                i = stack.pop()
                if i in r:
                    continue
                r.add(i)
                stack.extend(self.users.get(i, ()))
            self.memo[name] = r
        return r

    def dep(self, n, name):
        return n.id in self.of(name)


def root_name(n):
    """Symbol an attribute is read from: 'boreholes[].H', 'b.H', ..."""
    elem = False
    while True:
        if n.op == 'sym':
            return str(n.data) + ('[]' if elem else '')
        if n.op in ('idx', 'elem') and n.args:
            n = n.args[0]
            elem = True
            continue
        if n.op == 'attr' and n.args:
            r = root_name(n.args[0])
            return None if r is None else f'{r}.{n.data}' + ('[]' if elem else '')
        return None


def names(g, nodes):
    """Symbols and symbol attributes the nodes depend on."""
    from .fold import subnodes
    out = set()
    for n in subnodes(g, nodes):
        if n.op == 'sym':
            out.add(str(n.data))
        elif n.op == 'attr':
            r = root_name(n)
            if r is not None:
                out.add(r)
    return out


SHAPE_ALL = {'len', 'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like', 'numpy.shape', 'numpy.size', 'numpy.ndim',
             'method:shape', 'nonempty', 'complen', 'isinstance', 'numpy.isscalar', 'hasattr', 'type'}
SHAPE_FIRST = {'numpy.full'}
SHAPE_REST = {'numpy.broadcast_to', 'numpy.reshape', 'numpy.full_like', 'numpy.tile', 'method:reshape', 'numpy.repeat'}


def value_names(g, nodes):
    """Like names, but not through what only decides the shape of an array (lengths, fill shapes)."""
    from .fold import subnodes  # noqa: F401  (same traversal, with cuts)
    out, seen = set(), set()
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if n is None or n.id in seen:
            continue
        seen.add(n.id)
        a = list(n.args)
        if n.op == 'sym':
            out.add(str(n.data))
        elif n.op == 'attr':
            r = root_name(n)
            if r is not None:
                out.add(r)
            if n.data in ('shape', 'size', 'ndim'):
                a = []
        elif n.op == 'call':
            nm = n.data[0]
            if nm in SHAPE_ALL or nm.endswith('_like') and nm != 'numpy.full_like':
                a = []
            elif nm in SHAPE_FIRST:
                a = a[1:]
            elif nm in SHAPE_REST or nm.endswith('full_like'):
                a = a[1:] if nm.endswith('full_like') else a[:1]
        elif n.op in ('lsum',) and len(a) > 1:
            a = a[:1]
        stack.extend(a)
        if n.op == 'mu' and n.data in g.mus:
            stack.extend(g.mus[n.data][:2])
        if n.op in ('mu', 'sym') and n.data in g.loopc:
            stack.extend(g.loopc[n.data])
    return out
