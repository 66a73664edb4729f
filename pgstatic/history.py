"""Sequences of calls on one object: does the last result depend on what was asked before?

Every call of a sequence gets its own symbols (prefix 'A:' or 'B:').  The value graph of the last result is then specialised to a
class of histories: some inputs of the calls are equal, the others differ by a given amount, and every comparison the code makes
between them is decided in that class by abstract evaluation.  The specialised result must not contain an input of an earlier call."""
from . import fold, ival, scen


class WhatIf(fold.PE):
    def __init__(self, g, subst, A):
        super().__init__(g, subst)
        self.A = A

    def truth(self, c):
        t = super().truth(c)
        return self.A.t(c) if t is None else t


class History:
    def __init__(self, e, obj, st, make):
        """make(function, prefix, state) -> keyword arguments"""
        self.e, self.obj, self.st, self.make = e, obj, st, make
        self.fixed, self.states, self.closed = (), 0, False

    def call(self, f, prefix, st):
        kw = self.make(f, prefix, st)
        en = scen.call(self.e, f.name, f, kw, st, self.obj)
        return en if en.result is not None and en.st is not None else None

    def run(self, seq):
        """seq: functions with the prefix of their arguments, or callables on the state"""
        st, en = self.st.copy(), None
        for x in seq:
            if callable(x):
                st = x(st, en)
                continue
            en = self.call(x[0], x[1], st.copy())
            if en is None:
                return None
            st = en.st
        return en


def clobber(e, v, st, name, depth=0):
    """The caller overwrites, in place, everything reachable from a value it holds."""
    if v is None or depth > 4:
        return
    v = e.resolve(v, st)
    if v.kind == 'phi':
        t = st.truth(v.cond)
        if t is not False:
            clobber(e, v.a, st, name, depth + 1)
        if t is not True:
            clobber(e, v.b, st, name, depth + 1)
        return
    if v.kind == 'num':
        if v.node is not None and v.node.op == 'const':
            return
        if v.ty in ('float', 'int', 'bool', 'str'):
            return
        e.store_content(v, st, lambda n: e.g.mk('call', ('overwritten', ()), e.g.mk('sym', name), n))
        return
    for x in v.items if v.kind == 'tup' else e.iter_items(v, st) or () if v.kind == 'lst' else ():
        clobber(e, x, st, name, depth + 1)
    if v.kind == 'lst':
        c = st.heap.get(('L', v.uid))
        if c is not None and c.items is not None:
            from .engine import ListC
            st.heap[('L', v.uid)] = ListC(tuple(e.num(e.g.mk('sym', name)) for _ in c.items), None, None)


def verdict(g, n, names, env, attrs=None, types=None, subst=None):
    """'free' | 'stale' | 'undecided', symbols found"""
    w = WhatIf(g, subst or {}, ival.Abs(g, env, attrs or {}, types or {}))
    r = w(n)
    d = fold.deps(g, [r]) & names
    if not d:
        return 'free', d, r
    for x in fold.subnodes(g, [r]):
        if x.op == 'phi' and fold.deps(g, [x.args[0]]) & names:
            return 'undecided', d, r
    return 'stale', d, r


class Deps:
    """Input symbols a value depends on, memoised."""

    def __init__(self, g, want):
        self.g, self.want, self.memo = g, want, {}

    def __call__(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.memo[n.id] = frozenset(x for x in fold.deps(self.g, [n]) if self.want(str(x)))
        return r


def signature(e, obj, st, deps):
    """Which arguments every piece of the object's state comes from."""
    out = []

    def put(path, v, d):
        v = e.resolve(v, st)
        if v.kind == 'lst' and d < 4:
            c = st.heap.get(('L', v.uid))
            if c is not None and c.items is not None:
                for i, x in enumerate(c.items):
                    put(path + (i,), x, d + 1)
                return
        if v.kind == 'dct' and d < 4:
            c = st.heap.get(('D', v.uid))
            if c is not None and not c.unknown:
                for k in c.d:
                    put(path + (str(k),), c.d[k], d + 1)
                return
        if v.kind == 'tup':
            for i, x in enumerate(v.items):
                put(path + (i,), x, d + 1)
            return
        if v.kind in ('func', 'cls', 'ext', 'extm', 'iter', 'inst', 'sobj'):
            return
        n = e.node(v, st)
        x = deps(n)
        if x:
            out.append((path, tuple(sorted({str(s).removeprefix('len:')[:2] for s in x}))))
        elif all(y.op in ('const', 'list', 'tuple') for y in fold.subnodes(e.g, [n])):
            out.append((path, n.id))

    key = ('n', obj.node.id)
    for k, x in list(st.heap.items()):
        if k[0] == key and hasattr(x, 'kind'):
            put((k[1],), x, 0)
    return tuple(sorted(out, key=repr))


def explore(h, queries, depth, want, decide, cap=4000):
    """Histories of up to `depth` queries, each with the arguments A or B: the states they lead to (states that come from the same
    arguments piece by piece are merged).  Yields (path, query, prefix, entry) for every query from every state."""
    from .engine import State
    e = h.e
    deps = Deps(e.g, want)
    State.oracle = decide
    e.ev = lambda *a, **k: None     # events are not used here
    try:
        seen = {signature(e, h.obj, h.st, deps)}
        front = [((), h.st)]
        h.states, h.closed = 1, False
        for lv in range(depth + 1):
            nxt = []
            for path, st in front:
                for q in queries:
                    for prefix in ('A:', 'B:'):
                        en = h.call(q, prefix, st.copy())
                        if en is None:
                            continue
                        yield path, q, prefix, en
                        s = signature(e, h.obj, en.st, deps)
                        if s not in seen and len(seen) < cap:
                            seen.add(s)
                            nxt.append((path + ((q.name, prefix[:-1]),), en.st))
            h.states = len(seen)
            if not nxt:
                h.closed = True
                return
            front = nxt
    finally:
        State.oracle = None
        del e.ev



COPIES = {('numpy.array', ()), ('numpy.copy', ()), ('copy.copy', ()), ('copy.deepcopy', ()), ('method:copy', ()), ('numpy.asarray', ()), ('builtins.list', ()), ('list', ())}


def mismatch(g, a, b, A=None, limit=300000):
    """Where two values are computed differently: pairs of nodes (copies are ignored; values that A knows to be equal are equal)."""
    stack, seen, out, ren = [(a, b)], set(), [], {}

    def skip(x):
        while x.op == 'call' and len(x.args) == 1 and x.data in COPIES:
            x = x.args[0]
        return x
    while stack:
        x, y = stack.pop()
        x, y = skip(x), skip(y)
        if x is y and x.op != 'bound' or (x.id, y.id) in seen:
            continue
        seen.add((x.id, y.id))
        if len(seen) > limit:
            return None
        if A is not None:
            p, q = A(x), A(y)
            if p is not None and q is not None and p[0] in 'nbc' and p == q and (p[0] != 'n' or p[1] == p[2]):
                continue
        if x.op == y.op == 'mu' and x.data in g.mus and y.data in g.mus:
            if ren.setdefault(x.data, y.data) != y.data:
                out.append((x, y))
                continue
            stack += list(zip(g.mus[x.data][:2], g.mus[y.data][:2]))
            continue
        if x.op == y.op and x.op in ('bound', 'unk', 'obj'):
            continue
        if x.op != y.op or len(x.args) != len(y.args) or x.data != y.data:
            out.append((x, y))
            continue
        stack += list(zip(x.args, y.args))
    return out


def compare(e, A, deps, r, fresh, other):
    """'same' | 'stale' | 'undecided' with the evidence"""
    mm = mismatch(e.g, r, fresh, A)
    if mm == []:
        return 'same', ''
    if mm is None:
        return 'undecided', ''
    for x, y in mm:
        if any(z.op == 'phi' for z in fold.subnodes(e.g, [x, y])):
            return 'undecided', ''
    for x, y in mm:
        d = [s for s in deps(x) if str(s).split(':')[-2:-1] == [other]]
        if d:
            return 'stale', f'depends on {", ".join(sorted(map(str, d)))} of the other call'
    for x, y in mm:
        if x.op == y.op == 'const':
            return 'stale', f'{x!r} instead of {y!r}'
        p, q = A(x), A(y)
        if p is not None and q is not None and p[0] in 'nbc' and q[0] in 'nbc' and p != q:
            return 'stale', f'{repr(x)[:80]} instead of {repr(y)[:80]}'
    return 'undecided', ''


def all_histories(h, queries, env, ch, A, res, label, what, depth, done=None):
    """Every query, after every history of queries with the arguments A or B, has the result it has on a fresh object."""
    e = h.e
    other = {'A:': 'B', 'B:': 'A'}
    deps = Deps(e.g, lambda s: s[:2] in other or s[:6] in ('len:A:', 'len:B:'))
    base = h.make
    same = {p for p in env if p.startswith('B:') and p not in ch}

    def make(f, prefix, st):
        kw = base(f, prefix, st)
        if prefix == 'B:':
            ka = base(f, 'A:', st)
            for p in kw:
                if not any(s == 'B:' + p or s.startswith('B:' + p) and s[2 + len(p):].isdigit() for s in ch):
                    if 'B:' + p in same or p in h.fixed:
                        kw[p] = ka[p]
        return kw
    h.make = make
    fresh = {}
    want = {d for d in ch} | {d.replace('B:', 'A:') for d in ch}
    n = 0
    try:
        for path, q, prefix, en in explore(h, queries, depth, lambda s: s in want, A.t):
            r = e.node(en.result, en.st)
            n += 1
            if not path:
                fresh[q.name, prefix] = r
                continue
            v, why = compare(e, A, deps, r, fresh[q.name, prefix], other[prefix])
            if v == 'stale':
                trace = ', '.join(f'{m}({p})' for m, p in path)
                res.find('stale', f'{label}.{q.name}|{what}', f'{label}.{q.name}({prefix[0]}) after {trace} with {what}: {why}', (q.module.file, q.node.lineno))
            elif v == 'undecided':
                res.undec('stale', f'{label}.{q.name}|{what}', f'after {path}')
    finally:
        h.make = base
    res.count('results compared', n)
    res.count('states', h.states)
    res.count('closed state spaces' if h.closed else 'bounded state spaces')
