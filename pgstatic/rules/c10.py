"""C10: evaluating superposed loads has no side effects and uses current state."""
import os
from fractions import Fraction

from .. import fold, history, model, scen
from ..engine import Engine
from ..report import Res

LEVEL = 'other'
EXPECT = ['operation', 'impure', 'replaced load', 'loads', 'steady load', 'other instance', 'caller array', 'response factors']
EXPLAIN = ('Linear-relation analysis of each load aggregation scheme: the operations are composed symbolically along a schedule of time steps, '
           'for several sizes of the aggregation cells and two numbers of sources, and the value graph of every query is evaluated over '
           'polynomials in the loads. Rules: the form is the same with queries repeated, loads first set to another value, returned '
           'and given arrays overwritten, and another instance used in between; with response factors that grow by one per step it is '
           'the sum of all loads, each once (every load is used exactly through the history of the scheme), and with constant '
           'response factors it is the current load alone; the response factors given are never written; every scheme has every '
           'operation of the base class, callable in the same way.')
ASSUME = ['schedules of up to 34 steps (44 in the thorough tier) with small aggregation cells', 'cell times of ClaessonJaved are uninterpreted, except that they grow']
MIN = {'queries compared': 30, 'operations': 12}
TIMES = [1, 2, 3, 5, 7, 11, 15, 23]
SIZES = {'MLAA': [dict(N0=2, N1=2, N2=2, N3=2), dict(N0=3, N1=2, N2=4, N3=3)],
         'Liu': [dict(N1=2, N2=2, N3=2, W1=1, W2=1, W3=1), dict(N1=3, N2=2, N3=2, W1=1, W2=2, W3=1)]}
OTHER = [dict()]
STEPS = {'MLAA': 16, 'Liu': 34, 'ClaessonJaved': 7}


def schemes(e):
    base = e.classes['_LoadAggregation']
    return base, [c for n, c in sorted(e.classes.items()) if c is not base and base in mro(c) and public(c)]


def mro(c):
    return list(c.mro())


def public(c):
    return not c.name.startswith('_')


def operations(e, res):
    base, subs = schemes(e)
    ops = {n: f for n, f in base.methods.items() if not n.startswith('_') or n == '__init__'}
    for c in subs:
        for n, f in sorted(ops.items()):
            res.count('operations')
            g = c.find(n)
            loc = (c.module.file, c.node.lineno)
            if g is None or g is f and n != '__init__':
                st = e.new_state()
                if g is f and not only_raises(f):
                    continue
                res.find('operation', f'{c.name}.{n}', f'{c.name} does not provide {n}()', loc)
                continue
            want = [p for p in f.params if p != 'self']
            a = g.node.args
            names = [x.arg for x in a.posonlyargs + a.args][1:] + [x.arg for x in a.kwonlyargs]
            pos = [x.arg for x in a.posonlyargs + a.args][1:]
            need = pos[:len(pos) - len(a.defaults)] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
            # called by position: as many required parameters at most, and room for every one given
            kwo = [p for p in need if p not in pos and p not in want]
            bad = len([p for p in need if p in pos]) > len(want) or bool(kwo) or len(pos) < len(want) and not a.vararg
            # and a parameter known by name stands at the same position
            bad |= any(p in want and want.index(p) != i for i, p in enumerate(pos))
            if bad:
                res.find('operation', f'{c.name}.{n}', f'{c.name}.{n}({", ".join(names)}) cannot be called as {base.name}.{n}({", ".join(want)})', (c.module.file, g.node.lineno))


def only_raises(f):
    import ast
    return any(isinstance(s, ast.Raise) for s in f.node.body)


class Sim:
    """One instance driven along a schedule; every call has its own symbols."""
    def __init__(self, e, cls, over, ns, tag):
        self.e, self.cls, self.ns, self.tag = e, cls, ns, tag
        self.ci = e.classes[cls]
        fi = self.ci.find('__init__')
        kw = {'dt': e.cv(1.), 'tmax': e.cv(60.), 'nSources': e.cv(ns)}
        kw.update({k: e.cv(v) for k, v in over.items()})
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][1:]
        req = pos[:len(pos) - len(a.defaults)]
        self.kw = {k: v for k, v in kw.items() if k in pos}
        for p in req:
            self.kw.setdefault(p, e.sym(f'{tag}{p}'))
        self.obj = None

    def start(self, st):
        self.obj, st = self.e.construct(f'{self.ci.module.name}.{self.ci.name}', kwargs=self.kw, st=st)
        if self.obj is None:
            raise scen.AnchorError(f'{self.cls}() cannot be analysed')
        return self.init(st)

    def init(self, st):
        f = self.ci.find('initialize')
        self.g = self.e.sym(self.tag + 'g_d', 'array', owner=f'user:{self.tag}g_d')
        p = [x for x in f.params if x != 'self'][:1]
        return self.do('initialize', st, dict(zip(p, [self.g]))).st

    def do(self, name, st, kw=None, tag=''):
        f = self.ci.find(name)
        if f is None:
            raise scen.AnchorError(f'{self.cls}.{name}()')
        k = scen.sy(self.e, f, prefix=self.tag + tag)
        k.update(kw or {})
        return scen.call(self.e, f'{self.cls}.{name}', f, k, st, self.obj)

    def load(self, t, st, what='q'):
        f = self.ci.find('set_current_load')
        v = self.e.sym(f'{self.tag}{what}{t}', 'array', owner=f'user:{what}')
        p = [x for x in f.params if x != 'self'][:1]
        return self.do('set_current_load', st, dict(zip(p, [v]))).st, v

    def step(self, t, st):
        f = self.ci.find('next_time_step')
        p = [x for x in f.params if x != 'self'][:1]
        return self.do('next_time_step', st, {x: self.e.cv(float(t + 1)) for x in p}).st

    def query(self, st):
        en = self.do('temporal_superposition', st)
        return en

    def others(self):
        ops = ('initialize', 'next_time_step', 'set_current_load', '__init__')
        return [f for f in scen.public_methods(self.e, self.cls) if f.name not in ops and scen.kind_of(f) == 'method' and not f.name.startswith('__')]


def schedule(e, cls, over, ns, steps, dirty, tag='', other=None):
    """values of the query at every step: [(node, entry)]"""
    sim = Sim(e, cls, over, ns, tag)
    st = sim.start(e.new_state())
    o = None
    if dirty:
        o = Sim(e, cls, over, ns, 'other:')
        st = o.start(st)
    out = []
    for t in range(steps):
        st = sim.step(t, st)
        if dirty:
            st = o.step(t, st)
            st = sim.query(st).st
            if t % 3 == 0:
                st, v = sim.load(t, st, 'replaced:')
                en = sim.query(st)
                st = en.st
                history.clobber(e, en.result, st, 'caller:')
        st, v = sim.load(t, st)
        if dirty:
            history.clobber(e, v, st, 'caller:')
            st, _ = o.load(t, st)
            st = o.query(st).st
            for f in sim.others():
                en = sim.do(f.name, st)
                if en.st is not None and en.result is not None:
                    st = en.st
                    if f.name == 'temporal_superposition':
                        history.clobber(e, en.result, st, 'caller:')
        en = sim.query(st)
        if en.result is None or en.st is None:
            raise scen.AnchorError(f'{cls}.temporal_superposition() cannot be analysed')
        st = en.st
        out.append((e.node(en.result, st), en))
    gnode = e.node(sim.g, st)
    return sim, st, out, gnode


def weights(ns, g):
    """response factors: K_ij * g(t)"""
    import numpy as np
    from ..arrays import Poly
    k = [[2, 3], [5, 7]]
    a = np.empty((ns, ns, len(g)), dtype=object)
    for i, j, t in np.ndindex(a.shape):
        a[i, j, t] = Poly.of(k[i][j] * g[t])
    return a.reshape(-1) if ns == 1 else a


def loads(ns, steps, tag, what):
    import numpy as np
    from ..arrays import Poly
    out = {}
    for t in range(steps):
        a = np.empty(ns, dtype=object)
        for i in range(ns):
            a[i] = Poly.var(f'{what}{t}.{i}')
        out[f'{tag}{what}{t}'] = a
    return out


def evaluator(e, cls, ns, steps, g, extra=None):
    import numpy as np
    from ..arrays import Arrays, Poly, lift
    v = {}
    for tag in ('', 'other:'):
        for what in ('q', 'replaced:'):
            v.update(loads(ns, steps, tag, what))
    for k in list(v):
        if k.startswith('other:'):
            v[k] = np.array([Poly.var(f'other:{k}.{i}') for i in range(ns)], dtype=object)
    v['g_d'] = weights(ns, g)
    v['other:g_d'] = weights(ns, [7 * x + 1 for x in g])
    v['caller:'] = Poly.var('caller:')

    def over(c, x):
        a = np.empty(np.shape(x), dtype=object)
        a[...] = Poly.var('caller:')
        return a if a.shape else Poly.var('caller:')
    return Arrays(e.g, v, {'overwritten': over, 'pg:pygfunction.utilities.time_ClaessonJaved': lambda *a: lift(np.array(TIMES))})


def flat(x):
    import numpy as np
    from ..arrays import Poly, Unknown, arr
    x = arr(x)
    return [Poly.of(y) for y in x.reshape(-1)] if isinstance(x, np.ndarray) else [Poly.of(x)]


def lags(cls, n):
    """growth of one per time step, at the times for which the scheme asks response factors"""
    return [Fraction(t) for t in (TIMES if cls == 'ClaessonJaved' else range(1, n + 1))]


def check(e, cls, over, ns, steps, res, first=0):
    import numpy as np
    from ..arrays import Poly, Unknown
    where = e.classes[cls].find('temporal_superposition')
    loc = (where.module.file, where.node.lineno)
    setl = e.classes[cls].find('set_current_load')
    n0 = len(e.events)
    sim, st, clean, gn = schedule(e, cls, over, ns, steps, False)
    simd, std, dirty, gnd = schedule(e, cls, over, ns, steps, True)
    for f in scen.public_methods(e, cls):
        res.entry(f'{cls}.{f.name}')
    for a, b in ((gn, sim), (gnd, simd)):
        if a.op != 'sym':
            s = {ev.stack[-1] for ev in e.events[n0:] if ev.kind in ('write', 'store')}
            res.find('response factors', f'{cls}', f'{cls} modifies the response factors it was given', loc)
    res.count('response factors')
    rnd = [Fraction(x) for x in (3, 4, 9, 13, 20, 22, 31, 37, 43, 47, 56, 61, 72, 77, 85, 93, 101, 118, 125, 131, 140, 151, 163, 170)]
    n = len(TIMES) if cls == 'ClaessonJaved' else 60
    rnd = (rnd + [170 + 11 * Fraction(i) for i in range(1, 40)])[:n]
    size = ', '.join(f'{k}={v}' for k, v in over.items())
    for t in range(first, steps):
        a, en = clean[t]
        b, end = dirty[t]
        key = f'{cls}'
        at = f'at step {t + 1} with {ns} source(s)' + (f', {size}' if size else '')
        res.count('queries compared')
        A = evaluator(e, cls, ns, steps, rnd)
        try:
            fa = flat(A(a))
        except Unknown as ex:
            fa = None
            res.undec('forms', f'{key}|{t}', str(ex)[:100])
        try:
            fb = flat(A(b))
        except Unknown as ex:
            fb = None
        ds = fold.deps(e.g, [b])
        if fb is None and a is not b:
            # the form is not available: dependence alone decides
            d2 = ds - fold.deps(e.g, [a])
            res.undec('interference', f'{key}|{t}', f'depends on {sorted(map(str, d2))[:5]}')
        if fa is not None and fb is not None and a is not b:
            vs = {v for p in fb for v in p.vars()}
            oth = {v for v in vs if v.startswith('other:')}
            rep = {v for v in vs if v.startswith('replaced:')}
            cal = {v for v in vs if v.startswith('caller:')}
            if oth:
                res.find('other instance', key, f'{cls}.temporal_superposition() {at} uses the state of another instance', loc)
            if rep:
                res.find('replaced load', key, f'{cls}.temporal_superposition() {at} still uses a load that was set again', (setl.module.file, setl.node.lineno))
            if cal:
                res.find('caller array', key, f'{cls}.temporal_superposition() {at} uses an array the caller overwrote since', loc)
            if not (oth or rep or cal):
                if len(fa) != len(fb) or any((x - y).t for x, y in zip(fa, fb)):
                    res.find('impure', key, f'{cls}.temporal_superposition() {at} changes when queries, replaced loads or another instance come in between', loc)
        if fa is None:
            missing = [s for s in [f'q{k}' for k in range(t + 1)] + ['g_d'] if s not in fold.deps(e.g, [a])]
            if missing:
                res.find('loads', key, f'{cls}.temporal_superposition() {at} does not use {", ".join(missing)}', loc)
            continue
        if len(fa) != ns:
            res.undec('size', key, f'{len(fa)} values for {ns} sources')
            continue
        k = [[2, 3], [5, 7]]
        for rule, g, hist, msg in (('loads', lags(cls, n), range(t + 1), 'does not use each load exactly once (response factors that grow by one per step)'),
                                   ('steady load', [Fraction(1)] * n, [t], 'differs from the current load with constant response factors')):
            try:
                f = flat(evaluator(e, cls, ns, steps, g)(a))
            except Unknown as ex:
                res.undec(rule, f'{key}|{t}', str(ex)[:100])
                continue
            for i in range(ns):
                want = Poly()
                for j in range(ns):
                    for s in hist:
                        want = want + k[i][j] * Poly.var(f'q{s}.{j}')
                if (f[i] - want).t:
                    res.find(rule, key, f'{cls}.temporal_superposition() {at} {msg}: {str(f[i] - want)[:80]} off', loc)
                res.count('linear relations')


def opaque(e):
    e.opaque = lambda f, s: f.name == 'time_ClaessonJaved'


def jobs(tier):
    out = ['operations']
    for ns in (1, 2):
        for c in scen.AGG:
            for k in range(len(SIZES.get(c, OTHER))):
                if ns == 2 or k == 0 or tier == 'thorough':
                    out.append((c, ns, k, STEPS.get(c, 7) + (10 if tier == 'thorough' and c != 'ClaessonJaved' else 0)))
    return out


def run(job, root):
    res = Res()
    e = scen.engine(root)
    scen.need(e, '_LoadAggregation', *scen.AGG)
    opaque(e)
    if job == 'operations':
        operations(e, res)
    else:
        c, ns, k, steps = job
        check(e, c, SIZES.get(c, OTHER)[k], ns, steps, res)
    res.seen(e)
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    opaque(e)
    operations(e, res)
    for c in schemes(e)[1]:
        check(e, c.name, {}, 2, 4, res)
    keys = {(f['rule'], f['construct'].split('.')[0]) for f in res.findings.values()}
    want = {('operation', 'AggNoOperation'), ('impure', 'AggImpure'), ('replaced load', 'AggAdds'), ('other instance', 'AggShared'), ('caller array', 'AggAlias'),
            ('loads', 'AggLoses'), ('steady load', 'AggUnsteady'), ('response factors', 'AggWrites')}
    assert want <= keys, want - keys
    assert not any(k[1] == 'AggGood' for k in keys), keys
    return res
