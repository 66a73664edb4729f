"""C20: segments cover the borehole, ratios add up, time vectors cover the simulation."""
import math
import os
from fractions import Fraction

import numpy as np

from .. import model, scen
from ..engine import Engine
from ..report import Res
from . import c19

LEVEL = 'other'
EXPECT = ['segments', 'ratios', 'times']
EXPLAIN = ('Abstract interpretation of the source at points (dimensions, ratios and times are numbers with an image in a finite field, branches '
           'and loops are decided at the point), against the documented definition computed here. Rules: position, dimensions and number of the '
           'segments of single and equivalent boreholes, vertical and inclined, of equal and unequal ratios; edges and midpoints; ratios generated '
           'for every number of segments up to the bound and several end ratios (positive, symmetric, geometric, end ratio as given, total of one); '
           'widths and coverage of the time vectors for maximum times on and between steps, and times requested by the load aggregation schemes.')
ASSUME = ['up to 6 segments (12 for generated ratios) and about 60 time steps; equality at a generic point', 'roots of polynomials are found numerically']
MIN = {'segments': 20, 'ratios': 20, 'times': 20}


def borehole(c, st, kind, cls):
    e = c.e
    d = {k: c.put(k, c.draw() * f) for k, f in (('H', 10), ('D', 1), ('r_b', Fraction(1, 100)))}
    tilt = c.put('tilt', c.draw() * Fraction(1, 50) if 'inclined' in kind else Fraction(0))
    if kind.startswith('equivalent'):
        x, y, o = (c.put(k, c.draw(1, 9, (3,)) * m) for k, m in (('x', 1), ('y', 1), ('orientation', 1 if 'inclined' in kind else 0)))
        items = [d['H'], d['D'], d['r_b'], x, y] + ([tilt, o] if 'short' not in kind else [])
        return c.make(cls, st, boreholes=e.mk_tup(items))
    return c.make(cls, st, x=c.put('x', c.draw()), y=c.put('y', c.draw()), tilt=tilt, orientation=c.put('orientation', c.draw() if 'inclined' in kind else Fraction(0)), **d)


def divided(c, e, st, n, unequal):
    kw = {'nSegments': e.cv(n)}
    if unequal:
        r = c.draw(1, 9, (n,))
        kw['segment_ratios'] = c.put('ratios', r / np.sum(r))
        return kw, list(c.raw['ratios'])
    return kw, [Fraction(1, n)] * n


def rows(v):
    from ..twin import Elem, arr
    v = arr(v)
    return [Elem.of(x) for x in np.asarray(v, dtype=object).reshape(-1)] if isinstance(v, np.ndarray) else [Elem.of(v)]


def unlike(want, got):
    from ..twin import differs, flat
    want, got = rows(want), rows(got)
    if len(want) != len(got):
        return f'{len(got)} values instead of {len(want)}'
    d = differs(flat(want), flat(got), None)
    return d if d and d != 'soft' else None


def segments(c, kind, what, n, unequal, cls):
    from ..twin import COS, SIN, Elem, arr
    e = c.e
    b, st = borehole(c, e.new_state(), kind, cls)
    kw, ratios = divided(c, e, st, n, unequal)
    E, v = Elem.of, c.raw
    H = E(v['H'])
    edges = [E(0)]
    for r in ratios:
        edges.append(edges[-1] + H * E(r))
    r, st = c.call(e.classes[cls].find(what), st, b, **kw)
    if what == '_segment_edges':
        return unlike(np.array(edges, dtype=object), c.A(e.node(r, st)))
    if what == '_segment_midpoints':
        return unlike(np.array([(p + q) * Fraction(1, 2) for p, q in zip(edges, edges[1:])], dtype=object), c.A(e.node(r, st)))
    items = e.iter_items(r, st)
    if items is None:
        from ..arrays import Unknown
        raise Unknown('list of segments')
    if len(items) != n:
        return f'{len(items)} segments instead of {n}'
    lift = lambda x: x if isinstance(x, np.ndarray) else E(x)
    for k, s in enumerate(items):
        t = E(v['tilt'])
        o = v.get('orientation') if 'short' not in kind else np.array([E(0)] * 3, dtype=object)
        each = lambda f, x: np.array([f(E(y)) for y in x], dtype=object) if isinstance(x, np.ndarray) else f(E(x))
        want = {'H': H * E(ratios[k]), 'D': E(v['D']) + edges[k] * COS(t), 'r_b': E(v['r_b']), 'tilt': t, 'orientation': lift(o),
                'x': lift(v['x']) + edges[k] * SIN(t) * each(COS, o), 'y': lift(v['y']) + edges[k] * SIN(t) * each(SIN, o)}
        for a in c19.ATTRS:
            got = c.A(e.node(e.getattr_(s, a, st), st))
            if a == 'orientation' and 'vertical' in kind:
                continue
            d = unlike(want[a], got)
            if d:
                return f'{a} of segment {k} is not that of the {"first" if k == 0 else "next"} part of the borehole ({d})'
    return None


def ratios(c, f, n, end):
    e = c.e
    kw = {f.params[0]: e.cv(n)}
    if end is not None:
        kw[f.params[1]] = c.put('end', end)
    else:
        end = Fraction(1, 50)
    r, st = c.call(f, e.new_state(), **kw)
    got = [float(x.r) for x in rows(c.A(e.node(r, st)))]
    return wrong_ratios(got, n, float(end))


def wrong_ratios(got, n, end):
    close = lambda a, b: abs(a - b) < 1e-7
    if len(got) != n:
        return f'{len(got)} ratios instead of {n}'
    if not all(x > 0 for x in got):
        return 'a ratio is not positive'
    if not close(sum(got), 1):
        return f'the sum of the ratios is {sum(got):.9g}'
    if any(not close(a, b) for a, b in zip(got, got[::-1])):
        return 'the ratios are not symmetric'
    if n > 2 and not close(got[0], end):
        return f'the ratio of the ends is {got[0]:g} instead of {end:g}'
    h = got[:(n + 1) // 2]
    q = [b / a for a, b in zip(h, h[1:])]
    if any(abs(x - q[0]) > 1e-5 * q[0] for x in q):
        return 'the ratios do not grow by one factor towards the middle'
    return None


LIKE = {}


def expected_times(name, steps, more):
    """widths (in time steps) of a time vector that reaches a number of time steps, from its documentation"""
    out, t, i = [], 0, 0
    while t < steps:
        if LIKE.get(name, name) == 'time_ClaessonJaved':
            w = 2 ** (i // more)
        else:
            w = 1 if i < more else 2 ** (i - more + 1)
        t += w
        out.append(t)
        i += 1
    return out


TIMES = {'time_ClaessonJaved': 'cells_per_level', 'time_MarcottePasquier': 'non_expanding_cells'}


def times(c, f, steps, more):
    e = c.e
    dt = c.draw(1, 9)
    kw = {'dt': c.put('dt', dt), 'tmax': c.put('tmax', dt * steps)}
    p = TIMES[f.name]
    if more is not None:
        kw[p] = e.cv(more)
    else:
        more = {'cells_per_level': 5, 'non_expanding_cells': 48}[p]
    r, st = c.call(f, e.new_state(), **kw)
    d = dt if not hasattr(dt, 'r') else dt
    return unlike(np.array([d * w for w in expected_times(f.name, steps, more)], dtype=object), c.A(e.node(r, st)))


def geometric(c, f, steps, n):
    e = c.e
    dt = c.draw(1, 9)
    r, st = c.call(f, e.new_state(), dt=c.put('dt', dt), tmax=c.put('tmax', dt * steps), Nt=e.cv(n))
    got = [float(x.r) / float(dt.r if hasattr(dt, 'r') else dt) for x in rows(c.A(e.node(r, st)))]
    return wrong_times(got, float(steps), n)


def wrong_times(got, steps, n):
    if len(got) != n:
        return f'{len(got)} times instead of {n}'
    w = [b - a for a, b in zip([0.] + got, got)]
    if any(x <= 0 for x in w):
        return 'the times do not increase'
    if abs(w[0] - 1) > 1e-7:
        return f'the first time is {got[0]:g} time steps'
    if steps <= n:
        return None if all(abs(x - 1) < 1e-9 for x in w) else 'the steps are not all equal to the time step'
    if got[-1] != steps and abs(got[-1] / steps - 1) > 1e-12:
        return f'the last time is {got[-1]:g} time steps instead of {steps:g}'
    q = [b / a for a, b in zip(w, w[1:])]
    if any(abs(x / q[0] - 1) > 1e-4 for x in q) or q and q[0] < 1:
        return 'the steps do not grow by one factor'
    return None


def requested(c, cls, steps):
    """times at which a load aggregation scheme needs the response factors"""
    e = c.e
    dt = c.draw(1, 9)
    over = {k: e.cv(v) for k, v in {'cells_per_level': 2, 'N1': 2, 'N2': 2, 'N3': 3, 'W1': 1, 'W2': 1, 'W3': 1}.items() if k in e.classes[cls].find('__init__').params}
    if cls == 'Liu':
        over = {k: e.cv(v) for k, v in {'N1': 2, 'N2': 2, 'N3': 2, 'W1': 1, 'W2': 1, 'W3': 1}.items()}
    o, st = c.make(cls, e.new_state(), dt=c.put('dt', dt), tmax=c.put('tmax', dt * steps), nSources=e.cv(1), **over)
    t, st = c.call(e.classes[cls].find('get_times_for_simulation'), st, o)
    got = [float(x.r) / float(dt.r if hasattr(dt, 'r') else dt) for x in rows(c.A(e.node(t, st)))]
    w = [b - a for a, b in zip([0.] + got, got)]
    if not got:
        return 'no times'
    if any(x <= 0 for x in w):
        return 'the times do not increase'
    if abs(got[0] - 1) > 1e-9:
        return f'the first time is {got[0]:g} time steps'
    if any(abs(x - round(x)) > 1e-9 for x in got):
        return 'a time is not a number of time steps'
    if got[-1] < steps - 1e-9:
        return f'the last time is {got[-1]:g} time steps and the simulation lasts {steps:g}'
    return None


KINDS = ['vertical', 'inclined', 'equivalent vertical', 'equivalent vertical short', 'equivalent inclined']
ENDS = [None, Fraction(1, 20), Fraction(1, 7), Fraction(3, 10), Fraction(1, 100)]


def jobs(tier):
    return [('segments', k, tier) for k in KINDS] + [('ratios', tier), ('times', tier), ('requested', tier)]


def run_segments(e, res, kind, tier, cls=None):
    k = e.classes[cls or ('_EquivalentBorehole' if kind.startswith('equivalent') else 'Borehole')]
    for what, rule in (('segments', 'segments'), ('_segment_edges', 'segments'), ('_segment_midpoints', 'segments')):
        f = k.find(what)
        if f is None:
            if what == 'segments':
                raise scen.AnchorError(f'{k.name}.{what}()')
            if cls is None:
                res.undec(rule, what, 'no such method')
            continue
        for n in (1, 2, 3) + ((4, 6) if tier != 'quick' else ()):
            for unequal in (False, True):
                res.count('segments')
                c19.one(e, res, f'{k.name}.{what} ({kind}, {n}{", unequal" if unequal else ""})', (f.module.file, f.node.lineno), rule, lambda c: segments(c, kind, what, n, unequal, k.name), '')


def run_ratios(e, res, f, tier):
    for n in range(1, 9 if tier == 'quick' else 14):
        for end in ENDS + ([Fraction(1, n)] if n > 3 else []) + ([Fraction(2, 5), Fraction(1, 1000), Fraction(9, 10 * n)] if tier != 'quick' else []):
            res.count('ratios')
            c19.one(e, res, f'{f.name} ({n} segments, end ratio {end if end is not None else "default"})', (f.module.file, f.node.lineno), 'ratios', lambda c: ratios(c, f, n, end), '')


def run_times(e, res, f, tier):
    loc = (f.module.file, f.node.lineno)
    if f.name in TIMES:
        for more in (None, 1, 2, 3, 6):
            for steps in (1, 2, 3, 5, 8, 12, Fraction(1, 2), Fraction(7, 2), Fraction(25, 2), 52) + ((Fraction(99, 10), 31, 63, 64, 200) if tier != 'quick' else ()):
                res.count('times')
                c19.one(e, res, f'{f.name} ({float(steps):g} time steps, {more if more else "default"})', loc, 'times', lambda c: times(c, f, steps, more), '')
    else:
        for n in (1, 2, 5, 8):
            for steps in (1, 2, 5, 8, 13, Fraction(11, 2), 100, 1000):
                if n == 1 and steps > 1:
                    continue
                res.count('times')
                c19.one(e, res, f'{f.name} ({float(steps):g} time steps in {n})', loc, 'times', lambda c: geometric(c, f, steps, n), '')


def run(job, root):
    res = Res()
    e = scen.engine(root)
    fs = {f.name: f for f in scen.module_functions(e)}

    def need(name):
        if name not in fs:
            raise scen.AnchorError(f'{name}()')
        return fs[name]
    if job[0] == 'segments':
        scen.need(e, 'Borehole', '_EquivalentBorehole')
        run_segments(e, res, job[1], job[2])
    elif job[0] == 'ratios':
        run_ratios(e, res, need('segment_ratios'), job[1])
    elif job[0] == 'times':
        for name in ('time_ClaessonJaved', 'time_MarcottePasquier', 'time_geometric'):
            run_times(e, res, need(name), job[1])
    else:
        for cls in scen.AGG:
            f = e.classes[cls].find('get_times_for_simulation')
            for steps in (2, 5, 12) + ((13, 29, 60) if job[1] != 'quick' else ()):
                c19.one(e, res, f'{cls}.get_times_for_simulation ({steps} time steps)', (f.module.file, f.node.lineno), 'times', lambda c: requested(c, cls, steps), '')
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    fn = {f.name: f for f in e.funcs.values() if f.cls is None}
    for k in ('SplitGood', 'SplitDepth', 'SplitOrder'):
        run_segments(e, res, 'inclined', 'quick', k)
    for n in ('shares_good', 'shares_small', 'shares_skewed'):
        run_ratios(e, res, fn[n], 'quick')
    for n, like in (('cells_good', 'time_ClaessonJaved'), ('cells_short', 'time_ClaessonJaved'), ('cells_early', 'time_ClaessonJaved'), ('growing_good', None), ('growing_short', None)):
        f = fn[n]
        if like:
            TIMES[n] = TIMES[like]
            LIKE[n] = like
        run_times(e, res, f, 'quick')
        TIMES.pop(n, None)
    keys = {k.split('|')[1] for k in res.findings}
    assert keys == {'SplitDepth.segments', 'SplitOrder.segments', 'shares_small', 'shares_skewed', 'cells_short', 'cells_early', 'growing_short'}, (keys, res.undecided)
    return res
