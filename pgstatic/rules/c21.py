"""C21: equivalent ways to evaluate a thermal response agree."""
import itertools
import math
import os
from fractions import Fraction

import numpy as np

from .. import model, scen
from ..engine import Engine
from ..report import Res
from . import c08, c19

LEVEL = 'other'
EXPECT = ['lists', 'order', 'methods', 'rotation']
EXPLAIN = ('Relational abstract interpretation of the source at points (dimensions, positions and times are numbers with an image in a finite '
           'field, branches and loops are decided at the point): two formulations of the same question are evaluated on the same field and their '
           'results compared entry by entry. Rules: a line source of lists of boreholes against the same function of each pair; response factors '
           'and g-functions of a field against those of its boreholes in another order (rows and columns moved along); method of similarities '
           'against the detailed method; response factors of a rotated or mirrored field against those of the field.')
ASSUME = ['fields of 3 to 5 boreholes of 1 to 3 segments; integrals by fixed nodes, so that inclined boreholes are compared within 1 % (10 % when each leans its own way)',
          'the quadrature nodes of the source itself are 3; vertical boreholes are compared to 1e-7']
MIN = {'comparisons': 100}

# positions; no symmetry, a line, a rectangle, a square with a borehole at its center
LAYOUTS = {'scattered': [(-3, 2), (3, 2), (1, -5), (4, 7)], 'line': [(-4, 0), (0, 0), (4, 0)], 'rectangle': [(0, 0), (5, 0), (0, 7), (5, 7)],
           'cross': [(0, 0), (6, 0), (0, 6), (-6, 0), (0, -6)]}
DIMS = (('H', 10), ('D', 1), ('r_b', Fraction(1, 100)))


class Field:
    """numbers that describe a field; built under several names with the same values"""
    def __init__(self, c, layout, same, tilt):
        self.c = c
        pts = LAYOUTS[layout]
        n = len(pts)
        d = {k: c.draw() * f for k, f in DIMS}
        self.b = []
        other = {k: c.draw() * f for k, f in DIMS} if same == 'two' else None
        ang, ori = c.draw() * Fraction(1, 300), c.draw(1, 2) / 2
        for k, (x, y) in enumerate(pts):
            own = {k_: c.draw() * f for k_, f in DIMS}
            v = dict(d if same is True else own if same is False else (other if k % 4 in (1, 2) else d) if same == 'two' else {**d, same: own[same]})
            v.update(x=Fraction(x), y=Fraction(y), tilt=Fraction(0), orientation=Fraction(0))
            if tilt and not (tilt == 'some' and k % 2 == 0):
                v.update(tilt=ang if tilt != 'each' else c.draw() * Fraction(1, 300), orientation=ori if tilt == 'all' else c.draw(1, 2) / 2 + k)
            self.b.append(v)

    def build(self, st, tag, order=None, move=None, cls='Borehole'):
        c, e = self.c, self.c.e
        out = []
        for k in (order or range(len(self.b))):
            v = self.b[k] if move is None else move(self.b[k])
            tilted = self.b[k]['tilt'] != 0
            kw = {a: c.put(f'{tag}{a}{k}', v[a]) for a in ('H', 'D', 'r_b', 'x', 'y') + (('tilt', 'orientation') if tilted else ())}
            o, st = c.make(cls, st, **kw)
            out.append(o)
        return out, st


def soft(a, b, tol=1e-7):
    from ..twin import differs
    d = differs(a, b, None, tol)
    return d if d and d != 'soft' else None


def entries(v, st, c):
    from ..twin import Interp, arr
    v = c.A(c.e.node(v, st))
    if isinstance(v, Interp):
        return np.asarray(v.y, dtype=object)
    v = arr(v)
    return v if isinstance(v, np.ndarray) else np.array(v, dtype=object)


def unlike(a, b, tol=1e-7):
    from ..twin import Elem, differs
    if a.shape != b.shape:
        return f'arrays of shapes {a.shape} and {b.shape}'
    for i in np.ndindex(a.shape):
        d = differs(Elem.of(a[i]), Elem.of(b[i]), None, tol)
        if d and d != 'soft':
            x, y = (float(Elem.of(z).r) for z in (a[i], b[i]))
            return f'entry {list(i)}: {x:.6g} and {y:.6g}'
    return None


# ---------------------------------------------------------------------------------------------- line sources
def lists(c, f, tilt, shape, approx, time, parts, bcls='Borehole'):
    e = c.e
    F = Field(c, 'scattered', False, tilt)
    b, st = F.build(e.new_state(), 'b', cls=bcls)
    one, many = {'list-list': (b[:2], b), 'list-one': (b[1:3], b[0]), 'one-list': (b[2], b[:3]), 'itself': (b[:2], b[:2])}[shape]
    alpha = c.put('alpha', c.draw())
    t = np.array([c.draw(1, 3), c.draw(4, 6)], dtype=object) * 100
    tv = {'many': t, 'one': t[0]}.get(time)
    kw = dict(alpha=alpha, reaSource=e.cv(parts[0]), imgSource=e.cv(parts[1]), approximation=e.cv(approx), M=e.cv(3), N=e.cv(4))
    kw = {k: v for k, v in kw.items() if k in f.params}
    put = lambda name, v: c.inf() if v is None else c.put(name, v, ty='array' if isinstance(v, np.ndarray) else 'float')
    mk = lambda x: e.mk_list(st, x) if isinstance(x, list) else x
    r, st = c.call(f, st, time=put('time', tv), borehole1=mk(one), borehole2=mk(many), **kw)
    got = entries(r, st, c)
    as_list = lambda x: x if isinstance(x, list) else [x]
    want = np.empty((len(as_list(many)), len(as_list(one)), 2 if time == 'many' else 1), dtype=object)
    for m, b2 in enumerate(as_list(many)):
        for n, b1 in enumerate(as_list(one)):
            r, st = c.call(f, st, time=put('again', tv), borehole1=b1, borehole2=b2, **kw)
            want[m, n] = entries(r, st, c).reshape(-1)
    if time != 'many':
        want = want[:, :, 0]
    return unlike(want, got, rough('some') if tilt == 'some' else 1e-7)


# ---------------------------------------------------------------------------------------------- solvers
def factors(c, cls, b, st, t, tag, approx=False, nseg=2, ratios=None):
    e = c.e
    nseg = e.cv(nseg) if isinstance(nseg, int) else nseg
    s, st = c.make(cls, st, boreholes=e.mk_list(st, b), network=e.cv(None), time=t, boundary_condition=e.cv('UBWT'), nSegments=nseg, segment_ratios=e.cv(None) if ratios is None else ratios,
                   mQuad=e.cv(3), nFLS=e.cv(3), approximate_FLS=e.cv(approx), disp=e.cv(False))
    r, st = c.call(e.classes[cls].find('thermal_response_factors'), st, s, time=t, alpha=c.put('alpha', Fraction(7, 3)))
    return entries(r, st, c), st


def solved(c, cls, b, st, t, bc, nseg=2):
    e = c.e
    s, st = c.make(cls, st, boreholes=e.mk_list(st, b), network=e.cv(None), time=t, boundary_condition=e.cv(bc), nSegments=e.cv(nseg), segment_ratios=e.cv(None),
                   mQuad=e.cv(3), nFLS=e.cv(3), disp=e.cv(False))
    r, st = c.call(e.classes[cls].find('solve'), st, s, time=t, alpha=c.put('alpha', Fraction(7, 3)))
    return entries(r, st, c), st


def rough(tilt):
    # the quadrature over one of two inclined segments is not reciprocal; with the three nodes used here they differ a little
    return 0.1 if tilt in ('each', 'some') else 1e-2 if tilt else 1e-7


def times(c, n=2):
    if n == 2:
        return c.put('time', np.array([c.draw(1, 3), c.draw(4, 6)], dtype=object) * 100, ty='array')
    return c.put('time', np.array([c.draw(1, 2) / 10000, c.draw(1, 3) * 10, c.draw(4, 6) * 10, c.draw(7, 9) * 10], dtype=object), ty='array')


def unequal(c, st, F, ratios, counts, p, tag):
    """segment ratios: those of all boreholes, or of each"""
    if ratios is None:
        return None
    if not hasattr(F, 'ratios'):
        one = c.draw(1, 9, (counts[0],))
        F.ratios = [one if ratios == 'shared' else c.draw(1, 9, (k,)) for k in counts]
        F.ratios = [r / np.sum(r) for r in F.ratios]
    if ratios == 'shared':
        return c.put(f'{tag}ratios', F.ratios[0], ty='array')
    return c.e.mk_list(st, [c.put(f'{tag}ratios{i}', F.ratios[i], ty='array') for i in p])


def order(c, cls, layout, same, tilt, nseg=2, bcls='Borehole', approx=False, ratios=None):
    F = Field(c, layout, same, tilt)
    n = len(F.b)
    perm = [2, 0, 3, 1, 4][:n] if n > 3 else [1, 2, 0]
    t = times(c)
    counts = [nseg] * n if nseg else [1, 2, 3, 2, 1][:n]
    seg = lambda p, st: c.e.cv(nseg) if nseg else c.e.mk_list(st, [c.e.cv(counts[i]) for i in p])
    b, st = F.build(c.e.new_state(), 'a', cls=bcls)
    h, st = factors(c, cls, b, st, t, 'a', approx, seg(range(n), st), unequal(c, st, F, ratios, counts, range(n), 'a'))
    b, st = F.build(st, 'b', perm, cls=bcls)
    g, st = factors(c, cls, b, st, t, 'b', approx, seg(perm, st), unequal(c, st, F, ratios, counts, perm, 'b'))
    start = [sum(counts[:i]) for i in range(n)]
    idx = [start[i] + k for i in perm for k in range(counts[i])]
    if h.shape[0] != sum(counts):
        return f'{h.shape[0]} segments instead of {sum(counts)}'
    return unlike(h[np.ix_(idx, idx)], g, rough(tilt))


def order_solved(c, cls, layout, same, tilt, bc, bcls='Borehole'):
    F = Field(c, layout, same, tilt)
    n = len(F.b)
    perm = [2, 0, 3, 1, 4][:n] if n > 3 else [1, 2, 0]
    t = times(c, 4)
    b, st = F.build(c.e.new_state(), 'a', cls=bcls)
    h, st = solved(c, cls, b, st, t, bc)
    b, st = F.build(st, 'b', perm, cls=bcls)
    g, st = solved(c, cls, b, st, t, bc)
    return unlike(h, g, rough(tilt))


def methods(c, one, two, layout, same, tilt, nseg=2, bcls='Borehole', approx=False, ratios=None):
    F = Field(c, layout, same, tilt)
    n = len(F.b)
    t = times(c)
    counts = [nseg] * n if nseg else [1, 2, 3, 2, 1][:n]
    b, st = F.build(c.e.new_state(), 'a', cls=bcls)
    out = []
    for cls in (one, two):
        seg = c.e.cv(nseg) if nseg else c.e.mk_list(st, [c.e.cv(k) for k in counts])
        h, st = factors(c, cls, b, st, t, 'a', approx, seg, unequal(c, st, F, ratios, counts, range(n), 'a'))
        out.append(h)
    return unlike(*out, rough(tilt))


def methods_solved(c, one, two, layout, same, tilt, bc, bcls='Borehole'):
    F = Field(c, layout, same, tilt)
    t = times(c, 4)
    b, st = F.build(c.e.new_state(), 'a', cls=bcls)
    h, st = solved(c, one, b, st, t, bc)
    g, st = solved(c, two, b, st, t, bc)
    return unlike(h, g, rough(tilt))


Q = Fraction(3, 5), Fraction(4, 5)
HALF = Fraction(math.pi / 2)
MOVES = {'rotated': lambda v: {**v, 'x': Q[0] * v['x'] - Q[1] * v['y'], 'y': Q[1] * v['x'] + Q[0] * v['y']},
         'a quarter turn': lambda v: {**v, 'x': -v['y'], 'y': v['x'], 'orientation': v['orientation'] + HALF},
         'mirrored': lambda v: {**v, 'x': -v['x'], 'orientation': 2 * HALF - v['orientation']}}


def rotation(c, cls, layout, same, tilt, move, bcls='Borehole', nseg=2):
    F = Field(c, layout, same, tilt)
    t = times(c)
    b, st = F.build(c.e.new_state(), 'a', cls=bcls)
    h, st = factors(c, cls, b, st, t, 'a', nseg=nseg)
    b, st = F.build(st, 'b', move=MOVES[move], cls=bcls)
    g, st = factors(c, cls, b, st, t, 'b', nseg=nseg)
    return unlike(h, g, rough(tilt))


CLASSES = ('Detailed', 'Similarities')
VARIANTS = (('approximation', {'approx': True}), ('own numbers of segments', {'nseg': None}), ('unequal segments', {'ratios': 'shared', 'nseg': 3}),
            ('own segment ratios', {'ratios': 'own'}), ('own numbers and ratios of segments', {'ratios': 'own', 'nseg': None}))


def jobs(tier):
    lay = ('scattered', 'rectangle', 'cross') + (('line',) if tier != 'quick' else ())
    out = [('lists', t, tier) for t in (None, 'each', 'some')]
    for l in lay:
        out += [(k, l, c, tier) for c in CLASSES for k in ('order', 'rotation')] + [('methods', l, tier)]
    out += [('solved', c, tier) for c in CLASSES]
    return out


def word(same, tilt):
    return f'{"boreholes of two kinds" if same == "two" else c08.sizes(same)}, {"vertical" if not tilt else "inclined alike" if tilt == "all" else "inclined each its way" if tilt == "each" else "some inclined" if tilt == "some" else "inclined by one angle"}'


def check(e, res, job):
    loc = lambda f: (f.module.file, f.node.lineno)
    tier = job[-1]
    deep = tier != 'quick'

    def go(rule, key, f, build):
        res.count('comparisons')
        c19.one(e, res, key, loc(f), rule, build, '')
    at = lambda cls, m='thermal_response_factors': e.classes[cls].find(m)
    combos = [(True, None), (False, None), (True, 'radial'), (True, 'all'), (False, 'each'), (False, 'some'), ('two', None), ('two', 'all')] + ([('H', None), ('D', None), ('r_b', None), (True, 'each'), ('D', 'all')] if deep else [])
    if job[0] == 'lists':
        f = e.funcs['pygfunction.heat_transfer.finite_line_source']
        for shape, approx, time, parts in itertools.product(('list-list', 'list-one', 'one-list', 'itself'), (False, True), ('one', 'many', 'steady'), ((True, True), (True, False), (False, True)) if deep else ((True, True),)):
            if approx and time == 'steady':
                continue
            go('lists', f'{f.name} ({"vertical" if not job[1] else "inclined" if job[1] == "each" else "some inclined"}, {shape}, {time}{", approximation" if approx else ""}, {parts})', f, lambda c: lists(c, f, job[1], shape, approx, time, parts))
    elif job[0] == 'order':
        cls = job[2]
        for same, tilt in combos:
            go('order', f'{cls}.thermal_response_factors ({job[1]}, {word(same, tilt)}, in another order)', at(cls), lambda c: order(c, cls, job[1], same, tilt))
        for same in (True, False):
            for label, kw in VARIANTS:
                go('order', f'{cls}.thermal_response_factors ({job[1]}, {word(same, None)}, {label}, in another order)', at(cls), lambda c: order(c, cls, job[1], same, None, **kw))
    elif job[0] == 'methods':
        for same, tilt in combos:
            go('methods', f'Similarities.thermal_response_factors against Detailed ({job[1]}, {word(same, tilt)})', at('Similarities'), lambda c: methods(c, 'Detailed', 'Similarities', job[1], same, tilt))
        for same in (True, False):
            for label, kw in VARIANTS:
                go('methods', f'Similarities.thermal_response_factors against Detailed ({job[1]}, {word(same, None)}, {label})', at('Similarities'), lambda c: methods(c, 'Detailed', 'Similarities', job[1], same, None, **kw))
    elif job[0] == 'rotation':
        cls = job[2]
        for same, tilt in combos:
            for move in MOVES:
                if move == 'rotated' and tilt:
                    continue
                go('rotation', f'{cls}.thermal_response_factors ({job[1]}, {word(same, tilt)}, {move})', at(cls), lambda c: rotation(c, cls, job[1], same, tilt, move))
    elif job[0] == 'solved':
        cls = job[1]
        for bc in ('UHTR', 'UBWT'):
            for layout, same, tilt in (('scattered', False, None), ('rectangle', True, None), ('cross', 'two', None), ('scattered', True, 'radial')):
                go('order', f'{cls}.solve ({layout}, {word(same, tilt)}, {bc}, in another order)', at(cls, 'solve'), lambda c: order_solved(c, cls, layout, same, tilt, bc))
                if cls != 'Detailed':
                    go('methods', f'{cls}.solve against Detailed ({layout}, {word(same, tilt)}, {bc})', at(cls, 'solve'), lambda c: methods_solved(c, 'Detailed', cls, layout, same, tilt, bc))


def run(job, root):
    res = Res()
    e = scen.engine(root)
    scen.need(e, 'Borehole', '_BaseSolver', 'Detailed', 'Similarities', 'Equivalent', 'pygfunction.heat_transfer.finite_line_source')
    check(e, res, job)
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    fn = {f.name: f for f in e.funcs.values() if f.cls is None}
    go = lambda rule, key, build: c19.one(e, res, key, ('toy/c21.py', 1), rule, build, '')
    for n in ('pairs_good', 'pairs_axes', 'pairs_first'):
        go('lists', n, lambda c: lists(c, fn[n], None, 'list-list', False, 'many', (True, True), bcls='PairHole'))
    for n in ('AlikeGood', 'AlikeRow', 'AlikeMirror'):
        go('order', n, lambda c: order(c, n, 'scattered', False, None, nseg=1, bcls='PairHole'))
        go('rotation', n, lambda c: rotation(c, n, 'scattered', False, None, 'mirrored', bcls='PairHole', nseg=1))
        go('methods', n, lambda c: methods(c, 'AlikeGood', n, 'scattered', False, None, nseg=1, bcls='PairHole'))
    keys = {k for k in res.findings}
    assert {tuple(k.split('|')[:2]) for k in keys} == {('lists', 'pairs_axes'), ('lists', 'pairs_first'), ('order', 'AlikeRow'), ('methods', 'AlikeRow'),
                                                       ('rotation', 'AlikeMirror'), ('methods', 'AlikeMirror')}, (keys, res.undecided)
    assert not res.undecided, res.undecided
    return res
