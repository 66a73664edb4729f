"""C08: results do not change with a horizontal shift of the whole field."""
import itertools
import os
from fractions import Fraction

from .. import model, scen
from ..engine import Engine
from ..report import Res

LEVEL = 'other'
EXPECT = ['line source', 'distance', 'duplicates', 'response factors', 'g-function']
EXPLAIN = ('Relational abstract interpretation of the source at two points, a field and the same field at another origin: every function of '
           'positions is evaluated symbolically, with branches and loops decided at the point, and the two results are compared as elements of '
           'a finite field (sums, products and quotients are exact; exponentials, error functions, integrals and other functions are '
           'uninterpreted, so that equal results mean that they receive equal arguments). Rules: the line source solution (vertical, '
           'inclined, real and image parts, approximation, steady state, single boreholes and lists), distances between boreholes and their '
           'groups, duplicates, and the response factors and g-functions of every solver (pairs found similar included) are the same at every origin.')
ASSUME = ['fields of up to 5 boreholes at a few layouts, with and without symmetries; shifts by far more than the size of the field',
          'results are compared at generic points (equal by chance with a probability below 1e-9)']
MIN = {'comparisons': 60}

X, Y = Fraction(-10**7, 7), Fraction(3 * 10**7, 11)
SMALL = Fraction(7, 3)
SHIFTS = [('', lambda h, v: v, None),
          ('after a shift by a large distance', lambda h, v: v + (X if h == 'x' else Y), None),
          ('after a shift the other way', lambda h, v: v - (Y if h == 'x' else X), None),
          ('after a short shift', lambda h, v: v + (SMALL if h == 'x' else -SMALL), None)]
# positions: no symmetry, a line, a rectangle and a point on the axis
LAYOUTS = {'scattered': [(Fraction(-3), Fraction(2)), (Fraction(3), Fraction(2)), (Fraction(1, 7), Fraction(-7, 3))],
           'rectangle': [(Fraction(0), Fraction(0)), (Fraction(5), Fraction(0)), (Fraction(0), Fraction(7)), (Fraction(5), Fraction(7))],
           'line': [(Fraction(-4), Fraction(0)), (Fraction(0), Fraction(0)), (Fraction(4), Fraction(0))]}


def borehole(c, st, i, xy, dims, tilt=None, cls='Borehole'):
    kw = dict(dims)
    kw.update(x=c.put(f'x{i}', xy[0], 'x'), y=c.put(f'y{i}', xy[1], 'y'))
    if tilt is not None:
        kw.update(tilt=tilt[0], orientation=tilt[1])
    return c.make(cls, st, **kw)


def dims(c, i=''):
    return {k: c.put(f'{k}{i}', c.draw() * f) for k, f in (('H', 10), ('D', 1), ('r_b', Fraction(1, 100)))}


def field(c, st, layout, same=True, tilt=None, cls='Borehole'):
    """same: all dimensions, none, or all except the one that is named; tilt: None, 'some', 'all' or 'radial'"""
    b = []
    d = dims(c)
    ang = c.put('tilt', c.draw() * Fraction(1, 50))
    ori = c.put('orientation', c.draw())
    for i, xy in enumerate(LAYOUTS[layout]):
        t = None
        if tilt == 'all':
            t = (ang, ori)
        elif tilt == 'radial':
            t = (ang, c.put(f'orientation{i}', c.draw()))
        elif tilt == 'some' and i != 1:
            t = (c.put(f'tilt{i}', c.draw() * Fraction(1, 50)), c.put(f'orientation{i}', c.draw()))
        own = d if same is True else dims(c, i)
        if isinstance(same, str):
            own = {**d, same: own[same]}
        o, st = borehole(c, st, i, xy, own, t, cls)
        b.append(o)
    return b, st


def sizes(same):
    return 'equal boreholes' if same is True else 'different boreholes' if same is False else f'boreholes that differ by {same}'


def time_of(c, what):
    import numpy as np
    if what == 'steady':
        return c.inf()
    if what == 'one':
        return c.put('time', c.draw() * 100)
    return c.put('time', np.array([c.draw(1, 3), c.draw(4, 6)], dtype=object) * 100, ty='array')


def line_source(c, f, tilt, lists, approx, time, parts):
    e = c.e
    b, st = field(c, e.new_state(), 'scattered', False, 'some' if tilt else None)
    kw = dict(time=time_of(c, time), alpha=c.put('alpha', c.draw()), borehole1=e.mk_list(st, b[:2]) if lists else b[0], borehole2=e.mk_list(st, b) if lists else b[1])
    kw.update(reaSource=e.cv(parts[0]), imgSource=e.cv(parts[1]), approximation=e.cv(approx), M=e.cv(3), N=e.cv(4))
    return c.value(*c.call(f, st, **{k: v for k, v in kw.items() if k in f.params}))


def direct(c, f, shape):
    """a function of positions themselves, given as numbers or arrays"""
    import numpy as np
    e = c.e
    kw = {}
    for p in f.params:
        n = p.rstrip('12')
        sh = {'one': None, 'row': (3,)}[shape]
        if n in ('x', 'y'):
            v = c.draw(1, 9, sh)
            kw[p] = c.put(p, v - 5, n)
        elif n in ('H', 'D', 'rb', 'r_b', 'tilt', 'orientation'):
            kw[p] = c.put(p, c.draw(1, 9, sh) * (Fraction(1, 50) if n in ('tilt', 'rb', 'r_b') else 1))
        elif p in ('time', 'alpha'):
            kw[p] = time_of(c, 'one') if p == 'time' else c.put(p, c.draw())
        elif p in ('reaSource', 'imgSource'):
            kw[p] = e.cv(True)
        elif p == 'M' or p == 'N':
            kw[p] = e.cv(3)
    r, st = c.call(f, e.new_state(), **kw)
    if r.kind == 'func':
        r = e.call_func(r, [c.put('s', c.draw())], {}, st)
    return c.value(r, st)


def distance(c, cls, name, lists):
    e = c.e
    st = e.new_state()
    b, st = field(c, st, 'rectangle', True)
    f = e.classes[cls].find(name)
    if 'quivalent' in cls:
        b1, st = c.make(cls, st, boreholes=e.mk_list(st, b[:3]))
        b2, st = c.make(cls, st, boreholes=e.mk_list(st, b[3:]) if not lists else e.mk_list(st, b))
    else:
        b1, b2 = (b[0], b[3]) if not lists else (b[1], b[1])
    return c.value(*c.call(f, st, b1, target=b2))


def duplicates(c, f, cls='Borehole'):
    e = c.e
    st = e.new_state()
    d = dims(c)
    r = c.raw['r_b'].r
    at = [(Fraction(0), Fraction(0)), (Fraction(5), Fraction(1)), (r / 2, Fraction(0)), (Fraction(5), 1 + 3 * r / 2), (Fraction(-5), Fraction(1)), (Fraction(-5), 1 - r * Fraction(9, 10))]
    b = []
    for i, xy in enumerate(at):
        o, st = borehole(c, st, i, xy, d, None, cls)
        b.append(o)
    r, st = c.call(f, st, **{f.params[0]: e.mk_list(st, b)})
    if r.kind in ('lst', 'tup'):
        items = e.iter_items(r, st)
        if items is not None and any(x.kind == 'inst' for x in items):
            # which of the boreholes remain
            from ..twin import flat
            return flat([next((k for k, y in enumerate(b) if y is x or y.uid == x.uid), -1) for x in items])
    return c.value(r, st)


def solvers(e):
    base = e.classes['_BaseSolver']
    return [n for n, k in sorted(e.classes.items()) if '.' not in n and not n.startswith('_') and base in list(k.mro()) and k is not base]


def factors(c, cls, layout, same, tilt, time, nseg=2, approx=False, bcls='Borehole'):
    e = c.e
    b, st = field(c, e.new_state(), layout, same, tilt, bcls)
    bl = e.mk_list(st, b)
    t = time_of(c, time)
    s, st = c.make(cls, st, boreholes=bl, network=e.cv(None), time=t, boundary_condition=e.cv('UBWT'), nSegments=e.cv(nseg), segment_ratios=e.cv(None),
                   mQuad=e.cv(3), nFLS=e.cv(3), approximate_FLS=e.cv(approx), disp=e.cv(False))
    f = e.classes[cls].find('thermal_response_factors')
    return c.value(*c.call(f, st, s, time=t, alpha=c.put('alpha', c.draw())))


def g_function(c, cls, layout, same, tilt, bc, nseg=2, bcls='Borehole'):
    import numpy as np
    e = c.e
    b, st = field(c, e.new_state(), layout, same, tilt, bcls)
    bl = e.mk_list(st, b)
    alpha = c.put('alpha', c.draw())
    t = c.put('time', np.array([c.draw(1, 2) / 10000, c.draw(1, 3) * 10, c.draw(4, 6) * 10, c.draw(7, 9) * 10], dtype=object), ty='array')
    s, st = c.make(cls, st, boreholes=bl, network=e.cv(None), time=t, boundary_condition=e.cv(bc), nSegments=e.cv(nseg), segment_ratios=e.cv(None),
                   mQuad=e.cv(3), nFLS=e.cv(3), disp=e.cv(False))
    f = e.classes[cls].find('solve')
    return c.value(*c.call(f, st, s, time=t, alpha=alpha))


def jobs(tier):
    out = [('fls', t) for t in (False, True)] + [('distance',)]
    lay = ['scattered', 'rectangle'] + (['line'] if tier != 'quick' else [])
    for cls in ('Detailed', 'Similarities', 'Equivalent'):
        for l in lay:
            out.append(('solver', cls, l, tier))
        out.append(('g-function', cls, tier))
    return out


def check(e_of, res, job, fls=None, pair=None):
    from .. import twin
    first = e_of()
    go = lambda rule, key, f, build: (pair or twin.pair)(e_of, res, key, build, SHIFTS, rule, key.split(' ')[0], (f.module.file, f.node.lineno), f'{key} changes')
    if job[0] == 'fls':
        f = fls or first.funcs['pygfunction.heat_transfer.finite_line_source']
        for lists, approx, time, parts in itertools.product((False, True), (False, True), ('one', 'many', 'steady'), ((True, True), (True, False), (False, True))):
            if time == 'steady' and approx:
                continue
            key = f'{f.name} ({"inclined" if job[1] else "vertical"}, {"lists" if lists else "single"}, {time}{", approximation" if approx else ""}, {parts})'
            go('line source', key, f, lambda c: line_source(c, f if fls is None else next(x for x in c.e.funcs.values() if x.qual == f.qual), job[1], lists, approx, time, parts))
            res.entry(key)
    elif job[0] == 'distance':
        for cls in ('Borehole', '_EquivalentBorehole'):
            for name in ('distance', 'unique_distance'):
                f = first.classes[cls].find(name) if cls in first.classes else None
                for lists in (False, True):
                    if f is not None:
                        go('distance', f'{cls}.{name} {"(itself)" if lists else ""}', f, lambda c: distance(c, cls, name, lists))
                        res.entry(f'{cls}.{name}')
        for f in scen.module_functions(first):
            if f.name in ('find_duplicates', 'remove_duplicates'):
                go('duplicates', f.name, f, lambda c: duplicates(c, f))
                res.entry(f.name)
        for f in scen.module_functions(first, False):
            if {'x1', 'y1', 'x2', 'y2'} <= set(f.params):
                for shape in ('one', 'row'):
                    go('line source', f'{f.name} {shape}', f, lambda c: direct(c, f, shape))
                res.entry(f.name)
    elif job[0] == 'g-function':
        _, cls, tier = job
        if cls not in first.classes:
            res.undec('solver', cls, 'no such class')
            return
        f = first.classes[cls].find('solve')
        for layout, same, tilt in [('scattered', False, None), ('rectangle', True, None)] + ([('scattered', True, 'all'), ('line', True, None)] if tier != 'quick' else []):
            if tilt is not None and cls == 'Equivalent':
                continue
            for bc in ('UHTR', 'UBWT'):
                key = f'{cls}.solve ({layout}, {sizes(same)}, tilt {tilt}, {bc})'
                go('g-function', key, f, lambda c: g_function(c, cls, layout, same, tilt, bc))
                res.entry(key)
    else:
        _, cls, layout, tier = job
        if cls not in first.classes:
            res.undec('solver', cls, 'no such class')
            return
        f = first.classes[cls].find('thermal_response_factors')
        tilts = [None] if cls == 'Equivalent' else [None, 'all', 'some']
        if tier != 'quick' and cls != 'Equivalent':
            tilts.append('radial')
        for tilt in tilts:
            for same in (True, False) + (('H', 'D', 'r_b') if tilt is None or tier != 'quick' else ()):
                for time in ('many',):
                    key = f'{cls}.thermal_response_factors ({layout}, {sizes(same)}, tilt {tilt}, {time})'
                    go('response factors', key, f, lambda c: factors(c, cls, layout, same, tilt, time))
                    res.entry(key)


def run(job, root):
    res = Res()
    first = scen.engine(root)
    scen.need(first, 'Borehole', '_BaseSolver', 'pygfunction.heat_transfer.finite_line_source')
    check(lambda: first, res, job)
    return res


def selftest():
    from .. import twin
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    go = lambda rule, key, build: twin.pair(lambda: e, res, key, build, SHIFTS, rule, key, ('toy/c08.py', 1), f'{key} changes')
    fn = {f.name: f for f in e.funcs.values() if f.cls is None}

    def two(c, f, cls):
        b, st = field(c, e.new_state(), 'scattered', False, 'some', cls)
        return c.value(*c.call(f, st, time=time_of(c, 'one'), alpha=c.put('alpha', c.draw()), borehole1=b[0], borehole2=b[2]))

    def apart(c, cls):
        b, st = field(c, e.new_state(), 'scattered', False, None, cls)
        return c.value(*c.call(e.classes[cls].find('distance'), st, b[0], target=b[1]))
    for n in ('source_good', 'source_absolute'):
        go('line source', n, lambda c: two(c, fn[n], 'HoleToy'))
    for n in ('HoleToy', 'HoleFar'):
        go('distance', n, lambda c: apart(c, n))
    for n in ('doubles_good', 'doubles_rounded'):
        go('duplicates', n, lambda c: duplicates(c, fn[n], cls='HoleToy'))
    for n in ('SolveToy', 'SolvePolar'):
        go('response factors', n, lambda c: factors(c, n, 'scattered', False, None, 'many', bcls='HoleToy'))
    for n in ('SolveToy', 'SolvePolar'):
        go('g-function', n, lambda c: g_function(c, n, 'scattered', False, None, 'UHTR', bcls='HoleToy'))
    keys = {k.split('|')[1] for k in res.findings}
    assert keys == {'source_absolute', 'HoleFar', 'doubles_rounded', 'SolvePolar'}, (keys, res.undecided)
    assert not res.undecided, res.undecided
    return res
