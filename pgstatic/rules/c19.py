"""C19: generated bore fields have the documented layout; duplicates are found exactly."""
import itertools
import os
from fractions import Fraction

import numpy as np

from .. import model, scen
from ..engine import Engine
from ..report import Res

LEVEL = 'other'
EXPECT = ['layout', 'duplicates']
EXPLAIN = ('Abstract interpretation of the source of every generator at a point (dimensions, spacings, tilt and origin are numbers with an image in a '
           'finite field, branches and loops are decided at the point): the boreholes of the result are compared, in order, with those of the '
           'documented layout, computed here from the documentation alone. Rules: number, order, position, dimensions, tilt and orientation of '
           'the boreholes of each layout, for rows, columns, single boreholes and fields, with the default origin, a general one and one at '
           'a borehole; pairs returned by the detection of duplicates for every position of a pair in the field, several and chained pairs '
           'and pairs just beyond the radius, and the boreholes that remain after their removal.')
ASSUME = ['fields of up to 5 by 5 boreholes; duplicates in fields of up to 6 boreholes', 'results are compared at a generic point']
MIN = {'layouts': 150, 'duplicates': 30}
ATTRS = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')
SIZES = [(1, 1), (2, 1), (1, 2), (3, 1), (1, 3), (2, 2), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4)]
MORE = [(4, 4), (5, 2), (2, 5), (5, 5)]


def lattice(kind, n1, n2, last):
    """(column, row) of every borehole, bottom row first, left to right"""
    if kind == 'rectangle':
        return [(Fraction(i), j) for j in range(n2) for i in range(n1)]
    if kind == 'staggered':
        if n1 == 1 or n2 == 1:
            return lattice('rectangle', n1, n2, last)
        return [(i + Fraction(j % 2, 2), j) for j in range(n2) for i in range(n1 - (1 if j % 2 and not last else 0))]
    if kind == 'L':
        return [(Fraction(i), j) for j in range(n2) for i in range(n1) if j == 0 or i == 0]
    if kind == 'U':
        return [(Fraction(i), j) for j in range(n2) for i in range(n1) if j == 0 or i in (0, n1 - 1)]
    if kind == 'box':
        return [(Fraction(i), j) for j in range(n2) for i in range(n1) if j in (0, n2 - 1) or i in (0, n1 - 1)]


KINDS = {'rectangle_field': 'rectangle', 'staggered_rectangle_field': 'staggered', 'dense_rectangle_field': 'dense', 'L_shaped_field': 'L', 'U_shaped_field': 'U',
         'box_shaped_field': 'box', 'circle_field': 'circle'}


def want(c, kind, n1, n2, last, tilt, origin):
    """the boreholes documented, from the raw values of the arguments"""
    from ..twin import COS, SIN, Elem, atan2, root
    v = c.raw
    E = Elem.of
    if kind == 'circle':
        pts = [(E(v['R']) * COS(E(c.pi * Fraction(2 * i, n1))), E(v['R']) * SIN(E(c.pi * Fraction(2 * i, n1)))) for i in range(n1)]
        mid = (E(0), E(0))
    else:
        if kind == 'dense':
            b1 = E(v['B'])
            b2 = b1 * root(E(3)) * Fraction(1, 2) if n1 > 1 else b1
            kind = 'staggered'
        else:
            b1, b2 = E(v['B_1']), E(v['B_2'])
        lat = lattice(kind, n1, n2, last)
        pts = [(b1 * i, b2 * j) for i, j in lat]
        mid = (b1 * (max(i for i, _ in lat) * Fraction(1, 2)), b2 * Fraction(max(j for _, j in lat), 2))
    o = mid if origin is None else (pts[origin[0] % len(pts)] if isinstance(origin[0], int) else (E(v['origin.x']), E(v['origin.y'])))
    out = []
    for x, y in pts:
        dx, dy = x - o[0], y - o[1]
        leans = tilt and root(dx * dx + dy * dy) > E(v['r_b'])
        out.append([E(v['H']), E(v['D']), E(v['r_b']), x, y, E(v['tilt']) if leans else E(0), atan2(dy, dx) if leans else E(0)])
    return out, o


def generated(c, f, r, st):
    from ..twin import flat, arr
    e = c.e
    if r.kind == 'inst' and f.cls is not None:
        cols = [np.atleast_1d(np.asarray(arr(c.A(e.node(e.getattr_(r, a, st), st))), dtype=object)) for a in ATTRS]
        if len({len(x) for x in cols}) != 1:
            return [[len(x) for x in cols]]
        return [list(x) for x in zip(*cols)]
    items = e.iter_items(r, st)
    if items is None:
        from ..arrays import Unknown
        raise Unknown('list of boreholes')
    return [[c.A(e.node(e.getattr_(b, a, st), st)) for a in ATTRS] for b in items]


def layout(c, f, kind, n1, n2, last, tilt, origin):
    from ..twin import Elem, differs, flat, number_or
    e = c.e
    c.pi = Elem.of(c.A(e.node(e.cv(3.141592653589793), e.new_state())))
    kw = {}
    for p in f.params:
        if p in ('N_1', 'N'):
            kw[p] = e.cv(n1)
        elif p == 'N_2':
            kw[p] = e.cv(n2)
        elif p == 'include_last_borehole':
            kw[p] = e.cv(last)
        elif p == 'tilt':
            if tilt:
                kw[p] = c.put(p, c.draw(1, 9) / 100)
        elif p in ('H', 'D', 'R', 'B', 'B_1', 'B_2'):
            kw[p] = c.put(p, c.draw(3, 9))
        elif p == 'r_b':
            kw[p] = c.put(p, c.draw(1, 9) / 100)
    if origin is not None and not isinstance(origin[0], int):
        kw['origin'] = e.mk_tup([c.put('origin.x', c.draw()), c.put('origin.y', c.draw())])
    exp, o = want(c, kind, n1, n2, last, tilt, origin)
    if origin is not None and isinstance(origin[0], int):
        kw['origin'] = e.mk_tup([c.put('origin.x', o[0]), c.put('origin.y', o[1])])
    got, st = c.call(f, e.new_state(), **kw)
    got = generated(c, f, got, st)
    if len(got) != len(exp):
        return f'{len(got)} boreholes instead of {len(exp)}'
    for k, (g, x) in enumerate(zip(got, exp)):
        for a, u, w in zip(ATTRS, g, x):
            if a == 'orientation' and not differs(flat([x[5]]), flat([Elem.of(0)]), None):
                continue            # a vertical borehole
            d = differs(flat([w]), flat([number_or(u)]), None)
            if d and d != 'soft':
                near = next((m for m, z in enumerate(exp) if all(not differs(flat([p]), flat([number_or(q)]), None) for p, q in zip(z[3:5], g[3:5]))), None)
                if a in 'xy' and near is not None:
                    return f'borehole {k} is at the position of number {near} of the documented layout'
                return f'{a} of borehole {k} is not the documented one ({d})'
    return None


def cases(f, tier):
    kind = KINDS.get(f.name)
    ns = SIZES + (MORE if tier != 'quick' else [])
    if kind == 'circle':
        ns = [(n, 1) for n in ((1, 2, 3, 4, 5, 8) if tier == 'quick' else range(1, 13))]
    for n1, n2 in ns:
        for last in ((True, False) if 'include_last_borehole' in f.params else (True,)):
            for tilt, origin in [(False, None), (True, None), (True, ('any',)), (True, (0,))] + ([(True, (1,)), (True, (2,)), (False, ('any',))] if tier != 'quick' else []):
                yield kind, n1, n2, last, tilt, origin


def positions(c, n, close, radii):
    """n boreholes, apart except the ones named: [(a, b, factor of the radius)]: b is next to a"""
    at = [(Fraction(7 * k), Fraction(k * k % 5)) for k in range(n)]
    r = max(c.raw[f'r_b{k}'].r for k in range(n))
    for a, b, fac in close:
        at[b] = (at[a][0] + r * fac * Fraction(3, 5), at[a][1] + r * fac * Fraction(4, 5))
    return at, r


def duplicates(c, f, n, close, radii, cls='Borehole'):
    """the result of the function, and what it should be"""
    e = c.e
    st = e.new_state()
    for k in range(n):
        c.put(f'r_b{k}', c.draw(1, 2) / 100 * (3 if k == radii else 1))
    at, r = positions(c, n, close, radii)
    b = []
    for k, (x, y) in enumerate(at):
        o, st = c.make(cls, st, H=c.put(f'H{k}', c.draw(5, 9) * 10), D=c.put(f'D{k}', c.draw()), r_b=e.sym(f'r_b{k}', 'float', owner=f'user:r_b{k}'), x=c.put(f'x{k}', x), y=c.put(f'y{k}', y))
        b.append(o)
    near = [(i, j) for i in range(n) for j in range(i + 1, n) if (at[i][0] - at[j][0]) ** 2 + (at[i][1] - at[j][1]) ** 2 < r * r]
    r, st = c.call(f, st, **{f.params[0]: e.mk_list(st, b)})
    items = e.iter_items(r, st)
    if items is None:
        from ..arrays import Unknown
        raise Unknown('list')
    if any(x.kind == 'inst' for x in items) or f.name.startswith('remove'):
        got = [next((k for k, y in enumerate(b) if y is x or y.uid == x.uid), -1) for x in items]
        exp = [k for k in range(n) if k not in {j for _, j in near}]
        return got, exp
    from ..twin import integer
    got = sorted(tuple(integer(c.A(e.node(y, st))) for y in e.iter_items(x, st)) for x in items)
    return got, near


def dup_cases(tier):
    for n in (2, 3, 4, 5) + ((6, 7) if tier != 'quick' else ()):
        yield n, [], 0
        for i, j in itertools.combinations(range(n), 2):
            yield n, [(i, j, Fraction(9, 10))], j
            if tier != 'quick':
                yield n, [(i, j, Fraction(1, 10))], i
    yield 4, [(0, 1, Fraction(11, 10))], 0
    yield 5, [(1, 3, Fraction(11, 10))], 4
    yield 5, [(0, 2, Fraction(1, 2)), (1, 4, Fraction(1, 2))], 3
    yield 5, [(0, 2, Fraction(9, 10)), (2, 4, Fraction(9, 10))], 1
    yield 6, [(1, 3, Fraction(3, 10)), (3, 5, Fraction(3, 10)), (0, 2, Fraction(8, 10))], 5


def generators(e):
    out = [f for f in scen.module_functions(e) if f.name in KINDS and {'H', 'D', 'r_b'} <= set(f.params)]
    ci = e.classes.get('Borefield')
    if ci is not None:
        out += [f for n, f in sorted(((n, ci.find(n)) for n in KINDS), key=lambda t: t[0]) if f is not None]
    return out


def jobs(tier):
    return [('layout', k, w, tier) for k in KINDS for w in ('function', 'class')] + [('duplicates', n, tier) for n in ('find_duplicates', 'remove_duplicates')]


def one(e, res, key, loc, rule, build, msg):
    """build(case): None, or what is wrong"""
    from .. import points, twin
    from ..arrays import Fails, Unknown
    with twin.Case(e, res, key, lambda h, v: v) as c:
        try:
            d = build(c)
        except twin.Refused as ex:
            d = f'an exception is raised: {ex}'
        except Fails as ex:
            d = f'the evaluation fails: {ex}'
        except Unknown as ex:
            res.undec(rule, key, str(ex)[:200])
            return
        res.seen(e)
    res.entry(key)
    res.cover[f'evaluated {key}'] = True
    if d:
        res.find(rule, key.split(' ')[0], f'{key}: {d}' if not msg else f'{key}: {msg}{d}', loc)


def run_layouts(e, res, f, tier):
    loc = (f.module.file, f.node.lineno)
    for kind, n1, n2, last, tilt, origin in cases(f, tier):
        where = '' if origin is None else ', origin given' if isinstance(origin[0], str) else ', origin at a borehole'
        key = f'{f.cls.name + "." if f.cls else ""}{f.name} ({n1}x{n2}{"" if last else ", without last borehole"}{", tilted" if tilt else ""}{where})'
        res.count('layouts')
        one(e, res, key, loc, 'layout', lambda c: layout(c, f, kind, n1, n2, last, tilt, origin), '')


def run_duplicates(e, res, f, tier, cls='Borehole'):
    def build(c):
        got, exp = duplicates(c, f, n, close, radii, cls)
        return None if got == exp else f'{got} instead of {exp}'
    for n, close, radii in dup_cases(tier):
        key = f'{f.name} (of {n}: {", ".join(f"{a}-{b} at {float(x):g} radius" for a, b, x in close) or "none"})'
        res.count('duplicates')
        one(e, res, key, (f.module.file, f.node.lineno), 'duplicates', build, '')


def run(job, root):
    res = Res()
    e = scen.engine(root)
    if job[0] == 'layout':
        _, name, where, tier = job
        fs = [f for f in generators(e) if f.name == name and (f.cls is not None) == (where == 'class')]
        if not fs:
            raise scen.AnchorError(f'{name}() ({where})')
        for f in fs:
            run_layouts(e, res, f, tier)
    else:
        _, name, tier = job
        fs = [f for f in scen.module_functions(e) if f.name == name]
        if not fs:
            raise scen.AnchorError(f'{name}()')
        for f in fs:
            run_duplicates(e, res, f, tier)
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    fn = {f.name: f for f in e.funcs.values() if f.cls is None}
    for n in sorted(fn):
        if n.startswith('grid_'):
            KINDS[n] = 'rectangle'
            run_layouts(e, res, fn[n], 'quick')
            del KINDS[n]
        elif n.startswith('close_'):
            run_duplicates(e, res, fn[n], 'quick', cls='HoleLaid')
    keys = {k.split('|')[1] for k in res.findings}
    assert keys == {'grid_swapped', 'grid_columns', 'grid_origin', 'grid_always', 'close_own', 'close_next', 'close_scalar'}, (keys, res.undecided)
    assert not res.undecided, res.undecided
    return res
