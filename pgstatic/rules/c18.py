"""C18: pairs are treated as similar only when all that matters agrees."""
import math
import os

from .. import ival, model, scen
from ..engine import Engine, State
from ..ival import num
from ..report import Res

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LEVEL = 'other'
EXPECT = ['accepts', 'grouped', 'segments']
EXPLAIN = ('(1) Every comparison of boreholes or pairs of the solvers is analysed as a predicate over the geometry: for each quantity '
           'the response depends on, two disjoint ranges that differ by more than the tolerance make the predicate false for all '
           'values of every other quantity (abstract evaluation over intervals); where other quantities matter (relative '
           'orientation, depths of both boreholes) they are fixed. (2) The groupings are followed for fields of three boreholes that '
           'differ in one quantity (length, depth, radius, tilt, orientation, position, number or ratios of segments) and for '
           'segments of two boreholes; the resulting groups are read off the value graph and every member must have the '
           'invariants of the first member. An alarm is a predicate that is true, or a group that holds a pair with another invariant.')
ASSUME = ['tolerances are the documented defaults (1e-6, and 1 percent of the distance)', 'differences of a factor 1.001 and more are beyond tolerance']
MIN = {'rejections': 60, 'pairs in groups': 40, 'segment pairs': 60}
Q = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')
TOL, DTOL = 1e-6, .01


def base(incl, equal=False, zero=False):
    b = {'a': dict(H=100., D=2., r_b=.075, x=0., y=0., tilt=0., orientation=0.), 'b': dict(H=150., D=5., r_b=.08, x=6., y=2., tilt=0., orientation=0.)}
    if equal:
        b['b']['H'] = 100.
    if zero:
        b['a']['D'] = b['b']['D'] = 0.
    if incl:
        b['a'].update(tilt=.2, orientation=.4)
        b['b'].update(tilt=.3, orientation=1.1)
    for p, q in (('a', 'c'), ('b', 'd')):
        b[q] = dict(b[p])
        b[q]['x'] += 21.
        b[q]['y'] += 7.
    return b


def variations(kind):
    """(what, quantities that decide, base, changes) that a predicate of this kind must reject"""
    incl, real, img = 'inclined' in kind, 'real' in kind, 'image' in kind
    out = []
    if 'boreholes' in kind:
        for q, v in (('H', 100.1), ('H', 200.), ('D', 2.002), ('D', 4.), ('r_b', .07508), ('r_b', .15)):
            out.append((q, (q,), base(False), {'b=a': 1, ('b', q): v}))
        out.append(('D', ('D',), base(False, zero=True), {'b=a': 1, ('b', 'D'): 1.}))
        if kind.endswith('+tilt'):
            out.append(('tilt', ('tilt',), base(True), {'b=a': 1, ('b', 'tilt'): .2002}))
            out.append(('tilt', ('tilt',), base(True), {'b=a': 1, ('b', 'tilt'): 0.}))
            out.append(('tilt', ('tilt',), base(False), {'b=a': 1, ('b', 'tilt'): .2}))
        return out
    for equal in (False, True):
        B = base(incl, equal)
        t = ', equal lengths' if equal else ''
        for p in 'cd':
            for f in (1.001, 2.):
                out.append((f'length{t}', ('H',), B, {(p, 'H'): B[p]['H'] * f}))
                out.append((f'depth{t}', ('D',), B, {(p, 'D'): B[p]['D'] * f}))
        if img:
            out.append((f'both depths{t}', ('D',), B, {('c', 'D'): 2.01, ('d', 'D'): 5.01}))
        if real:
            out.append((f'opposite depths{t}', ('D',), B, {('c', 'D'): 2.01, ('d', 'D'): 4.99}))
            if incl or not equal:
                out.append((f'exchanged depths{t}', ('D', 'H'), B, {('c', 'D'): 5., ('d', 'D'): 2.}))
        if not equal:
            out.append(('exchanged lengths', ('H',), B, {('c', 'H'): 150., ('d', 'H'): 100.}))
            Z = base(incl, False, True)
            out.append(('depth from zero', ('D',), Z, {('c', 'D'): .1}))
            out.append(('depth from zero', ('D',), Z, {('d', 'D'): .1}))
    if incl:
        B = base(True)
        dx, dy = 6., 2.
        cx, cy = B['c']['x'], B['c']['y']
        for f in (1.05, 2., .5):
            out.append(('distance', ('x', 'y'), B, {('d', 'x'): cx + f * dx, ('d', 'y'): cy + f * dy}))
        for i, p in enumerate('cd'):
            for t in (1.001, .5, 0., -1.):
                out.append((f'tilt of borehole {i + 1}', ('tilt', 'orientation', 'x', 'y') if t == -1. else ('tilt',), B, {(p, 'tilt'): B[p]['tilt'] * t}))
            for o in (.002, 1., math.pi):
                out.append((f'orientation of borehole {i + 1}', ('x', 'y', 'tilt', 'orientation'), B, {(p, 'orientation'): B[p]['orientation'] + o}))
            # mirrored at the line that joins the boreholes
            th = math.atan2(-dy, -dx)
            out.append((f'orientation of borehole {i + 1} mirrored', ('x', 'y', 'tilt', 'orientation'), B, {(p, 'orientation'): 2 * th - B[p]['orientation']}))
        for o in (.002, 1.):
            out.append(('both orientations', ('x', 'y', 'tilt', 'orientation'), B, {('c', 'orientation'): .4 + o, ('d', 'orientation'): 1.1 + o}))
            c, s = math.cos(o), math.sin(o)
            out.append(('direction', ('x', 'y', 'tilt', 'orientation'), B, {('d', 'x'): cx + c * dx - s * dy, ('d', 'y'): cy + s * dx + c * dy}))
        out.append(('exchanged tilts', ('tilt',), B, {('c', 'tilt'): .3, ('d', 'tilt'): .2}))
        V = base(False)
        out.append(('tilt of borehole 1 from vertical', ('tilt',), V, {('c', 'tilt'): .2}))
        out.append(('tilt of borehole 2 from vertical', ('tilt',), V, {('d', 'tilt'): .2}))
    return out


def apply(b, ch):
    b = {k: dict(v) for k, v in b.items()}
    if 'b=a' in ch:
        b['b'] = dict(b['a'])
    for k, v in ch.items():
        if k != 'b=a':
            b[k[0]][k[1]] = v
    return b


def ranges(v):
    return ('n', v - 1e-7 * abs(v), v + 1e-7 * abs(v))


class Setup:
    def __init__(self, e, names, cls=None, **attrs):
        self.e, self.st = e, e.new_state()
        self.b = {}
        for n in names:
            self.b[n], self.st = e.construct(getattr(e, 'borehole_class', 'pygfunction.boreholes.Borehole'),
                                             kwargs={k: e.sym(f'{n}.{k}', 'float') for k in Q}, st=self.st)
        self.env = {}

    def bind(self, vals, only=None, wide=False):
        self.env = {f'{n}.{k}': ranges(v) if wide and v else num(v) for n, d in vals.items() for k, v in d.items() if only is None or k in only}
        return self.env


def solver(e, cls, st, **attrs):
    o = e.sym('SOLVER', cls)
    for k, v in {'tol': e.cv(TOL), 'disTol': e.cv(DTOL), **attrs}.items():
        e.setattr_(o, k, v, st)
    return o


def predicates(e, cls):
    out = []
    for f in [f for c in e.classes[cls].mro()[:1] for f in c.methods.values()]:
        ps = scen.params_of(f)
        if f.name.startswith('_compare') and len([p for p in ps if p != 'self']) == 2:
            k = f.name
            if 'borehole' in k and 'pair' not in k:
                out.append((f, 'boreholes' + ('+tilt' if cls == 'Similarities' else '')))
            elif 'pair' in k and ('real' in k or 'image' in k):
                out.append((f, ('real ' if 'real' in k else '') + ('image ' if 'image' in k else '') + ('inclined' if 'inclined' in k else 'vertical')))
    return out


def judge_predicate(e, cls, f, kind, res, var=None):
    loc = (f.module.file, f.node.lineno)
    ps = [p for p in scen.params_of(f) if p != 'self']
    S = Setup(e, 'abcd')
    o = solver(e, cls, S.st)
    if 'pair' in f.name:
        kw = {ps[0]: e.mk_tup([S.b['a'], S.b['b']]), ps[1]: e.mk_tup([S.b['c'], S.b['d']])}
    else:
        kw = {ps[0]: S.b['a'], ps[1]: S.b['b']}
    en = scen.call(e, f'{cls}.{f.name}', f, kw, S.st, o)
    if en.result is None:
        res.undec('accepts', f'{cls}.{f.name}', 'no result')
        return
    n = e.node(en.result, en.st)
    res.entry(f'{cls}.{f.name}')
    for what, deciding, B, ch in var or variations(kind):
        vals = apply(B, ch)
        res.count('rejections')
        key = f'{cls}.{f.name}|{what}'
        if ival.Abs(e.g, S.bind(vals, deciding, True)).t(n) is False:
            res.count('rejections for all values of the other quantities')
            continue
        t = ival.Abs(e.g, S.bind(vals)).t(n)
        if t is True:
            d = ', '.join(f'{k[0]}.{k[1]} = {v:g} instead of {B["a" if k[0] == "b" and "b=a" in ch else k[0]][k[1]]:g}' for k, v in ch.items() if k != 'b=a')
            res.find('accepts', key, f'{cls}.{f.name}() accepts two {"pairs" if "pair" in f.name else "boreholes"} that differ in {what} ({d})', loc)
        elif t is None:
            res.undec('accepts', key, 'not decided')


# ---- groups
def close(p, q, tol=1e-5):
    return abs(p - q) <= tol * max(abs(p), abs(q)) + 1e-9


def pair_invariants(b1, b2, incl):
    """What the response of one source to another depends on (vertical: besides the distance)."""
    inv = [b1['H'], b2['H'], b2['D'] - b1['D'], b1['D'] + b2['D']]
    if incl:
        dx, dy = b1['x'] - b2['x'], b1['y'] - b2['y']
        r = math.hypot(dx, dy)
        inv += [r]

        def u(b):
            return (math.sin(b['tilt']) * math.cos(b['orientation']), math.sin(b['tilt']) * math.sin(b['orientation']), math.cos(b['tilt']))
        u1, u2 = u(b1), u(b2)
        inv += [u1[0] * dx + u1[1] * dy, u2[0] * dx + u2[1] * dy, u1[0] * u2[0] + u1[1] * u2[1], u1[2], u2[2]]
    return inv


def same_pair(p, q, incl, real=True, img=True):
    a, b = pair_invariants(*p, incl), pair_invariants(*q, incl)
    t = [close(x, y, .011 if incl and i == 4 else 1e-4 if i < 4 else .011) for i, (x, y) in enumerate(zip(a, b))]
    if not incl and not t[2] and close(a[0], a[1]) and close(-a[2], b[2]):
        t[2] = True
    if not real:
        t[2] = True
    if not img:
        t[3] = True
    return all(t)


def consts(A, e, v, st):
    """Nested lists of indices as Python values, None where unknown."""
    v = e.resolve(v, st)
    if v.kind == 'phi':
        t = A.t(v.cond)
        return None if t is None else consts(A, e, v.a if t else v.b, st)
    its = v.items if v.kind == 'tup' else e.iter_items(v, st) if v.kind == 'lst' else None
    if its is not None:
        out = [consts(A, e, x, st) for x in its]
        return None if any(x is None for x in out) else out
    return plain(A(e.node(v, st)))


def plain(x):
    if x is None:
        return None
    if x[0] == 'l':
        out = [plain(y) for y in x[1]]
        return None if any(y is None for y in out) else out
    if x[0] == 'n' and x[1] == x[2]:
        return x[1]
    return None


RAT = [.2, .3, .5]


def fields():
    """Three boreholes; the third differs from the second in one quantity: (what, values, numbers of segments, ratios)"""
    out = []
    b0 = dict(H=150., D=2., r_b=.075, x=0., y=0., tilt=0., orientation=0.)

    def add(what, b1, b2, n=(3, 3, 3), r=(RAT, RAT, RAT), first=b0):
        out.append((what, {'a': dict(first), 'b': b1, 'c': b2}, n, r))
    for incl in (False, True):
        f = dict(b0, tilt=.2, orientation=.4) if incl else b0
        one = dict(f, x=5., y=1.)
        two = dict(f, x=5., y=-1.)
        t = ', inclined' if incl else ''
        add('position' + t, one, dict(two, x=9.), first=f)
        for q, v in (('H', 160.), ('H', 150.2), ('D', 3.), ('D', 2.01), ('r_b', .08), ('tilt', .21), ('orientation', .41), ('orientation', .4 + math.pi), ('tilt', -.2)):
            if incl or q in ('H', 'D', 'r_b'):
                add(q + t, one, dict(two, **{q: v}), first=f)
        add('number of segments' + t, one, two, (3, 3, 2), (RAT, RAT, [.4, .6]), first=f)
        add('segment ratios' + t, one, two, (3, 3, 3), (RAT, RAT, [.5, .3, .2]), first=f)
        add('segment ratios of the first two' + t, one, two, (3, 3, 3), ([.5, .3, .2], RAT, [.5, .3, .2]), first=f)
        add('slightly different segment ratios' + t, one, two, (3, 3, 3), (RAT, RAT, [.201, .299, .5]), first=f)
        add('depths in steps' + t, dict(one, D=3.), dict(two, D=4.), first=f)
        add('length and depth exchanged' + t, dict(one, H=160., D=3.), dict(two, H=160., D=1.), first=f)
    add('one tilted borehole', dict(b0, x=5.), dict(b0, x=5., y=3., tilt=.2, orientation=.4))
    return out


def dims(b):
    return [b['H'], b['D'], b['r_b'], abs(b['tilt'])]


def array_of(e, st, xs):
    return e.num(e.node(e.mk_list(st, [e.cv(x) for x in xs]), st), ty='array')


def groups(e, cls, f, res, cases=None):
    """Analyse a grouping of boreholes: the groups it returns."""
    loc = (f.module.file, f.node.lineno)
    for what, vals, ns, rs in cases or fields():
        if cls == 'Equivalent' and ('inclined' in what or 'tilt' in what or 'segment' in what):
            continue
        S = Setup(e, 'abc')
        A = ival.Abs(e.g, S.bind(vals), {}, {})
        eq = all(n == ns[0] for n in ns) and all(r == rs[0] for r in rs)
        bs = [S.b[n] for n in 'abc']
        o = solver(e, cls, S.st, boreholes=e.mk_list(S.st, bs), nBoreSegments=e.mk_list(S.st, [e.cv(n) for n in ns]),
                   segment_ratios=e.mk_list(S.st, [array_of(e, S.st, r) for r in rs]), _equal_segment_ratios=e.cv(eq))
        p = [x for x in scen.params_of(f) if x != 'self']
        key = f'{cls}.{f.name}|{what}'
        State.oracle, State.sizes = A.t, A.size
        try:
            en = scen.call(e, f'{cls}.{f.name}', f, {p[0]: e.mk_list(S.st, bs)}, S.st, o)
        finally:
            State.oracle = State.sizes = None
        got = consts(A, e, en.result, en.st) if en.result is not None else None
        if got is None:
            res.undec('grouped', key, 'groups not decided')
            continue
        sets = []           # groups, as lists of indices or of pairs of indices

        def walk(x):
            if not isinstance(x, list) or not x:
                return
            if all(not isinstance(y, list) for y in x):
                sets.append([int(y) for y in x])
            elif all(isinstance(y, list) and len(y) == 2 and not any(isinstance(z, list) for z in y) for y in x) and f.name.count('pair'):
                sets.append([(int(y[0]), int(y[1])) for y in x])
            else:
                for y in x:
                    walk(y)
        walk(got)
        B = [vals[n] for n in 'abc']
        for g in sets:
            for m in g[1:]:
                res.count('pairs in groups')
                if isinstance(m, tuple):
                    i, j = g[0]
                    k, l = m
                    incl = any(b['tilt'] for b in (B[i], B[j], B[k], B[l]))
                    ok = same_pair((B[i], B[j]), (B[k], B[l]), incl) and (eq or ns[i] == ns[k] and ns[j] == ns[l] and rs[i] == rs[k] and rs[j] == rs[l])
                    if not ok:
                        res.find('grouped', key, f'{cls}.{f.name}() puts the pairs {g[0]} and {m} into one group though they differ ({what})', loc)
                else:
                    i = g[0]
                    ok = all(close(x, y, 1e-4) for x, y in zip(dims(B[i]), dims(B[m]))) and (eq or ns[i] == ns[m] and rs[i] == rs[m])
                    if not ok:
                        res.find('grouped', key, f'{cls}.{f.name}() puts boreholes {i} and {m} into one group though they differ ({what})', loc)
        if not sets:
            res.undec('grouped', key, 'no groups found')


def segments_of(b, ratios):
    out, z = [], 0.
    for r in ratios:
        out.append(dict(b, H=b['H'] * r, D=b['D'] + z * b['H'] * math.cos(b['tilt']),
                        x=b['x'] + z * b['H'] * math.sin(b['tilt']) * math.cos(b['orientation']),
                        y=b['y'] + z * b['H'] * math.sin(b['tilt']) * math.sin(b['orientation'])))
        z += r
    return out


def segment_pairs(e, cls, f, res):
    """The index of the evaluated pair that is given to every pair of segments."""
    loc = (f.module.file, f.node.lineno)
    incl = 'inclined' in f.name
    ratios = [[.25, .25, .25, .25], RAT, [.4, .2, .4]]
    for what, vals, _, _ in fields():
        if what.startswith('length and depth') is False and hasattr(e, 'borehole_class') or incl != ('inclined' in what or 'tilt' in what) or 'segment' in what or cls == 'Equivalent' and incl:
            continue
        for r1, r2 in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2)):
            for pair in ((1, 1), (1, 2), (2, 1)):
                if pair == (1, 1) and r1 != r2:
                    continue
                for src in ((True, True), (True, False), (False, True)):
                    S = Setup(e, 'abc')
                    A = ival.Abs(e.g, S.bind(vals), {}, {})
                    rr = [RAT, ratios[r1], ratios[r2]] if pair != (2, 1) else [RAT, ratios[r2], ratios[r1]]
                    bs = [S.b[n] for n in 'abc']
                    o = solver(e, cls, S.st, boreholes=e.mk_list(S.st, bs), nBoreSegments=e.mk_list(S.st, [e.cv(len(r)) for r in rr]),
                               segment_ratios=e.mk_list(S.st, [array_of(e, S.st, r) for r in rr]), _equal_segment_ratios=e.cv(False))
                    p = [x for x in scen.params_of(f) if x != 'self']
                    key = f'{cls}.{f.name}|{what}'
                    State.oracle, State.sizes = A.t, A.size
                    try:
                        en = scen.call(e, f'{cls}.{f.name}', f, {p[0]: e.cv(pair[0]), p[1]: e.cv(pair[1]), 'reaSource': e.cv(src[0]), 'imgSource': e.cv(src[1])}, S.st, o)
                    finally:
                        State.oracle = State.sizes = None
                    out = consts(A, e, en.result, en.st) if en.result is not None else None
                    if out is None or len(out) not in (7, 16):
                        res.undec('segments', key, 'not decided')
                        continue
                    *args, ip, jp, kp = out
                    names = ('H1', 'D1', 'H2', 'D2') if len(args) == 4 else ('rb1', 'x1', 'y1', 'H1', 'D1', 'tilt1', 'orientation1', 'x2', 'y2', 'H2', 'D2', 'tilt2', 'orientation2')
                    d = dict(zip(names, args))
                    s1 = segments_of(vals['abc'[pair[0]]], rr[pair[0]])
                    s2 = segments_of(vals['abc'[pair[1]]], rr[pair[1]])
                    for i, j, k in zip(ip, jp, kp):
                        res.count('segment pairs')
                        i, j, k = int(i), int(j), int(k)
                        full = {'r_b': 'rb1'}
                        e1 = {q: d.get(full.get(q, q + '1'), [s1[i][q]] * 99)[k] for q in Q}
                        e2 = {q: d.get(q + '2', [s2[j][q]] * 99)[k] for q in Q}
                        if not same_pair((s1[i], s2[j]), (e1, e2), incl, *src) or not close(e1['r_b'], s1[i]['r_b']):
                            res.find('segments', key, f'{cls}.{f.name}() gives segments {i} and {j} the response of another pair ({what}; '
                                     f'H {s1[i]["H"]:g}, {s2[j]["H"]:g}, D {s1[i]["D"]:g}, {s2[j]["D"]:g}; evaluated for H {e1["H"]:g}, {e2["H"]:g}, D {e1["D"]:g}, {e2["D"]:g})', loc)
    res.entry(f'{cls}.{f.name}')


def methods(e, cls, key):
    return [f for f in e.classes[cls].methods.values() if key(f.name)]


def jobs(tier):
    return [f'{c}:{k}' for c in ('Similarities', 'Equivalent') for k in ('predicates', 'groups', 'segments vertical', 'segments inclined')
            if not (c == 'Equivalent' and k == 'segments inclined')]


def run(job, root):
    res = Res()
    cls, _, what = job.partition(':')
    e = scen.engine(root)
    if cls not in e.classes:
        raise scen.AnchorError(f'class {cls} not found')
    if what == 'predicates':
        ps = predicates(e, cls)
        if not ps:
            raise scen.AnchorError(f'no comparisons in {cls}')
        for f, kind in ps:
            judge_predicate(e, cls, f, kind, res)
    elif what == 'groups':
        for f in methods(e, cls, lambda n: n.startswith('_find') and ('axial' in n or 'unique_boreholes' in n)):
            groups(e, cls, f, res)
            res.entry(f'{cls}.{f.name}')
    else:
        for f in methods(e, cls, lambda n: n.startswith('_map_axial') and ('inclined' in n) == ('inclined' in what)):
            segment_pairs(e, cls, f, res)
    res.seen(e)
    return res


def selftest():
    res = Res()
    e = Engine(os.path.join(HERE, 'selftest'), package='toy', attr_ty=model.ATTR_TY)
    e.borehole_class = 'toy.c18.Bore'
    for cls in ('Pairing', 'BadPairing'):
        for f, kind in predicates(e, cls):
            judge_predicate(e, cls, f, kind, res)
        groups(e, cls, e.classes[cls].find('_find_axial_pairs'), res, [c for c in fields() if 'incl' not in c[0] and 'tilt' not in c[0]])
        segment_pairs(e, cls, e.classes[cls].find('_map_axial_pairs'), res)
    got = sorted((f['rule'], f['construct'].split('|')[0]) for f in res.findings.values())
    assert {g[1].split('.')[0] for g in got} == {'BadPairing'}, got
    assert {(f['rule'], f['construct']) for f in res.findings.values()} >= {
        ('accepts', 'BadPairing._compare_boreholes|r_b'), ('accepts', 'BadPairing._compare_boreholes|D'),
        ('accepts', 'BadPairing._compare_realandimage_pairs|both depths')}, got
    assert not res.undecided, res.undecided
    return res
