"""C07: results are covariant under a change of units."""
import math
import os
from fractions import Fraction

from .. import model, scen
from ..engine import Engine
from ..report import Res
from . import c08

LEVEL = 'other'
EXPECT = ['line source', 'distance', 'response factors', 'g-function', 'formula', 'pipe', 'network', 'layout', 'time', 'loads']
EXPLAIN = ('Relational abstract interpretation of the source at two points, the inputs expressed in two systems of units: every formula is '
           'evaluated symbolically, with branches and loops decided at the point, for one base unit (length, time, mass, temperature, energy) '
           'after another made 1e8 times smaller or larger, and every entry of the results has to change by the power of the unit that its '
           'documented dimension implies (any one power where no dimension is documented). Sums, products, quotients and square roots are '
           'exact in a finite field; exponentials, logarithms, error functions and other functions are uninterpreted, so that an argument '
           'with a dimension changes the result. A constant with a dimension, a comparison with one, a missing or misplaced factor and a '
           'sum of different quantities are all seen this way.')
ASSUME = ['fluid properties and plots are not considered', 'results are compared at generic points (equal by chance with a probability below 1e-9)',
          'terms too small to matter in either system of units (below 1e-7) are not reported']
MIN = {'comparisons': 150}
BASE = ('m', 's', 'kg', 'K', 'J')
NU = 101
D = model.dim
EXTRA = {'s': D(m=-1), 'mu': model.PARAM_DIM['mu_f'], 'rho': model.PARAM_DIM['rho_f'], 'k': model.COND, 'cp': model.PARAM_DIM['cp_f'], 'm': D(kg=1, s=-1),
         'g': model.ONE, 'q': model.PARAM_DIM['q_b'], 'Rd': model.RES, 'rb': model.L, 'T': model.PARAM_DIM['T_b'], 'a': model.ONE, 'r': model.ONE, 'ratios': model.ONE,
         't': model.T_, 'N': model.ONE, 'inner': model.L, 'outer': model.L, 'R_p': model.RES}
HC = D(J=1, s=-1, m=-2, K=-1)
ONE, L, T_, W, KE = model.ONE, model.L, model.T_, model.W, D(K=1)
WK, KW = D(J=1, s=-1, K=-1), D(J=-1, s=1, K=1)
WANT = {'coefficients_outlet_temperature': ONE, 'coefficients_temperature': ONE, 'coefficients_inlet_temperature': (KW, ONE), 'coefficients_borehole_heat_extraction_rate': WK,
        'coefficients_fluid_heat_extraction_rate': WK, 'get_temperature': KE, 'get_inlet_temperature': KE, 'get_outlet_temperature': KE, 'get_borehole_heat_extraction_rate': W,
        'get_fluid_heat_extraction_rate': W, 'get_total_heat_extraction_rate': W, 'effective_borehole_thermal_resistance': model.RES, 'local_borehole_thermal_resistance': model.RES}
NETWANT = dict(WANT, coefficients_inlet_temperature=ONE, coefficients_network_inlet_temperature=(KW, ONE), coefficients_network_outlet_temperature=ONE,
               coefficients_network_heat_extraction_rate=WK, get_network_inlet_temperature=KE, get_network_outlet_temperature=KE, get_network_heat_extraction_rate=W)
FUNCS = {'fluid_friction_factor_circular_pipe': ONE, 'convective_heat_transfer_coefficient_circular_pipe': HC, 'convective_heat_transfer_coefficient_concentric_annulus': HC,
         'conduction_thermal_resistance_circular_pipe': model.RES, 'thermal_resistances': model.RES, 'multipole': (KE, KE, ONE, ONE)}


def dim_of(name):
    n = name.split('.')[-1]
    for x in (n, n.rstrip('0123456789'), n.rstrip('0123456789').rstrip('_')):
        d = EXTRA.get(x) or model.PARAM_DIM.get(x)
        if d is not None:
            return d
    raise KeyError(f'no dimension for {name}')


class Units:
    """a system of units: one base unit changed, or all of them so that no two quantities of different dimensions change alike"""
    all = True
    ALL = (Fraction(1, 31), Fraction(37), Fraction(1, 41), Fraction(1, 29), Fraction(1787))

    def __init__(self, which=None, up=True):
        if which is None:
            r = [Fraction(1)] * 5
        elif which == 'all':
            r = list(self.ALL)
        else:
            r = [Fraction(1)] * 5
            r[which] = Fraction(NU)
        self.which, self.up = which, up
        self.root = r if up else [1 / x for x in r]
        self.used = set()

    def factor(self, d, roots=4):
        f = Fraction(1)
        for r, k in zip(self.root, d):
            f *= r ** (roots * k)
        return f

    def __call__(self, how, v):
        d = how if isinstance(how, tuple) else dim_of(how)
        self.used |= {i for i in range(5) if d[i]}
        f = self.factor(d)
        return v if f == 1 else v * f

    def __str__(self):
        if self.which == 'all':
            return 'in another system of units' + ('' if self.up else ' (the inverse)')
        return f'with a unit of {("length", "time", "mass", "temperature", "energy")[self.which]} {"100 million times smaller" if self.up else "100 million times larger"}'


def compare(a, b, t, want=None, top=None):
    """'' | 'soft' | what is wrong"""
    from ..points import Elem, P, _f
    from ..twin import differs
    if isinstance(a, Elem) and isinstance(b, Elem):
        if a.nan() or b.nan() or a.inf() or b.inf():
            return differs(a, b)
        image = lambda f: a.p * (f.numerator * pow(f.denominator, -1, P) % P) % P
        if a.p == b.p == 0:
            return ''
        x, y = _f(a.r), _f(b.r)
        if want is not None:
            f = t.factor(want)
            if image(f) == b.p:
                return ''
            w = x * _f(f)
            if abs(w - y) <= 1e-7 * max(abs(w), abs(y)):
                return 'soft'
            return f'{x:.6g} becomes {y:.6g} (expected {w:.6g})'
        if a.p == b.p:
            return ''
        if x == 0 or y == 0 or (x < 0) != (y < 0):
            return differs(a, b) if max(abs(x), abs(y)) > 1e-9 * (top or 1) else 'soft'
        unit = [0] * 5
        unit[t.which] = 1
        lam = math.log(_f(t.factor(unit)))
        k = (math.log(abs(y)) - math.log(abs(x))) / lam
        n = round(2 * k)
        if image(t.factor(unit, 2 * n)) == b.p:
            return ''
        return 'soft' if abs(k - n / 2) * abs(lam) < 1e-6 else f'{x:.6g} becomes {y:.6g}'
    if type(a) is not type(b):
        return f'{a!r} becomes {b!r}'[:80]
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f'{len(a)} values become {len(b)}'
        if a and a[0] == 'seq' and b[0] == 'seq' and isinstance(want, tuple) and want and isinstance(want[0], tuple):
            if len(a[1]) != len(want) or len(b[1]) != len(want):
                return f'{len(a[1])} and {len(b[1])} results'
            r = [compare(x, y, t, w, top) for x, y, w in zip(a[1], b[1], want)]
        elif a and a[0] == 'interp1d' and want is not None:
            r = [compare(a[1], b[1], t, T_, top), compare(a[2], b[2], t, want, top)]
        else:
            es = [abs(_f(x.r)) for x in a if isinstance(x, Elem) and not x.nan() and not x.inf()]
            r = [compare(x, y, t, want, max(es, default=top)) for x, y in zip(a, b)]
        return next((x for x in r if x and x != 'soft'), 'soft' if 'soft' in r else '')
    return '' if a == b else f'{a!r} becomes {b!r}'[:80]


def scaled(e_of, res, rule, key, loc, build, want=None, seed=None):
    """build(case) in every system of units, against the first"""
    from .. import twin
    from ..arrays import Unknown

    def at(t):
        e = e_of()
        with twin.Case(e, res, seed or key, t) as c:
            try:
                v = build(c)
            except twin.Refused as ex:
                v = ('refused', str(ex))
            except Unknown as ex:
                res.undec(rule, key, str(ex)[:200])
                v = None
            res.seen(e)
        return v
    t0 = Units()
    ref = at(t0)
    if ref is None:
        return
    res.cover[f'evaluated {key}'] = True
    res.entry(key)
    if ref[0] == 'refused':
        res.undec(rule, key, ref[1])
        return
    for i in ['all'] if want is not None else sorted(t0.used):
        for up in (True, False):
            t = Units(i, up)
            v = at(t)
            if v is None:
                return
            res.count('comparisons')
            if v[0] == 'refused':
                res.find(rule, key.split(' ')[0], f'{key} {t}: {v[1]}', loc)
                continue
            d = compare(ref, v, t, want)
            if d == 'soft':
                res.count('equal in value only')
            elif d:
                res.find(rule, key.split(' ')[0], f'{key} {t}: {d}', loc)


# ------------------------------------------------------------------------------------------------
def at(f):
    return (f.module.file, f.node.lineno)


FLUID = dict(mu=Fraction(12, 10000), rho=Fraction(998), k=Fraction(59, 100), cp=Fraction(4182))
REYNOLDS = {'laminar': 1500, 'transition': 3100, 'turbulent': 12000}


def fluid(c, only=None):
    """fluid properties, in the ranges that matter"""
    return {n: c.put(n + '_f', FLUID[n] * (1 + c.draw(1, 2) / 100)) for n in FLUID if only is None or n + '_f' in only}


def flow_rate(c, regime, mu, length):
    """a flow rate in this regime (length: a diameter)"""
    from ..points import Elem
    return Elem.of(REYNOLDS[regime]) * mu * length * Fraction(22, 28)


def formula(c, f, regime):
    e = c.e
    raw = {}

    def put(name, v):
        raw[name] = v
        return c.put(name, v)
    mu = FLUID['mu'] * (1 + c.draw(1, 2) / 100)
    kw = {}
    r_in, r_out = Fraction(17, 1000) * (1 + c.draw(1, 2) / 100), Fraction(31, 1000) * (1 + c.draw(1, 2) / 100)
    annulus = 'r_a_out' in f.params
    for p in f.params:
        if p in ('mu_f', 'rho_f', 'k_f', 'cp_f'):
            kw[p] = put(p, mu if p == 'mu_f' else FLUID[p[:-2]] * (1 + c.draw(1, 2) / 100))
        elif p in ('r_in', 'r_a_in'):
            kw[p] = put(p, r_in)
        elif p in ('r_out', 'r_a_out'):
            kw[p] = put(p, r_out)
        elif p.startswith('m_flow'):
            kw[p] = put(p, flow_rate(c, regime, mu, (r_in + r_out if annulus else r_in) * 2))
        elif p == 'epsilon':
            kw[p] = put(p, Fraction(1, 10**6) * c.draw(1, 9))
        elif p.startswith('k_'):
            kw[p] = put(p, c.draw())
        elif p in model.PARAM_DIM and p not in ('tol',):
            kw[p] = put(p, c.draw())
    return c.value(*c.call(f, e.new_state(), **kw))


def positions(c, st, n=4, r_b=None):
    pos = []
    for i in range(n):
        xy = [Fraction(3, 100), Fraction(0)] if i == 0 else [Fraction(0), Fraction(3, 100)] if i == 1 else [Fraction(-3, 100), Fraction(1, 1000)] if i == 2 else [Fraction(1, 1000), Fraction(-3, 100)]
        pos.append(c.e.mk_tup([c.put(f'pos{i}.x{i}', xy[0] * (1 + c.draw(1, 2) / 50)), c.put(f'pos{i}.y{i}', xy[1] * (1 + c.draw(1, 2) / 50))]))
    return c.e.mk_list(st, pos)


def multipole(c, f, order, n=2):
    import numpy as np
    e = c.e
    st = e.new_state()
    e.opaque = lambda f, s: f.name == '_compare_thermal_resistances_inputs'
    kw = dict(pos=positions(c, st, n), r_out=c.put('r_out', Fraction(2, 100) * (1 + c.draw(1, 2) / 100)), r_b=c.put('r_b', Fraction(75, 1000) * (1 + c.draw(1, 2) / 100)),
              k_s=c.put('k_s', c.draw(2, 3)), k_g=c.put('k_g', c.draw(1, 2)), R_fp=c.put('R_fp', c.draw(1, 2) / 10), J=e.cv(order))
    for q in [x.qual for x in e.funcs.values() if x.name == '_compare_thermal_resistances_inputs']:
        c.A.calls['pg:' + q] = False
    if f.name == 'multipole':
        kw['r_out'] = c.put('r_outs', np.array([c.draw(1, 2) / 60 for _ in range(n)], dtype=object), 'r_out')
        kw['R_fp'] = c.put('R_fps', np.array([c.draw(1, 2) / 10 for _ in range(n)], dtype=object), 'R_fp')
        kw.update(T_b=c.put('T_b', c.draw()), q_p=c.put('q_p', c.draw(1, 9, (n,))), x_T=c.put('x_T', np.array([c.draw(1, 2) / 200, c.draw(1, 2) / 10], dtype=object)), y_T=c.put('y_T', np.array([c.draw(1, 2) / 200, c.draw(1, 2) / 9], dtype=object)))
    return c.value(*c.call(f, st, **kw))


# ---------------------------------------------------------------------------------------------- pipes
PIPES = [('SingleUTube', None), ('Coaxial', None), ('MultipleUTube', 'parallel'), ('MultipleUTube', 'series'), ('IndependentMultipleUTube', None)]


def pipe(c, cls, config, st, b, tag='', n=2):
    import numpy as np
    e = c.e
    e.opaque = lambda f, s: f.name in ('thermal_resistances', 'multipole') or f.cls is not None and f.name == '_check_geometry'
    fi = e.classes[cls].find('__init__')
    m = 2 * n if 'nPipes' in fi.params else 2
    kw = {'borehole': b, 'J': e.cv(2)}
    if 'nPipes' in fi.params:
        kw['nPipes'] = e.cv(n)
    if config is not None:
        kw['config'] = e.cv(config)
    R = c.draw(1, 9, (m, m))
    R = R + R.T
    Rd = c.transform('Rd', R)
    for f in e.funcs.values():
        if f.name == 'thermal_resistances':
            c.A.calls['pg:' + f.qual] = (Rd, c.transform('Rd', R + 3))
    for p in fi.params:
        if p in kw or p == 'self':
            continue
        if p == 'pos':
            kw[p] = positions(c, st, m) if cls != 'Coaxial' else e.mk_tup([c.put(f'{tag}pos.x', Fraction(0)), c.put(f'{tag}pos.y', Fraction(0))])
        elif p in ('r_in', 'r_out') and cls == 'Coaxial':
            v = {'r_in': (Fraction(4, 100), Fraction(2, 100)), 'r_out': (Fraction(5, 100), Fraction(25, 1000))}[p]
            kw[p] = c.put(tag + p, np.array([c.draw(1, 2) / 100 + x for x in v], dtype=object), p)
        elif p in ('r_in', 'r_out'):
            kw[p] = c.put(tag + p, Fraction({'r_in': 15, 'r_out': 18}[p], 1000) * (1 + c.draw(1, 2) / 100), p)
        elif p in model.PARAM_DIM and p != 'J':
            kw[p] = c.put(tag + p, c.draw(), p)
    return c.make(cls, st, **kw)


def bore(c, st, i='', H=None):
    d = {k: c.put(f'{k}{i}', c.draw() * f) for k, f in (('H', 10), ('D', 1), ('r_b', Fraction(1, 100)), ('x', 1), ('y', 1))}
    return c.make('Borehole', st, **d)


def pipe_query(c, cls, config, name, nseg, ratios, sign):
    import numpy as np
    e = c.e
    b, st = bore(c, e.new_state())
    p, st = pipe(c, cls, config, st, b)
    f = e.classes[cls].find(name)
    vec = cls.startswith('Independent')
    sh = (2,) if vec else None
    small = Fraction(1, 50)      # generic, and the exponentials of moderate size
    m, cp = c.draw(1, 9, sh) * sign, c.draw(1, 9, sh) * 1000
    z = np.array([Fraction(0), c.A.values['H'] and Fraction(1), Fraction(3, 2)], dtype=object)
    kw = {'m_flow_borehole': c.put('m_flow_borehole', m), 'cp_f': c.put('cp_f', cp), 'nSegments': e.cv(nseg), 'T_f_in': c.put('T_f_in', c.draw(1, 9, sh)), 'Q_f': c.put('Q_f', c.draw(1, 9, sh)),
          'T_b': c.put('T_b', c.draw(1, 9, (nseg,) if nseg > 1 else None)), 'z': c.put('z', np.array([c.draw(0, 1) * 0, c.draw(1, 2), c.draw(3, 4)], dtype=object))}
    if ratios and 'segment_ratios' in f.params:
        r = c.draw(1, 9, (nseg,))
        kw['segment_ratios'] = c.put('ratios', r / np.sum(r))
    return c.value(*c.call(f, st, p, **{k: v for k, v in kw.items() if k in f.params}))


def _elem(v):
    from ..points import Elem
    return Elem.of(v)


def fluid_resistance(c, f, kind, regime):
    import numpy as np
    e = c.e
    st = e.new_state()
    mu = FLUID['mu'] * (1 + c.draw(1, 2) / 100)
    for n in FLUID:
        c.A.values[f'fluid.{n}'] = c.transform(n, _elem(mu if n == 'mu' else FLUID[n]))
    c.A.values['fluid'] = 'fluid'
    coax = 'COAXIAL' in kind
    out = kind.endswith('OUT')
    r_in, r_out = (Fraction(2, 100), Fraction(4, 100)), (Fraction(25, 1000), Fraction(45, 1000))
    if not coax:
        r_in, r_out = Fraction(15, 1000), Fraction(18, 1000)
    elif not out:
        r_in, r_out = r_in[::-1], r_out[::-1]
    length = Fraction(130, 1000) if coax else Fraction(3, 100) * (2 if kind.endswith('PARALLEL') else 1)
    arr = lambda v: np.array([_elem(x) for x in v], dtype=object) if coax else v
    kw = dict(pipe_type=e.num(e.g.mk('const', ('enum', 'PipeType', kind))), m_flow_borehole=c.put('m_flow_borehole', flow_rate(c, regime, mu, length)), r_in=c.put('r_in', arr(r_in)), r_out=c.put('r_out', arr(r_out)),
              k_p=c.put('k_p', c.draw(1, 9, (2,)) if coax else c.draw()), epsilon=c.put('epsilon', Fraction(1, 10**6) * c.draw(1, 9)), fluid=e.sym('fluid', 'Fluid'))
    return c.value(*c.call(f, st, **kw))


NETS = {'parallel': [-1, -1, -1], 'mixed': [-1, 0, -1]}


def network(c, shape):
    e = c.e
    st = e.new_state()
    bs, ps = [], []
    for i in range(3):
        b, st = bore(c, st, i)
        p, st = pipe(c, 'SingleUTube', None, st, b, f'p{i}.')
        bs.append(b), ps.append(p)
    return bs, *c.make('Network', st, boreholes=e.mk_list(st, bs), pipes=e.mk_list(st, ps), bore_connectivity=e.mk_list(st, [e.cv(k) for k in NETS[shape]]))


def network_query(c, name, shape, nseg, sign, func=None):
    e = c.e
    _, n, st = network(c, shape)
    f = func or e.classes['Network'].find(name)
    kw = {'m_flow_network': c.put('m_flow_network', c.draw() * sign), 'cp_f': c.put('cp_f', c.draw() * 1000), 'nSegments': e.cv(nseg), 'T_f_in': c.put('T_f_in', c.draw()), 'Q_t': c.put('Q_t', c.draw()),
          'T_b': c.put('T_b', c.draw(1, 9, (3 * nseg,))), 'network': n}
    return c.value(*c.call(f, st, None if func else n, **{k: v for k, v in kw.items() if k in f.params}))


def resistance(c, f):
    e = c.e
    b, st = bore(c, e.new_state())
    p, st = pipe(c, 'SingleUTube', None, st, b)
    return c.value(*c.call(f, st, pipe=p, m_flow_borehole=c.put('m_flow_borehole', c.draw()), cp_f=c.put('cp_f', c.draw() * 1000)))


def mixed_inlet(c, cls, shape):
    """the g-function of a network of boreholes"""
    import numpy as np
    e = c.e
    b, n, st = network(c, shape)
    t = c.put('time', np.array([c.draw(1, 2) / 10000, c.draw(1, 3) * 10, c.draw(7, 9) * 10], dtype=object), ty='array')
    s, st = c.make(cls, st, boreholes=e.mk_list(st, b), network=n, time=t, boundary_condition=e.cv('MIFT'), m_flow_network=c.put('m_flow_network', c.draw()), cp_f=c.put('cp_f', c.draw() * 1000),
                   nSegments=e.cv(2), segment_ratios=e.cv(None), mQuad=e.cv(3), nFLS=e.cv(3), disp=e.cv(False))
    f = e.classes[cls].find('solve')
    # the ground is given by its conductivity and diffusivity
    return c.value(*c.call(f, st, s, time=t, alpha=c.put('alpha', c.draw())))


# ---------------------------------------------------------------------------------------------- layouts, times, loads
ATTRS = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')


def boreholes_of(c, v, st):
    from ..twin import flat
    e = c.e
    items = e.iter_items(v, st)
    if items is None:
        from ..arrays import Unknown
        raise Unknown('list of boreholes')
    return flat([[c.A(e.node(e.getattr_(b, a, st), st)) for a in ATTRS] for b in items])


def layout(c, f, sizes, origin):
    e = c.e
    kw = {}
    for p in f.params:
        if p in ('N_1', 'N_2', 'N'):
            kw[p] = e.cv(sizes[p != 'N_1'])
        elif p == 'include_last_borehole':
            kw[p] = e.cv(True)
        elif p == 'origin':
            kw[p] = e.mk_tup([c.put('origin.x', c.draw()), c.put('origin.y', c.draw())]) if origin else e.cv(None)
        elif p == 'tilt':
            kw[p] = c.put(p, c.draw(1, 9) / 100)
        elif p in model.PARAM_DIM:
            kw[p] = c.put(p, c.draw())
    r, st = c.call(f, e.new_state(), **kw)
    return boreholes_of(c, r, st)


def segments(c, n, ratios):
    import numpy as np
    e = c.e
    d = {k: c.put(k, c.draw() * f) for k, f in (('H', 10), ('D', 1), ('r_b', Fraction(1, 100)), ('x', 1), ('y', 1), ('tilt', Fraction(1, 50)), ('orientation', 1))}
    b, st = c.make('Borehole', e.new_state(), **d)
    f = e.classes['Borehole'].find('segments')
    kw = {'nSegments': e.cv(n)}
    if ratios:
        r = c.draw(1, 9, (n,))
        kw['segment_ratios'] = c.put('ratios', r / np.sum(r))
    r, st = c.call(f, st, b, **kw)
    return boreholes_of(c, r, st)


def time_vector(c, f):
    e = c.e
    dt = c.draw(1, 2)
    kw = {'dt': c.put('dt', dt), 'tmax': c.put('tmax', dt * 40)}
    if 'Nt' in f.params:
        kw['Nt'] = e.cv(6)
    return c.value(*c.call(f, e.new_state(), **kw))


AGGS = {'ClaessonJaved': {'cells_per_level': 2}, 'MLAA': {'N1': 2, 'N2': 2, 'N3': 3}, 'Liu': {'N1': 2, 'N2': 2, 'N3': 2, 'W1': 1, 'W2': 1, 'W3': 1}}


def loads(c, cls, ns):
    import numpy as np
    e = c.e
    dt = c.draw(1, 2)
    over = {k: e.cv(v) for k, v in AGGS.get(cls, {}).items() if k in e.classes[cls].find('__init__').params}
    o, st = c.make(cls, e.new_state(), dt=c.put('dt', dt), tmax=c.put('tmax', dt * 12), nSources=e.cv(ns), **over)
    K = e.classes[cls]
    t, st = c.call(K.find('get_times_for_simulation'), st, o)
    times = c.A(e.node(t, st))
    n = len(times)
    g = c.draw(1, 9, (n,) if ns == 1 else (ns, ns, n))
    p = lambda m, *v: dict(zip([x for x in K.find(m).params if x != 'self'], v))
    r, st = c.call(K.find('initialize'), st, o, **p('initialize', c.put('gd', g, model.RES)))
    out = []
    for k in range(8):
        f = K.find('next_time_step')
        r, st = c.call(f, st, o, **p('next_time_step', c.put(f'time{k}', dt * (k + 1))))
        r, st = c.call(K.find('set_current_load'), st, o, **p('set_current_load', c.put(f'q{k}', c.draw() if ns == 1 else c.draw(1, 9, (ns,)))))
        v, st = c.call(K.find('temporal_superposition'), st, o)
        out.append(c.value(v, st))
    from ..twin import flat
    return ('seq', (flat(times), ('seq', tuple(out))))


# ---------------------------------------------------------------------------------------------- all
def jobs(tier):
    out = [('formulas', i) for i in range(len(FUNCS))] + [('film', k) for k in range(5)] + [('pipe',) + p + (tier,) for p in PIPES]
    out += [('network', s, tier) for s in NETS] + [('layouts',), ('times',), ('loads',)]
    out += [j for j in c08.jobs('quick')] + [('mixed', c, tier) for c in ('Detailed', 'Similarities', 'Equivalent')]
    return out


def check(e_of, res, job):
    first = e_of()
    fs = {f.name: f for f in first.funcs.values() if f.cls is None}
    go = lambda rule, key, f, build, want=None: scaled(e_of, res, rule, key, at(f), build, want)

    def need(name, cls=None):
        f = fs.get(name) if cls is None else first.classes[cls].find(name)
        if f is None:
            raise scen.AnchorError(f'{cls + "." if cls else ""}{name}()')
        return f
    if job[0] == 'formulas':
        name, want = list(FUNCS.items())[job[1]]
        f = need(name)
        if name in ('thermal_resistances', 'multipole'):
            for order in (0, 1, 2):
                go('formula', f'{name} (order {order})', f, lambda c: multipole(c, f, order), want)
        else:
            for regime in REYNOLDS if any(p.startswith('m_flow') for p in f.params) else ('laminar',):
                go('formula', f'{name} ({regime})', f, lambda c: formula(c, f, regime), want)
    elif job[0] == 'film':
        kinds = [k for k in ('SINGLE_UTUBE', 'DOUBLE_UTUBE_PARALLEL', 'DOUBLE_UTUBE_SERIES', 'COAXIAL_ANNULAR_IN', 'COAXIAL_ANNULAR_OUT')]
        kind = kinds[job[1]]
        for name in ('fluid_to_pipe_thermal_resistance', 'fluid_to_fluid_thermal_resistance'):
            if name.startswith('fluid_to_fluid') and 'COAXIAL' not in kind:
                continue
            f = need(name)
            for regime in REYNOLDS:
                go('formula', f'{name} ({kind}, {regime})', f, lambda c: fluid_resistance(c, f, kind, regime), model.RES)
    elif job[0] == 'pipe':
        _, cls, config, tier = job
        combos = [(n, r, s) for n, r in ((1, False), (3, False), (3, True)) for s in (1, -1)] if tier != 'quick' else [(1, False, 1), (3, True, 1), (3, False, -1)]
        for name, want in WANT.items():
            f = need(name, cls)
            for nseg, ratios, sign in combos if 'nSegments' in f.params else combos[-1:] if 'T_b' in f.params else combos[:1]:
                go('pipe', f'{cls}.{name} ({config}, {nseg} segments{", unequal" if ratios else ""}, flow {sign})', f, lambda c: pipe_query(c, cls, config, name, nseg, ratios, sign), want)
    elif job[0] == 'network':
        _, shape, tier = job
        for name, want in NETWANT.items():
            if name in ('coefficients_temperature', 'get_temperature', 'get_total_heat_extraction_rate', 'effective_borehole_thermal_resistance', 'local_borehole_thermal_resistance'):
                continue
            f = need(name, 'Network')
            for nseg, sign in ((2, 1), (1, -1)) if tier != 'quick' else ((2, 1),):
                go('network', f'Network.{name} ({shape}, {nseg} segments, flow {sign})', f, lambda c: network_query(c, name, shape, nseg, sign), want)
        f = need('network_thermal_resistance')
        go('network', f'network_thermal_resistance ({shape})', f, lambda c: network_query(c, f.name, shape, 1, 1, f), model.RES)
        f = need('borehole_thermal_resistance')
        go('pipe', 'borehole_thermal_resistance', f, lambda c: resistance(c, f), model.RES)
    elif job[0] == 'layouts':
        want = ('borehole',)
        for f in scen.module_functions(first):
            if f.name.endswith('_field') and {'H', 'D', 'r_b'} <= set(f.params):
                for sizes, origin in (((3, 2), False), ((2, 4), True)):
                    go('layout', f'{f.name} ({sizes}{", origin" if origin else ""})', f, lambda c: layout(c, f, sizes, origin), None)
        f = need('segments', 'Borehole')
        for n, ratios in ((1, False), (3, False), (3, True)):
            go('layout', f'Borehole.segments ({n}{", unequal" if ratios else ""})', f, lambda c: segments(c, n, ratios))
    elif job[0] == 'times':
        for f in scen.module_functions(first):
            if {'dt', 'tmax'} <= set(f.params):
                go('time', f.name, f, lambda c: time_vector(c, f), T_)
    elif job[0] == 'loads':
        for cls in scen.AGG:
            for ns in (1, 2):
                f = need('temporal_superposition', cls)
                go('loads', f'{cls}.temporal_superposition ({ns} sources)', f, lambda c: loads(c, cls, ns), (T_, KE))
    elif job[0] == 'mixed':
        _, cls, tier = job
        f = need('solve', cls)
        for shape in NETS if tier != 'quick' else ('mixed',):
            if cls == 'Equivalent' and shape == 'mixed':
                shape = 'parallel'
            go('g-function', f'{cls}.solve (MIFT, {shape})', f, lambda c: mixed_inlet(c, cls, shape), None)
    else:
        # the cases of C08
        def pair(e_of_, res_, seed, build, shifts, rule, key, loc, msg):
            fun = seed.split(' ')[0]
            plain = rule in ('line source',) and fun.startswith('finite_line_source') or rule in ('response factors', 'g-function')
            scaled(e_of, res, 'distance' if rule == 'duplicates' else rule, seed, loc, build, ONE if plain else L if rule == 'distance' and 'unique' not in fun else None)
        c08.check(e_of, res, job, pair=pair)


def run(job, root):
    res = Res()
    first = scen.engine(root)
    scen.need(first, 'Borehole', '_BaseSolver', 'Network', *scen.PIPES)
    check(lambda: scen.engine(root), res, job)
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    fn = {f.name: f for f in e.funcs.values() if f.cls is None}
    go = lambda rule, key, build, want=None: scaled(lambda: e, res, rule, key, ('toy/c07.py', 1), build, want)
    st = lambda: e.new_state()

    def apart(c, cls):
        b, s = c08.field(c, st(), 'scattered', False, None, 'HoleUnits')
        return c.value(*c.call(fn['units_apart_' + cls], s, borehole1=b[0], borehole2=b[1]))

    def times(c, n):
        return time_vector(c, fn['units_' + n])

    def simple(c, n):
        f = fn['units_' + n]
        kw = {p: c.put(p, c.draw()) for p in f.params}
        return c.value(*c.call(f, st(), **kw))

    def agg(c, cls):
        return loads(c, cls, 1)
    both = ('good', 'bad')
    for k in both:
        go('line source', f'source_{k}', lambda c: simple(c, f'source_{k}'), ONE)
        go('distance', f'apart_{k}', lambda c: apart(c, k), L)
        go('response factors', f'response_{k}', lambda c: simple(c, f'response_{k}'))
        go('g-function', f'steps_{k}', lambda c: simple(c, f'steps_{k}'))
        go('formula', f'film_{k}', lambda c: simple(c, f'film_{k}'), HC)
        go('pipe', f'outlet_{k}', lambda c: simple(c, f'outlet_{k}'), KE)
        go('network', f'flow_{k}', lambda c: simple(c, f'flow_{k}'), D(kg=1, s=-1))
        go('layout', f'row_{k}', lambda c: simple(c, f'row_{k}'))
        go('time', f'times_{k}', lambda c: times(c, f'times_{k}'), T_)
        go('loads', f'UnitLoads{k}', lambda c: agg(c, f'UnitLoads{k}'), (T_, KE))
    keys = {k.split('|')[1] for k in res.findings}
    bad = {'source_bad', 'apart_bad', 'response_bad', 'steps_bad', 'film_bad', 'outlet_bad', 'flow_bad', 'row_bad', 'times_bad', 'UnitLoadsbad'}
    assert keys == bad, (keys ^ bad, res.undecided)
    assert not res.undecided, res.undecided
    return res
