"""C16: heat rates and temperatures of pipes and networks are energy-consistent."""
import os
import random

from .. import model, scen
from ..engine import Engine, State, V
from ..report import Res

LEVEL = 'other'
EXPECT = ['fluid heat', 'inlet temperature', 'segments', 'profile', 'equilibrium', 'evaluated', 'network', 'mixing', 'connection', 'resistance']
EXPLAIN = ('Identity of linear relations: the coefficients of every relation of the pipe models and networks are composed symbolically from '
           'the source (with thermal resistances, eigenvectors and, for networks, pipes as unknowns), for both flow directions, reversible '
           'or not, equal or unequal segments, and several connections, and the identities between them are decided on the value graphs '
           'at generic points of a finite field in which exponentials and roots are exact. Rules: the fluid heat rate is the flow heat '
           'capacity times outlet minus inlet temperature; the inlet temperature relation is the inverse of the heat relation; heat rates '
           'of the segments add up to that of the fluid; the temperature profile starts at the inlet temperature and is continuous at '
           'the bottom; a fluid at the temperature of the wall exchanges nothing; every evaluated quantity is its own relation applied to '
           'the temperatures; each borehole receives what the connections say; network totals are sums over boreholes (as many as each stands for).')
ASSUME = ['two U-tubes at most, 1 or 3 segments, networks of up to 5 boreholes', 'identities are decided at generic points (wrong with a probability below 1e-9)',
          'eigenvalues and eigenvectors of the multiple U-tube model are arbitrary: equilibrium is decided for the other models only']
MIN = {'identities': 300, 'evaluations': 100}
PIPE_CONFIGS = [('SingleUTube', None), ('Coaxial', None), ('MultipleUTube', 'parallel'), ('MultipleUTube', 'series'), ('IndependentMultipleUTube', None)]
NETS = {'parallel': [-1, -1, -1], 'series': [-1, 0, 1], 'mixed': [-1, 0, -1, 2], 'unequal': [-1, 0, 1, -1, -1], 'backwards': [1, -1, 3, -1], 'crossed': [-1, -1, 1, 0]}


class Skip(Exception):
    """this point has no image in the field"""


class Case:
    def __init__(self, e, res, seed):
        from .. import points
        from ..arrays import Arrays
        self.e, self.res, self.pt = e, res, points
        self.rng = random.Random(seed)
        self.A = Arrays(e.g, {}, {}, funcs=points.functions(), numbers=points.Elem.of)
        e.opaque = lambda f, s: False

    def __enter__(self):
        State.oracle, State.sizes, State.ints = self.A.t, self.A.size, self.A.int
        return self

    def __exit__(self, *a):
        State.oracle = State.sizes = State.ints = None

    def draw(self, shape=None, lo=1, hi=9):
        import numpy as np
        if shape is None:
            return self.pt.draw(self.rng, lo, hi)
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = self.pt.draw(self.rng, lo, hi)
        return out

    def val(self, name, v, ty=None):
        """an argument of known value"""
        import numpy as np
        self.A.values[name] = v
        return self.e.sym(name, ty or ('array' if isinstance(v, np.ndarray) else 'float'), owner='user:' + name)

    def lst(self, st, name, vs):
        return self.e.mk_list(st, [self.val(f'{name}{i}', v) for i, v in enumerate(vs)])

    def call(self, label, f, kw, st, obj=None, key=None):
        en = scen.call(self.e, label, f, kw, st, obj)
        if en.result is None or en.st is None:
            self.res.undec('call', f'{label}|{key}', 'no result')
            raise Skip('no result')
        return en

    def value(self, v, st):
        from ..arrays import Unknown
        n = self.e.node(v, st)
        try:
            return self.A(n)
        except Unknown as ex:
            if 'no root' in str(ex):
                raise Skip(str(ex))
            raise

    def coefs(self, obj, cls, name, kw, st):
        f = self.e.classes[cls].find(name)
        if f is None:
            raise scen.AnchorError(f'{cls}.{name}()')
        en = self.call(f'{cls}.{name}', f, kw, st, obj)
        v = self.value(en.result, en.st)
        self.res.entry(f'{cls}.{name}')
        return v, en.st, (f.module.file, f.node.lineno)


def mat(x):
    import numpy as np
    from ..arrays import arr
    from ..points import Elem, apply
    x = arr(x)
    return apply(x, lambda v: v) if isinstance(x, np.ndarray) else Elem.of(x)


def equal(a, b):
    import numpy as np
    a, b = mat(a), mat(b)
    if np.size(a) != np.size(b):
        return False
    fa, fb = np.asarray(a, dtype=object).reshape(-1), np.asarray(b, dtype=object).reshape(-1)
    return all(not x.nan() and x.same(y) for x, y in zip(fa, fb))


def off(a, b):
    import numpy as np
    a, b = np.asarray(mat(a), dtype=object), np.asarray(mat(b), dtype=object)
    if a.size != b.size:
        return f'{a.shape} against {b.shape}'
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if not x.same(y):
            return f'{x!r} instead of {y!r} at one point'
    return ''


class Checker:
    def __init__(self, case, who, at):
        self.c, self.res, self.who, self.at = case, case.res, who, at
        self.bad = False

    def same(self, rule, key, a, b, msg, loc, what='identities'):
        self.res.count(what)
        if not equal(a, b):
            self.bad = True
            self.res.find(rule, f'{self.who}.{key}', f'{self.who}: {msg} ({self.at}; {off(a, b)})', loc)


# ------------------------------------------------------------------------------------------------
def flows(cls, n, sign):
    return [1] * n if sign > 0 else [-1] * n


def pipe_case(case, cls, config, nseg, ratios, sign, reversible, n_pipes, bcls='Borehole'):
    """the pipe model and its arguments"""
    import numpy as np
    e, A = case.e, case.A
    e.opaque = lambda f, s: f.name in ('thermal_resistances', 'multipole') or f.cls is not None and f.name == '_check_geometry'
    st = e.new_state()
    bi = e.classes[bcls]
    b, st = e.construct(f'{bi.module.name}.{bi.name}', kwargs={k: case.val(k, case.draw()) for k in ('H', 'D', 'r_b', 'x', 'y')}, st=st)
    fi = e.classes[cls].find('__init__')
    over = {'borehole': b, 'reversible_flow': e.cv(reversible)}
    if 'nPipes' in fi.params:
        over['nPipes'] = e.cv(n_pipes)
    if config is not None:
        over['config'] = e.cv(config)
    if 'r_out' in fi.params and cls == 'Coaxial':
        # annulus outside or inside
        r = np.array([case.pt.Elem.of(x) for x in (case.draw(None, 2, 3), case.draw(None, 5, 6))], dtype=object)
        over['r_out'] = case.val('r_out', r[::-1].copy() if nseg == 1 else r)
        over['R_ff'] = case.val('R_ff', case.draw())
    for p in fi.params:
        if p not in over and (p.startswith(('R_', 'k_')) or p == 'R'):
            over[p] = case.val(p, case.draw())
    m = 2 * n_pipes
    Rd = case.draw((m, m))
    res = {f.qual for f in e.funcs.values() if f.name == 'thermal_resistances'}
    for q in res:
        A.calls['pg:' + q] = (Rd, Rd)
    L, Vm = case.draw((m,)), case.draw((m, m))
    for k in ('numpy.linalg.eig', 'scipy.linalg.eig'):
        A.calls[k] = (L, Vm)
    en = scen.ctor(e, cls, st=st, **over)
    if en.obj is None:
        raise scen.AnchorError(f'{cls}() cannot be analysed')
    if not hasattr(en.st, 'heap') or en.obj.kind != 'inst':
        raise scen.AnchorError(f'{cls}() cannot be analysed')
    nin = case.value(e.getattr_(en.obj, 'nInlets', en.st), en.st)
    from ..arrays import integer
    nin = integer(nin)
    if nin == 1 and not cls.startswith('Independent'):
        mf, cp = case.draw() * sign, case.draw()
        margs = dict(m_flow_borehole=case.val('m', mf), cp_f=case.val('cp', cp))
    else:
        sg = [sign] * nin if isinstance(sign, int) else sign
        mf, cp = case.draw((nin,)) * np.array(sg, dtype=object), case.draw((nin,))
        margs = dict(m_flow_borehole=case.val('m', mf), cp_f=case.val('cp', cp))
    kw = dict(margs, nSegments=e.cv(nseg))
    if ratios:
        r = case.draw((nseg,))
        r = r / np.sum(r)
        kw['segment_ratios'] = case.val('r', r)
    mcp = np.atleast_1d(np.array([abs(x) for x in np.atleast_1d(mf)], dtype=object) * cp)
    return en.obj, en.st, kw, mcp, nin


def check_pipe(case, cls, config, nseg, ratios, sign, reversible, n_pipes, bcls='Borehole'):
    import numpy as np
    from ..arrays import lift
    e = case.e
    obj, st, kw, mcp, nin = pipe_case(case, cls, config, nseg, ratios, sign, reversible, n_pipes, bcls)
    at = f'{config + ", " if config else ""}{n_pipes} pipe(s), {nseg} segment(s){" of unequal length" if ratios else ""}, flow {sign}, {"" if reversible else "not "}reversible'
    ck = Checker(case, cls, at)
    I = lift(np.eye(nin))
    M = np.diag(mcp) if nin > 1 else mcp.reshape(1, 1)
    get = lambda name: case.coefs(obj, cls, name, kw, st.copy())
    (ao, bo), _, lo = get('coefficients_outlet_temperature')
    (af, bf), _, lf = get('coefficients_fluid_heat_extraction_rate')
    (ai, bi), _, li = get('coefficients_inlet_temperature')
    (aq, bq), _, lq = get('coefficients_borehole_heat_extraction_rate')
    ao, bo, af, bf, ai, bi, aq, bq = (mat(x) for x in (ao, bo, af, bf, ai, bi, aq, bq))
    ck.same('fluid heat', 'coefficients_fluid_heat_extraction_rate', af, M @ (ao - I), 'the fluid heat extraction rate is not the heat capacity rate times outlet minus inlet temperature', lf)
    ck.same('fluid heat', 'coefficients_fluid_heat_extraction_rate', bf, M @ bo, 'the fluid heat extraction rate does not follow the wall temperatures as the outlet temperature does', lf)
    ck.same('inlet temperature', 'coefficients_inlet_temperature', af @ ai, I, 'the required inlet temperature does not invert the fluid heat relation', li)
    ck.same('inlet temperature', 'coefficients_inlet_temperature', af @ bi + bf, 0 * bf, 'the required inlet temperature does not cancel the part of the wall temperatures', li)
    ck.same('segments', 'coefficients_borehole_heat_extraction_rate', np.sum(aq, axis=0), np.sum(af, axis=0), 'heat rates of the segments do not add up to that of the fluid (inlet)', lq)
    ck.same('segments', 'coefficients_borehole_heat_extraction_rate', np.sum(bq, axis=0), np.sum(bf, axis=0), 'heat rates of the segments do not add up to that of the fluid (walls)', lq)
    if 'Multiple' not in cls:
        one = np.ones(nseg, dtype=object)
        ck.same('equilibrium', 'coefficients_outlet_temperature', ao @ (one[:1] * 1) + bo @ one, one[:1], 'a fluid at the temperature of the wall does not keep it', lo)
        ck.same('equilibrium', 'coefficients_borehole_heat_extraction_rate', aq @ one[:1] + bq @ one, 0 * one, 'a fluid at the temperature of the wall exchanges heat', lq)
    # profile: starts at the inlet, continuous at the bottom, ends at the outlet
    H = case.A.values['H']
    z = np.array([case.pt.Elem.of(0), H * case.draw(None, 1, 2) / 3, H], dtype=object)
    kz = dict(kw, z=case.val('z', z))
    (at_, bt), _, lt = case.coefs(obj, cls, 'coefficients_temperature', kz, st.copy())
    at_, bt = mat(at_), mat(bt)
    n = at_.shape[1] // 2
    for i in range(n):
        ck.same('profile', 'coefficients_temperature', np.concatenate([at_[2, i], bt[2, i]]), np.concatenate([at_[2, i + n], bt[2, i + n]]), 'the fluid temperatures of both legs differ at the bottom', lt)
    rows = [np.concatenate([at_[0, i], bt[0, i]]) for i in range(2 * n)]
    for j in range(nin):
        inlet = np.concatenate([I[j], np.zeros(nseg, dtype=object)])
        case.res.count('identities')
        if not any(equal(r, inlet) for r in rows):
            case.res.find('profile', f'{cls}.coefficients_temperature', f'{cls}: no leg starts at the inlet temperature ({at})', lt)
        if config != 'parallel':
            case.res.count('identities')
            if not any(equal(r, np.concatenate([ao[j], bo[j]])) for r in rows):
                case.res.find('profile', f'{cls}.coefficients_temperature', f'{cls}: no leg ends at the outlet temperature ({at})', lt)
    # evaluated quantities
    vec = cls.startswith('Independent')
    tin = case.draw((nin,)) if vec else case.draw()
    qf = case.draw((nin,)) if vec else case.draw()
    tb = case.draw((nseg,)) if nseg > 1 else case.draw()
    ke = {k: v for k, v in kw.items() if k != 'nSegments'}
    ke.update(T_f_in=case.val('T_f_in', tin), T_b=case.val('T_b', tb), Q_f=case.val('Q_f', qf), z=kz['z'])
    ti, tbv, qv = np.atleast_1d(np.asarray(tin, dtype=object)), np.atleast_1d(np.asarray(tb, dtype=object)), np.atleast_1d(np.asarray(qf, dtype=object))
    want = {'get_outlet_temperature': ao @ ti + bo @ tbv, 'get_inlet_temperature': ai @ qv + bi @ tbv, 'get_fluid_heat_extraction_rate': af @ ti + bf @ tbv,
            'get_borehole_heat_extraction_rate': aq @ ti + bq @ tbv, 'get_total_heat_extraction_rate': np.sum(af @ ti + bf @ tbv), 'get_temperature': at_ @ ti + bt @ tbv}
    for name, w in want.items():
        f = e.classes[cls].find(name)
        if f is None:
            raise scen.AnchorError(f'{cls}.{name}()')
        v, _, loc = case.coefs(obj, cls, name, {k: x for k, x in ke.items() if k in f.params}, st.copy())
        ck.same('evaluated', name, v, w, f'{name}() is not its relation applied to the temperatures given', loc, 'evaluations')
    # resistance
    if nin == 1 and nseg == 1:
        r = -H / 2 * (1 + ao[0, 0]) / aq[0, 0]
        km = {k: v for k, v in kw.items() if k in ('m_flow_borehole', 'cp_f')}
        v, _, loc = case.coefs(obj, cls, 'effective_borehole_thermal_resistance', km, st.copy())
        ck.same('resistance', 'effective_borehole_thermal_resistance', v, r, 'the effective resistance is not (wall minus mean fluid temperature) over the heat rate per length', loc)
        f = next((x for x in scen.module_functions(e) if x.name == 'borehole_thermal_resistance'), None)
        if f is not None:
            en = case.call('borehole_thermal_resistance', f, dict(km, pipe=obj), st.copy())
            ck.same('resistance', 'borehole_thermal_resistance', case.value(en.result, en.st), r, 'the effective resistance is not (wall minus mean fluid temperature) over the heat rate per length', (f.module.file, f.node.lineno))


# ------------------------------------------------------------------------------------------------
class PipeRelation:
    """A pipe model as an unknown that is itself energy-consistent: one draw for every flow, heat capacity and segmentation."""
    def __init__(self, case, method, table, signs):
        self.case, self.method, self.table, self.signs = case, method, table, signs

    def kw(s, /, *a, **k):
        import numpy as np
        from ..arrays import Unknown, integer
        a = list(a)
        names = s.signs
        for p, v in zip(names, a):
            k[p] = v
        try:
            pipe, m, cp, n = k[names[0]], k[names[1]], k[names[2]], integer(k[names[3]])
        except KeyError:
            raise Unknown('pipe arguments')
        r = k.get(names[4]) if len(names) > 4 else None
        return relations(s.case, s.table, pipe, m, cp, n, r)[s.method]


def relations(case, table, pipe, m, cp, n, ratios):
    import numpy as np
    from ..arrays import Unknown
    m, cp = mat(m), mat(cp)
    m, cp = (x.reshape(-1)[0] if isinstance(x, np.ndarray) and x.size == 1 else x for x in (m, cp))
    if isinstance(m, np.ndarray) or isinstance(cp, np.ndarray):
        raise Unknown('flow of one pipe')
    key = (pipe, m.p, cp.p, n, None if ratios is None else tuple(x.p for x in np.atleast_1d(mat(ratios))))
    if key not in table:
        a = case.draw()
        w = case.draw((n,))
        b = (1 - a) * w / np.sum(w)
        b = b.reshape(1, n)
        a = np.array([[a]], dtype=object)
        c = abs(m) * cp
        af, bf = c * (a - 1), c * b
        aq, bq = case.draw((n, 1)), case.draw((n, n))
        # the segments add up to the fluid, and exchange nothing at one temperature
        aq[-1] = af[0] - np.sum(aq[:-1], axis=0)
        bq[-1] = bf[0] - np.sum(bq[:-1], axis=0)
        ai = np.array([[1 / af[0, 0]]], dtype=object)
        table[key] = {'coefficients_outlet_temperature': (a, b), 'coefficients_fluid_heat_extraction_rate': (af, bf), 'coefficients_borehole_heat_extraction_rate': (aq, bq),
                      'coefficients_inlet_temperature': (ai, -ai @ bf)}
    return table[key]


def check_network(case, cls, shape, sign, single, seg, pipe_cls='_BasePipe', bcls='Borehole'):
    import numpy as np
    from ..arrays import lift
    e, A = case.e, case.A
    conn = NETS[shape]
    N = len(conn)
    pc = e.classes[pipe_cls]
    e.opaque = lambda f, s: f.cls is not None and (pc in f.cls.mro()) and f.name != '__init__'
    eq = 'quivalent' in cls
    if eq:
        conn = [-1] * N
    table = {}
    for q, f in e.funcs.items():
        if f.cls is not None and pc in f.cls.mro():
            A.calls['pg:' + q] = PipeRelation(case, f.name, table, [p for p in f.params])
    st = e.new_state()
    bt = '_EquivalentBorehole' if '_EquivalentBorehole' in e.classes and eq else bcls
    bs, ps, w = [], [], []
    for i in range(N):
        H = case.draw()
        A.values.update({f'b{i}.H': H, f'b{i}': f'b{i}', f'p{i}': f'p{i}', f'p{i}._Rd': f'Rd{i}'})
        if eq:
            from fractions import Fraction
            A.values[f'b{i}.nBoreholes'] = Fraction(i + 2)
            w.append(i + 2)
        bs.append(e.sym(f'b{i}', bt))
        ps.append(e.sym(f'p{i}', pipe_cls))
    w = np.array([case.pt.Elem.of(x) for x in (w or [1] * N)], dtype=object)
    fi = e.classes[cls].find('__init__')
    ps_, = [[p for p in fi.params if p != 'self']]
    over = {ps_[0]: e.mk_list(st, bs), 'pipes': e.mk_list(st, ps)}
    if 'bore_connectivity' in fi.params:
        over['bore_connectivity'] = e.mk_list(st, [e.cv(c) for c in conn])
    for p in ps_:
        if p not in over:
            over[p] = e.cv(None)
    en = scen.ctor(e, cls, st=st, **over)
    if en.obj is None or en.obj.kind != 'inst':
        raise scen.AnchorError(f'{cls}() cannot be analysed')
    obj, st = en.obj, en.st
    # flow of every borehole
    path = lambda i: i if conn[i] == -1 else path(conn[i])
    inlets = [i for i in range(N) if conn[i] == -1]
    circuit = [inlets.index(path(i)) for i in range(N)]
    k = len(inlets)
    cp = case.draw()
    if single:
        mt = case.draw() * sign
        margs = dict(m_flow_network=case.val('m', mt), cp_f=case.val('cp', cp))
        ntot = int(sum(x.r for x in w)) if eq else k
        mc = [mt / ntot] * k
    else:
        mv = case.draw((k,)) * sign
        margs = dict(m_flow_network=case.val('m', mv), cp_f=case.val('cp', cp))
        mc = list(mv)
    m = np.array([mc[c] for c in circuit], dtype=object)
    kw = dict(margs)
    nseg = [3] * N
    rats = [None] * N
    if seg == 'one':
        nseg = [1] * N
        kw['nSegments'] = e.cv(1)
    elif seg == 'list':
        nseg = [1 + i % 3 for i in range(N)]
        kw['nSegments'] = e.mk_list(st, [e.cv(x) for x in nseg])
        rats = [r / np.sum(r) for r in (case.draw((x,)) for x in nseg)]
        kw['segment_ratios'] = case.lst(st, 'r', rats)
    elif seg == 'ratios':
        kw['nSegments'] = e.cv(3)
        r = case.draw((3,))
        r = r / np.sum(r)
        rats = [r] * N
        kw['segment_ratios'] = case.val('r', r)
    else:
        kw['nSegments'] = e.cv(3)
    at = f'{shape}, flow {sign}, {"one flow rate" if single else "flow rate per circuit"}, {seg} segments'
    ck = Checker(case, cls, at)
    T = sum(nseg)
    pr = [relations(case, table, f'p{i}', m[i], cp, nseg[i], rats[i]) for i in range(N)]
    bd = case.A.funcs['scipy.linalg.block_diag']
    part = lambda name, j: mat(bd(*[p[name][j] for p in pr]))
    Ao, Bo = part('coefficients_outlet_temperature', 0), part('coefficients_outlet_temperature', 1)
    Aq, Bq = part('coefficients_borehole_heat_extraction_rate', 0), part('coefficients_borehole_heat_extraction_rate', 1)
    Mc = np.array([abs(x) * cp for x in m], dtype=object)
    get = lambda name: case.coefs(obj, cls, name, kw, st.copy())
    pair = lambda x: (mat(x[0]), mat(x[1]))
    v, _, l1 = get('coefficients_inlet_temperature')
    ai, bi = pair(v)
    v, _, l2 = get('coefficients_outlet_temperature')
    ao, bo = pair(v)
    v, _, l3 = get('coefficients_fluid_heat_extraction_rate')
    af, bf = pair(v)
    v, _, l4 = get('coefficients_borehole_heat_extraction_rate')
    aq, bq = pair(v)
    v, _, l5 = get('coefficients_network_outlet_temperature')
    an, bn = pair(v)
    v, _, l6 = get('coefficients_network_heat_extraction_rate')
    ah, bh = pair(v)
    v, _, l7 = get('coefficients_network_inlet_temperature')
    ar, br = pair(v)
    if ai.shape != (N, 1) or bi.shape != (N, T):
        case.res.undec('shape', f'{cls}|{at}', f'{ai.shape} {bi.shape}')
        return
    # where each borehole takes its fluid from
    up = {}
    for i in range(N):
        if sign > 0:
            up[i] = None if conn[i] == -1 else conn[i]
        else:
            up[i] = next((j for j in range(N) if conn[j] == i), None)
    last = [i for i in range(N) if not any(up[j] == i for j in range(N))]
    for i in range(N):
        if up[i] is None:
            wa, wb = [1], [0] * T
        else:
            wa, wb = ao[up[i]], bo[up[i]]
        ck.same('connection', 'coefficients_inlet_temperature', np.concatenate([ai[i], bi[i]]), np.concatenate([np.array(wa, dtype=object), np.array(wb, dtype=object)]),
                f'borehole {i} does not receive the fluid that the connections {conn} say', l1)
    both = lambda a, b: np.concatenate([a, b], axis=1)
    Z = np.zeros((N, 1), dtype=object)
    ck.same('connection', 'coefficients_outlet_temperature', both(ao, bo), Ao @ both(ai, bi) + both(Z, Bo), 'outlet temperatures do not follow from the inlet temperatures of the same boreholes', l2)
    ck.same('fluid heat', 'coefficients_fluid_heat_extraction_rate', both(af, bf), Mc[:, None] * (both(ao, bo) - both(ai, bi)), 'fluid heat rates are not the heat capacity rate times outlet minus inlet temperature', l3)
    ck.same('segments', 'coefficients_borehole_heat_extraction_rate', both(aq, bq), Aq @ both(ai, bi) + both(np.zeros((T, 1), dtype=object), Bq), 'heat rates of the segments do not follow from the inlet temperatures of the boreholes', l4)
    k0 = 0
    for i in range(N):
        ck.same('segments', 'coefficients_borehole_heat_extraction_rate', np.sum(both(aq, bq)[k0:k0 + nseg[i]], axis=0), both(af, bf)[i], f'heat rates of the segments of borehole {i} do not add up to that of the fluid', l4)
        k0 += nseg[i]
    q = both(ah, bh).reshape(-1)
    ck.same('network', 'coefficients_network_heat_extraction_rate', q, np.sum(w[:, None] * both(af, bf), axis=0), 'the total heat rate is not the sum over the boreholes', l6)
    mix = sum((w[i] * Mc[i]) * both(ao, bo)[i] for i in last) / sum(w[i] * Mc[i] for i in last)
    o = both(an, bn).reshape(-1)
    ck.same('mixing', 'coefficients_network_outlet_temperature', o, mix, 'the outlet temperature of the network is not the mean of the outlets weighted by their flow', l5)
    inlet = np.concatenate([np.array([1], dtype=object), np.zeros(T, dtype=object)])
    mtot = sum(w[i] * Mc[i] for i in last)
    ck.same('network', 'coefficients_network_heat_extraction_rate', q, mtot * (o - inlet), 'the total heat rate is not the total heat capacity rate times outlet minus inlet temperature of the network', l6)
    ck.same('inlet temperature', 'coefficients_network_inlet_temperature', ah.reshape(-1)[0] * ar.reshape(-1)[0], 1, 'the required inlet temperature does not invert the heat relation of the network', l7)
    ck.same('inlet temperature', 'coefficients_network_inlet_temperature', ah.reshape(-1)[0] * br.reshape(-1) + bh.reshape(-1), np.zeros(T, dtype=object), 'the required inlet temperature does not cancel the part of the wall temperatures', l7)
    ck.same('equilibrium', 'coefficients_outlet_temperature', ao[:, 0] + np.sum(bo, axis=1), np.ones(N, dtype=object), 'a fluid at the temperature of the walls does not keep it', l2)
    # evaluated quantities
    tin, qt = case.draw(), case.draw()
    for tb in (case.draw((T,)), case.draw()):
        uniform = not isinstance(tb, np.ndarray)
        tv = np.array([tb] * T, dtype=object) if uniform else tb
        ke = dict(kw, T_f_in=case.val('T_f_in', tin), Q_t=case.val('Q_t', qt), T_b=case.val('T_b_one' if uniform else 'T_b', tb))
        want = {'get_inlet_temperature': ai[:, 0] * tin + bi @ tv, 'get_outlet_temperature': ao[:, 0] * tin + bo @ tv, 'get_fluid_heat_extraction_rate': af[:, 0] * tin + bf @ tv,
                'get_borehole_heat_extraction_rate': aq[:, 0] * tin + bq @ tv, 'get_network_inlet_temperature': ar.reshape(-1)[0] * qt + br.reshape(-1) @ tv,
                'get_network_outlet_temperature': an.reshape(-1)[0] * tin + bn.reshape(-1) @ tv, 'get_network_heat_extraction_rate': ah.reshape(-1)[0] * tin + bh.reshape(-1) @ tv}
        for name, x in want.items():
            f = e.classes[cls].find(name)
            if f is None:
                raise scen.AnchorError(f'{cls}.{name}()')
            v, _, loc = case.coefs(obj, cls, name, {p: y for p, y in ke.items() if p in f.params}, st.copy())
            ck.same('evaluated', name, v, x, f'{name}() is not its relation applied to the temperatures given', loc, 'evaluations')
    f = next((x for x in scen.module_functions(e) if x.name == 'network_thermal_resistance'), None)
    if f is not None and seg == 'one':
        en = case.call('network_thermal_resistance', f, dict(margs, network=obj), st.copy())
        H = sum(w[i] * A.values[f'b{i}.H'] for i in range(N))
        ck.same('resistance', 'network_thermal_resistance', case.value(en.result, en.st), -H / 2 * (1 + an.reshape(-1)[0]) / ah.reshape(-1)[0],
                'the effective resistance is not (wall minus mean fluid temperature) over the heat rate per length', (f.module.file, f.node.lineno))


# ------------------------------------------------------------------------------------------------
def jobs(tier):
    out = []
    for cls, config in PIPE_CONFIGS:
        for reversible in (True, False):
            out.append(('pipe', cls, config, reversible))
    for cls in ('Network', '_EquivalentNetwork'):
        for shape in NETS:
            for sign in (1, -1):
                if cls == 'Network' or shape in ('parallel', 'unequal'):
                    out.append(('net', cls, shape, sign, tier))
    return out


def attempt(e_of, res, f, seed):
    """one generic point; another when this one has no image in the field"""
    from ..arrays import Unknown
    last = ''
    for k in range(60):
        r = Res()
        e = e_of()
        with Case(e, r, f'{seed}{k}') as case:
            try:
                f(case)
            except Skip as ex:
                last = str(ex)
                continue
            except Unknown as ex:
                r.undec('value', str(seed), str(ex)[:150])
        r.seen(e)
        res.merge(r)
        return
    res.undec('point', str(seed), last)


def run(job, root):
    res = Res()
    first = scen.engine(root)
    scen.need(first, '_BasePipe', 'Network', 'Borehole', *scen.PIPES)
    e_of = lambda: scen.engine(root)
    if job[0] == 'pipe':
        _, cls, config, rev = job
        multi = 'Multiple' in cls
        signs = [1, -1] + ([[1, -1]] if cls.startswith('Independent') else [])
        for sign in signs:
            for nseg, ratios in ((3, True), (1, False), (4, False)):
                for n in ((2, 1) if multi and ratios else (2,) if multi else (1,)):
                    s = sign[:n] if isinstance(sign, list) else sign
                    if isinstance(sign, list) and n == 1:
                        continue
                    attempt(e_of, res, lambda c: check_pipe(c, cls, config, nseg, ratios, s, rev, n), (job, str(sign), nseg, ratios, n))
    else:
        _, cls, shape, sign, tier = job
        if cls not in first.classes:
            return res
        for single in (True, False):
            if not single and 'quivalent' in cls:
                continue
            for seg in ('three', 'one', 'list', 'ratios'):
                attempt(e_of, res, lambda c: check_network(c, cls, shape, sign, single, seg), (job, single, seg))
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e_of = lambda: Engine(root, package='toy', attr_ty=model.ATTR_TY)
    toys = ['PipeToy', 'PipeSigned', 'PipeInlet', 'PipeSegments', 'PipeProfile', 'PipeUnbalanced', 'PipeEvaluated', 'PipeResistance']
    for cls in toys:
        for nseg, ratios in ((3, True), (1, False)):
            attempt(e_of, res, lambda c: check_pipe(c, cls, None, nseg, ratios, -1, True, 1, 'BoreToy'), (cls, nseg))
    for cls in ('NetToy', 'NetMixing', 'NetConnection', 'NetTotal'):
        attempt(e_of, res, lambda c: check_network(c, cls, 'unequal', -1, False, 'list', 'PipeToy', 'BoreToy'), cls)
    keys = {(f['rule'], f['construct'].split('.')[0]) for f in res.findings.values()}
    want = {('fluid heat', 'PipeSigned'), ('inlet temperature', 'PipeInlet'), ('segments', 'PipeSegments'), ('profile', 'PipeProfile'), ('equilibrium', 'PipeUnbalanced'),
            ('evaluated', 'PipeEvaluated'), ('resistance', 'PipeResistance'), ('mixing', 'NetMixing'), ('connection', 'NetConnection'), ('network', 'NetTotal')}
    assert want <= keys, (want - keys, res.undecided)
    assert not any(k[1] in ('PipeToy', 'NetToy') for k in keys), keys
    assert not any('Toy' in k for k in res.undecided), res.undecided
    return res
