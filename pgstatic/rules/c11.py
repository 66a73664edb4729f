"""C11: invalid configurations are rejected, never silently accepted."""
import os

from .. import fold, ival, model, scen
from ..engine import Engine
from ..ival import const, lst, num
from ..report import Res

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LEVEL = 'other'
EXPECT = ['accepted', 'fallthrough']
EXPLAIN = ('Abstract interpretation (intervals, lists of known shape, constants). Every entry point is analysed for every class of '
           'invalid configuration of its arguments: the path condition of each raise statement reached through the call graph is '
           'evaluated over the box of invalid values. Rule: some raise is taken for all values of the box. A configuration is '
           'reported when no raise that depends on the invalid arguments can be taken; when this cannot be decided the '
           'obligation is counted as undecided.')
ASSUME = ['interval arithmetic over reals; loops over lists of known length are unrolled', 'boxes: one or more per kind of invalidity, chosen in this file']
MIN = {'rejected': 60, 'constants rejected': 10}
BOGUS = 'not a valid name'


# ------------------------------------------------------------------------------------------------
def decide(e, events, env, attrs, focus, types=None, dead=False, st=None, st0=None):
    """'rejected' | 'accepted' | 'undecided': is some raise taken for all values in the box?

    st: state at normal exit.  Its path condition holds on every accepting path, so it may be assumed: if a raise is then
    taken for all values, there is no accepting path."""
    if dead:
        return 'rejected' if any(ev.kind == 'raise' for ev in events) else 'undecided'
    A = ival.Abs(e.g, env, attrs, types)
    exitpc = {(c.id, v) for c, v in (st.pc if st is not None else ())} | {(c.id, v) for c, v in (st0.pc if st0 is not None else ())}
    for c, v in (st.pc if st is not None else ()):
        t = A.t(c)
        if t is not None and t != v and depends(e.g, c, focus):
            return 'rejected'
    verdict = 'accepted'
    for ev in events:
        if ev.kind != 'raise':
            continue
        guard = [(c, v, A.t(c)) for c, v in ev.pc if (c.id, v) not in exitpc]
        if any(t is not None and t != v for c, v, t in guard) or any(A.t(c) not in (None, v) for c, v in ev.pc):
            continue
        if all(t == v for c, v, t in guard):
            if guard:
                return 'rejected'
            continue
        if any(depends(e.g, c, focus) for c, v, t in guard):
            verdict = 'undecided'
    return verdict


def depends(g, c, focus):
    for n in fold.subnodes(g, [c]):
        if n.op == 'sym' and n.data in focus:
            return True
        if n.op == 'call' and n.data[0].startswith('method:') and n.data[0][7:] in focus or n.op == 'attr' and n.data in focus:
            return True
    return False


def report(res, out, label, what, fi):
    if out == 'rejected':
        res.count('rejected')
        res.cover[f'{label}: {what}'] = True
    elif out == 'accepted':
        res.find('accepted', f'{label}|{what}', f'{label} accepts {what}: no raise is reached', (fi.module.file, fi.node.lineno))
    else:
        res.undec('accepted', f'{label}|{what}', 'not decided')


# ------------------------------------------------------------------------------------------------
def pipe_job(cls, root, res):
    """Geometry and properties of pipes."""
    e = scen.engine(root)
    pc = e.classes['_BasePipe']
    fi = e.classes[cls].find('__init__')
    # the resistances themselves are not needed to decide the validity of the geometry
    e.opaque = lambda f, s: f.name in ('update_thermal_resistances', 'thermal_resistances', 'multipole')
    st = e.new_state()
    coax = cls == 'Coaxial'
    npos = 1 if coax else 2 if cls == 'SingleUTube' else 4
    over = dict(types={})
    pos = [e.mk_tup([e.sym(f'px{i}', 'float'), e.sym(f'py{i}', 'float')]) for i in range(npos)]
    env = {'k_s': num(.5, 5), 'k_g': num(.5, 3), 'J': num(0, 3), 'nPipes': num(2)}
    attrs = {'borehole.r_b': num(.075, .08), 'borehole.H': num(50, 200), 'borehole.D': num(1, 5)}
    if coax:
        kw = dict(pos=pos[0])
        env['px0'], env['py0'] = num(0), num(0)
        for k, v in (('r_in', ((.020, .021), (.045, .046))), ('r_out', ((.023, .024), (.049, .050))), ('R_fp', ((.05, .2), (.05, .2)))):
            names = [f'{k}{i}' for i in range(2)]
            kw[k] = e.mk_list(st, [e.sym(x, 'float') for x in names])
            for x, b in zip(names, v):
                env[x] = num(*b)
        env['R_ff'] = num(.05, .2)
    else:
        kw = dict(pos=e.mk_list(st, pos))
        for i, (x, y) in enumerate([(-.04, 0), (.04, 0), (0, .04), (0, -.04)][:npos] if npos < 4 else [(-.04, 0), (0, .04), (.04, 0), (0, -.04)]):
            env[f'px{i}'], env[f'py{i}'] = num(x), num(y)
        env.update(r_in=num(.010, .011), r_out=num(.013, .014), R_fp=num(.05, .2))
        kw['nPipes'] = e.cv(2)
    kw = {k: v for k, v in kw.items() if k in fi.params}
    n0 = len(e.events)
    kws = scen.sy(e, fi, **kw)
    o, st = e.construct(f'{e.classes[cls].module.name}.{cls}', kwargs=kws, st=st)
    evs = e.events[n0:]
    if o is None:
        raise scen.AnchorError(f'{cls}() cannot be analysed')
    A = ival.Abs(e.g, env, attrs)
    base = decide(e, evs, env, attrs, set(env), st=st)
    if base == 'rejected':
        res.undec('accepted', f'{cls}|valid geometry', 'the reference geometry is rejected')
        return

    V = []
    tiny = 1e-12
    for p in ('k_s', 'k_g'):
        V += [(f'{p} < 0', {p: num(-5, -tiny)}), (f'{p} = 0', {p: num(0)})]
    V += [('J < 0', {'J': num(-3, -1)})]
    if coax:
        for i in range(2):
            V += [(f'R_fp[{i}] < 0', {f'R_fp{i}': num(-1, -tiny)}), (f'R_fp[{i}] = 0', {f'R_fp{i}': num(0)})]
            V += [(f'r_in[{i}] < 0', {f'r_in{i}': num(-.02, -tiny)}), (f'r_out[{i}] < r_in[{i}]', {f'r_in{i}': num(.0305, .032), f'r_out{i}': num(.028, .030)})]
            V += [(f'r_out[{i}] = r_in[{i}]', {f'r_in{i}': env[f'r_out{i}'][:1] + (env[f'r_out{i}'][1],) * 2, f'r_out{i}': env[f'r_out{i}'][:1] + (env[f'r_out{i}'][1],) * 2})]
        V += [('r_in[0] = 0', {'r_in0': num(0)})]
        V += [('R_ff < 0', {'R_ff': num(-1, -tiny)})]
        V += [('inner pipe not inside the outer pipe', {'r_in0': num(.041, .042), 'r_out0': num(.0475, .048)}),
              ('inner pipe touching the outer pipe', {'r_in0': num(.041, .042), 'r_out0': num(.045), 'r_in1': num(.045)}),
              ('outer pipe larger than the borehole', {'r_in1': num(.085, .088), 'r_out1': num(.09, .1)}),
              ('pipe partly outside the borehole', {'px0': num(.04)}), ('pipe partly outside the borehole (y)', {'py0': num(-.04)})]
    else:
        V += [('R_fp < 0', {'R_fp': num(-1, -tiny)}), ('R_fp = 0', {'R_fp': num(0)}), ('r_in < 0', {'r_in': num(-.01, -tiny)}), ('r_in = 0', {'r_in': num(0)}),
              ('r_out < r_in', {'r_in': num(.0131, .014), 'r_out': num(.012, .013)}), ('r_out = r_in', {'r_in': num(.0125), 'r_out': num(.0125)})]
        for i in range(npos):
            V += [(f'pipe {i} outside the borehole', {f'px{i}': num(.2, 10), f'py{i}': num(.2, 10)}),
                  (f'pipe {i} partly outside the borehole (x)', {f'px{i}': num(.07), f'py{i}': num(0)}),
                  (f'pipe {i} partly outside the borehole (y)', {f'px{i}': num(0), f'py{i}': num(-.07)}),
                  (f'pipe {i} partly outside the borehole (x, y)', {f'px{i}': num(-.05), f'py{i}': num(.05)})]
            for j in range(i):
                V += [(f'pipes {j} and {i} overlapping', {f'px{i}': env[f'px{j}'], f'py{i}': num(env[f'py{j}'][1] + .025)}),
                      (f'pipes {j} and {i} overlapping (x)', {f'px{i}': num(env[f'px{j}'][1] + (.02 if env[f'px{j}'][1] <= 0 else -.02)), f'py{i}': env[f'py{j}']}),
                      (f'pipes {j} and {i} at the same position', {f'px{i}': env[f'px{j}'], f'py{i}': env[f'py{j}']})]
    for what, ch in V:
        if not set(ch) <= set(env):
            continue
        out = decide(e, evs, {**env, **ch}, attrs, set(ch), st=st)
        report(res, out, f'{cls}()', what, fi)
    res.entry(f'{cls}()')
    res.seen(e)


# ------------------------------------------------------------------------------------------------
def mk_boreholes(e, st, n=3, tag='bh'):
    return [e.sym(f'{tag}{i}', 'Borehole', owner='user:boreholes') for i in range(n)]


def bh_attrs(n=3, tag='bh'):
    a = {}
    for i in range(n):
        a.update({f'{tag}{i}.H': num(100, 150), f'{tag}{i}.D': num(2, 4), f'{tag}{i}.r_b': num(.07, .08), f'{tag}{i}.x': num(7.5 * i), f'{tag}{i}.y': num(0),
                  f'{tag}{i}.tilt': num(0), f'{tag}{i}.orientation': num(0), f'{tag}{i}._is_tilted': ('b', False)})
    return a


def network(e, st, conn, nb=3, npipes=None, **over):
    """Network of nb boreholes with a literal connectivity; returns (object or None, state, events, ctor)"""
    ci = e.classes['Network']
    fi = ci.find('__init__')
    b = e.mk_list(st, mk_boreholes(e, st, nb))
    p = e.mk_list(st, [e.sym(f'pipe{i}', '_BasePipe', owner='user:pipes') for i in range(npipes or nb)])
    kw = scen.sy(e, fi, boreholes=b, pipes=p, **over)
    kw['bore_connectivity'] = e.cv(None) if conn is None else e.mk_list(st, [e.cv(i) for i in conn])
    for k in ('m_flow_network', 'cp_f', 'nSegments', 'segment_ratios'):
        if k not in over and k in kw:
            kw[k] = e.cv(None) if k != 'nSegments' else kw[k]
    n0 = len(e.events)
    try:
        o, st = e.construct(f'{ci.module.name}.{ci.name}', kwargs=kw, st=st)
    except Exception as ex:
        if type(ex).__name__ != 'DeadPath':
            raise
        o = None
    return o, st, e.events[n0:], fi


def network_job(root, res):
    # connectivity
    for what, conn in (('connectivity shorter than the number of boreholes', [-1, 0]), ('connectivity longer than the number of boreholes', [-1, 0, 1, 2]),
                       ('connectivity with a borehole that does not exist', [-1, 0, 3]), ('connectivity with a borehole far out of range', [-1, 0, 30]),
                       ('two boreholes with the same inlet', [-1, 0, 0]), ('two boreholes with the same inlet (last)', [2, 2, -1]), ('a loop without inlet', [1, 2, 0]),
                       ('a borehole connected to itself', [-1, 1, 0]), ('a loop of two boreholes', [-1, 2, 1])):
        e = scen.engine(root)
        scen.pipe_opaque(e)
        st = e.new_state()
        o, st, evs, fi = network(e, st, conn)
        out = decide(e, evs, {}, bh_attrs(), {'bore_connectivity'}, dead=o is None, st=st)
        if out == 'accepted' and any(ev.kind == 'raise' and ev.pc and ev.loc and ev.loc[0].endswith('networks.py') for ev in evs):
            # a raise whose condition could not be folded
            A = ival.Abs(e.g, {}, bh_attrs())
            if any(ev.kind == 'raise' and all(A.t(c) in (None, v) for c, v in ev.pc) for ev in evs):
                out = 'undecided'
        report(res, out, 'Network()', what, fi)
        res.seen(e)
    res.entry('Network()')
    # arguments of every query
    for cls in ('Network',):
        conn = [-1, 0, -1]
        e = scen.engine(root)
        scen.pipe_opaque(e)
        o, st, evs, fi = network(e, e.new_state(), conn)
        if o is None:
            raise scen.AnchorError('a valid network cannot be built')
        for f in scen.public_methods(e, cls, dunder=False):
            if 'm_flow_network' not in f.params or scen.kind_of(f) != 'method':
                continue
            shapes = [('valid', {}, None)]
            ok = dict(m_flow_network=num(.1, 2), cp_f=num(3000, 4000), nSegments=num(12))
            for what, ch in (('flow vector of the wrong length', dict(m_flow_network=3)), ('heat capacity vector of the wrong length', dict(cp_f=3)),
                             ('number of segments of the wrong length', dict(nSegments=2))):
                p, k = list(ch.items())[0]
                if p not in f.params:
                    continue
                s2 = st.copy()
                v = e.mk_list(s2, [e.sym(f'{p}_{i}', 'float') for i in range(k)])
                env = {x: y for x, y in ok.items() if x != p}
                env.update({f'{p}_{i}': num(1 + i, 1 + i) if p != 'cp_f' else num(4000) for i in range(k)})
                en = scen.call(e, f.name, f, scen.sy(e, f, **{p: v}), s2, o)
                out = decide(e, en.events, env, bh_attrs(), {f'{p}_{i}' for i in range(k)} | {p}, dead=en.result is None, st=en.st, st0=st)
                report(res, out, f'{cls}.{f.name}()', what, f)
            s2 = st.copy()
            v = e.mk_list(s2, [e.sym(f'm_{i}', 'float') for i in range(2)])
            en = scen.call(e, f.name, f, scen.sy(e, f, m_flow_network=v), s2, o)
            for what, vals in (('flow rates of both signs', (num(.5, 1), num(-1, -.5))), ('flow rates of both signs (negative first)', (num(-1, -.5), num(.5, 1)))):
                env = {**ok, 'm_0': vals[0], 'm_1': vals[1]}
                report(res, decide(e, en.events, env, bh_attrs(), {'m_0', 'm_1'}, dead=en.result is None, st=en.st, st0=st), f'{cls}.{f.name}()', what, f)
            s2 = st.copy()
            v = e.mk_list(s2, [e.sym(f'c_{i}', 'float') for i in range(2)])
            env = {**ok, 'c_0': num(4000), 'c_1': num(3000)}
            en = scen.call(e, f.name, f, scen.sy(e, f, cp_f=v), s2, o)
            report(res, decide(e, en.events, env, bh_attrs(), {'c_0', 'c_1'}, dead=en.result is None, st=en.st, st0=st), f'{cls}.{f.name}()', 'different heat capacities in the circuits', f)
            if 'segment_ratios' in f.params:
                s2 = st.copy()
                env = {**ok, 'segment_ratios': const('uniform')}
                en = scen.call(e, f.name, f, scen.sy(e, f, segment_ratios=e.cv('uniform')), s2, o)
                report(res, decide(e, en.events, env, bh_attrs(), {'segment_ratios'}, dead=en.result is None, st=en.st, st0=st), f'{cls}.{f.name}()', 'segment ratios of the wrong type', f)
            res.entry(f'{cls}.{f.name}')
        res.seen(e)


OPAQUE = [('thermal_resistances', 'multipole', '_check_geometry', 'coefficients_temperature'), ('thermal_resistances', 'multipole', '_check_geometry')]


def independent_job(root, res):
    cls = 'IndependentMultipleUTube'
    e = scen.engine(root)
    e.opaque = lambda f, s: f.name in ('thermal_resistances', 'multipole', '_check_geometry', 'coefficients_temperature')
    c = scen.ctor(e, cls, nPipes=e.cv(2))
    if c.obj is None:
        raise scen.AnchorError(f'{cls}() cannot be analysed')
    for f in scen.public_methods(e, cls, dunder=False):
        if 'm_flow_borehole' not in f.params or scen.kind_of(f) != 'method':
            continue
        for p, what in (('m_flow_borehole', 'flow vector of the wrong length'), ('cp_f', 'heat capacity vector of the wrong length')):
            if p not in f.params:
                continue
            s2 = c.st.copy()
            v = e.mk_list(s2, [e.sym(f'{p}_{i}', 'float') for i in range(3)])
            env = {'m_flow_borehole': num(.1, 1), 'cp_f': num(4000), 'nPipes': num(2), **{f'{p}_{i}': num(1) for i in range(3)}}
            e.opaque = lambda fi, s: fi.name in OPAQUE[f.name in ('coefficients_temperature', 'get_temperature')]
            en = scen.call(e, f.name, f, scen.sy(e, f, **{p: v}), s2, c.obj)
            report(res, decide(e, en.events, env, {}, {f'{p}_{i}' for i in range(3)} | {p}, dead=en.result is None, st=en.st, st0=c.st), f'{cls}.{f.name}()', what, f)
        res.entry(f'{cls}.{f.name}')
    res.seen(e)


# ------------------------------------------------------------------------------------------------
def gf_call(e, over, opts=None, method='similarities', bc='UBWT', nb=2):
    """gFunction over a literal list of symbolic boreholes."""
    scen.pipe_opaque(e)
    heavy(e)
    st = e.new_state()
    ci = e.classes['gFunction']
    fi = ci.find('__init__')
    kw = scen.sy(e, fi, types={'time': 'array'}, method=e.cv(method), boundary_condition=e.cv(bc))
    kw['boreholes_or_network'] = e.mk_list(st, mk_boreholes(e, st, nb))
    for k in ('m_flow_network', 'm_flow_borehole', 'cp_f'):
        if k in kw:
            kw[k] = e.cv(None)
    kw['time'] = e.cv(None)
    d = {'nSegments': e.cv(2), 'disp': e.cv(False), 'profiles': e.cv(False)}
    d.update(opts or {})
    kw['options'] = e.mk_dict(st, d)
    kw.update({k: (v(st) if callable(v) else v) for k, v in over.items()})
    n0 = len(e.events)
    o = None
    try:
        o, st = e.construct(f'{ci.module.name}.{ci.name}', kwargs=kw, st=st)
    except Exception as ex:
        if type(ex).__name__ != 'DeadPath':
            raise
    return o, st, e.events[n0:], fi


GF_CASES = {
    # what: (method, bc, ctor overrides, options, env, focus, types)
    'nFLS = 0': ('similarities', 'UBWT', {}, {'nFLS': ('sym', 'int')}, {'nFLS': num(0)}),
    'nFLS < 0': ('similarities', 'UBWT', {}, {'nFLS': ('sym', 'int')}, {'nFLS': num(-9, -1)}),
    'nFLS > 25': ('similarities', 'UBWT', {}, {'nFLS': ('sym', 'int')}, {'nFLS': num(26, 100)}),
    'disTol = 0 (similarities)': ('similarities', 'UBWT', {}, {'disTol': ('sym', 'float')}, {'disTol': num(0)}),
    'disTol < 0 (similarities)': ('similarities', 'UBWT', {}, {'disTol': ('sym', 'float')}, {'disTol': num(-1, -1e-9)}),
    'tol = 0 (similarities)': ('similarities', 'UBWT', {}, {'tol': ('sym', 'float')}, {'tol': num(0)}),
    'tol < 0 (similarities)': ('similarities', 'UBWT', {}, {'tol': ('sym', 'float')}, {'tol': num(-1, -1e-9)}),
    'disTol = 0 (equivalent)': ('equivalent', 'UBWT', {}, {'disTol': ('sym', 'float')}, {'disTol': num(0)}),
    'disTol < 0 (equivalent)': ('equivalent', 'UBWT', {}, {'disTol': ('sym', 'float')}, {'disTol': num(-1, -1e-9)}),
    'tol = 0 (equivalent)': ('equivalent', 'UBWT', {}, {'tol': ('sym', 'float')}, {'tol': num(0)}),
    'tol < 0 (equivalent)': ('equivalent', 'UBWT', {}, {'tol': ('sym', 'float')}, {'tol': num(-1, -1e-9)}),
    'kClusters < 0': ('equivalent', 'UBWT', {}, {'kClusters': ('sym', 'int')}, {'kClusters': num(-5, -1)}),
}


HEAVY = ('find_groups', 'find_similarities', 'find_unique_distances', 'solve', 'thermal_response_factors', 'evaluate_g_function', 'segment_lengths', 'borehole_segments')


def heavy(e):
    """numerical work that comes after the validation of the inputs"""
    prev = e.opaque
    e.opaque = lambda f, s: bool(prev and prev(f, s)) or f.name in HEAVY


def gf_job(arg, root, res):
    fi = None
    part, _, arg = arg.partition(':')
    if part == 'options':
        m, what = arg.split(':')
        m, bc, over, opts, env = GF_CASES[what]
        e = scen.engine(root)
        od = {k: e.sym(k, v[1]) for k, v in opts.items()}
        types = {k: v[1] for k, v in opts.items()}
        o, st, evs, fi = gf_call(e, over, od, m, bc)
        report(res, decide(e, evs, env, bh_attrs(2), set(env), types, dead=o is None, st=st), f'gFunction({m})', what, fi)
        res.seen(e)
        res.entry(f'gFunction({m})')
        return
    m = arg
    if part == 'cases':
        cases = []

        def case(what, over=None, opts=None, env=None, attrs=None, focus=(), nb=2, bc='UBWT', types=None):
            cases.append((what, over or {}, opts or {}, env or {}, attrs or {}, set(focus), nb, bc, types or {}))
        case('an empty list of boreholes', nb=0, focus=('boreholes',))
        case('duplicate boreholes', attrs={'bh0.x': num(3), 'bh1.x': num(3)}, focus=('bh0', 'bh1', 'x', 'y'))
        case('a mixed inlet temperature without a network', bc='MIFT', focus=('boreholes',))
        case('number of segments = 0', opts={'nSegments': lambda e, st: e.sym('nSegments', 'int')}, env={'nSegments': num(0)}, focus=('nSegments',))
        case('number of segments of the wrong length', opts={'nSegments': lambda e, st: e.mk_list(st, [e.cv(2), e.cv(2), e.cv(2)])}, focus=('nSegments',))
        case('segment ratios of the wrong length', opts={'segment_ratios': lambda e, st: e.mk_list(st, [e.mk_list(st, [e.sym(f'sr{i}', 'float') for i in range(3)]) for _ in range(2)])},
             env={'sr0': num(.3), 'sr1': num(.3), 'sr2': num(.4)}, focus=('sr0', 'sr1', 'sr2'))
        case('segment ratios that do not add up to one', opts={'segment_ratios': lambda e, st: e.mk_list(st, [e.mk_list(st, [e.sym(f'sr{i}', 'float') for i in range(2)]) for _ in range(2)])},
             env={'sr0': num(.3, .4), 'sr1': num(.3, .4)}, focus=('sr0', 'sr1'))
        case('segment ratios that add up to more than one', opts={'segment_ratios': lambda e, st: e.mk_list(st, [e.mk_list(st, [e.sym(f'sr{i}', 'float') for i in range(2)]) for _ in range(2)])},
             env={'sr0': num(.6, .7), 'sr1': num(.6, .7)}, focus=('sr0', 'sr1'))
        case('unordered times', over={'time': lambda e, st: e.mk_list(st, [e.sym('t0', 'float'), e.sym('t1', 'float')])}, env={'t0': num(50, 60), 't1': num(10, 20)}, focus=('t0', 't1'),
             types={})
        for o_, what, v_, ty_ in (('dtype', 'a data type that is not supported', const('int'), 'str'), ('kind', 'a kind of interpolation that is not a name', num(3), 'int'),
                              ('disp', 'a display switch that is not a boolean', const('yes'), 'str'), ('profiles', 'a profile switch that is not a boolean', const('yes'), 'str'),
                              ('approximate_FLS', 'an approximation switch that is not a boolean', const('yes'), 'str')):
            case(what, opts={o_: lambda e, st, o_=o_: e.sym(o_, None)}, env={o_: v_}, focus=(o_,), types={o_: ty_})
        if m == 'equivalent':
            case('inclined boreholes', attrs={'bh1._is_tilted': ('b', True), 'bh1.tilt': num(.1, .2)}, focus=('bh1', '_is_tilted', 'tilt'))
            case('different numbers of segments', opts={'nSegments': lambda e, st: e.mk_list(st, [e.cv(2), e.cv(3)])}, focus=('nSegments',))
        for what, over, opts, env, attrs, focus, nb, bc, types in cases:
            e = scen.engine(root)
            o, st, evs, fi = gf_call2(e, over, opts, m, bc, nb)
            at = {**bh_attrs(nb), **attrs}
            report(res, decide(e, evs, env, at, focus, {'alpha': 'float', **types}, dead=o is None, st=st), f'gFunction({m})', what, fi)
        res.entry(f'gFunction({m})')
    else:
        # mixed inlet temperature: flow rates and heat capacity
        for what, mb, mn, cp in (('a network without flow rate', False, False, True), ('two flow rates', True, True, True), ('a network without heat capacity', True, False, False)):
            e = scen.engine(root)
            scen.pipe_opaque(e)
            over = dict(m_flow_borehole=e.sym('m_flow_borehole', 'float') if mb else e.cv(None), m_flow_network=e.sym('m_flow_network', 'float') if mn else e.cv(None),
                        cp_f=e.sym('cp_f', 'float') if cp else e.cv(None))
            heavy(e)
            st = e.new_state()
            net, st, _, _ = network(e, st, [-1, -1], nb=2, m_flow_network=e.cv(None), cp_f=e.cv(None))
            over['boreholes_or_network'] = net
            try:
                c = scen.gfunc(e, m, 'MIFT', st=st, kw_over=over)
                evs, o = c.events, c.obj
            except Exception as ex:
                if type(ex).__name__ != 'DeadPath':
                    raise
                evs, o = e.events, None
            fi = e.classes['gFunction'].find('__init__')
            env = {'m_flow_borehole': num(.2), 'm_flow_network': num(.2), 'cp_f': num(4000), 'alpha': num(1e-6)}
            report(res, decide(e, evs, env, {}, {'m_flow_borehole', 'm_flow_network', 'cp_f'}, {'alpha': 'float'}, dead=o is None, st=c.st if o is not None else None), f'gFunction({m},MIFT)', what, fi)
            res.seen(e)


def gf_call2(e, over, opts, m, bc, nb):
    st0 = {}
    return gf_call(e, {k: (lambda st, v=v: v(e, st)) for k, v in over.items()}, None, m, bc, nb) if not opts else gf_opts(e, over, opts, m, bc, nb)


def gf_opts(e, over, opts, m, bc, nb):
    def options(st):
        d = {'nSegments': e.cv(2), 'disp': e.cv(False), 'profiles': e.cv(False)}
        d.update({k: v(e, st) for k, v in opts.items()})
        return e.mk_dict(st, d)
    return gf_call(e, {'options': options, **{k: (lambda st, v=v: v(e, st)) for k, v in over.items()}}, None, m, bc, nb)


# ------------------------------------------------------------------------------------------------
ENUMS = ('method', 'boundary_condition', 'pipe_type', 'pipe_type_str', 'config', 'fluid_str', 'direction')


def mentions(g, events, text):
    for ev in events:
        if ev.kind != 'raise':
            continue
        for c, v in ev.pc:
            for n in fold.subnodes(g, [c]):
                if n.op == 'const' and isinstance(n.data, str) and n.data.lower() == text.lower():
                    return True
    return False


def enum_entries(e):
    """(label, function, parameter, class) of every argument that is one of a set of names"""
    out = []
    for fi in scen.module_functions(e):
        for p in fi.params:
            if p in ENUMS:
                out.append((fi.qual.split('.', 1)[1], fi, p, None))
    for cn, ci in sorted(e.classes.items()):
        if cn.startswith('_') or '.' in cn:
            continue
        for f in scen.public_methods(e, cn, dunder=False) + ([ci.find('__init__')] if ci.find('__init__') else []):
            for p in f.params:
                if p in ENUMS:
                    out.append((f'{cn}.{f.name}', f, p, cn))
    return out


def enum_job(arg, root, res):
    label0, p0 = arg.split('|')
    for bogus in (BOGUS, ''):
        e = scen.engine(root)
        for label, fi, p, cn in enum_entries(e):
            if label != label0 or p != p0:
                continue
            scen.pipe_opaque(e)
            if p == 'config':
                pc = e.classes['_BasePipe']
                e.opaque = lambda f, s: f.name in ('thermal_resistances', 'multipole', '_check_geometry', 'coefficients_temperature')
            n0 = len(e.events)
            alive = True
            st = e.new_state()
            try:
                if cn is None:
                    en = scen.call(e, label, fi, scen.sy(e, fi, **{p: e.cv(bogus)}), st)
                    alive = en.result is not None
                elif fi.name == '__init__':
                    en = scen.ctor(e, cn, st=st, **{p: e.cv(bogus)})
                    alive = en.obj is not None
                    if alive and p == 'config':
                        # the configuration is used when coefficients are asked for
                        alive = False
                        for m in ('coefficients_outlet_temperature', 'coefficients_inlet_temperature', 'coefficients_fluid_heat_extraction_rate'):
                            f = e.classes[cn].find(m)
                            if f is None:
                                continue
                            r = scen.call(e, m, f, scen.sy(e, f), en.st.copy(), en.obj)
                            alive = alive or r.result is not None
                elif scen.kind_of(fi) == 'class':
                    over = {p: e.cv(bogus)}
                    if p != 'method' and 'method' in fi.params:
                        over['method'] = e.cv('equivalent')
                    if p == 'boundary_condition':
                        for x in ('pipe_type_str',):
                            if x in fi.params:
                                over[x] = e.cv('SINGLEUTUBE')
                    if p != 'boundary_condition' and 'boundary_condition' in fi.params:
                        over['boundary_condition'] = e.cv('MIFT')
                    en = scen.call(e, label, fi, scen.sy(e, fi, **over), st)
                    alive = en.result is not None
                else:
                    c = scen.ctor(e, cn, st=st)
                    over = {p: e.cv(bogus)}
                    if p != 'method' and 'method' in fi.params:
                        over['method'] = e.cv('equivalent')
                    if p != 'boundary_condition' and 'boundary_condition' in fi.params:
                        over['boundary_condition'] = e.cv('UBWT')
                    en = scen.call(e, label, fi, scen.sy(e, fi, **over), c.st.copy(), c.obj)
                    alive = en.result is not None
            except Exception as ex:
                if type(ex).__name__ != 'DeadPath':
                    raise
                alive = False
            evs = e.events[n0:]
            if not alive:
                if any(ev.kind == 'raise' for ev in evs):
                    res.count('constants rejected')
                    res.cover[f'{label}: {p} = {bogus!r}'] = True
                else:
                    res.undec('fallthrough', f'{label}|{p}', 'no result')
            elif mentions(e.g, evs, bogus) if bogus else True:
                res.undec('fallthrough', f'{label}|{p}', 'not decided')
            else:
                res.find('fallthrough', f'{label}|{p}', f'{label} accepts {p} = {bogus!r}: no path raises', (fi.module.file, fi.node.lineno))
            res.entry(f'{label}({p})')
        res.seen(e)


# ------------------------------------------------------------------------------------------------
def misc_job(root, res):
    # objects of another type in a field
    for cls, ops in (('Borefield', ('__add__', '__radd__')),):
        for op in ops:
            for what, mk in (('a number', lambda e, st: e.cv(3.)), ('a name', lambda e, st: e.cv('x')), ('nothing', lambda e, st: e.cv(None))):
                e = scen.engine(root)
                scen.pipe_opaque(e)
                c = scen.ctor(e, cls)
                f = e.classes[cls].find(op)
                if f is None:
                    continue
                st = c.st.copy()
                p = [x for x in f.params if x != 'self'][0]
                dead = False
                try:
                    en = scen.call(e, op, f, {p: mk(e, st)}, st, c.obj)
                    evs, dead = en.events, en.result is None
                except Exception as ex:
                    if type(ex).__name__ != 'DeadPath':
                        raise
                    evs, dead = e.events, True
                out = decide(e, evs, {}, {}, {p}, dead=dead, st=None if dead else en.st, st0=c.st)
                report(res, out, f'{cls}.{op}()', what, f)
                res.seen(e)
    e = scen.engine(root)
    f = e.funcs.get('pygfunction.utilities.segment_ratios')
    if f is None:
        raise scen.AnchorError('utilities.segment_ratios')
    for what, env in (('zero segments', {'nSegments': num(0)}), ('a negative number of segments', {'nSegments': num(-4, -1)}), ('an end length ratio of zero', {'end_length_ratio': num(0)}),
                      ('a negative end length ratio', {'end_length_ratio': num(-.3, -.001)}), ('an end length ratio of one half', {'end_length_ratio': num(.5)}),
                      ('an end length ratio above one half', {'end_length_ratio': num(.51, 2)})):
        en = scen.call(e, 'segment_ratios', f, scen.sy(e, f))
        ok = {'nSegments': num(8, 8), 'end_length_ratio': num(.02, .05)}
        report(res, decide(e, en.events, {**ok, **env}, {}, set(env), {'nSegments': 'int', 'end_length_ratio': 'float'}, dead=en.result is None, st=en.st), 'segment_ratios()', what, f)
        res.entry('segment_ratios')
    res.seen(e)


def jobs(tier):
    e = scen.engine(None)
    en = sorted({f'enum:{label}|{p}' for label, fi, p, cn in enum_entries(e)})
    return ([f'gf:options:{v[0]}:{k}' for k, v in GF_CASES.items()] + [f'gf:{p}:{m}' for m in scen.METHODS for p in ('cases', 'mift')]
            + ['network'] + [f'pipe:{c}' for c in scen.PIPES] + ['independent', 'misc'] + en)


def run(job, root):
    res = Res()
    kind, _, arg = job.partition(':')
    if kind == 'pipe':
        pipe_job(arg, root, res)
    elif kind == 'enum':
        enum_job(arg, root, res)
    elif kind == 'gf':
        gf_job(arg, root, res)
    else:
        dict(network=network_job, independent=independent_job, misc=misc_job)[kind](root, res)
    return res


def selftest():
    res = Res()
    e = Engine(os.path.join(HERE, 'selftest'), package='toy', attr_ty=model.ATTR_TY)
    for q in ('toy.c11.area', 'toy.c11.area_bad', 'toy.c11.area_boundary'):
        f = e.funcs[q]
        en = scen.call(e, q, f, scen.sy(e, f))
        for what, b in (('r_in < 0', num(-3, -.1)), ('r_in = 0', num(0))):
            report(res, decide(e, en.events, {'r_in': b, 'r_out': num(1, 2)}, {}, {'r_in'}, st=en.st), q, what, f)
    for q in ('toy.c11.pick', 'toy.c11.pick_bad'):
        f = e.funcs[q]
        n0 = len(e.events)
        en = scen.call(e, q, f, scen.sy(e, f, method=e.cv(BOGUS)))
        if en.result is not None and not mentions(e.g, e.events[n0:], BOGUS):
            res.find('fallthrough', f'{q}|method', '')
    n = sorted((f['rule'], f['construct'].split('.')[-1]) for f in res.findings.values())
    assert n == [('accepted', 'area_bad|r_in < 0'), ('accepted', 'area_bad|r_in = 0'), ('accepted', 'area_boundary|r_in = 0'), ('fallthrough', 'pick_bad|method')], n
    assert res.counts['rejected'] == 3
    return res
