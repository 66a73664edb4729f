"""C03: network results do not depend on call history."""
import os

from .. import history, ival, model, scen
from ..engine import Engine
from ..ival import const, lst, num
from ..report import Res
from . import c02, c11

HERE = c02.HERE
LEVEL = 'other'
EXPECT = ['stale', 'stale resistances', 'aliased']
EXPLAIN = ('As C02, on networks: explicit exploration of the reachable states of a network object (three boreholes in two circuits, one '
           'of them in series) under every query with two sets of arguments that differ in one input (total and per-circuit flow '
           'rates, direction, heat capacity, numbers of segments, segment ratios), over the value graph of the code. Rule: every result is '
           'computed as on a fresh network. The coefficients of the pipes are uninterpreted here (C02), except in the rule on '
           'replaced thermal resistances, which uses pipes built by their constructors.')
ASSUME = ['one series-parallel network of three boreholes', 'quick: histories of at most three queries except for the two kinds in CLOSED, which are explored until no new state appears', 'two sets of arguments per exploration', 'pipe coefficients uninterpreted in the exploration']
MIN = {'results compared': 3000, 'updates': 20, 'overwritten': 20}
CONN = [-1, 0, -1]
RATIOS = [[.2, .3, .5], [.2, .3, .5], [.2, .3, .5]]


def queries(e, cls='Network'):
    return [f for f in scen.public_methods(e, cls, dunder=False) if scen.kind_of(f) == 'method' and not f.name.startswith('visualize')]


def vals(v):
    return lst(*[vals(x) if isinstance(x, list) else num(x) for x in v])


def differences():
    """what, shape of (A, B) flow rates, base values, changed values of B.  Values: m (scalar or per circuit), cp, n, r"""
    base = dict(m=.3, cp=4000, n=12, r=None)
    rat = dict(base, n=3, r=RATIOS)
    vec = dict(base, m=[.3, .6])
    R2 = [[.2, .3, .5], [.2, .5, .3], [.2, .3, .5]]
    R3 = [[.2, .3, .5], [.2, .3, .5], [.2002, .2998, .5]]
    R4 = [[.2, .3, .25, .25]] * 3
    return [
        ('a slightly different flow rate', base, dict(m=.3003)), ('another flow rate', base, dict(m=.6)), ('a reversed flow rate', base, dict(m=-.3)),
        ('a slightly different heat capacity', base, dict(cp=4004)), ('another heat capacity', base, dict(cp=3000)),
        ('another number of segments', base, dict(n=13)),
        ('exchanged flow rates', vec, dict(m=[.6, .3])), ('a slightly different flow rate in the second circuit', vec, dict(m=[.3, .6006])),
        ('reversed flow rates', vec, dict(m=[-.3, -.6])), ('a total instead of equal flow rates per circuit', dict(base, m=[.3, .3]), dict(m=.3)),
        ('equal flow rates per circuit instead of a total', base, dict(m=[.3, .3])),
        ('segment ratios after none', dict(base, n=3), dict(r=RATIOS)), ('no segment ratios after some', rat, dict(r=None)),
        ('other segment ratios in one borehole', rat, dict(r=R2)), ('slightly different segment ratios in the last borehole', rat, dict(r=R3)),
        ('segment ratios of another length', rat, dict(r=R4, n=4)), ('a reversed flow rate, with segment ratios', rat, dict(m=-.3)),
        ('another flow rate, with segment ratios', rat, dict(m=.6)),
    ]


CLOSED = ('a reversed flow rate', 'equal flow rates per circuit instead of a total')


def environment(a, b):
    """(env, types, names of B that differ)"""
    env, types, ch = {'reversible_flow': ('b', True)}, {}, {}
    for p, v in (('A:', a), ('B:', b)):
        m = v['m']
        if isinstance(m, list):
            env.update({f'{p}m_flow_network{i}': num(x) for i, x in enumerate(m)})
        else:
            env[f'{p}m_flow_network'] = num(m)
            types[f'{p}m_flow_network'] = 'float'
        env[f'{p}cp_f'] = num(v['cp'])
        env[f'{p}nSegments'] = num(v['n'])
        env[f'{p}T_b'] = lst(*[num(5)] * (3 * v['n']))
        env[f'{p}segment_ratios'] = const(None)
        if v['r'] is not None:
            for i, r in enumerate(v['r']):
                env[f'{p}segment_ratios{i}'] = vals(r)
                types[f'{p}segment_ratios{i}'] = 'numpy.ndarray'
        types[f'{p}nSegments'] = 'int'
        types[f'{p}cp_f'] = 'float'
    if a['m'] != b['m']:
        ch.update({k: v for k, v in env.items() if k.startswith('B:m_flow')})
    if a['cp'] != b['cp']:
        ch['B:cp_f'] = env['B:cp_f']
    if a['n'] != b['n']:
        ch.update({k: env[k] for k in ('B:nSegments', 'B:T_b')})
    if a['r'] != b['r']:
        ch['B:segment_ratios'] = env['B:segment_ratios']
        if b['r'] is not None:
            ch.update({k: env[k] for k in env if k.startswith('B:segment_ratios') and k[-1].isdigit()})
    return env, types, ch


def setup(root, a, b, pipes=None):
    e = scen.engine(root)
    st = e.new_state()
    if pipes is None:
        scen.pipe_opaque(e)
        net, st, _, _ = c11.network(e, st, CONN)
    else:
        e.opaque = lambda f, s: f.name in ('thermal_resistances', 'multipole', '_check_geometry')
        ps = []
        for i in range(3):
            c = scen.ctor(e, pipes, st=st)
            ps.append(c.obj)
            st = c.st
        ci = e.classes['Network']
        fi = ci.find('__init__')
        kw = {'boreholes': e.mk_list(st, c11.mk_boreholes(e, st, 3)), 'pipes': e.mk_list(st, ps), 'bore_connectivity': e.mk_list(st, [e.cv(i) for i in CONN])}
        net, st = e.construct(f'{ci.module.name}.{ci.name}', kwargs=kw, st=st)
    if net is None:
        raise scen.AnchorError('a valid network cannot be built')
    shape = {'A:': a, 'B:': b}

    def make(f, prefix, st):
        over = {}
        v = shape.get(prefix, a)
        if 'm_flow_network' in f.params and isinstance(v['m'], list):
            over['m_flow_network'] = e.num(e.node(e.mk_list(st, [e.sym(f'{prefix}m_flow_network{i}', 'float') for i in range(len(v['m']))]), st), ty='array')
        if 'segment_ratios' in f.params:
            over['segment_ratios'] = e.cv(None) if v['r'] is None else e.mk_list(st, [e.sym(f'{prefix}segment_ratios{i}', 'array') for i in range(3)])
        return scen.sy(e, f, prefix=prefix, **over)
    return e, history.History(e, net, st, make)


def histories(arg, root, res):
    tier, what = arg.split(':')
    for w, a, ch in differences():
        if w != what:
            continue
        b = dict(a, **ch)
        e, h = setup(root, a, b)
        env, types, ch = environment(a, b)
        A = ival.Abs(e.g, env, c11.bh_attrs(), types)
        qs = queries(e)
        for q in qs:
            res.entry(f'Network.{q.name}')
        h.fixed = [p for p in ('m_flow_network', 'segment_ratios') if not any(k.startswith('B:' + p) for k in ch)]
        history.all_histories(h, qs, env, ch, A, res, 'Network', what, 12 if tier == 'thorough' or what in CLOSED else 2)
        res.seen(e)


class Changed(ival.Abs):
    """A value that contains a replaced resistance differs from one that contains the new one."""

    def ev(self, n):
        r = super().ev(n)
        if r is None and len(n.args) >= 2 and (n.op == 'cmp' and n.data in ('is', '==') or n.op == 'call' and n.data[0] in (
                'numpy.allclose', 'numpy.array_equal', 'numpy.array_equiv')):
            x, y = ({str(s) for s in history.fold.deps(self.g, [a]) if str(s).startswith('U:')} for a in n.args[:2])
            if bool(x) != bool(y):
                return ('b', False)
        return r


def updates(pipes, root, res):
    a = dict(m=.3, cp=4000, n=12, r=None)
    e, h = setup(root, a, a, pipes)
    up = e.classes[pipes].find('update_thermal_resistances')
    env, types, _ = environment(a, a)
    c = h.st.heap
    net = h.obj
    plist = e.getattr_(net, 'p', h.st)
    ps = e.iter_items(plist, h.st)
    qs = queries(e)
    params = [p for p in up.params if p != 'self']
    from ..engine import State
    A = Changed(e.g, env, c11.bh_attrs(), types)
    State.oracle = A.t
    try:
        for i in range(len(ps)):
            def update(st, en, i=i):
                u = scen.call(e, 'update', up, scen.sy(e, up, prefix='U:'), st.copy(), ps[i])
                return u.st
            for q in qs:
                en = h.run([(q, 'A:'), update, (q, 'A:')])
                fresh = h.run([update, (q, 'A:')])
                if en is None or fresh is None:
                    continue
                r, f = e.node(en.result, en.st), e.node(fresh.result, fresh.st)
                mm = history.mismatch(e.g, r, f, A)
                res.count('updates')
                key = f'Network({pipes}).{q.name}|pipe {i}'
                if mm and not any(str(s).startswith('U:') for x, y in mm for s in history.fold.deps(e.g, [x])) and any(
                        str(s).startswith('U:') for x, y in mm for s in history.fold.deps(e.g, [y])):
                    res.find('stale resistances', key, f'Network.{q.name}() after update_thermal_resistances() of pipe {i} still uses the replaced resistances', (q.module.file, q.node.lineno))
                elif mm:
                    res.undec('stale resistances', key, 'not decided')
    finally:
        State.oracle = None
    res.entry(f'Network({pipes}) with updated pipes')
    res.seen(e)


def aliases(what, root, res):
    from ..engine import State
    for w, a, _ in differences():
        if w != what:
            continue
        e, h = setup(root, a, a)
        env, types, _ = environment(a, a)
        A = ival.Abs(e.g, env, c11.bh_attrs(), types)
        qs = queries(e)
        State.oracle = A.t
        try:
            for first in qs:
                st = h.st.copy()
                kw = h.make(first, 'A:', st)
                en = scen.call(e, first.name, first, kw, st, h.obj)
                if en.result is None:
                    continue
                st = en.st.copy()
                history.clobber(e, en.result, st, 'CALLER')
                for p, v in kw.items():
                    history.clobber(e, v, st, 'CALLER')
                for q in qs:
                    e2 = h.call(q, 'A:', st.copy())
                    if e2 is None:
                        continue
                    v, d, _ = history.verdict(e.g, e.node(e2.result, e2.st), {'CALLER'}, env, c11.bh_attrs(), types)
                    res.count('overwritten')
                    c02.report(res, v, d, 'aliased', f'Network.{q.name}|{first.name}', f'Network.{q.name}() changes when the caller overwrites what it passed to or got from {first.name}()', q)
        finally:
            State.oracle = None
        res.seen(e)


def jobs(tier):
    return ([f'h:{tier}:{w}' for w, _, _ in sorted(differences(), key=lambda d: d[0] not in CLOSED)] + [f'u:{c}' for c in ('SingleUTube', 'Coaxial')]
            + [f'a:{w}' for w in ('another flow rate', 'exchanged flow rates', 'no segment ratios after some')])


def run(job, root):
    res = Res()
    k, _, a = job.partition(':')
    {'h': histories, 'u': updates, 'a': aliases}[k](a, root, res)
    return res


selftest = c02.selftest
