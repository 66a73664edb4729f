"""C02: pipe results do not depend on call history."""
import os

from .. import fold, history, ival, model, scen
from ..engine import Engine
from ..ival import const, lst, num
from ..report import Res

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LEVEL = 'other'
EXPECT = ['stale', 'stale resistances', 'aliased']
EXPLAIN = ('Explicit exploration of the reachable states of one pipe object under every query with two sets of arguments (A and B, which '
           'differ in one input, by a given factor, in sign or in shape), over the value graph of the code: the comparisons the code '
           'makes between stored and given inputs are decided by abstract evaluation, and states whose pieces come from the same '
           'arguments are merged, so that the exploration closes and covers histories of any length. Rule: every result is computed '
           'as on a fresh object. Two further dataflow rules: after update_thermal_resistances no result contains a replaced '
           'resistance, and no result contains what the caller wrote into earlier results or arguments.')
ASSUME = ['thermal_resistances and multipole are uninterpreted (their own memory is C04)', 'differences of a factor 1.001 and more are different inputs',
          'two sets of arguments per exploration']
MIN = {'results compared': 5000, 'updates': 20, 'overwritten': 20}
QUICK = ('a slightly different flow rate', 'a reversed flow rate', 'reversed flow rates', 'a slightly different heat capacity', 'another number of segments',
         'segment ratios after none', 'other segment ratios', 'slightly different segment ratios', 'other segment ratios of another length', 'exchanged flow rates')
RATIOS = [.2, .3, .5]


def queries(e, cls):
    return [f for f in scen.public_methods(e, cls, dunder=False)
            if scen.kind_of(f) == 'method' and not f.name.startswith(('visualize', 'update'))]


def environment(nin, n, ratios=None, m=.3, cp=4000.):
    env = {'reversible_flow': ('b', True), 'nPipes': num(2), 'borehole.H': num(150), 'borehole.D': num(4)}
    for p in 'AB':
        if nin is None:
            env.update({f'{p}:m_flow_borehole': num(m), f'{p}:cp_f': num(cp)})
        else:
            env.update({f'{p}:m_flow_borehole{i}': num(m * (1 + i)) for i in range(nin)})
            env.update({f'{p}:cp_f{i}': num(cp) for i in range(nin)})
        env.update({f'{p}:nSegments': num(n), f'{p}:segment_ratios': const(None) if ratios is None else lst(*map(num, ratios)), f'{p}:T_b': lst(*[num(5)] * n)})
    return env


def differences(nin):
    """(what, names that differ, changes of the environment of B)"""
    m, cp = ('B:m_flow_borehole', 'B:cp_f') if nin is None else ('B:m_flow_borehole0', 'B:cp_f0')
    scal = [('another flow rate', {m: num(.6)}), ('a slightly different flow rate', {m: num(.3003)}), ('a reversed flow rate', {m: num(-.3)}),
            ('another heat capacity', {cp: num(3000)}), ('a slightly different heat capacity', {cp: num(4004)})]
    if nin is not None:
        scal += [('another flow rate in the second circuit', {'B:m_flow_borehole1': num(.7)}), ('exchanged flow rates', {'B:m_flow_borehole0': num(.6), 'B:m_flow_borehole1': num(.3)})]
        scal = [s for s in scal if s[0] != 'a reversed flow rate'] + [('reversed flow rates', {'B:m_flow_borehole0': num(-.3), 'B:m_flow_borehole1': num(-.6)})]
    other = [('another number of segments', 12, None, {'B:nSegments': num(13), 'B:T_b': lst(*[num(5)] * 13)}),
             ('segment ratios after none', 3, None, {'B:segment_ratios': lst(num(.2), num(.3), num(.5))}),
             ('no segment ratios after some', 3, RATIOS, {'B:segment_ratios': const(None)}),
             ('other segment ratios', 3, RATIOS, {'B:segment_ratios': lst(num(.2), num(.5), num(.3))}),
             ('slightly different segment ratios', 3, RATIOS, {'B:segment_ratios': lst(num(.2002), num(.2998), num(.5))}),
             ('other segment ratios of another length', 3, RATIOS, {'B:segment_ratios': lst(num(.2), num(.3), num(.25), num(.25)), 'B:nSegments': num(4), 'B:T_b': lst(*[num(5)] * 4)})]
    out = [(w, set(ch), environment(nin, 12), ch) for w, ch in scal]
    out += [(w + ', with segment ratios', set(ch), environment(nin, 3, RATIOS), ch) for w, ch in scal[:4]]
    out += [(w, set(ch), environment(nin, n, r), ch) for w, n, r, ch in other]
    return out


def types_of(env):
    t = {}
    for k, v in env.items():
        if k.endswith('segment_ratios'):
            t[k] = 'NoneType' if v == const(None) else 'numpy.ndarray'
        elif 'm_flow' in k or 'cp_f' in k:
            t[k] = 'float'
        elif k.endswith('nSegments'):
            t[k] = 'int'
    return t


def setup(cls, root, vector=False):
    e = scen.engine(root)
    e.opaque = lambda f, s: f.name in ('thermal_resistances', 'multipole', '_check_geometry')
    c = scen.ctor(e, cls, **({'nPipes': e.cv(2)} if cls == 'IndependentMultipleUTube' else {}))
    if c.obj is None:
        raise scen.AnchorError(f'{cls}() cannot be analysed')

    def make(f, prefix, st):
        over = {}
        if vector:
            for p in ('m_flow_borehole', 'cp_f'):
                if p in f.params:
                    over[p] = e.num(e.node(e.mk_list(st, [e.sym(f'{prefix}{p}{i}', 'float') for i in range(2)]), st), ty='array')
        return scen.sy(e, f, prefix=prefix, **over)
    return e, history.History(e, c.obj, c.st, make)


def report(res, v, d, rule, key, msg, fi):
    if v == 'stale':
        res.find(rule, key, f'{msg} ({", ".join(sorted(map(str, d)))})', (fi.module.file, fi.node.lineno))
    elif v == 'undecided':
        res.undec(rule, key, 'not decided')


def histories(cls, root, vector, what, res):
    e, h = setup(cls, root, vector)
    if vector:
        h.fixed = ('m_flow_borehole', 'cp_f')
    qs = queries(e, cls)
    for q in qs:
        res.entry(f'{cls}.{q.name}')
    for w, diff, env, ch in differences(2 if vector else None):
        if w == what:
            env = {**env, **ch}
            A = ival.Abs(e.g, env, {'borehole.H': num(150)}, types_of(env))
            history.all_histories(h, qs, env, ch, A, res, cls, what, 12)
    res.seen(e)


def updates(cls, root, vector, res):
    e, h = setup(cls, root, vector)
    up = e.classes[cls].find('update_thermal_resistances')
    if up is None:
        return
    qs = queries(e, cls)
    ps = [p for p in up.params if p != 'self']
    env = environment(2 if vector else None, 12)
    for q in qs:
        for first in qs:
            en = h.run([(first, 'A:'), (up, 'U:'), (q, 'A:')])
            fresh = h.run([(up, 'U:'), (q, 'A:')])
            if en is None or fresh is None:
                continue
            names = set(ps) - fold.deps(e.g, [e.node(fresh.result, fresh.st)])
            v, d, _ = history.verdict(e.g, e.node(en.result, en.st), names, env, {}, types_of(env))
            res.count('updates')
            report(res, v, d, 'stale resistances', f'{cls}.{q.name}|{first.name}', f'{cls}.{q.name}() after {first.name}() and update_thermal_resistances() still uses replaced resistances', q)
    res.entry(f'{cls}.update_thermal_resistances')


def aliases(cls, root, vector, res):
    for ratios in (None, RATIOS):
        e, h = setup(cls, root, vector)
        env = environment(2 if vector else None, 3, ratios)
        qs = queries(e, cls)
        for first in qs:
            st = h.st.copy()
            kw = h.make(first, 'A:', st)
            en = scen.call(e, first.name, first, kw, st, h.obj)
            if en.result is None:
                continue
            st = en.st.copy()
            history.clobber(e, en.result, st, 'CALLER')
            for p, v in kw.items():
                history.clobber(e, v, st, 'CALLER')
            for q in qs:
                e2 = h.call(q, 'A:', st.copy())
                if e2 is None:
                    continue
                v, d, _ = history.verdict(e.g, e.node(e2.result, e2.st), {'CALLER'}, env, {}, types_of(env))
                res.count('overwritten')
                report(res, v, d, 'aliased', f'{cls}.{q.name}|{first.name}', f'{cls}.{q.name}() changes when the caller overwrites what it passed to or got from {first.name}()', q)
    res.seen(e)


def jobs(tier):
    e = scen.engine(None)
    out = []
    for c in scen.PIPES:
        vec = c == 'IndependentMultipleUTube'
        for v in (int(vec),):
            out += [f'h:{c}:{v}:{w}' for w, _, _, _ in differences(2 if v else None) if tier == 'thorough' or w in QUICK]
        out += [f'u:{c}:{int(vec)}', f'a:{c}:{int(vec)}']
    return out


def run(job, root):
    res = Res()
    k, _, rest = job.partition(':')
    a = rest.split(':')
    if k == 'h':
        histories(a[0], root, a[1] == '1', a[2], res)
    elif k == 'u':
        updates(a[0], root, a[1] == '1', res)
    else:
        aliases(a[0], root, a[1] == '1', res)
    return res


def selftest():
    res = Res()
    e = Engine(os.path.join(HERE, 'selftest'), package='toy', attr_ty=model.ATTR_TY)
    for cls in ('Memo', 'BadMemo'):
        o, st = e.construct(f'toy.c02.{cls}', kwargs={'k': e.sym('k', 'float')})
        h = history.History(e, o, st, lambda f, prefix, st: {p: e.sym(prefix + p, 'array' if p == 'w' else 'float') for p in f.params if p != 'self'})
        rate, up = (e.classes[cls].find(m) for m in ('rate', 'update'))
        env = {'A:m': num(.3), 'A:cp': num(4000), 'B:m': num(.3), 'B:cp': num(3000), 'k': num(1), 'U:k': num(2)}
        en = h.run([(rate, 'B:'), (rate, 'A:')])
        v, d, _ = history.verdict(e.g, e.node(en.result, en.st), {'B:cp', 'B:w'}, env, subst={'B:m': e.sym('A:m').node})
        report(res, v, d, 'stale', f'{cls}.rate', '', rate)
        en = h.run([(rate, 'A:'), (up, 'U:'), (rate, 'A:')])
        v, d, _ = history.verdict(e.g, e.node(en.result, en.st), {'k'}, env)
        report(res, v, d, 'stale resistances', f'{cls}.rate', '', rate)
        en = h.run([(rate, 'A:'), lambda st, en: history.clobber(e, en.result, st, 'CALLER') or st, (rate, 'A:')])
        v, d, _ = history.verdict(e.g, e.node(en.result, en.st), {'CALLER'}, env)
        report(res, v, d, 'aliased', f'{cls}.rate', '', rate)
    assert sorted((f['rule'], f['construct']) for f in res.findings.values()) == [
        ('aliased', 'BadMemo.rate'), ('stale', 'BadMemo.rate'), ('stale resistances', 'BadMemo.rate')], res.findings
    assert not res.undecided
    return res
