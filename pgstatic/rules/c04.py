"""C04: borehole internal resistances match the geometry asked for."""
import itertools
import os

from .. import fold, history, ival, model, scen
from ..engine import Engine, State
from ..ival import num
from ..report import Res

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LEVEL = 'other'
EXPECT = ['stale', 'aliased', 'no-influence']
EXPLAIN = ('Every sequence of up to three calls of thermal_resistances with two sets of arguments A and B that differ in one input (one '
           'coordinate of one pipe, one radius, one conductivity, one resistance, the order, the number of pipes; by a small or a large '
           'amount, from zero, in sign) is followed through the value graph of the code, including what it keeps in module-level data; '
           'the comparisons of given and kept inputs are decided by abstract evaluation. Rules: the last result is computed as by a '
           'first call; it depends on every input; nothing the caller writes into a list or array it passed or received, followed by '
           'calls with the old or the new contents, changes how a result is computed.')
ASSUME = ['multipole is uninterpreted: a function of its arguments (C17 shows that it keeps nothing)', 'differences of a factor 1.001 and more are different inputs']
MIN = {'results compared': 1000, 'overwritten': 40, 'influences': 20}
FN = 'pygfunction.pipes.thermal_resistances'
VAL = {'x0': .03, 'y0': 0., 'x1': -.03, 'y1': .01, 'x2': .01, 'y2': -.03, 'r_out': .02, 'R_fp': .1, 'r_out0': .02, 'r_out1': .018, 'r_out2': .016,
       'R_fp0': .1, 'R_fp1': .12, 'R_fp2': .14, 'r_b': .075, 'k_s': 2., 'k_g': 1., 'J': 2}


def names(n, scalar):
    out = [f'{c}{i}' for i in range(n) for c in 'xy'] + ['r_b', 'k_s', 'k_g', 'J']
    for a in ('r_out', 'R_fp'):
        out += [a] if scalar else [f'{a}{i}' for i in range(n)]
    return out


def scenarios():
    """(what, number of pipes of A, of B, scalars, values of A, changes in B)"""
    out = []
    for J in (0, 2):
        for n, scalar, uniform in ((2, False, False), (2, True, False), (3, False, False), (2, False, True)):
            va = {k: VAL[k[:-1] if uniform and k[0] in 'rR' and k[:-1] in VAL else k] for k in names(n, scalar)}
            va['J'] = J
            for k in names(n, scalar):
                ch = []
                if k == 'J':
                    ch = [J + 1, 5]
                elif va[k] == 0.:
                    ch = [1e-4, .02]
                else:
                    ch = [va[k] * 1.001, va[k] * .5]
                    if k[0] in 'xy':
                        ch += [-va[k], 0.]
                for v in ch:
                    out.append((f'{k} from {va[k]:g} to {v:g}', n, n, scalar, va, {k: v}))
            if not scalar:
                ex = {}
                for i, j in ((0, 1), (1, 0)):
                    ex.update({f'{c}{i}': va[f'{c}{j}'] for c in 'xy'})
                out.append(('exchanged pipes', n, n, scalar, va, ex))
                ex = {f'{c}{i}': va[f'{c}{1 - i}'] for i in (0, 1) for c in ('r_out', 'R_fp')}
                out.append(('exchanged radii and resistances', n, n, scalar, va, ex))
            if n == 2:
                out.append(('one more pipe', 2, 3, scalar, va, {k: VAL[k] for k in names(3, scalar) if k not in va}))
        va = {k: VAL[k] for k in names(3, False)}
        out.append(('one pipe less', 3, 2, False, {**va, 'J': J}, {'x2': 0.}))
    return out


def arguments(e, st, prefix, n, scalar, ch):
    def s(k):
        return e.sym(('B:' if prefix == 'B:' and k in ch else 'A:') + k, 'int' if k == 'J' else 'float')

    def arr(k):
        return s(k) if scalar else e.num(e.node(e.mk_list(st, [s(f'{k}{i}') for i in range(n)]), st), ty='array')
    pos = e.mk_list(st, [e.mk_tup([s(f'x{i}'), s(f'y{i}')]) for i in range(n)])
    return dict(pos=pos, r_out=arr('r_out'), R_fp=arr('R_fp'), **{k: s(k) for k in ('r_b', 'k_s', 'k_g', 'J')})


def environment(va, ch):
    env = {'A:' + k: num(v) for k, v in va.items()}
    env.update({'B:' + k: num(v) for k, v in ch.items()})
    return env, {k: 'int' if k.endswith(':J') else 'float' for k in env}


def one(e, f, sc, res, rules=('stale', 'aliased', 'no-influence'), depth=3):
    what, na, nb, scalar, va, ch = sc
    env, ty = environment(va, ch)
    A = ival.Abs(e.g, env, {}, ty)
    deps = history.Deps(e.g, lambda s: s[:2] in ('A:', 'B:') or s == 'CALLER')
    label = f.name
    loc = (f.module.file, f.node.lineno)
    drop = set() if nb >= na else {'x2'}
    State.oracle = A.t
    try:
        def call(p, st, kw=None):
            st = st.copy()
            kw = kw or arguments(e, st, p, na if p == 'A:' else nb, scalar, set(ch) - drop)
            return scen.call(e, label, f, kw, st), kw

        def judge(rule, en, p, key, msg):
            r = e.node(en.result, en.st)
            mm = history.mismatch(e.g, r, fresh[p], A)
            if mm == []:
                return
            other = {'A:': 'B', 'B:': 'A'}[p]
            foreign = {s for s in deps(r) if s == 'CALLER' or s not in deps(fresh[p])}
            if mm is None or any(y.op == 'phi' for x in mm for y in fold.subnodes(e.g, x)):
                res.undec(rule, key, '')
            elif foreign:
                res.find(rule, key, f'{msg} depends on {", ".join(sorted(foreign))}', loc)
            else:
                v, why = history.compare(e, A, deps, r, fresh[p], other)
                if v == 'stale':
                    res.find(rule, key, f'{msg}: {why}', loc)
                elif v == 'undecided' and lost(r, p):
                    res.find(rule, key, f'{msg} does not depend on {", ".join(lost(r, p))}', loc)
                elif v == 'undecided':
                    res.undec(rule, key, '')

        def lost(r, p):
            return sorted(set(deps(fresh[p])) - set(deps(r)))

        st0 = e.new_state()
        fresh, kws = {}, {}
        for p in ('A:', 'B:'):
            en, kw = call(p, st0)
            if en.result is None or en.st is None:
                res.undec('stale', f'{label}|{what}', 'no result')
                return
            fresh[p] = e.node(en.result, en.st)
        if 'no-influence' in rules:
            # every input of the first call
            have = deps(fresh['A:'])
            for k in va:
                res.count('influences')
                if 'A:' + k not in have and not (k == 'J' and va['J'] == 0):
                    res.find('no-influence', f'{label}|{k}', f'the result of {label}() does not depend on {k}', loc)
        front = {(): st0}
        for d in range(1, depth + 1):
            for seq in itertools.product(('A:', 'B:'), repeat=d):
                en, kw = call(seq[-1], front[seq[:-1]])
                if en.result is None:
                    res.undec('stale', f'{label}|{what}', 'no result')
                    continue
                front[seq] = en.st
                res.count('results compared')
                if d > 1:
                    judge('stale', en, seq[-1], f'{label}|{what.split(" from ")[0]}', f'result of call {" ".join(x[0] for x in seq)} with {what}')
        if 'aliased' in rules and na == nb:
            for who in ('result', 'arguments'):
                for q, first in itertools.product(('A:', 'B:'), (1, 2)):
                    en, kw = call('A:', st0)
                    if first == 2:
                        en, kw = call('A:', en.st)
                    st = en.st.copy()
                    if who == 'result':
                        history.clobber(e, en.result, st, 'CALLER')
                        e2, _ = call(q, st)
                    else:
                        # the caller changes its own objects into the other set of arguments
                        new = arguments(e, st, 'B:', nb, scalar, set(ch))
                        rewrite(e, st, kw, new)
                        e2, _ = call(q, st, {**new, **{k: kw[k] for k in ('pos', 'r_out', 'R_fp') if kw[k].kind == 'lst' or kw[k].ty == 'array'}} if q == 'B:' else None)
                    res.count('overwritten')
                    if e2.result is None:
                        res.undec('aliased', f'{label}|{who}', 'no result')
                        continue
                    judge('aliased', e2, q, f'{label}|{who}', f'result of call {q[0]} after the caller overwrote the {who} of an earlier call ({what})')
    finally:
        State.oracle = None


def rewrite(e, st, kw, new):
    from ..engine import ListC
    for k in ('pos', 'r_out', 'R_fp'):
        v, w = kw[k], new[k]
        if v.kind == 'lst':
            st.heap[('L', v.uid)] = ListC(tuple(e.iter_items(w, st)), None, None)
        elif v.kind == 'num' and v.ty == 'array':
            n = e.node(w, st)
            e.store_content(v, st, lambda x: n)


def jobs(tier):
    n = len(scenarios())
    return [f'{i}:{16}:{4 if tier == "thorough" else 3}' for i in range(16)] if n else []


def run(job, root):
    res = Res()
    i, k, d = (int(x) for x in job.split(':'))
    e = scen.engine(root)
    if FN not in e.funcs:
        raise scen.AnchorError(FN + ' not found')
    e.opaque = lambda f, s: f.name == 'multipole'
    f = e.funcs[FN]
    for sc in scenarios()[i::k]:
        res.entry(f'{f.name}: {sc[0]}, {sc[1]} pipes, ' + ('scalars' if sc[3] else 'arrays') + f', J={sc[4]["J"]}')
        one(e, f, sc, res, depth=d)
    res.seen(e)
    return res


def selftest():
    res = Res()
    e = Engine(os.path.join(HERE, 'selftest'), package='toy', attr_ty=model.ATTR_TY)
    for q in ('good', 'bad', 'deaf'):
        f = e.funcs['toy.c04.' + q]
        for sc in scenarios():
            if sc[0].startswith(('k_s', 'y1', 'y0', 'r_out1')) and sc[1] == 2 and not sc[3] and sc[4]['J'] == 2:
                one(e, f, sc, res)
    got = sorted((f['rule'], f['construct']) for f in res.findings.values())
    assert got == [('aliased', 'bad|arguments'), ('aliased', 'bad|result'), ('no-influence', 'deaf|k_g'), ('stale', 'bad|k_s'), ('stale', 'bad|y0'), ('stale', 'bad|y1')], got
    assert not res.undecided, res.undecided
    return res
