"""C14: real and mirror line-source contributions add up."""
import os

from .. import algebra, model, scen
from ..algebra import Alg, TooBig
from ..engine import Engine
from ..report import Res

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LEVEL = 'proof'
EXPECT = ['sum', 'neither']
EXPLAIN = ('Every function that takes reaSource and imgSource is followed with each of the four combinations; the four results '
           '(everything they call included: integrands, approximations, quadrature, steady states) are expanded into canonical '
           'rational combinations of products of elementary functions, with integrals, cumulative sums and weighted sums as '
           'linear operators. Obligation 1: both - real - mirror is the zero polynomial. Obligation 2: neither is zero. All '
           'other inputs (time as a number, array or infinity; approximation or integral; vertical or inclined; single '
           'boreholes or lists) stay symbolic.')
ASSUME = ['exact real arithmetic (rounding is not modelled)', 'quadrature is linear in the integrand']
MIN = {'identities': 6, 'terms': 1000}
POS = {'H1', 'H2', 'time', 'alpha', 'N2', 'N1', 'r_b', 'rb1', 'H', 'nBoreholes'}


def solutions(e, private=False):
    out = []
    for fi in scen.module_functions(e, public=not private):
        ps = scen.params_of(fi)
        if 'reaSource' in ps and 'imgSource' in ps:
            out.append(fi)
    return out


def kinds(fi):
    ps = scen.params_of(fi)
    if 'borehole1' in ps and 'borehole2' in ps:
        return [(f'{a},{b}', {'borehole1': a, 'borehole2': b}) for a in ('Borehole', 'list[Borehole]') for b in ('Borehole', 'list[Borehole]')]
    return [('', {})]


def formula(e, al, fi, types, a, b):
    over = {k: e.sym(k, t, owner='user:' + k) for k, t in types.items()}
    over.update(reaSource=e.cv(a), imgSource=e.cv(b))
    en = scen.call(e, fi.name, fi, scen.sy(e, fi, **over))
    return al(e.node(en.result, en.st)), en


def size(p):
    return sum(map(size, p)) if isinstance(p, algebra.Vec) else len(p)


def parts(p):
    return list(p) if isinstance(p, algebra.Vec) else [p]


def zero(p):
    return not any(parts(p))


def check(e, fi, label, types, res):
    al = Alg(e.g, positive=POS)
    try:
        R = {(a, b): formula(e, al, fi, types, a, b) for a in (True, False) for b in (True, False)}
        d = al.add(al.add(R[True, True][0], R[True, False][0], -1), R[False, True][0], -1)
        no = R[False, False][0]
    except (TooBig, RecursionError) as x:
        res.undec('sum', label, f'formula too large: {x!r}')
        return
    res.entry(label)
    res.count('identities')
    res.count('terms', size(R[True, True][0]))
    res.cover[label] = True
    loc = (fi.module.file, fi.node.lineno, fi.qual)
    if size(R[True, True][0]) == 0 or R[True, True][0] == R[True, False][0] == R[False, True][0]:
        res.undec('sum', label, 'the result does not depend on the sources')
        return
    if not zero(d):
        unk = set().union(*[al.unknown(x) for x in parts(d) if x])
        msg = f'{label}: response(real and mirror) - response(real) - response(mirror) = {al.show(d)}'
        if odd(unk):
            res.undec('sum', label, f'not understood: {sorted(odd(unk))}')
        else:
            res.find('sum', f'{fi.qual}|{label}', msg, loc)
    if not zero(no):
        unk = set().union(*[al.unknown(x) for x in parts(no) if x])
        if odd(unk):
            res.undec('neither', label, f'not understood: {sorted(odd(unk))}')
        else:
            res.find('neither', f'{fi.qual}|{label}', f'{label}: response without any source is {al.show(no)}', loc)


# operations that occur alike in every combination and whose value is of no concern
HARMLESS = ('isinstance:', 'idx', 'slice', 'complen', 'iter:', 'zip', 'len', 'scipy.special.roots_legendre', 'tuple', 'list', 'numpy.size', 'numpy.shape',
            'numpy.array', 'numpy.concatenate', 'numpy.isscalar', 'numpy.isinf', 'numpy.all', 'numpy.arange', 'range', 'elem', 'lsum')


def odd(unk):
    return {u for u in unk if not u.startswith(HARMLESS)}


def jobs(tier):
    e = scen.engine()
    return [f'{fi.name}|{k}' for fi in solutions(e) for k, _ in kinds(fi)]


def run(job, root):
    res = Res()
    e = scen.engine(root)
    name, k = job.split('|')
    fi = next((f for f in solutions(e) if f.name == name), None)
    if fi is None:
        return res
    check(e, fi, f'{name}({k})' if k else name, dict(kinds(fi))[k], res)
    res.seen(e)
    return res


def selftest():
    res = Res()
    e = Engine(os.path.join(HERE, 'selftest'), package='toy', attr_ty=model.ATTR_TY)
    for fi in solutions(e):
        if fi.module.name == 'toy.c14':
            check(e, fi, fi.name, {}, res)
    got = {k.split('|')[0] + ':' + k.split('|')[2] for k in res.findings}
    bad = {'sum:bad_sign', 'sum:bad_factor', 'sum:bad_depth', 'sum:bad_missing', 'neither:bad_neither', 'sum:bad_integral'}
    assert got == bad, (got ^ bad, res.undecided)
    return res
