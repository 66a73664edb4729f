"""C15: line-source responses of vertical boreholes are reciprocal."""
import os
from fractions import Fraction as F

from .. import model, scen
from ..algebra import PASS, Alg, TooBig, Vec
from ..engine import Engine
from ..nodes import pretty, walk
from ..report import Res
from .c14 import HERE, POS, kinds, odd, parts, solutions

LEVEL = 'proof'
EXPECT = ['reciprocal', 'fill', 'guard', 'place']
EXPLAIN = ('(1) Every vertical line-source solution (integral, approximation, steady state, equivalent boreholes; each combination of '
           'sources; time as a number, array or infinity) is expanded into a canonical sum of products of elementary functions '
           'twice, as written and with emitter and receiver exchanged; the difference of both, weighted by the length (and number) '
           'of the receiver, must be the zero polynomial. (2) In the response matrices of all solvers, every store whose rows and '
           'columns are those of another store exchanged must hold the same response times length of the rows of the first / '
           'length of its columns; where the ratio is left out, the condition that selects this store must imply equal lengths '
           '(it is zero unless lengths, numbers of segments and uniformity agree for both boreholes). (3) A response taken with '
           'arguments picked by the row and column indices is stored with the receiver as row and the emitter as column.')
ASSUME = ['exact real arithmetic (rounding is not modelled)', 'arguments of logarithms are positive', 'distance is the same seen from both boreholes (the radius is that of the emitter)']
MIN = {'identities': 16, 'stores': 8, 'mirrored stores': 4}
SWAP = {a + i: a + j for a in ('H', 'D', 'N', 'x', 'y', 'r_b', 'borehole') for i, j in (('1', '2'), ('2', '1'))}


def vertical(fi):
    ps = scen.params_of(fi)
    return ('borehole1' in ps and 'borehole2' in ps) or ('H1' in ps and 'H2' in ps and not any(p.startswith('tilt') for p in ps))


def check_kernel(e, fi, label, types, res):
    ps = scen.params_of(fi)
    e.opaque = lambda f, s: f.cls is not None and f.name in ('is_vertical', 'is_tilted')
    ren = {'.tilt': {}, '.r_b': None, 'tilt1': {}, 'tilt2': {}}
    loc = (fi.module.file, fi.node.lineno, fi.qual)
    for a in (True, False):
        for b in (True, False):
            if not (a or b):
                continue
            al = Alg(e.g, positive=POS)
            ren['.r_b'] = al.A('sym', 'r_b')
            al.rename = dict(ren)
            al.opaque = upright(al)
            sw = Alg(e.g, positive=POS, rename=dict(ren, **SWAP), share=al)
            sw.opaque = upright(sw)
            over = {k: e.sym(k, t, owner='user:' + k) for k, t in types.items()}
            over.update(reaSource=e.cv(a), imgSource=e.cv(b))
            l2 = f'{label} real={a} mirror={b}'
            try:
                en = scen.call(e, fi.name, fi, scen.sy(e, fi, **over))
                n = n2 = e.node(en.result, en.st)
                if types and len(set(types.values())) > 1:
                    # a borehole and a list: exchanged, the list comes first
                    o2 = {k: e.sym(k, t, owner='user:' + k) for k, t in zip(types, list(types.values())[::-1])}
                    o2.update(reaSource=e.cv(a), imgSource=e.cv(b))
                    en2 = scen.call(e, fi.name, fi, scen.sy(e, fi, **o2))
                    n2 = e.node(en2.result, en2.st)
                if 'borehole1' in ps:
                    w, w2 = length(e, al, over['borehole2']), length(e, al, over['borehole1'])
                else:
                    w, w2 = al.A('sym', 'H2'), al.A('sym', 'H1')
                    if 'N2' in ps:
                        w, w2 = al.mul(w, al.A('sym', 'N2')), al.mul(w2, al.A('sym', 'N1'))
                d = al.add(al.mul(al(n), w), al.mul(sw(n2), w2), -1)
            except (TooBig, RecursionError) as x:
                res.undec('reciprocal', l2, f'formula too large: {x!r}')
                continue
            res.entry(l2)
            res.count('identities')
            res.cover[l2] = True
            if any(parts(d)):
                unk = odd(set().union(*[al.unknown(x) for x in parts(d) if x]))
                if unk:
                    res.undec('reciprocal', l2, f'not understood: {sorted(unk)}')
                else:
                    res.find('reciprocal', f'{fi.qual}|{label}', f'{l2}: response times length of the receiver changes when both boreholes are exchanged, by {al.show(d)}', loc)


def upright(al):
    """All boreholes are vertical."""
    def f(n, rec):
        nm = n.data[0].split('.')[-1].split(':')[-1]
        return al.num(1) if nm == 'is_vertical' else {} if nm == 'is_tilted' else None
    return f


def length(e, al, v):
    """Length of a borehole, or of an element of a list of boreholes, as the solution reads it."""
    g = e.g
    st = e.new_state()
    if v.ty == 'Borehole':
        return al(e.node(e.getattr_(v, 'H', st), st))
    el = e.gen_elem(v, st, 'c#len')
    n = g.mk('lsum', None, e.node(e.getattr_(el, 'H', st), st), g.mk('call', ('complen', ()), e.node(v, st)))
    return al(n)


# ------------------------------------------------------------------ solvers
class Ratio(Alg):
    """Formulas of stored responses: what a response is picked by does not matter, what a length is picked by does."""
    def is_resp(self, n):
        return n.op == 'call' and n.data[0].startswith('pg:') and 'line_source' in n.data[0]

    def has_resp(self, n):
        r = self.__dict__.setdefault('_hr', {})
        if n.id not in r:
            r[n.id] = any(self.is_resp(x) for x in walk([n]))
        return r[n.id]

    def go(self, n, env):
        if n.op == 'idx' and self.has_resp(n.args[0]):
            return self(n.args[0], env)
        if n.op == 'idx':
            b = n.args[0]
            # a new axis does not select
            i = n.args[1]
            if i.op == 'tuple' and all(whole(x) for x in i.args):
                return self(b, env)
            return self.A('at', n.args[0].id, n.args[1].id)
        if n.op == 'mu':
            return self.A('mu', n.id)
        if self.is_resp(n):
            return self.A('resp', n.id)
        return super().go(n, env)


def whole(x):
    return x.op == 'const' and x.data is None or x.op == 'slice' and all(a.op == 'const' and a.data is None for a in x.args) \
        or x.op == 'sym' and str(x.data).endswith('newaxis')


def signature(e, n):
    """{parameter name: argument} of an opaque call of a line-source solution."""
    q = n.data[0][3:]
    fi = e.funcs.get(q)
    if fi is None:
        return {}
    return dict(zip(scen.params_of(fi), n.args))


def check_solver(e, cls, res, meth='thermal_response_factors', only_place=False):
    e.opaque = lambda fi, s: fi.cls is None and 'line_source' in fi.name
    ci = e.classes[cls]
    fi = ci.find(meth)
    if fi is None:
        return
    en = scen.call(e, f'{cls}.{meth}', fi, scen.sy(e, fi, time=e.sym('time', 'array')), st=e.new_state(), obj=e.sym('self', cls))
    n = e.node(en.result, en.st)
    res.entry(en.label)
    res.cover[cls] = True
    loc = (fi.module.file, fi.node.lineno, fi.qual)
    al = Ratio(e.g, positive=POS)
    stores, guards = [], {}
    for x in walk([n], e.g.mus):
        if x.op == 'store' and x.args[1].op == 'tuple' and len(x.args[1].args) >= 2 and al.has_resp(x.args[2]):
            stores.append(x)
        if x.op == 'phi':
            for k in (1, 2):
                if x.args[k].op == 'store':
                    guards.setdefault(x.args[k].id, []).append((x.args[0], k == 1))
    vals = {}
    for s in stores:
        res.count('stores')
        try:
            vals[s.id] = al(s.args[2])
        except (TooBig, RecursionError):
            res.undec('fill', f'{cls}|{s.id}', 'formula too large')
            vals[s.id] = None
    fills = set()
    if only_place:
        r2, res = res, Res()
    for k, s in enumerate(stores):
        r, c = s.args[1].args[:2]
        if r is c:
            continue
        for t in stores[k + 1:]:
            if t.args[1].args[0] is not c or t.args[1].args[1] is not r:
                continue
            u, v = vals[s.id], vals[t.id]
            if u is None or v is None or isinstance(u, Vec) or isinstance(v, Vec):
                continue
            # one holds the response itself, the other is filled from it
            ru, rv = resp_only(al, u), resp_only(al, v)
            if ru is None and rv is None:
                res.undec('fill', f'{cls}|{s.id}', 'no store of the response itself')
                continue
            if rv is not None and (ru is None or s.id in guards and t.id not in guards):
                s1, t1, u1, v1 = t, s, v, u
            else:
                s1, t1, u1, v1 = s, t, u, v
            if ru is not None and rv is not None and ru != rv:
                continue        # two responses, each evaluated
            res.count('mirrored stores')
            fills.add(t1.id)
            check_fill(e, al, cls, s1, t1, u1, v1, guards, loc, res)
    if only_place:
        res = r2
        res.count('stored responses', len(stores))
    for s in stores:
        if s.id not in fills:
            check_place(e, al, cls, s, loc, res)


def resp_only(al, p):
    """The response atom if p is exactly one response."""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            (a, x), = m
            if x == 1 and al.atoms[a][0] == 'resp':
                return a
    return None


def node_of(e, i):
    t = getattr(e.g, '_byid', None)
    if t is None or len(t) != len(e.g.table):
        t = e.g._byid = {n.id: n for n in e.g.table.values()}
    return t[i]


def check_fill(e, al, cls, s, t, u, v, guards, loc, res):
    key = f'{cls}|{s.loc[1] if s.loc else ""}'
    where = (t.loc[0], t.loc[1], loc[2]) if t.loc else loc
    a = resp_only(al, u)
    inv = {frozenset([(a, F(-1))]): F(1)}
    ratio = al.mul(v, inv)
    R = node_of(e, al.atoms[a][1])
    sig = signature(e, R)
    rows, cols = s.args[1].args[:2]
    multi = 'N2' in sig
    if len(ratio) != 1:
        res.undec('fill', key, f'ratio {al.show(ratio)}')
        return
    (m, c), = ratio.items()
    names = {}
    exp = []
    if 'H1' in sig and 'H2' in sig:
        h1, h2 = al(sig['H1']), al(sig['H2'])
        if not isinstance(h1, Vec) and not isinstance(h2, Vec) and len(h1) == 1 and len(h2) == 1:
            exp.append(('H2/H1', al.div(h2, h1), not multi))
    lens = {al.atoms[x][1] for x, _ in m if al.atoms[x][0] == 'at'}
    for L in lens:
        A = {frozenset([(al.atom('at', L, rows.id), F(1)), (al.atom('at', L, cols.id), F(-1))]): F(1)}
        ln = node_of(e, L)
        q = quantities(ln)
        exp.append(('length of rows / length of columns', A, 'H' in q and (not multi or 'nBoreholes' in q)))
    for nm, x, ok in exp:
        if ratio == x and ok:
            return
    if c == 1 and not m:
        # the response itself: the condition must imply equal lengths
        g = guards.get(t.id, [])
        if guarded(e, al, cls, g, res, key, where):
            return
        if not g:
            res.find('fill', key, f'{cls}: the response from rows to columns is stored for the opposite direction without the ratio of lengths', where)
        return
    # a ratio of the same lengths that is not the right one
    atoms = set()
    for nm, x, ok in exp:
        for k in x:
            atoms |= {p for p, _ in k}
    if c > 0 and {p for p, _ in m} <= atoms or any(ratio == x for _, x, _ in exp):
        res.find('fill', key, f'{cls}: the opposite response is filled with the factor {text(e, al, ratio)} instead of '
                              f'{" or ".join(n for n, _, ok in exp if ok) or "the ratio of lengths times numbers of boreholes"}', where)
    else:
        res.undec('fill', key, f'ratio {al.show(ratio)}')


def quantities(n):
    out = set()
    for x in walk([n]):
        if x.op == 'attr':
            out.add(x.data)
        elif x.op == 'call' and x.data[0].startswith('method:'):
            out.add(x.data[0][7:])
    return out


def guarded(e, al, cls, gs, res, key, where):
    """The store is selected only if both boreholes have equal lengths."""
    if not gs:
        return False
    need = {'lengths': lambda q: 'H' in q, 'numbers of segments': lambda q: any('egments' in x and 'niform' not in x for x in q),
            'uniform segments': lambda q: any('niform' in x or 'ratio' in x for x in q)}
    for c, pos in gs:
        try:
            f = al.cond(c, {})
        except (TooBig, RecursionError):
            res.undec('guard', key, 'condition too large')
            return True
        if not pos:
            f = al._add(al.num(1), f, -1)
        if not f:
            continue
        common = frozenset.intersection(*[frozenset(a for a, _ in m) for m in f])
        got = {a: names_in(e, al, a) for a in common if al.atoms[a][0] == 'I'}
        other = {x[1] for m in f for a, _ in m for x in [al.atoms[a]] if x[0] == 'fn'}
        if other:
            res.undec('guard', key, f'condition not understood: {sorted(map(str, other))[:4]}')
            return True
        anywhere = set().union(*[names_in(e, al, a) for m in f for a, _ in m])
        for what, ok in need.items():
            if not any(ok(q) for q in got.values()):
                if anywhere & {'all', 'any', 'numpy.allclose', 'numpy.array_equal', 'numpy.isclose'} or not anywhere:
                    res.undec('guard', key, f'{what}: condition not understood')
                else:
                    res.find('guard', f'{key}|{what}', f'{cls}: the opposite response is stored without the ratio of lengths although the condition does not require equal {what}', where)
        # the uniformity of each of the two boreholes
        uni = [a for a, q in got.items() if need['uniform segments'](q) and al.atoms[a][1] == 'true']
        allu = {a for m in f for a, _ in m if al.atoms[a][0] == 'I' and al.atoms[a][1] == 'true' and need['uniform segments'](names_in(e, al, a))}
        if len(uni) == 1 and any(x.op == 'idx' for x in walk([c]) if uniform_node(x)):
            res.find('guard', f'{key}|both uniform', f'{cls}: the opposite response is stored without the ratio of lengths although only one of the two boreholes must have uniform segments', where)
        res.count('guards')
    return True


def uniform_node(x):
    return x.op == 'idx' and x.args[0].op == 'attr' and 'niform' in str(x.args[0].data)


def names_in(e, al, a):
    out = set()

    def rec(k):
        if isinstance(k, str):
            out.add(k[7:] if k.startswith('method:') else k)
        elif isinstance(k, (tuple, frozenset)):
            if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], F):
                ky = al.atoms[k[0]]
                if ky[0] == 'at':
                    for i in ky[1:]:
                        for x in walk([node_of(e, i)]):
                            if x.op in ('attr', 'sym'):
                                out.add(str(x.data))
                            elif x.op == 'call':
                                out.add(x.data[0][7:] if x.data[0].startswith('method:') else x.data[0])
                else:
                    rec(ky)
            else:
                for x in k:
                    rec(x)
    rec(al.atoms[a])
    return out


def responses(al, n):
    """Responses stored as they are (chosen between, picked from or added up)."""
    out, stack = [], [n]
    while stack:
        x = stack.pop()
        if al.is_resp(x):
            out.append(x)
        elif x.op == 'phi':
            stack += x.args[1:]
        elif x.op == 'idx' or x.op == 'call' and x.data[0] in PASS:
            stack.append(x.args[0])
        elif x.op == 'bin' and x.data == '+':
            stack += x.args
    return out


def check_place(e, al, cls, s, loc, res):
    """Arguments picked by the row index belong to the receiver, by the column index to the emitter."""
    rows, cols = s.args[1].args[:2]
    if rows is cols:
        return
    where = (s.loc[0], s.loc[1], loc[2]) if s.loc else loc
    for R in responses(al, s.args[2]):
        picks = {}
        for p, x in signature(e, R).items():
            if p[-1] not in '12' or x.op != 'idx':
                continue
            res.count('placed arguments')
            if x.args[1].op != 'const':
                picks.setdefault(p[-1], {})[x.args[1].id] = p
            if x.args[1] is (rows if p[-1] == '1' else cols):
                res.find('place', f'{cls}|{p}', f'{cls}: argument {p} of the response stored in [row, column] is picked by the {"row" if p[-1] == "1" else "column"} index', where)
        for side, d in picks.items():
            if len(d) > 1:
                res.find('place', f'{cls}|{side}', f'{cls}: arguments {", ".join(sorted(d.values()))} of one line source are picked from different segments', where)


def text(e, al, p):
    """A factor in words of the source."""
    out = []
    for m, c in p.items():
        fs = [] if c == 1 else [str(c)]
        for a, x in sorted(m):
            k = al.atoms[a]
            t = f'{pretty(node_of(e, k[1]), 2)}[{pretty(node_of(e, k[2]), 2)}]' if k[0] == 'at' else al.show({frozenset([(a, F(1))]): F(1)})
            fs.append(t[:120] + ('' if x == 1 else f'^{x}'))
        out.append(' * '.join(fs) or '1')
    return ' + '.join(out)


def solvers(e):
    return sorted(c for c, ci in e.classes.items() if ci.find('thermal_response_factors') is not None and '.' not in c and not c.startswith('_'))


def jobs(tier):
    e = scen.engine()
    return [f'{fi.name}|{k}' for fi in solutions(e) if vertical(fi) for k, _ in kinds(fi)] + [f'solver|{c}' for c in solvers(e)]


def run(job, root):
    res = Res()
    e = scen.engine(root)
    name, k = job.split('|')
    if name == 'solver':
        if k in e.classes:
            check_solver(e, k, res)
    else:
        fi = next((f for f in solutions(e) if f.name == name), None)
        if fi is None:
            return res
        check_kernel(e, fi, f'{name}({k})' if k else name, dict(kinds(fi))[k], res)
    res.seen(e)
    return res


def selftest():
    res = Res()
    e = Engine(os.path.join(HERE, 'selftest'), package='toy', attr_ty=model.ATTR_TY)
    for fi in solutions(e):
        if fi.module.name == 'toy.c15':
            check_kernel(e, fi, fi.name, {}, res)
    got = {k.split('|')[-1] for k in res.findings}
    assert got == {'line_source_bad_depth', 'line_source_bad_weight', 'line_source_bad_distance'}, (got, res.undecided)
    for c in solvers(e):
        if c.startswith('Fill') and c != 'Fill':
            r = Res()
            check_solver(e, c, r)
            f = {x['rule'] for x in r.findings.values()}
            want = {'FillGood': set(), 'FillLengths': set(), 'FillInverse': {'fill'}, 'FillMissing': {'fill'}, 'FillGuard': {'guard'}, 'FillRows': {'fill'}, 'FillPlace': {'place'}}[c]
            assert f == want, (c, f, r.undecided)
            res.merge(r)
    return res
