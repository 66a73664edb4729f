"""C12: all representations of a bore field agree on every field."""
import os
from fractions import Fraction

from .. import model, scen
from ..engine import DeadPath, Engine, State
from ..report import Res

LEVEL = 'other'
EXPECT = ['conversion', 'index', 'concatenation', 'file', 'comparison', 'length', 'argument']
EXPLAIN = ('Symbolic composition of the representations of a bore field: fields of one, two and three boreholes (all vertical, all inclined, mixed, '
           'inclinations of either sign) are built through the constructors with an unknown for every quantity of every borehole, and '
           'every conversion is evaluated on the value graph. Rule: quantity by quantity and in order, the result holds exactly the '
           'unknown it was given (orientation 0 where a borehole is vertical). Comparisons are decided by interval-free exact '
           'evaluation on classes of fields that differ in one quantity of one borehole, in order or in number. Functions that '
           'accept either representation must see the same boreholes.')
ASSUME = ['inclinations of less than 1e-6 rad count as vertical', 'two quantities differ when they differ by 1 % (positions: 5 cm, angles: 0.01 rad)',
          'numpy.savetxt writes what numpy.loadtxt reads, when the default or a sufficient precision and matching delimiters are used']
MIN = {'quantities': 200, 'comparisons': 30}
Q = ('H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation')
TILTS = {'vertical': (0, 0, 0), 'inclined': (.1, .2, .3), 'mixed': (0, .2, 0), 'either sign': (.1, -.2, .1), 'barely': (5e-7, .2, -5e-7), 'one inclined': (.1, 0, 0)}
BASE = dict(H=(150., 140., 130.), D=(4., 3., 2.), r_b=(.075, .07, .065), x=(0., 7.5, 12.5), y=(1., -5., 9.), orientation=(1., 2.5, -1.5))
DELTA = dict(H=1.5, D=.05, r_b=.001, x=.05, y=.05, tilt=.01, orientation=.01)


class Case:
    """One class of fields: symbols with values."""
    def __init__(self, e, classes=('Borefield', 'Borehole')):
        from ..arrays import Arrays
        self.e = e
        e.opaque = lambda fi, s: False
        self.F, self.B = classes
        scen.need(self.e, *classes)
        self.A = Arrays(self.e.g, {'filename': 'filename'})
        self.saved = None
        self.st = self.e.new_state()

    def __enter__(self):
        State.oracle, State.sizes, State.ints = self.A.t, self.A.size, self.A.int
        return self

    def __exit__(self, *a):
        State.oracle = State.sizes = State.ints = None

    def quantities(self, tilts, n, prefix='', values=None, exact=True):
        """{quantity: [V]} and what a borehole must keep: [{quantity: Poly}]"""
        from ..arrays import Poly
        out, want = {q: [] for q in Q}, []
        for i in range(n):
            w = {}
            for q in Q:
                name = f'{prefix}{q}{i}'
                if q == 'tilt':
                    v = Poly.of(tilts[i])
                elif values is not None:
                    v = Poly.of(values[q][i])
                else:
                    v = Poly.var(name)
                self.A.values[name] = v
                out[q].append(self.e.sym(name, 'float'))
                w[q] = v
            if abs(tilts[i]) <= 1e-6:
                w['orientation'] = Poly()
            want.append(w)
        return out, want

    def boreholes(self, qs, st):
        ci = self.e.classes[self.B]
        out = []
        for i in range(len(qs['H'])):
            o, st = self.e.construct(f'{ci.module.name}.{ci.name}', kwargs={q: qs[q][i] for q in Q}, st=st)
            if o is None:
                raise scen.AnchorError(f'{self.B}() cannot be analysed')
            out.append(o)
        return out, st

    def field(self, qs, st, broadcast=()):
        ci = self.e.classes[self.F]
        kw = {}
        for q in Q:
            kw[q] = qs[q][0] if q in broadcast else self.e.num(self.e.node(self.e.mk_list(st, qs[q]), st), ty='array')
        o, st = self.e.construct(f'{ci.module.name}.{ci.name}', kwargs=kw, st=st)
        if o is None:
            raise scen.AnchorError(f'{self.F}() cannot be analysed')
        return o, st

    def call(self, cls, name, kw, st, obj=None):
        f = self.e.classes[cls].find(name)
        if f is None:
            raise scen.AnchorError(f'{cls}.{name}()')
        ps = [p for p in f.params if p not in ('self', 'cls')]
        kw = dict(zip(ps, kw)) if isinstance(kw, (list, tuple)) else kw
        en = scen.call(self.e, f'{cls}.{name}', f, kw, st, obj)
        return en, f

    def read(self, v, st, depth=0):
        """boreholes of any representation, as [{quantity: Poly}]; raises Unknown"""
        import numpy as np
        from ..arrays import Poly, Unknown, arr, number
        v = self.e.resolve(v, st)
        if v.kind == 'phi':
            t = st.truth(v.cond)
            if t is None:
                t = self.A.t(v.cond)
            if t is None:
                raise Unknown('undecided result')
            return self.read(v.a if t else v.b, st, depth)
        if v.kind in ('lst', 'tup'):
            its = self.e.iter_items(v, st)
            if its is None or depth:
                raise Unknown('list of unknown length')
            return [x for it in its for x in self.read(it, st, 1)]
        if v.kind != 'inst':
            raise Unknown('not a field')
        vals = {}
        for q in Q:
            try:
                vals[q] = arr(self.A(self.e.node(self.e.getattr_(v, q, st), st)))
            except DeadPath:
                raise Unknown(f'no {q}')
        if v.cls.name == self.B:
            if any(isinstance(x, np.ndarray) and x.ndim for x in vals.values()):
                raise Unknown('array in a borehole')
            return [{q: Poly.of(number_or(x)) for q, x in vals.items()}]
        n = {x.size for x in vals.values() if isinstance(x, np.ndarray)}
        if len(n) != 1 or any(not isinstance(x, np.ndarray) or x.ndim != 1 for x in vals.values()):
            raise Unknown(f'sizes {n}')
        return [{q: Poly.of(vals[q][i]) for q in Q} for i in range(n.pop())]


def number_or(x):
    import numpy as np
    return x.reshape(-1)[0] if isinstance(x, np.ndarray) else x


def compare(res, rule, key, msg, got, want, f, exact=None):
    loc = (f.module.file, f.node.lineno)
    if len(got) != len(want):
        res.find(rule, f'{f.qual.split(".", 1)[1]}|number', f'{msg}: {len(got)} boreholes instead of {len(want)}', loc)
        return
    for i, (a, b) in enumerate(zip(got, want)):
        for q in Q:
            res.count('quantities')
            if (a[q] - b[q]).t:
                res.find(rule, f'{f.qual.split(".", 1)[1]}|{q}', f'{msg}: {q} of borehole {i} is {str(a[q])[:60]} instead of {str(b[q])[:60]}', loc)


def attempt(c, res, rule, msg, fn):
    """fn() -> (value, state, function, wanted)"""
    from ..arrays import Fails, Unknown
    f = None
    try:
        v, st, f, want = fn()
        if v is None or st is None:
            raise Unknown('no result')
        got = c.read(v, st)
    except Fails as ex:
        if f is None:
            res.undec(rule, msg, str(ex)[:120])
        else:
            res.find(rule, f'{f.qual.split(".", 1)[1]}|fails', f'{msg} fails: {ex}', (f.module.file, f.node.lineno))
        return
    except Unknown as ex:
        res.undec(rule, msg, str(ex)[:120])
        return
    except DeadPath:
        res.undec(rule, msg, 'raises')
        return
    compare(res, rule, None, msg, got, want, f)


def conversions(new, tilts, n, res, what):
    say = f'{n} borehole(s), {what}'

    def case(fn, rule, msg, values=None):
        with new() as c:
            qs, want = c.quantities(tilts, n, values=values)
            attempt(c, res, rule, f'{msg} ({say})', lambda: fn(c, qs, want))

    def one(r, c, f, want):
        return r.result, r.st, f, want

    def built(c, qs, want):
        o, st = c.field(qs, c.st)
        return o, st, c.e.classes[c.F].find('__init__'), want

    def single(c, qs, want):
        bs, st = c.boreholes(qs, c.st)
        return c.e.mk_list(st, bs), st, c.e.classes[c.B].find('__init__'), want

    def from_list(c, qs, want):
        bs, st = c.boreholes(qs, c.st)
        r, f = c.call(c.F, 'from_boreholes', [c.e.mk_list(st, bs)], st)
        return one(r, c, f, want)

    def from_one(c, qs, want):
        bs, st = c.boreholes(qs, c.st)
        r, f = c.call(c.F, 'from_boreholes', [bs[0]], st)
        return one(r, c, f, want[:1])

    def to_list(c, qs, want):
        o, st = c.field(qs, c.st)
        r, f = c.call(c.F, 'to_boreholes', [], st, o)
        return one(r, c, f, want)

    def round_trip(c, qs, want):
        v, st, f, _ = to_list(c, qs, want)
        r, f = c.call(c.F, 'from_boreholes', [v], st)
        return one(r, c, f, want)

    def broadcast(names):
        def f(c, qs, want):
            o, st = c.field(qs, c.st, names)
            w = [dict(b, **{q: want[0][q] if q != 'orientation' or not vertical(tilts[i]) else b[q] for q in names}) for i, b in enumerate(want)]
            return o, st, c.e.classes[c.F].find('__init__'), w
        return f
    case(built, 'conversion', 'a field built from arrays')
    case(single, 'conversion', 'boreholes built one by one')
    case(from_list, 'conversion', 'a field built from a list of boreholes')
    case(from_one, 'conversion', 'a field built from one borehole')
    case(to_list, 'conversion', 'the list of boreholes of a field')
    case(round_trip, 'conversion', 'a field converted to a list and back')
    case(broadcast(('H',)), 'conversion', 'a field with one length for all')
    case(broadcast(('D', 'r_b')), 'conversion', 'a field with one buried depth and radius for all')
    if not any(map(vertical, tilts[:n])):
        case(broadcast(('orientation',)), 'conversion', 'a field with one orientation for all')


def vertical(t):
    return abs(t) <= 1e-6


def indexing(new, tilts, n, res, what):
    g = lambda c: c.e.g
    keys = [(str(k), lambda c, k=k: c.e.cv(k), [k]) for k in range(-n, n)]
    for a, b, s in ((None, None, None), (0, 2, None), (1, None, None), (None, None, -1), (None, -1, None), (None, None, 2)):
        r = list(range(n))[a:b:s]
        if r:
            keys.append((f'{a}:{b}:{s}'.replace('None', ''), lambda c, t=(a, b, s): _slice(c, t), r))
    if n == 3:
        keys.append(('[2, 0]', lambda c: c.e.num(g(c).mk('call', ('numpy.array', ()), g(c).mk('list', None, *[g(c).const(x) for x in (2, 0)])), ty='array'), [2, 0]))
    for name, mk, sel in keys:
        with new() as c:
            qs, want = c.quantities(tilts, n)

            def fn():
                o, st = c.field(qs, c.st)
                r, f = c.call(c.F, '__getitem__', [mk(c)], st, o)
                return r.result, r.st, f, [want[i] for i in sel]
            attempt(c, res, 'index', f'field[{name}] ({n} boreholes, {what})', fn)


def _slice(c, t):
    from ..engine import V
    g = c.e.g
    n = g.mk('slice', None, *[g.const(x) for x in t])
    return V('slice', node=n, items=tuple(c.e.cv(x) for x in t))


def concatenation(new, tilts, n, res, what):
    """field + (field, list, borehole) and the mirrored operations"""
    def operand(c, kind, qs, want, st):
        if kind == 'field':
            o, st = c.field(qs, st)
            return o, st, want
        bs, st = c.boreholes(qs, st)
        if kind == 'list':
            return c.e.mk_list(st, bs), st, want
        return bs[0], st, want[:1]
    for left, right, cls, op in (('field', 'field', 'F', '__add__'), ('field', 'list', 'F', '__add__'), ('field', 'borehole', 'F', '__add__'),
                                 ('list', 'field', 'F', '__radd__'), ('borehole', 'field', 'F', '__radd__'), ('field', 'field', 'F', '__radd__'),
                                 ('borehole', 'borehole', 'B', '__add__'), ('borehole', 'list', 'B', '__add__'), ('borehole', 'field', 'B', '__add__'),
                                 ('list', 'borehole', 'B', '__radd__'), ('borehole', 'borehole', 'B', '__radd__'), ('field', 'borehole', 'B', '__radd__')):
        with new() as c:
            if c.e.classes[getattr(c, cls)].find(op) is None:
                continue
            qa, wa = c.quantities(tilts, n, 'a:')
            qb, wb = c.quantities(tilts[::-1], max(n - 1, 1), 'b:')

            def fn():
                a, st, w1 = operand(c, left, qa, wa, c.st)
                b, st, w2 = operand(c, right, qb, wb, st)
                me, ot = (a, b) if op == '__add__' else (b, a)
                r, f = c.call(getattr(c, cls), op, [ot], st, me)
                return r.result, r.st, f, w1 + w2
            attempt(c, res, 'concatenation', f'{left} + {right} ({n} borehole(s), {what})', fn)


def files(new, tilts, n, res, what, readers=()):
    from ..arrays import Fails, Unknown
    for cls, name in [('Borefield', 'from_file')] + list(readers):
        with new() as c:
            qs, want = c.quantities(tilts, n)
            msg = f'a field written to and read from a file by {name}() ({n} borehole(s), {what})'

            def fn():
                o, st = c.field(qs, c.st)
                w, fw = c.call(c.F, 'to_file', [c.e.sym('filename', 'str')], st, o)
                if w.st is None:
                    raise Unknown('no result')
                ev = [x for x in w.events if x.kind == 'extcall' and x.d['name'] == 'numpy.savetxt']
                if len(ev) != 1 or len(ev[0].d['args']) < 2:
                    raise Unknown('not written by numpy.savetxt')
                d = ev[0].d
                opt = {k: c.e.const_of(v) for k, v in d['kwargs'].items()}
                if len(d['args']) > 2:
                    opt['fmt'] = c.e.const_of(d['args'][2])
                if len(d['args']) > 3:
                    opt['delimiter'] = c.e.const_of(d['args'][3])
                precise(opt.get('fmt', '%.18e'), res, fw, ev[0])
                data = written(c, c.A(c.e.node(d['args'][1], w.st)))
                delim = opt.get('delimiter', ' ')

                def load(*a, **k):
                    import numpy as np
                    from ..arrays import integer
                    x = data
                    bad = set(k) - {'ndmin', 'delimiter', 'dtype', 'comments', 'encoding', 'skiprows', 'unpack'}
                    if bad or len(a) > 1 or k.get('comments', '#') != '#' or 'dtype' in k and k['dtype'] is not None and k['dtype'] != 'float':
                        raise Unknown(f'loadtxt({", ".join(bad)})')
                    if (k.get('delimiter') or ' ').strip() != (delim or ' ').strip():
                        raise Fails('the delimiter read is not the one written')
                    nd = integer(k.get('ndmin', 0))
                    sk = integer(k.get('skiprows', 0))
                    # the header, when there is one, is the first line
                    sk -= 1 if opt.get('header') else 0
                    x = x[max(sk, 0):]
                    if k.get('unpack') is True:
                        x = x.T
                    if nd < 2:
                        x = np.squeeze(x)
                    return x
                c.A.calls['numpy.loadtxt'] = LoadText(load)
                c.A.memo.clear()
                if cls == 'Borefield':
                    r, f = c.call(c.F, name, [c.e.sym('filename', 'str')], w.st)
                else:
                    f = c.e.funcs.get(f'pygfunction.{cls}.{name}') or c.e.funcs.get(f'toy.{cls}.{name}')
                    if f is None:
                        raise Unknown('no such function')
                    r = scen.call(c.e, name, f, {f.params[0]: c.e.sym('filename', 'str')}, w.st)
                return r.result, r.st, f, want
            attempt(c, res, 'file', msg, fn)


class LoadText:
    """evaluated with keyword arguments"""
    def __init__(self, f):
        self.kw = f


def written(c, x):
    import numpy as np
    from ..arrays import arr, _u
    x = arr(x)
    return x if isinstance(x, np.ndarray) and x.ndim == 2 else _u('not a table')


def precise(fmt, res, f, ev):
    import re
    m = re.fullmatch(r'%[-+ 0]*\d*(?:\.(\d+))?([efgrs])', fmt) if isinstance(fmt, str) else None
    if m is None:
        return
    res.count('formats')
    p = int(m.group(1) or 6)
    if m.group(2) in 'efg' and p < {'e': 15, 'g': 15, 'f': 12}[m.group(2)]:
        res.find('file', f'{f.qual.split(".", 1)[1]}|format', f'quantities are written as {fmt!r}: digits are lost', ev.loc)


def old_files(new, res, readers):
    """files without inclinations are fields of vertical boreholes"""
    from ..arrays import Poly
    import numpy as np
    for cls, name in [('Borefield', 'from_file')] + list(readers):
        for n in (1, 3):
            with new() as c:
                order = ('x', 'y', 'H', 'D', 'r_b')
                data = np.empty((n, 5), dtype=object)
                for i in range(n):
                    for j, q in enumerate(order):
                        data[i, j] = Poly.var(f'{q}{i}')
                want = [dict({q: Poly.var(f'{q}{i}') for q in order}, tilt=Poly(), orientation=Poly()) for i in range(n)]
                c.A.calls['numpy.loadtxt'] = LoadText(lambda *a, **k: data if 'ndmin' in k else np.squeeze(data))

                def fn():
                    f = c.e.classes[c.F].find(name) if cls == 'Borefield' else c.e.funcs.get(f'pygfunction.{cls}.{name}')
                    if f is None:
                        raise DeadPath()
                    if cls == 'Borefield':
                        r, f = c.call(c.F, name, [c.e.sym('filename', 'str')], c.st)
                    else:
                        r = scen.call(c.e, name, f, {f.params[0]: c.e.sym('filename', 'str')}, c.st)
                    return r.result, r.st, f, want
                attempt(c, res, 'file', f'a file without inclinations read by {name}() ({n} borehole(s))', fn)


def comparisons(new, res, tier):
    """(what, tilts, values, order/number of the other field, equal?)"""
    from ..arrays import Unknown
    t0 = TILTS['inclined']
    cases = [('equal', t0, BASE, None, True)]
    for q in Q:
        for i in (0, 2) if tier == 'quick' else (0, 1, 2):
            for s in (1, -1):
                if q == 'tilt':
                    t = tuple(t + (s * DELTA[q] if k == i else 0) for k, t in enumerate(t0))
                    cases.append((f'{q} of borehole {i}', t, BASE, None, False))
                else:
                    v = dict(BASE, **{q: tuple(x + (s * DELTA[q] if k == i else 0) for k, x in enumerate(BASE[q]))})
                    cases.append((f'{q} of borehole {i}', t0, v, None, False))
    cases += [('exchanged boreholes', t0, BASE, (1, 0, 2), False), ('fewer boreholes', t0, BASE, (0, 1), False), ('one borehole of them', t0, BASE, (0,), False)]
    same = {q: (v[0],) * 3 for q, v in BASE.items()}
    cases += [('fewer equal boreholes', (.1, .1, .1), same, (0,), False), ('fewer equal boreholes', (.1, .1, .1), same, (0, 1), False)]
    for what, tilts, vals, pick, equal in cases:
        for kind in ('field', 'list') if pick != (0,) else ('field', 'list', 'borehole'):
            for op in ('__eq__', '__ne__'):
                for side in (0, 1):
                    if kind != 'field' and side:
                        continue
                    with new() as c:
                        base = same if vals is same else BASE
                        qa, _ = c.quantities(tilts if vals is same else t0, 3, 'a:', base)
                        k = pick or (0, 1, 2)
                        qb, _ = c.quantities([tilts[i] for i in k], len(k), 'b:', {q: [vals[q][i] for i in k] for q in vals})
                        try:
                            a, st = c.field(qa, c.st)
                            if kind == 'field':
                                b, st = c.field(qb, st)
                            else:
                                bs, st = c.boreholes(qb, st)
                                b = c.e.mk_list(st, bs) if kind == 'list' else bs[0]
                            if side:
                                a, b = b, a
                            f = c.e.classes[c.F].find(op)
                            if f is None:
                                if op == '__ne__':       # the negation of ==, in Python
                                    continue
                                raise Unknown(op)
                            r, f = c.call(c.F, op, [b], st, a)
                            if r.result is None:
                                raise Unknown('no result')
                            from ..arrays import number
                            v = bool(number(c.A(c.e.node(r.result, r.st))))
                        except (Unknown, DeadPath) as ex:
                            res.undec('comparison', f'{what}|{kind}|{op}', str(ex)[:100])
                            continue
                        res.count('comparisons')
                        if v != (equal == (op == '__eq__')):
                            word = 'equal' if not equal else 'unequal'
                            res.find('comparison', f'{op}|{what.split(" of ")[0]}', f'field {"==" if op == "__eq__" else "!="} {kind}: two fields ({"that differ in " if not equal else ""}{what}) count as {word}',
                                     (f.module.file, f.node.lineno))


def lengths(new, res):
    from ..arrays import Unknown, integer
    for n in (1, 3):
        with new() as c:
            qs, _ = c.quantities(TILTS['mixed'], n)
            o, st = c.field(qs, c.st)
            r, f = c.call(c.F, '__len__', [], st, o)
            for nm, v in (('len()', r.result), ('nBoreholes', c.e.getattr_(o, 'nBoreholes', st))):
                try:
                    k = integer(c.A(c.e.node(v, r.st)))
                except Unknown as ex:
                    res.undec('length', nm, str(ex)[:100])
                    continue
                res.count('lengths')
                if k != n:
                    res.find('length', nm, f'{nm} of a field of {n} boreholes is {k}', (f.module.file, f.node.lineno))


def arguments(new, res, entries):
    """functions that accept either representation keep the same boreholes"""
    for cls, param, attr, extra in entries:
        for kind in ('list', 'field', 'borehole'):
            with new() as c:
                e = c.e
                if cls not in e.classes:
                    continue
                f = e.classes[cls].find('__init__')
                if f is None or param not in f.params:
                    continue
                qs, want = c.quantities(TILTS['mixed'], 3)

                def fn():
                    if kind == 'field':
                        o, st = c.field(qs, c.st)
                    else:
                        bs, st = c.boreholes(qs, c.st)
                        o = e.mk_list(st, bs) if kind == 'list' else bs[0]
                    kw = scen.sy(e, f)
                    kw.update(extra(e, st))
                    kw[param] = o
                    ob, st = e.construct(f'{f.cls.module.name}.{cls}', kwargs=kw, st=st)
                    if ob is None:
                        raise DeadPath()
                    return e.getattr_(ob, attr, st), st, f, want if kind != 'borehole' else want[:1]
                attempt(c, res, 'argument', f'{cls}() of a {kind}', fn)


def gf_extra(e, st):
    e.opaque = lambda fi, s: fi.cls is not None and (fi.cls.name.startswith('_') or fi.cls.name in scen.METHODS) or fi.name == 'evaluate_g_function'
    return {'method': e.cv('similarities'), 'boundary_condition': e.cv('UHTR'), 'm_flow_borehole': e.cv(None), 'm_flow_network': e.cv(None), 'cp_f': e.cv(None), 'options': e.mk_dict(st, {})}


ENTRIES = [('gFunction', 'boreholes_or_network', 'boreholes', gf_extra)]
READERS = [('boreholes', 'field_from_file')]


def jobs(tier):
    out = []
    for what in TILTS:
        for n in (1, 2, 3):
            if n == 3 or what in ('inclined', 'vertical') or tier == 'thorough':
                out.append(('fields', what, n))
    return out + ['comparisons', 'other']


def run(job, root):
    res = Res()
    e = scen.engine(root)

    def new():
        return Case(e)
    if job == 'comparisons':
        comparisons(new, res, os.environ.get('VERIF_TIER', 'quick'))
    elif job == 'other':
        lengths(new, res)
        old_files(new, res, READERS)
        arguments(new, res, ENTRIES)
    else:
        _, what, n = job
        t = TILTS[what]
        conversions(new, t, n, res, what)
        indexing(new, t, n, res, what)
        concatenation(new, t, n, res, what)
        files(new, t, n, res, what, READERS)
    res.seen(e)
    for q in ('Borefield.__init__', 'Borefield.__getitem__', 'Borefield.__eq__', 'Borefield.__add__', 'Borefield.__radd__', 'Borefield.from_boreholes', 'Borefield.to_boreholes',
              'Borefield.to_file', 'Borefield.from_file', 'Borehole.__add__', 'Borehole.__radd__', 'field_from_file', 'gFunction.__init__'):
        if q not in res.entries and job == 'other':
            res.entry(q)
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    good, bad = Res(), Res()
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    for cls, r in (('FieldGood', good), ('FieldBad', bad)):
        def new():
            return Case(e, (cls, 'Hole'))
        t = TILTS['mixed']
        conversions(new, t, 3, r, 'mixed')
        indexing(new, t, 3, r, 'mixed')
        concatenation(new, t, 3, r, 'mixed')
        files(new, t, 3, r, 'mixed')
        comparisons(new, r, 'quick')
        lengths(new, r)
        arguments(new, r, [('Uses' + cls, 'holes', 'holes', lambda e, st: {})])
    assert not good.findings, sorted(good.findings)
    assert good.counts['comparisons'] > 20 and good.counts['quantities'] > 200, good.counts
    return bad
