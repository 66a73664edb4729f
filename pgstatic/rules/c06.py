"""C06: physical quantities keep their role, and their object, across every call."""
import os

from .. import model, reach, scen
from ..engine import Engine
from ..nodes import walk
from ..report import Res
from . import c15

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LEVEL = 'other'
EXPECT = ['role', 'object', 'attribute', 'place']
EXPLAIN = ('Value-flow analysis of roles. At every call made from any public entry point, the value bound to a parameter that '
           'names a physical quantity is traced back through rearrangements (indexing, stacking, reshaping, branches, loops) to '
           'the attribute or argument it was read from. It must be that quantity. Parameters of the emitting borehole (..1) must '
           'all be read from one borehole, those of the receiving borehole (..2) from one, and the attributes of objects are set '
           'from the arguments of the same role. In the response matrices of the solvers, arguments picked by an index array are those of '
           'the column for the emitter and those of the row for the receiver.')
ASSUME = ['values computed by arithmetic (segment lengths, converted flow rates) have no role of their own and are not judged here',
          'role names: the documented parameter and attribute names of the public interface']
MIN = {'bindings traced': 500, 'attributes traced': 60, 'pairs traced': 10, 'placed arguments': 10, 'sources of responses': 30}

ROLE = {'H': 'H', 'D': 'D', 'r_b': 'r_b', 'rb': 'r_b', 'x': 'x', 'y': 'y', 'tilt': 'tilt', 'orientation': 'orientation',
        'k_s': 'k_s', 'k_g': 'k_g', 'k_p': 'k_p', 'k_f': 'k_f', 'r_in': 'r_in', 'r_out': 'r_out', 'R_fp': 'R_fp', 'R_ff': 'R_ff',
        'T_f_in': 'T_f_in', 'T_b': 'T_b', 'Q_f': 'Q_f', 'Q_t': 'Q_t', 'cp_f': 'cp_f', 'mu_f': 'mu_f', 'rho_f': 'rho_f', 'epsilon': 'epsilon',
        'alpha': 'alpha', 'time': 'time', 'dt': 'dt', 'tmax': 'tmax', 'm_flow_pipe': 'm_flow', 'm_flow_borehole': 'm_flow', 'm_flow_network': 'm_flow',
        'B_1': 'B_1', 'B_2': 'B_2', 'N_1': 'N_1', 'N_2': 'N_2', 'B': 'B', 'R': 'R', 'q_b': 'q_b', 'dis': 'dis', 'wDis': 'wDis',
        'nSegments': 'nSegments', 'segment_ratios': 'segment_ratios', 'r_a_in': 'r_a_in', 'r_a_out': 'r_a_out',
        'mu': 'mu_f', 'rho': 'rho_f', 'cp': 'cp_f', 'k': 'k_f', 'tol': 'tol', 'disTol': 'disTol', 'J': 'J', 'reaSource': 'reaSource',
        'imgSource': 'imgSource', 'nPipes': 'nPipes', 'percent': 'percent', 'nSources': 'nSources', 'cells_per_level': 'cells_per_level'}
# (parameter, source): documented uses of a quantity under another role
COMPAT = {('r_a_in', 'r_out'), ('r_a_out', 'r_in'), ('dis', 'r_b'), ('B_1', 'B'), ('B_2', 'B'), ('N', 'N_1'), ('N', 'N_2'), ('B', 'B_1'), ('B', 'B_2'),
          ('tol', 'disTol'), ('time', 'dt'), ('time', 'tmax'), ('k_p', 'k_f')}
# names that mean something else in functions that do not describe a borehole or a field
GENERIC = {'x', 'y', 'N', 'B', 'R', 'J', 'tol', 'time', 'dt', 'k_f'}
STRUCT = {'numpy.reshape', 'numpy.array', 'numpy.asarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.tile', 'numpy.repeat', 'numpy.broadcast_to',
          'numpy.concatenate', 'numpy.flatten', 'numpy.ravel', 'numpy.transpose', 'numpy.copy', 'numpy.expand_dims', 'numpy.hstack', 'numpy.vstack',
          'numpy.stack', 'numpy.item', 'numpy.squeeze', 'numpy.ascontiguousarray', 'numpy.float64', 'numpy.unique', 'numpy.sort', 'numpy.flip',
          'float', 'int', 'list', 'tuple', 'sorted', 'reversed', 'numpy.astype', 'numpy.tolist', 'numpy.broadcast_arrays', 'numpy.meshgrid', 'numpy.take',
          'copy', 'copy.copy', 'copy.deepcopy', 'numpy.abs0'}


def strip(p):
    """(role, suffix) of a parameter or attribute name"""
    s = ''
    b = p
    if p[-1:] in '12' and p not in ('B_1', 'B_2', 'N_1', 'N_2', 'N1', 'N2', 'W1', 'W2', 'N0'):
        s, b = p[-1], p[:-1]
    r = ROLE.get(b)
    return r, s


class Peel:
    """Where a value comes from: the set of (name, base node) it is read from, None when it is computed."""
    def __init__(self, e):
        self.e, self.g = e, e.g
        self.memo = {}

    def __call__(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.memo[n.id] = self.go(n, set())
        return r

    def go(self, root, seen):
        out = set()
        stack = [root]
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            op = n.op
            if op == 'attr':
                out.add((n.data, n.args[0]))
            elif op == 'sym':
                s = str(n.data)
                if ':' in s:
                    out.add((None, n))
                else:
                    out.add((s[4:] if s.startswith('opt_') else s, None))
            elif op in ('idx', 'elem', 'lsum'):
                stack.append(n.args[0])
            elif op == 'phi':
                stack += n.args[1:]
            elif op in ('list', 'tuple'):
                stack += n.args
            elif op == 'star':
                stack += n.args
            elif op == 'mu':
                d = self.g.mus.get(n.data)
                if d is None:
                    out.add((None, n))
                else:
                    stack += [x for x in d[:2] if x is not None]
            elif op == 'store':
                # container, key, value
                stack += [n.args[0], n.args[-1]]
            elif op == 'call' and n.data[0].startswith('method:') and len(n.args) >= 1 and n.data[0][7:] in ROLE:
                out.add((n.data[0][7:], n.args[0]))
            elif op == 'call' and (n.data[0] in STRUCT or n.data[0].startswith('method:') and 'numpy.' + n.data[0][7:] in STRUCT):
                stack.append(n.args[0]) if n.args else out.add((None, n))
            elif op == 'call' and n.data[0] == 'numpy.append' and len(n.args) > 1:
                stack += n.args[:2]
            elif op == 'call' and n.data[0] == 'numpy.full' and len(n.args) > 1:
                stack.append(n.args[1])
            elif op == 'const':
                pass
            else:
                out.add((None, n))
        return out


def judged(p, r, callee_params, public):
    if r is None:
        return False
    b = p.rstrip('12')
    if b in ('k', 'mu', 'rho', 'cp'):
        return False
    if r in ('x', 'y'):
        return p in ('x1', 'y1', 'x2', 'y2') or {'H', 'D', 'r_b'} <= callee_params
    if r in GENERIC:
        return public and r in callee_params and r not in ('R', 'N', 'J')
    return True


def public_name(q):
    n = q.split('.')[-1]
    return not n.startswith('_') or n == '__init__'


def role_of(name, base):
    """Role of what a value is read from (None: not a physical quantity)"""
    if name is None:
        return None, ''
    r, s = strip(name)
    if r in ('mu_f', 'rho_f', 'cp_f', 'k_f') and name in ('mu', 'rho', 'cp', 'k') and base is None:
        return None, ''
    if base is None and r in ('x', 'y', 'N', 'B', 'R', 'J', 'tol') and r != name:
        return None, ''
    return r, s


def same(g, a, b):
    from .. import fold
    return a is b or fold.equiv(g, a, b)


def suffix_of(g, base):
    """Which of a pair (borehole1, borehole2; pair[0], pair[1]) an object is"""
    n = base
    while n.op in ('idx', 'elem', 'attr', 'lsum') and n.args:
        n = n.args[0]
    if n.op == 'sym' and str(n.data)[-1:] in '12' and str(n.data)[:-1] in ('borehole', 'pair', 'b', 'bore', 'segment'):
        return str(n.data)[-1]
    return ''


def check_call(en, ev, res, P):
    e, g = en.e, en.e.g
    q = ev.d['callee']
    nodes = ev.d['nodes']
    ps = set(nodes)
    pub = public_name(q)
    at = ev.stack[-1] if ev.stack else '?'
    groups = {}
    for p, n in nodes.items():
        r, s = strip(p)
        if not judged(p, r, ps, pub):
            continue
        src = P(n)
        known = [(a, b) for a, b in src if role_of(a, b)[0] is not None]
        if not known:
            continue
        res.count('bindings traced')
        for a, b in known:
            r2, s2 = role_of(a, b)
            if r2 != r and (r, r2) not in COMPAT:
                res.find('role', f'{at}>{q}|{p}', f'{en.label}: parameter {p} of {q.split(".")[-1]} receives {a}'
                         f'{" of " + str(b)[:60] if b is not None else ""}', ev.loc, ev.stack)
                break
        else:
            # the object it is read from
            if len(known) == len(src):
                tags = []
                for a, b in known:
                    tags.append(('s', role_of(a, b)[1], None) if b is None else ('n', suffix_of(g, b), b))
                key = s if s else ('*' if {'H', 'D', 'r_b', 'x', 'y'} <= ps else None)
                if key is not None:
                    groups.setdefault(key, []).append((p, r, tags))
    for key, mem in groups.items():
        res.count('pairs traced' if key != '*' else 'objects traced')
        # the suffix of what is passed
        if key in '12':
            for p, r, tags in mem:
                for t in tags:
                    if t[1] and t[1] != key:
                        res.find('object', f'{at}>{q}|{p}', f'{en.label}: parameter {p} of {q.split(".")[-1]} receives the value of the other borehole ({t[2]})', ev.loc, ev.stack)
                        break
        base = [(p, t) for p, r, tags in mem for t in tags if t[0] == 'n']
        per = {}
        for p, r, tags in mem:
            bs = [t[2] for t in tags if t[0] == 'n']
            if bs and len(bs) == len(tags):
                per[p] = bs
        ps_ = sorted(per)
        for p in ps_[1:]:
            p0 = ps_[0]
            if not any(same(g, x, y) for x in per[p0] for y in per[p]):
                if all(plain(g, x) for x in per[p0] + per[p]):
                    res.find('object', f'{at}>{q}|{p0},{p}', f'{en.label}: {p0} and {p} of {q.split(".")[-1]} are read from different objects: '
                             f'{str(per[p0][0])[:80]} and {str(per[p][0])[:80]}', ev.loc, ev.stack)
                else:
                    res.undec('object', f'{at}>{q}|{p0},{p}', 'sources not comparable')


def plain(g, b):
    """An object reached by indexing from a symbol: two different ones are different objects"""
    n = b
    while True:
        if n.op in ('sym',):
            return True
        if n.op in ('idx', 'elem', 'attr') and n.args:
            n = n.args[0]
            continue
        return False


def check_attrs(en, res, P):
    e = en.e
    o, st = en.obj, en.st
    if o is None or o.kind != 'inst' or en.fi.name not in ('__init__', 'update_thermal_resistances'):
        return
    for (k, a), v in list(st.heap.items()):
        if k != ('n', o.node.id) or not hasattr(v, 'kind'):
            continue
        r, s = strip(a)
        if r is None or not judged(a, r, {'H', 'D', 'r_b'}, True):
            continue
        src = P(e.node(e.resolve(v, st), st))
        known = [(x, b) for x, b in src if role_of(x, b)[0] is not None]
        if not known:
            continue
        res.count('attributes traced')
        for x, b in known:
            r2 = role_of(x, b)[0]
            if r2 != r and (r, r2) not in COMPAT:
                res.find('attribute', f'{en.label}|{a}', f'attribute {a} is set from {x}', (en.fi.module.file, en.fi.node.lineno))


def check_sources(e, cls, res, meth='thermal_response_factors'):
    """The quantities of the emitter of a response are read from one segment, those of the receiver from one."""
    fi = e.classes[cls].find(meth)
    if fi is None:
        return
    old = e.opaque
    e.opaque = lambda f, s: f.cls is None and 'line_source' in f.name or f.cls is not None and f.name in ('segments', 'borehole_segments')
    en = scen.call(e, f'{cls}.{meth}', fi, scen.sy(e, fi, time=e.sym('time', 'array')), st=e.new_state(), obj=e.sym('self', cls))
    e.opaque = old
    P = Peel(e)
    done = set()
    for x in walk([e.node(en.result, en.st)], e.g.mus):
        if x.op != 'call' or 'line_source' not in x.data[0] or x.id in done:
            continue
        done.add(x.id)
        loc = (x.loc[0], x.loc[1], fi.qual) if x.loc else (fi.module.file, fi.node.lineno, fi.qual)
        side = {'1': {}, '2': {}}
        for p, a in c15.signature(e, x).items():
            r, s = strip(p)
            if s not in ('1', '2') or r is None:
                continue
            src = list(P(a))
            if len(src) != 1 or src[0][0] is None or src[0][1] is None:
                continue
            name, base = src[0]
            r2 = role_of(name, base)[0]
            if r2 is None:
                continue
            res.count('sources of responses')
            if r2 != r and (r, r2) not in COMPAT:
                res.find('role', f'{cls}|{p}', f'{cls}: argument {p} of a response receives {name}', loc)
                continue
            side[s][p] = base
        for a, b in ('12', '21'):
            A, B = side[a], side[b]
            for p in sorted(A):
                own = [q for q in A if q != p and same(e.g, A[p], A[q])]
                mate = [q for q in A if q != p and q not in own]
                if not mate or own and len(own) >= len(mate):
                    continue
                other = [q for q in B if same(e.g, A[p], B[q])]
                if other and any(not same(e.g, A[q], B[r]) for q in mate for r in other):
                    res.find('object', f'{cls}|{p}', f'{cls}: argument {p} of a response is read from the segment of {", ".join(sorted(other))} and not from '
                             f'that of {", ".join(sorted(mate))}', loc)
                elif box(A[p]) is not None and all(box(A[q]) is not None and not same(e.g, box(A[p]), box(A[q])) for q in mate):
                    res.find('object', f'{cls}|{p}', f'{cls}: argument {p} of a response is read from the segments of another borehole than '
                             f'{", ".join(sorted(mate))}', loc)


def box(b):
    """The call that made the list of segments a segment is taken from"""
    while b.op in ('idx', 'elem') and b.args:
        b = b.args[0]
    return b if b.op == 'call' and b.data[0].endswith('segments') else None


def jobs(tier):
    g = ['functions', 'Borehole', '_EquivalentBorehole', 'Borefield', 'Fluid'] + scen.AGG + scen.PIPES + ['Network', '_EquivalentNetwork']
    return [f'{m},{b}' for m in scen.METHODS for b in scen.BCS] + g[::-1] + [f'place|{c}' for c in c15.solvers(scen.engine())]


def run(job, root):
    res = Res()
    if job.startswith('place|'):
        e = scen.engine(root)
        if job[6:] in e.classes:
            c15.check_solver(e, job[6:], res, only_place=True)
            check_sources(e, job[6:], res)
        res.seen(e)
        return res
    P = None
    for en in scen.all_entries(root, visual=False, only=[job]):
        if P is None or P.g is not en.e.g:
            P = Peel(en.e)
        res.entry(en.label)
        for ev in en.events:
            if ev.kind == 'call':
                if ev.stack and ev.stack[-1] == '<entry>':
                    continue
                check_call(en, ev, res, P)
        check_attrs(en, res, P)
        res.seen(en.e)
    return res


def selftest():
    res = Res()
    e = Engine(os.path.join(HERE, 'selftest'), package='toy', attr_ty=model.ATTR_TY)
    P = Peel(e)
    for q in ('toy.c06.good', 'toy.c06.swapped', 'toy.c06.mixed_objects', 'toy.c06.other_borehole', 'toy.c06.comprehension'):
        fi = e.funcs[q]
        en = scen.call(e, q, fi, scen.sy(e, fi))
        for ev in en.events:
            if ev.kind == 'call' and not (ev.stack and ev.stack[-1] == '<entry>'):
                check_call(en, ev, res, P)
    for c in ('Tube', 'BadTube'):
        check_attrs(scen.ctor(e, c), res, P)
    c15.check_solver(e, 'FillPlace', res, only_place=True)
    n = sorted({(f['rule'], f['construct'].split('>')[0].split('|')[0].split('.')[-1]) for f in res.findings.values()})
    assert n == [('attribute', 'BadTube()'), ('object', 'mixed_objects'), ('object', 'other_borehole'), ('place', 'FillPlace'), ('role', 'comprehension'), ('role', 'swapped')], n
    return res
