"""Entry points of the library with symbolic arguments (shared by all rules).

Every public function, constructor, method, class method and property is an entry point.  Arguments are
symbols named after the parameter and owned by the caller ('user:<param>').  The list of entry points is
read from the source on every run; nothing is named here but public classes that need a particular kind
of receiver."""
import ast

from . import model
from .engine import Engine, V

ROOT = '/repo'
PIPES = ['SingleUTube', 'MultipleUTube', 'IndependentMultipleUTube', 'Coaxial']
AGG = ['ClaessonJaved', 'MLAA', 'Liu']
METHODS = ['detailed', 'similarities', 'equivalent']
BCS = ['UHTR', 'UBWT', 'MIFT']


class Entry:
    """One analysed entry point: the call made, its symbolic parameters, its result and final state."""
    def __init__(self, e, label, fi, params, result, st, obj=None, ev0=0, ev1=0):
        self.e, self.label, self.fi, self.params, self.result, self.st, self.obj = e, label, fi, params, result, st, obj
        self.ev0, self.ev1 = ev0, ev1

    @property
    def events(self):
        return self.e.events[self.ev0:self.ev1]


def engine(root=None, **kw):
    return Engine(root or ROOT, attr_ty=model.ATTR_TY, **kw)


def need(e, *names):
    """Anchors: public names the analysis needs.  A missing one is an analysis error, not a pass."""
    for n in names:
        if n not in e.funcs and n not in e.classes:
            raise AnchorError(f'public name {n} not found in the source')


class AnchorError(Exception):
    pass


def params_of(fi):
    a = fi.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def sy(e, fi, types=None, skip=(), prefix='', owner=True, **over):
    """Symbolic keyword arguments for a function."""
    out = {}
    for i, p in enumerate(params_of(fi)):
        if p in ('self', 'cls') and i == 0:
            continue
        if p in skip:
            continue
        if p in over:
            if over[p] is not None:
                out[p] = over[p]
            continue
        ty = (types or {}).get(p, model.ptype(p))
        out[p] = e.sym(prefix + p, ty, owner=('user:' + p) if owner else None)
    return out


def pipe_opaque(e, keep=('__init__',)):
    need(e, '_BasePipe')
    pc = e.classes['_BasePipe']
    e.opaque = lambda fi, s: fi.cls is not None and pc in fi.cls.mro() and fi.name not in keep


def is_public(fi):
    return not fi.name.startswith('_')


def module_functions(e, public=True):
    return [fi for q, fi in sorted(e.funcs.items())
            if fi.cls is None and '<' not in q and q == f'{fi.module.name}.{fi.name}' and (is_public(fi) or not public)]


def kind_of(fi):
    for d in fi.deco:
        if d == 'classmethod':
            return 'class'
        if d == 'staticmethod':
            return 'static'
        if d in ('property', 'cached_property', 'functools.cached_property'):
            return 'property'
        if d.endswith('.setter'):
            return 'setter'
    return 'method'


def call(e, label, fi, kw, st=None, obj=None):
    """Analyse one entry point."""
    n0 = len(e.events)
    if st is None:
        st = e.new_state()
    if fi.cls is not None and fi.name == '__init__':
        o, st = e.construct(f'{fi.cls.module.name}.{fi.cls.name}', kwargs=kw, st=st)
        return Entry(e, label, fi, kw, o, st, o, n0, len(e.events))
    k = kind_of(fi)
    if obj is not None and k in ('method', 'property'):
        if k == 'property':
            from .engine import DeadPath
            e.stack.append(('<entry>', fi.module))
            try:
                r = e.getattr_(obj, fi.name, st)
            except DeadPath:
                r = None
            finally:
                e.stack.pop()
        else:
            r = e.method(obj, fi.name, kwargs=kw, st=st)
    elif k == 'class':
        r, st = e.run(fi.qual, kwargs=kw, st=st, selfv=V('cls', cls=fi.cls, name=fi.cls.name))
    else:
        r, st = e.run(fi.qual, kwargs=kw, st=st)
    return Entry(e, label, fi, kw, r, st, obj, n0, len(e.events))


def ctor(e, cls, st=None, types=None, **over):
    ci = e.classes[cls]
    fi = ci.find('__init__')
    kw = sy(e, fi, types=types, **over)
    n0 = len(e.events)
    st = st or e.new_state()
    o, st = e.construct(f'{ci.module.name}.{ci.name}', kwargs=kw, st=st)
    return Entry(e, f'{cls}()', fi, kw, o, st, o, n0, len(e.events))


def public_methods(e, cls, dunder=True):
    """Public methods visible on a class, base classes included (implementation resolved)."""
    ci = e.classes[cls]
    seen, out = set(), []
    for c in ci.mro():
        for n, f in c.methods.items():
            if n in seen:
                continue
            seen.add(n)
            if n == '__init__':
                continue
            if n.startswith('_') and not (dunder and n.startswith('__') and n.endswith('__')):
                continue
            out.append(f)
    return out


def other_arg(e, cls, f, st):
    """Arguments of operators: another object of the same class."""
    over = {}
    if f.name in ('__add__', '__radd__', '__eq__', '__ne__', 'distance', 'unique_distance'):
        p = [x for x in f.params if x not in ('self',)]
        if p:
            over[p[0]] = e.sym(p[0], cls, owner='user:' + p[0])
    return over


# ------------------------------------------------------------------------------------------------
def obj_scenarios(e, cls, st0=None, make=None, tag=''):
    """Constructor plus every public method on the constructed object (each from the same state)."""
    c = make(e) if make else ctor(e, cls)
    yield c
    if c.obj is None:
        return
    for f in public_methods(e, cls):
        st = c.st.copy()
        k = kind_of(f)
        over = other_arg(e, cls, f, st)
        if k in ('class', 'static'):
            yield call(e, f'{cls}.{f.name}{tag}', f, sy(e, f, **over), st)
        elif k == 'setter':
            continue
        elif k == 'property':
            yield call(e, f'{cls}.{f.name}{tag}', f, {}, st, c.obj)
        else:
            yield call(e, f'{cls}.{f.name}{tag}', f, sy(e, f, **over), st, c.obj)


OPTS = [('nSegments', 'int'), ('segment_ratios', 'array?'), ('approximate_FLS', 'bool'), ('nFLS', 'int'), ('mQuad', 'int'),
        ('linear_threshold', 'float?'), ('disp', 'bool'), ('profiles', 'bool'), ('kind', 'str'), ('dtype', 'str')]
OPTS_SIM = [('disTol', 'float'), ('tol', 'float')]
OPTS_EQ = [('disTol', 'float'), ('tol', 'float'), ('kClusters', 'int')]


def option_names(method):
    return OPTS + (OPTS_SIM if method == 'similarities' else OPTS_EQ if method == 'equivalent' else [])


def sym_options(e, st, method, names=None, over=None, owner='user:options'):
    d = {}
    for k, ty in option_names(method):
        if names is None or k in names:
            d[k] = e.sym('opt_' + k, ty, owner=f'{owner}[{k}]')
    d.update(over or {})
    o = e.mk_dict(st, d)
    o.owner = owner
    return o


def real_network(e, st, cls='Network', owner='user:network', types=None):
    """A network built by its constructor over caller-owned lists of boreholes and pipes."""
    ci = e.classes[cls]
    fi = ci.find('__init__')
    kw = sy(e, fi, types=types)
    o, st = e.construct(f'{ci.module.name}.{ci.name}', kwargs=kw, st=st)
    if o is not None:
        o.owner = owner
    return o, st


def gfunc(e, method, bc, net=None, names=None, opt_over=None, time='num', st=None, kw_over=None, boreholes=None):
    """gFunction(...) for one method and boundary condition; the argument is a list of boreholes or a network."""
    st = st or e.new_state()
    pipe_opaque(e)
    fi = e.classes['gFunction'].find('__init__')
    net = (bc == 'MIFT') if net is None else net
    kw = sy(e, fi, types={'time': time}, method=e.cv(method), boundary_condition=e.cv(bc))
    if net:
        o, st = real_network(e, st)
        kw['boreholes_or_network'] = o
        kw['m_flow_network'] = e.cv(None)
        kw['m_flow_borehole'] = e.sym('m_flow_borehole', 'array', owner='user:m_flow_borehole')
    else:
        kw['boreholes_or_network'] = boreholes or e.sym('boreholes', 'list[Borehole]', owner='user:boreholes')
        kw['m_flow_network'] = kw['m_flow_borehole'] = kw['cp_f'] = e.cv(None)
    kw['options'] = sym_options(e, st, method, names, opt_over)
    kw.update(kw_over or {})
    n0 = len(e.events)
    ci = e.classes['gFunction']
    o, st = e.construct(f'{ci.module.name}.{ci.name}', kwargs=kw, st=st)
    return Entry(e, f'gFunction({method},{bc})', fi, kw, o, st, o, n0, len(e.events))


def all_entries(root=None, gf=True, visual=True, only=None):
    """Yield analysed entries over the whole public interface (several engines)."""
    def eng():
        e = engine(root)
        need(e, 'Borehole', 'Borefield', 'Network', 'gFunction', *PIPES, *AGG)
        return e

    def want(x):
        return only is None or x in only
    # module level functions
    if want('functions'):
        e = eng()
        pipe_opaque(e)
        for fi in module_functions(e):
            if not visual and fi.name.startswith('visualize'):
                continue
            over = {}
            st = e.new_state()
            yield call(e, fi.qual.split('.', 1)[1], fi, sy(e, fi, **over), st)
    for cls in ('Borehole', '_EquivalentBorehole', 'Borefield', 'Fluid'):
        if want(cls) and cls in eng().classes:
            e = eng()
            pipe_opaque(e)
            yield from obj_scenarios(e, cls)
    for cls in AGG:
        if want(cls):
            e = eng()
            yield from agg_scenarios(e, cls)
    for cls in PIPES:
        if want(cls):
            e = eng()
            yield from obj_scenarios(e, cls)
    for cls in ('Network', '_EquivalentNetwork'):
        if want(cls) and cls in eng().classes:
            e = eng()
            pipe_opaque(e)
            yield from obj_scenarios(e, cls)
    if gf:
        for m in METHODS:
            for bc in BCS:
                if want(f'{m},{bc}'):
                    e = eng()
                    c = gfunc(e, m, bc)
                    yield c
                    if c.obj is None:
                        continue
                    for f in public_methods(e, 'gFunction'):
                        if kind_of(f) == 'method' and (visual or not f.name.startswith('visualize')):
                            yield call(e, f'gFunction({m},{bc}).{f.name}', f, sy(e, f), c.st.copy(), c.obj)


def agg_scenarios(e, cls):
    """Load aggregation: constructor, initialise, then every operation from the initialised, stepped state."""
    c = ctor(e, cls)
    yield c
    st = c.st
    for m in ('get_times_for_simulation', 'initialize', 'next_time_step', 'set_current_load', 'temporal_superposition'):
        f = e.classes[cls].find(m)
        if f is None:
            continue
        yield call(e, f'{cls}.{m}', f, sy(e, f), st, c.obj)
    for f in public_methods(e, cls):
        if f.name not in ('get_times_for_simulation', 'initialize', 'next_time_step', 'set_current_load', 'temporal_superposition') and kind_of(f) == 'method':
            yield call(e, f'{cls}.{f.name}', f, sy(e, f), st, c.obj)


# ------------------------------------------------------------------------------------------------
def leaves(v):
    if v.kind == 'phi':
        return leaves(v.a) + leaves(v.b)
    return [v]


def reach(e, obj, st, depth=4, root='self'):
    """public path -> content node, for everything reachable from an object (lists of objects included)"""
    out, seen = {}, set()

    def attrs(v):
        key = ('n', v.node.id)
        return [k[1] for k, x in list(st.heap.items()) if k[0] == key and hasattr(x, 'kind') and not k[1].startswith('_')]

    def put(path, n):
        old = out.get(path)
        out[path] = n if old is None or old is n else e.g.mk('tuple', None, old, n)

    def isobj(v):
        return all(x.kind in ('inst', 'sobj') for x in leaves(v))

    def rec(v, path, d):
        v = e.resolve(v, st)
        if v.kind in ('inst', 'sobj') or v.kind == 'phi' and isobj(v):
            ls = leaves(v)
            k = tuple(x.node.id for x in ls)
            if k in seen or d == 0:
                return
            seen.add(k)
            for a in sorted({a for x in ls for a in attrs(x)}):
                if len(ls) == 1:
                    x = st.heap[(('n', v.node.id), a)]
                else:
                    from .engine import DeadPath
                    try:
                        x = e.getattr_(v, a, st)
                    except DeadPath:
                        continue
                rec(x, f'{path}.{a}', d - 1)
            return
        if v.kind == 'phi' and any(x.kind == 'lst' for x in leaves(v)):
            for x in leaves(v):
                rec(x, path, d)
            return
        if v.kind == 'lst':
            c = st.heap.get(('L', v.uid))
            if c is not None and c.items is not None and any(isobj(x) for x in c.items):
                for i, x in enumerate(c.items):
                    rec(x, f'{path}[{i}]', d - 1)
                return
            if c is not None and c.elem is not None:
                x = e.resolve(c.elem, st)
                if isobj(x):
                    rec(x, f'{path}[]', d - 1)
                    if c.ln is not None:
                        put(f'len({path})', c.ln)
                    return
        if v.kind in ('func', 'cls', 'ext', 'extm', 'iter'):
            return
        put(path, e.node(v, st))
    rec(obj, root, depth)
    return out


def observables(en, depth=3, state=True):
    """What a caller can observe of an analysed call: result and public state of the receiver."""
    out = {}
    if en.result is not None:
        out.update(reach(en.e, en.result, en.st, depth, 'result'))
        if en.result.kind == 'tup':
            out['result'] = en.e.node(en.result, en.st)
    if en.obj is not None and state and en.obj is not en.result:
        out.update(reach(en.e, en.obj, en.st, depth))
    return out
