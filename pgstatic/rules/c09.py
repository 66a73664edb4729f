"""C09: diagnostics and plots never influence results."""
import os

from .. import fold, model, scen
from ..scen import reach
from ..engine import Engine
from ..report import Res

LEVEL = 'other'
EXPECT = ['query-writes', 'switch-influences']
EXPLAIN = ('(1) For every switch that only displays or stores (disp, profiles), the value graph of each result is partially '
           'evaluated with the switch on and off, on all paths and for all other inputs; rule: both graphs are the same up to '
           'renaming of loop values. (2) For every visualize_* method, public query method and property, the parameters, '
           'solver and results reachable from the receiver are compared before and after the call; rule: unchanged '
           '(private working attributes, and public ones that every query sets before it reads them, aside).')
ASSUME = ['printing and drawing functions of other packages do not modify their arguments']
MIN = {'switched results': 30, 'queries': 60}
SWITCH = ('disp', 'profiles')
# what each switch selects by documentation (profiles: what is stored of Q_b and T_b)
STATE = {'disp': None, 'profiles': ('gFunc',)}


def check_query(e, res, obj, st, f, label, working=()):
    before = reach(e, obj, st)
    s2 = st.copy()
    n0 = len(e.events)
    en = scen.call(e, label, f, {} if scen.kind_of(f) == 'property' else scen.sy(e, f, **scen.other_arg(e, obj.cls.name, f, s2)), s2, obj)
    after = reach(e, obj, en.st)
    res.count('queries')
    res.entry(label)
    # attributes that did not exist before have their symbolic initial value
    for p, n in after.items():
        m = before.get(p)
        if m is None:
            if n.op == 'attr':
                continue
            last = p.split('.')[-1]
            # a new public attribute: only a violation if it is one the constructor or solver defines
            continue
        if n is not m and not fold.equiv(e.g, n, m):
            if p in working:
                res.count('working attributes')
                continue
            w = [ev for ev in e.events[n0:] if ev.kind in ('attrwrite', 'mutate')]
            w = [ev for ev in w if ev.kind == 'attrwrite' and ev.d['attr'] == p.split('.')[-1]] or w
            loc, stack = (w[0].loc, w[0].stack) if w else (None, None)
            res.find('query-writes', f'{f.qual}|{p}', f'{label} changes {p}', loc, stack)


def is_parameter(n, name):
    """The attribute holds the constructor's argument of the same name, whatever the other arguments are."""
    from .c06 import STRUCT
    while True:
        if n.op == 'call' and n.data[0] in STRUCT and n.args:
            n = n.args[0]
        elif n.op in ('list', 'tuple') and len(n.args) == 1 or n.op == 'star':
            n = n.args[0]
        elif n.op == 'sym':
            return n.data == name
        else:
            return False


def working_attributes(e, obj, st, queries):
    """Public attributes that queries set before every use: changed by some query, not a parameter, and read by none as they were."""
    before = reach(e, obj, st)
    changed = {}
    for f in queries:
        s2 = st.copy()
        en = scen.call(e, f.qual, f, {} if scen.kind_of(f) == 'property' else scen.sy(e, f, **scen.other_arg(e, obj.cls.name, f, s2)), s2, obj)
        after = reach(e, obj, en.st)
        for p, n in after.items():
            m = before.get(p)
            if m is not None and n is not m and not fold.equiv(e.g, n, m) and p.count('.') == 1 and not p.startswith('len('):
                a = p.split('.')[1]
                if not is_parameter(m, a):
                    changed[a] = p
    if not changed:
        return set()
    s0 = st.copy()
    for a in changed:
        s0.heap[(('n', obj.node.id), a)] = e.sym('was:' + a, None)
    used = set()
    for f in queries:
        s2 = s0.copy()
        en = scen.call(e, f.qual, f, {} if scen.kind_of(f) == 'property' else scen.sy(e, f, **scen.other_arg(e, obj.cls.name, f, s2)), s2, obj)
        ns = list(reach(e, en.result, en.st, root='result').values()) if en.result is not None else []
        if en.result is not None and en.result.kind == 'tup':
            ns.append(e.node(en.result, en.st))
        used |= fold.deps(e.g, ns)
    return {p for a, p in changed.items() if 'was:' + a not in used}


def check_switch(e, res, label, pairs, sw, symname):
    for what, n in pairs:
        res.count('switched results')
        if symname not in fold.deps(e.g, [n]):
            continue
        a = fold.PE(e.g, {symname: e.g.const(True)})(n)
        b = fold.PE(e.g, {symname: e.g.const(False)})(n)
        if a is not b and not fold.equiv(e.g, a, b):
            res.find('switch-influences', f'{label}|{what}|{sw}', f'{what} of {label} differs with {sw} on and off')


def gf_state(e, c):
    """gFunction and solver attributes."""
    out = []
    for p, n in reach(e, c.obj, c.st, 3).items():
        a = p.split('.')[-1]
        if a in ('disp', 'profiles', 'options', 'clusters'):
            continue
        out.append((p, n))
    return out


OPT_ONLY_STORE = {'Q_b', 'T_b'}


def jobs(tier):
    g = ['functions', 'queries:Borehole', 'queries:_EquivalentBorehole', 'queries:Borefield', 'queries:Fluid']
    g += [f'queries:{c}' for c in scen.PIPES] + ['queries:Network']
    return [f'gf:{m},{b}' for m in scen.METHODS[::-1] for b in scen.BCS[::-1]] + g


# methods documented to re-parameterise or advance their receiver
COMMANDS = {'update_thermal_resistances', 'initialize', 'next_time_step', 'set_current_load', 'evaluate_g_function'}


def run(job, root):
    res = Res()
    kind, _, arg = job.partition(':')
    if kind == 'functions':
        e = scen.engine(root)
        scen.pipe_opaque(e)
        for fi in scen.module_functions(e):
            for sw in SWITCH:
                if sw in fi.params:
                    en = scen.call(e, fi.qual, fi, scen.sy(e, fi))
                    if en.result is not None:
                        check_switch(e, res, fi.qual, [('result', e.node(en.result, en.st))], sw, sw)
                        res.entry(fi.qual)
        res.seen(e)
    elif kind == 'queries':
        e = scen.engine(root)
        if arg in ('Network', 'Borefield'):
            scen.pipe_opaque(e)
        c = scen.ctor(e, arg)
        fs = []
        for f in scen.public_methods(e, arg, dunder=True):
            k = scen.kind_of(f)
            if k in ('class', 'static', 'setter') or f.name in COMMANDS or f.name in ('__setitem__', '__setattr__', '__delattr__', '__iadd__'):
                continue
            fs.append(f)
        work = working_attributes(e, c.obj, c.st, fs) if arg in ('Network',) + tuple(scen.PIPES) else set()
        for p in work:
            res.cover[f'working attribute {arg}.{p}'] = True
        for f in fs:
            check_query(e, res, c.obj, c.st, f, f'{arg}.{f.name}', () if f.name.startswith('visualize') else work)
        res.seen(e)
    elif kind == 'gf':
        m, b = arg.split(',')
        e = scen.engine(root)
        c = scen.gfunc(e, m, b)
        if c.obj is None:
            raise scen.AnchorError(f'gFunction({m},{b}) cannot be built')
        st = gf_state(e, c)
        g = [x for x in st if x[0] == 'self.gFunc']
        if not g:
            raise scen.AnchorError('gFunction has no attribute gFunc')
        check_switch(e, res, c.label, st, 'disp', 'opt_disp')
        check_switch(e, res, c.label, [x for x in st if x[0].split('.')[-1] not in OPT_ONLY_STORE], 'profiles', 'opt_profiles')
        for f in scen.public_methods(e, 'gFunction', dunder=False):
            if f.name.startswith('visualize') and scen.kind_of(f) == 'method':
                check_query(e, res, c.obj, c.st, f, f'gFunction({arg}).{f.name}')
        res.seen(e)
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    ci = e.classes['Field']
    fi = ci.find('__init__')
    o, st = e.construct('Field', kwargs={'H': e.sym('H', 'float'), 'D': e.sym('D', 'array')})
    for f in scen.public_methods(e, 'Field', dunder=False):
        check_query(e, res, o, st, f, f'Field.{f.name}')
    for q in ('toy.c09.solve', 'toy.c09.solve_good'):
        fi = e.funcs[q]
        en = scen.call(e, q, fi, scen.sy(e, fi))
        check_switch(e, res, q, [('result', e.node(en.result, en.st))], 'disp', 'disp')
    n = sorted(f['construct'].split('|')[0].split('.')[-1] for f in res.findings.values())
    assert n == ['solve', 'visualize_field', 'visualize_other'], n
    return res
