"""C05: every argument and option reaches the computation it controls."""
import itertools
import json
import os

from .. import fold, model, reach, scen
from ..engine import Engine
from ..report import Res

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
LEVEL = 'other'
EXPECT = ['not-forwarded', 'replaced', 'no-influence', 'bad-call']
EXPLAIN = ('Value-flow analysis. (1) At every call of a public function, constructor or method made while evaluating a public '
           'entry point, a parameter that the entry point (or the solution options) also has must be bound to a value that '
           'depends on it; scalar options must be forwarded unchanged. (2) For every entry point and every setting of its '
           'switches, each observable result must depend (data, gates and loop conditions) on every argument listed for it in '
           'contracts/c05.json. (3) Every call binds its arguments to parameters the callee has.')
ASSUME = ['a constant bound under a path condition that fixes the option to that constant is a forward of it',
          'contracts/c05.json lists, per entry point and switch setting, the documented influences (reviewed)']
MIN = {'bindings': 800, 'influences': 600, 'option bindings': 60}

# consumer parameter -> options it is fed from
ALIAS = {'approximation': 'approximate_FLS', 'N': 'nFLS', 'M': 'mQuad'}
EXACT = {'approximation', 'approximate_FLS', 'nFLS', 'mQuad', 'M', 'alpha', 'kind', 'disTol', 'kClusters', 'J', 'reaSource', 'imgSource', 'epsilon',
         'k_s', 'k_g', 'k_p', 'profiles', 'disp', 'linear_threshold', 'dtype', 'reversible_flow', 'N', 'mu_f', 'rho_f'}
# flow rates: a borehole or pipe flow rate comes from whichever flow rate the entry point was given
SOURCES = {'m_flow_network': ('m_flow_network', 'm_flow_borehole'), 'm_flow_borehole': ('m_flow_borehole', 'm_flow_network')}
# (callee, parameter): a query of the library's own, not the user's option
OWN = {('find_duplicates', 'disp'), ('remove_duplicates', 'disp')}
OBJECTS = {'network', 'boreholes', 'borehole', 'boreField', 'borefield', 'pipes', 'UTubes', 'pipe', 'fluid', 'boreholes_or_network', 'borehole1', 'borehole2'}
# (class, parameters): arguments that only trigger an evaluation ahead of use when given
AHEAD = {'Network': ('m_flow_network', 'cp_f', 'nSegments', 'segment_ratios'), '_EquivalentNetwork': ('m_flow_network', 'cp_f', 'nSegments', 'segment_ratios')}
FLOWS = ('m_flow_network', 'm_flow_borehole')
PEEL = {'float', 'int', 'bool', 'str', 'numpy.asarray', 'numpy.atleast_1d', 'numpy.array', 'numpy.float64'}


def is_public(q):
    n = q.split('.')[-1]
    return not n.startswith('_') or n == '__init__'


def is_func(e, q):
    fi = e.funcs.get(q)
    return fi is not None and fi.cls is None


def const_time_inf(nodes):
    t = nodes.get('time')
    if t is None:
        return False
    return t.op == 'const' and (t.data == ('inf',) or t.data == float('inf')) or t.op == 'ext' or (t.op == 'call' and 'inf' in repr(t)[:60] and not t.args) or repr(t) in ("('inf',)", 'ext:numpy.inf', 'numpy.inf')


def under_pc(e, ev, name):
    """value of a (boolean) option symbol fixed by the path condition"""
    for c, v in ev.pc:
        if c.op == 'sym' and c.data == name:
            return v
        if c.op == 'un' and c.data == 'not' and c.args[0].op == 'sym' and c.args[0].data == name:
            return not v
        if c.op == 'bool' and ((c.data == 'and' and v) or (c.data == 'or' and not v)):
            for x in c.args:
                if x.op == 'sym' and x.data == name:
                    return v
    return None


def peel(n):
    while n.op == 'call' and n.data[0] in PEEL and len(n.args) == 1:
        n = n.args[0]
    return n


def alternatives(n, gates=()):
    n = peel(n)
    if n.op == 'phi':
        yield from alternatives(n.args[1], gates + (n.args[0],))
        yield from alternatives(n.args[2], gates + (n.args[0],))
    else:
        yield n, gates


def check_exact(e, R, n, src):
    """None if forwarded unchanged, else a description"""
    alts = list(alternatives(n))
    hit = [a for a, _ in alts if a.op == 'sym' and a.data in src]
    for a, gates in alts:
        if a.op == 'sym' and a.data in src:
            continue
        if a.op in ('bin', 'un', 'cmp', 'bool'):
            return f'replaced by {a!r}'
        if a.op == 'const' and hit and a.data is not None:
            # a default standing in for an option that was not given
            if any(any(R.dep(g, s) for s in src) or R.dep(g, 'opt_approximate_FLS') or R.dep(g, 'approximation') for g in gates):
                continue
            return f'replaced by {a!r} on some paths'
    return None


def check_bindings(en, res, R):
    e = en.e
    psym = {p for p, v in en.params.items() if v.node is not None and v.node.op == 'sym' and p not in OBJECTS}
    gf = 'gFunction' in en.label
    res.entry(en.label)
    for ev in en.events:
        if ev.kind != 'call':
            continue
        if ev.d['bad'] and not (ev.stack and ev.stack[-1] == '<entry>'):
            res.find('bad-call', f'{ev.stack[-1]}>{ev.d["callee"]}', f'{ev.d["bad"]} in call of {ev.d["callee"]}', ev.loc, ev.stack)
        q = ev.d['callee']
        if not is_public(q) or not ev.stack or ev.stack[-1] == '<entry>':
            continue
        name = q.split('.')[-1]
        inf = None
        # public functions between the entry point and the call: they decide themselves what they take
        between = [f for f in ev.stack[2:] if is_func(e, f) and is_public(f)]
        for p, n in ev.d['nodes'].items():
            if p in ('self', 'cls'):
                continue
            if '.solvers.' in q and name != '__init__' and p not in ('alpha', 'kind', 'time'):
                continue
            src = [s for s in SOURCES.get(p, (p,)) if s in psym]
            viaopt = False
            if not src and gf and p in ('nSegments', 'segment_ratios') and False:
                pass
            if gf and ('opt_' + ALIAS.get(p, p)) in OPTSYMS:
                o = 'opt_' + ALIAS.get(p, p)
                if p in ALIAS and p != ALIAS[p]:
                    # options of the response factors: consumers are the line source functions called by a solver
                    if not is_func(e, q) or between:
                        continue
                if o in R.syms:
                    src, viaopt = [o], True
            if not src:
                continue
            if (name, p) in OWN:
                continue
            if n.op == 'const' and n.data is None:
                if name == '__init__' and p in AHEAD.get(q.split('.')[-2], ()):
                    continue
                if p in FLOWS and any(f in ev.d['nodes'] and any(R.dep(ev.d['nodes'][f], s) for s in src) for f in FLOWS):
                    continue          # given as the other flow rate
            if name == '__init__' and p in ('tilt', 'orientation') and q.split('.')[-2] == 'Borehole':
                continue              # boreholes at the centre of a field are vertical
            if any(p not in e.funcs[f].params for f in between):
                continue
            if inf is None:
                inf = const_time_inf(ev.d['nodes'])
            if inf and (p in ('time', 'alpha') or viaopt):
                # steady-state solution used to compare boreholes: independent of time
                continue
            if viaopt and p in ('nSegments', 'segment_ratios') and between:
                continue
            res.count('option bindings' if viaopt else 'bindings')
            if any(R.dep(n, s) for s in src):
                if p in EXACT and (viaopt or p != 'N'):
                    bad = check_exact(e, R, n, src)
                    if bad:
                        res.find('replaced', f'{ev.stack[-1]}>{q}|{p}', f'{en.label}: {src[0]} {bad} in call of {name}', ev.loc, ev.stack)
                continue
            fixed = under_pc(e, ev, src[0])
            if fixed is not None and n.op == 'const' and bool(n.data) == fixed:
                continue
            if under_pc(e, ev, 'approximation') is False and p == 'N':
                continue          # the number of terms belongs to the approximation
            res.find('not-forwarded', f'{ev.stack[-1]}>{q}|{p}',
                     f'{en.label}: parameter {p} of {name} is bound to {str(n)[:80]}, which does not depend on {src[0]}', ev.loc, ev.stack)


OPTSYMS = {'opt_' + k for k, _ in scen.OPTS + scen.OPTS_SIM + scen.OPTS_EQ}


# ---------------------------------------------------------------- influence
def strata(e, en):
    """Settings of the switches of an entry point: list of (label, substitution, rule)."""
    g = e.g
    sw = []
    for p, v in en.params.items():
        if v is None or v.kind == 'const':
            continue
        ty = model.ptype(p)
        if p == 'disp':
            continue
        if ty == 'bool':
            sw.append((p, 'bool'))
        elif ty and ty.endswith('?'):
            sw.append((p, 'none'))
    if any(p in en.params for p in ('borehole1',)):
        sw.append(('vertical', 'vert'))
    if len(sw) > 4:
        sw = sw[:4]
    for combo in itertools.product((True, False), repeat=len(sw)):
        sub, lab = {}, []
        none = {}
        vert = None
        for (p, k), c in zip(sw, combo):
            if k == 'bool':
                sub[p] = g.const(c)
                lab.append(f'{p}={c}')
            elif k == 'none':
                none[p] = c
                lab.append(f'{p} {"is" if c else "is not"} None')
            else:
                vert = c
                lab.append('vertical' if c else 'inclined')

        def rule(n, a, none=none, vert=vert):
            if n.op == 'cmp' and n.data == 'is' and a[1].op == 'const' and a[1].data is None and a[0].op == 'sym' and a[0].data in none:
                return g.const(none[a[0].data])
            if vert is not None and n.op == 'attr' and n.data == '_is_tilted':
                return g.const(not vert)
            return None
        yield ', '.join(lab), sub, rule


PHYS = {'H', 'D', 'r_b', 'x', 'y', 'tilt', 'orientation', 'k_s', 'cp', 'k', 'mu', 'rho', 'nBoreholes'}
COUNTS = ('nSegments', 'opt_nSegments', 'N_1', 'N_2', 'N', 'segment_ratios', 'opt_segment_ratios')


def influences(en, value=False):
    """{stratum: {path: names}}; value: only influences on values (used to write the contract)"""
    e = en.e
    g = e.g
    state = en.fi.name in ('__init__', 'update_thermal_resistances', 'initialize', 'set_current_load', 'next_time_step', 'evaluate_g_function')
    if 'gFunction' in en.label:
        obs = {k: n for k, n in scen.observables(en).items() if k in ('self.gFunc', 'result.gFunc')}
    else:
        obs = {k: n for k, n in scen.observables(en, state=state).items() if not k.startswith('len(')}
    out = {}
    for lab, sub, rule in strata(e, en):
        pe = fold.PE(g, sub, rule) if lab else None
        for k, n in obs.items():
            m = pe(n) if pe else n
            ns = names(g, m)
            if value:
                v = reach.value_names(g, [m])
                ns = {x for x in ns if (x in v or x in COUNTS) and ('.' not in x or x.split('.')[-1].rstrip('[]') in PHYS)}
                if 'gFunction' in en.label:
                    # arguments the network was built with only fill its store ahead of use
                    ns -= {'nSegments', 'segment_ratios'} | ({'m_flow_network'} if 'm_flow_network)' not in en.label else set())
            out.setdefault(lab, {})[k] = ns
    if value:
        out = {lab: p for lab, p in out.items() if 'reaSource=False, imgSource=False' not in lab}
        if en.fi.cls is not None and not state:
            out = {lab: {k: ns for k, ns in p.items() if not k.startswith('self.')} for lab, p in out.items()}
    return out


def names(g, n):
    out = set()
    for x in reach.names(g, [n]):
        if ':' in x or '?' in x or x.startswith(('len', 'cell')) or '._' in x or x in ('disp', 'opt_disp', 'opt_profiles', 'options', 'opt_dtype', 'dtype'):
            continue
        out.add(x)
    return out


def jobs(tier):
    g = ['functions', 'Borehole', 'Borefield', 'Fluid'] + scen.AGG + scen.PIPES + ['Network', '_EquivalentNetwork', 'static']
    return ([f'{m},{b}' for m in scen.METHODS for b in scen.BCS] + g[::-1])[::-1][::-1] + [f'net:{m}' for m in (scen.METHODS if tier == 'thorough' else ['similarities'])]


def entries(job, root):
    if job == 'static':
        e = scen.engine(root)
        scen.pipe_opaque(e)
        for f in scen.public_methods(e, 'gFunction', dunder=False):
            if scen.kind_of(f) == 'class':
                for m in scen.METHODS[1:2]:
                    for b in scen.BCS:
                        over = dict(method=e.cv(m), boundary_condition=e.cv(b), pipe_type=None)
                        over = {k: v for k, v in over.items() if k in f.params and v is not None}
                        yield scen.call(e, f'gFunction.{f.name}({m},{b})', f, scen.sy(e, f, **over))
        return
    if job.startswith('net:'):
        # the network flow rate instead of the borehole flow rate
        m = job[4:]
        e = scen.engine(root)
        c = scen.gfunc(e, m, 'MIFT', kw_over=dict(m_flow_borehole=e.cv(None), m_flow_network=e.sym('m_flow_network', 'float', owner='user:m_flow_network')))
        c.label = f'gFunction({m},MIFT,m_flow_network)'
        yield c
        return
    for en in scen.all_entries(root, visual=False, only=[job]):
        yield en


def contract(job):
    p = os.path.join(HERE, 'contracts', 'c05', job.replace(',', '_').replace(':', '_') + '.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def run(job, root):
    res = Res()
    con = contract(job)
    ens = list(entries(job, root))
    R = None
    for en in ens:
        if R is None or R.g is not en.e.g:
            R = reach.Reach(en.e.g)
        check_bindings(en, res, R)
        res.seen(en.e)
        want = con.get(en.label)
        if not want:
            continue
        got = influences(en)
        check_influence(en, got, want, res)
    return res


def check_influence(en, got, want, res):
    for lab, paths in want.items():
        if lab not in got:
            res.undec('no-influence', f'{en.label}|{lab}', 'switches changed')
            continue
        for path, ns in paths.items():
            if path not in got[lab]:
                res.undec('no-influence', f'{en.label}|{path}', 'no such result')
                continue
            for x in ns:
                res.count('influences')
                if x not in got[lab][path]:
                    res.find('no-influence', f'{en.label}|{path}|{x}',
                             f'{path} of {en.label}{" with " + lab if lab else ""} does not depend on {x}',
                             (en.fi.module.file, en.fi.node.lineno))


def selftest():
    res = Res()
    e = Engine(os.path.join(HERE, 'selftest'), package='toy', attr_ty=model.ATTR_TY)
    ens = []
    for q in ('toy.c05.wrapper_drops', 'toy.c05.wrapper_changes', 'toy.c05.wrapper_good', 'toy.c05.ignores', 'toy.c05.wrapper_bad_call'):
        fi = e.funcs[q]
        ens.append(scen.call(e, q, fi, scen.sy(e, fi)))
    R = reach.Reach(e.g)
    for en in ens:
        check_bindings(en, res, R)
    want = {'approximation=True': {'result': ['alpha', 'N']}, 'approximation=False': {'result': ['alpha']}}
    check_influence(ens[3], influences(ens[3]), want, res)
    n = sorted((f['rule'], f['construct'].split('>')[0].split('|')[0].split('.')[-1]) for f in res.findings.values())
    assert n == [('bad-call', 'wrapper_bad_call'), ('no-influence', 'ignores'), ('not-forwarded', 'wrapper_drops'), ('replaced', 'wrapper_changes')], n
    return res
