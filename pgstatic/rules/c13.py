"""C13: plotting library is loaded only inside functions that draw."""
import ast
import os

from .. import model, scen
from ..engine import Engine
from ..report import Res

LEVEL = 'other'
EXPECT = ['import-time', 'compute-path', 'plot-call']
EXPLAIN = ('Effect analysis over the resolved call graph: (1) every import statement executed while the modules of the package '
           'are imported (module level, class bodies, functions called at import time, including transitive package imports) '
           'is resolved; none may load matplotlib or a package module that needs it; (2) from every public entry point that is '
           'not a visualisation, no path (all branches, all option values) reaches an import of, or a call into, the plotting '
           'library; functions of scipy that draw by default must be called with no_plot=True.')
ASSUME = ['scipy imports matplotlib only inside its drawing functions', 'functions that draw are the public visualize_* functions and methods']
MIN = {'import-time imports': 60, 'entries': 150}
PLOT = ('matplotlib', 'mpl_toolkits', 'seaborn', 'pylab', 'plotly')
# functions outside the package that draw unless told not to: name -> keyword that disables drawing
DRAWS = {'scipy.cluster.hierarchy.dendrogram': ('no_plot', True)}


def is_plot(mod):
    return mod is not None and mod.split('.')[0] in PLOT


def plot_modules(e):
    """Package modules that load the plotting library when imported (transitively)."""
    bad = {}
    for ev in e.events:
        if ev.kind == 'import' and ev.stack and ev.stack[0] == '<module>' and is_plot(ev.d['mod']):
            bad[ev.loc[0]] = ev
    return bad


def targets(e, ev):
    """Package modules named by an import statement."""
    out = []
    base = ev.d['mod']
    for n in ev.d.get('names') or ():
        if f'{base}.{n}' in e.mods:
            out.append(f'{base}.{n}')
    if base in e.mods:
        out.append(base)
    return out


def check_imports(e, res, allowed):
    """allowed: file of the one module that wraps the plotting library."""
    n = 0
    for ev in e.events:
        if ev.kind != 'import' or ev.stack[:1] != ('<module>',):
            continue
        n += 1
        if ev.loc[0] in allowed:
            continue
        bad = [t for t in targets(e, ev) if e.mods[t].file in allowed]
        if is_plot(ev.d['mod']) or bad:
            res.find('import-time', f'{ev.loc[0]}|{ev.d["mod"]}', f'importing the package loads {ev.d["mod"]} {bad or ""}', ev.loc, ev.stack)
    res.count('import-time imports', n)


def check_entry(en, res, allowed):
    e = en.e
    if 'visualize' in en.fi.name:
        return
    res.entry(en.label)
    res.count('entries')
    for ev in en.events:
        if ev.kind == 'import':
            if is_plot(ev.d['mod']) or any(e.mods[t].file in allowed for t in targets(e, ev)):
                res.find('compute-path', f'{ev.stack[-1]}|{ev.d["mod"]}', f'computation {en.label} loads {ev.d["mod"]}', ev.loc, ev.stack)
        elif ev.kind == 'extcall':
            nm = ev.d['name']
            if is_plot(nm):
                res.find('compute-path', f'{ev.stack[-1]}|{nm}', f'computation {en.label} calls {nm}', ev.loc, ev.stack)
            if nm in ('importlib.import_module', '__import__', 'builtins.__import__') and ev.d['args']:
                c = e.const_of(ev.d['args'][0])
                if isinstance(c, str) and is_plot(c):
                    res.find('compute-path', f'{ev.stack[-1]}|{c}', f'computation {en.label} loads {c}', ev.loc, ev.stack)
            if nm in DRAWS:
                k, v = DRAWS[nm]
                x = ev.d['kwargs'].get(k)
                res.count('guarded plot calls')
                if x is None or (e.const_of(x) is not None and e.const_of(x) != v):
                    res.find('plot-call', f'{ev.stack[-1]}|{nm}', f'{nm} draws unless called with {k}={v}', ev.loc, ev.stack)
        elif ev.kind == 'globalwrite' and is_plot(ev.d['name']):
            res.find('compute-path', f'{ev.stack[-1]}|{ev.d["name"]}', 'computation changes plotting configuration', ev.loc, ev.stack)


def wrapper(e):
    """Modules of the package whose import needs the plotting library, except the compute modules and the package itself."""
    return {m.file for n, m in e.mods.items() if n.split('.')[-1].startswith('_') and m.file in plot_modules(e)}


def jobs(tier):
    g = ['import', 'functions', 'Borehole', '_EquivalentBorehole', 'Borefield', 'Fluid'] + scen.AGG + scen.PIPES + ['Network', '_EquivalentNetwork']
    return (g + [f'{m},{b}' for m in scen.METHODS for b in scen.BCS])[::-1]


def run(job, root):
    res = Res()
    e0 = scen.engine(root)
    al = wrapper(e0)
    if job == 'import':
        check_imports(e0, res, al)
        res.seen(e0)
        return res
    last = None
    for en in scen.all_entries(root, only=[job], visual=False):
        check_entry(en, res, al)
        last = en
    if last is not None:
        res.seen(last.e)
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    check_imports(e, res, set())
    for fi in scen.module_functions(e):
        if fi.module.name == 'toy.c13':
            check_entry(scen.call(e, fi.name, fi, scen.sy(e, fi)), res, set())
    n = {f['construct'].split('|')[0] for f in res.findings.values()}
    assert n == {'toy/c13.py', 'toy.c13.evaluate', 'toy.c13.loads_by_name', 'toy.c13.clusters'}, n
    return res
