"""C01: caller-owned data is never modified (ownership/alias analysis of every write)."""
from .. import model, scen
from ..engine import Engine
from ..report import Res

LEVEL = 'other'
EXPECT = ['caller-data', 'caller-object']
EXPLAIN = ('Every public function, constructor and method is analysed with arguments owned by the caller. Each write the '
           'abstract interpreter meets (item, slice and in-place augmented assignment, mutating methods of arrays, lists and '
           'dictionaries, out= arguments, ufunc.at, attribute assignment) is followed through views, aliases, containers, '
           'loops and calls to the storage it reaches; rule: that storage is never the caller\'s, and no defining attribute of '
           'an object of the caller is assigned.')
ASSUME = ['numpy and scipy functions do not modify their inputs unless called with out= (or listed in engine.MUT_FUNCS)',
          'documented output argument: Fluid.append_to_dict(dnary)',
          'private working attributes (leading underscore) of library objects are not caller data']
MIN = {'writes': 150, 'entries': 150, 'calls': 1000}

# documented output arguments
OUT_ARGS = {('append_to_dict', 'user:dnary')}


def jobs(tier):
    g = ['functions', 'Borehole', '_EquivalentBorehole', 'Borefield', 'Fluid'] + scen.AGG + scen.PIPES + ['Network', '_EquivalentNetwork']
    g += [f'{m},{b}' for m in scen.METHODS for b in scen.BCS]
    return g[::-1]


def defining(e):
    """Attributes that a constructor sets from its parameters, read from the source."""
    out = {}
    for (c, a) in model.ATTR_TY:
        out.setdefault(c, set()).add(a)
    return out


def working(e, ci):
    """Attributes that ordinary methods (not constructors) assign on self."""
    import ast
    w = set()
    for c in ci.mro():
        for n, f in c.methods.items():
            if n == '__init__' or not f.node.args.args:
                continue
            s = f.node.args.args[0].arg
            for x in ast.walk(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == s:
                    w.add(x.attr)
    return w


def internal(owner):
    return any(p.startswith('_') and not p.startswith('__') for p in owner.replace('[]', '').split('.')[1:])


def check_entry(en, res, defs, mutators):
    e = en.e
    res.entry(en.label)
    res.count('entries')
    fname = en.fi.name
    for ev in en.events:
        if ev.kind == 'call':
            res.count('calls')
            f = ev.d['fi']
            if f.name in mutators and f.cls is not None:
                s = ev.d['bound'].get('self')
                if s is not None and s.kind in ('sobj', 'inst') and (s.owner or '').startswith('user:') and s is not en.obj:
                    res.find('caller-object', f'{en.fi.qual}>{f.qual}', f'{f.qual} re-parameterises an object of the caller ({s.owner})', ev.loc, ev.stack)
        if ev.kind == 'mutate':
            res.count('writes')
            o = ev.d['owner']
            if not o.startswith('user:') or internal(o):
                continue
            if any(q.split('.')[-1] == a and o == b for a, b in OUT_ARGS for q in ev.stack):
                continue
            if not ev.d['hard']:
                res.undec('caller-data', f'{ev.stack[-1]}:{o}', f'{ev.d["how"]} on a value of unknown type at {ev.where()}')
                continue
            res.find('caller-data', f'{ev.stack[-1]}|{o}', f'{ev.d["how"]} changes data of the caller ({o}) in {ev.stack[-1]}', ev.loc, ev.stack)
        elif ev.kind == 'attrwrite':
            res.count('writes')
            us = [o for o in ev.d['owners'] if o.startswith('user:')]
            if not us:
                continue
            obj, attr = ev.d['obj'], ev.d['attr']
            if obj.kind not in ('sobj', 'inst') or attr.startswith('_') or internal(us[0]):
                continue
            cls = obj.cls
            d = set().union(*[defs.get(c.name, set()) for c in cls.mro()])
            if attr in d or attr not in working(e, cls):
                # assignment of the value the attribute already has is not a change
                n = ev.d['nodes']['val']
                if n.op == 'attr' and n.data == attr and n.args[0] is obj.node:
                    continue
                res.find('caller-object', f'{ev.stack[-1]}|{us[0]}.{attr}', f'assigns attribute {attr} of an object of the caller ({us[0]})', ev.loc, ev.stack)


def run(job, root):
    res = Res()
    eng = scen.engine(root)
    defs = defining(eng)
    mutators = {'update_thermal_resistances'} if job in ('functions', 'Network', '_EquivalentNetwork') or ',' in job else set()
    last = None
    for en in scen.all_entries(root, only=[job]):
        check_entry(en, res, defs, mutators)
        last = en
    if last is not None:
        res.seen(last.e)
    return res


def selftest():
    res = Res()
    import os
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    defs = defining(e)
    for fi in scen.module_functions(e):
        if fi.module.name == 'toy.c01':
            check_entry(scen.call(e, fi.name, fi, scen.sy(e, fi)), res, defs, set())
    n = {f['construct'].split('|')[0] for f in res.findings.values()}
    assert len(n) == 4, n
    return res
