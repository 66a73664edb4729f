"""C17: results are deterministic and free of hidden global state."""
import os

from .. import fold, model, scen
from ..engine import Engine
from ..report import Res

LEVEL = 'other'
EXPECT = ['nondeterministic', 'global-write', 'global-data', 'default-data']
EXPLAIN = ('(1) Information flow: results, and the public state of receivers, of every public entry point are checked not to '
           'depend (through data or gating conditions, loops and calls included) on clocks, random numbers, environment, '
           'locale, object identity or hash order; (2) effects: no path of any entry point assigns a module-level name or '
           'class attribute or changes module-level, class-level or default-argument data. The memory of the last thermal '
           'resistances (decided by C04) and dictionaries used as keyed memories are the only exceptions.')
ASSUME = ['numpy and scipy routines are deterministic', 'iteration order of dictionaries is insertion order']
MIN = {'results': 150, 'entries': 150}
BAD_PREFIX = ('time.', 'random.', 'numpy.random.', 'os.environ', 'os.getenv', 'os.getpid', 'os.urandom', 'uuid.', 'secrets.', 'datetime.',
              'locale.', 'threading.', 'socket.', 'platform.', 'os.times', 'os.listdir', 'os.getcwd', 'sys.getrefcount', 'tracemalloc.', 'psutil.')
OK = ('time.strftime',)
BAD_BUILTIN = ('id', 'hash', 'object', 'globals', 'locals', 'input')


def bad_name(nm):
    if nm.startswith('method:') or nm.startswith('pg:'):
        return None
    if nm.startswith('ext:'):
        nm = nm[4:]
    if nm in BAD_BUILTIN or nm.startswith(BAD_PREFIX) and nm not in OK:
        return nm
    if nm in ('builtins.id', 'builtins.hash'):
        return nm
    return None


def roots_of(en):
    e = en.e
    out = []
    if en.result is not None:
        out.append(('result', e.node(en.result, en.st)))
    if en.obj is not None:
        key = ('n', en.obj.node.id)
        for k, v in en.st.heap.items():
            if k[0] == key and hasattr(v, 'kind') and not k[1].startswith('_'):
                out.append((f'attribute {k[1]}', e.node(v, en.st)))
                if v.kind == 'inst':
                    k2 = ('n', v.node.id)
                    for kk, vv in en.st.heap.items():
                        if kk[0] == k2 and hasattr(vv, 'kind') and not kk[1].startswith('_'):
                            out.append((f'attribute {k[1]}.{kk[1]}', e.node(vv, en.st)))
    if en.result is not None and en.result.kind == 'inst' and en.result is not en.obj:
        key = ('n', en.result.node.id)
        for k, v in en.st.heap.items():
            if k[0] == key and hasattr(v, 'kind') and not k[1].startswith('_'):
                out.append((f'result.{k[1]}', e.node(v, en.st)))
    return out


def check_entry(en, res, seen=None):
    e = en.e
    res.entry(en.label)
    res.count('entries')
    seen = set() if seen is None else seen
    draws = 'visualize' in en.fi.name
    for what, n in roots_of(en):
        res.count('results')
        if draws:
            continue
        for x in fold.subnodes(e.g, [n], seen):
            nm = x.data[0] if x.op == 'call' else x.data if x.op == 'sym' and isinstance(x.data, str) and x.data.startswith('ext:') else None
            b = bad_name(nm) if nm else None
            if b:
                res.find('nondeterministic', f'{en.fi.qual}|{what}|{b}', f'{what} of {en.label} depends on {b}', x.loc)
    for ev in en.events:
        if ev.kind == 'globalwrite':
            if any('visualize' in q or 'figure' in q or '_axes' in q for q in ev.stack):
                continue
            res.find('global-write', f'{ev.stack[-1]}|{ev.d["name"]}', f'{en.label} assigns module or class level name {ev.d["name"]}', ev.loc, ev.stack)
        elif ev.kind == 'mutate' and ev.d['owner'].startswith('global:'):
            res.count('writes to module-level data')
            o = ev.d['owner']
            if 'default ' in o:
                res.find('default-data', f'{ev.stack[-1]}|{o}', f'{ev.d["how"]} changes a default argument value ({o})', ev.loc, ev.stack)
                continue
            if not ev.d['hard']:
                res.undec('global-data', f'{ev.stack[-1]}:{o}')
                continue
            # validated memories: the memory of thermal resistances is decided by C04
            if any(q.endswith('.thermal_resistances') for q in ev.stack) and ev.d['how'] == 'item assignment':
                continue
            if ev.d['how'] == 'item assignment' and ev.d['keyed']:
                res.undec('global-data', f'{ev.stack[-1]}:{o}', 'keyed memory')
                continue
            res.find('global-data', f'{ev.stack[-1]}|{o}', f'{ev.d["how"]} changes module or class level data ({o}) in {ev.stack[-1]}', ev.loc, ev.stack)
        elif ev.kind == 'extcall':
            k = ev.d['kwargs'].get('key') if ev.d['kwargs'] else None
            if k is not None and k.kind == 'ext' and k.name in ('builtins.id', 'builtins.hash'):
                res.find('nondeterministic', f'{ev.stack[-1]}|key={k.name}', f'ordering by {k.name}', ev.loc, ev.stack)


def jobs(tier):
    g = ['functions', 'Borehole', '_EquivalentBorehole', 'Borefield', 'Fluid'] + scen.AGG + scen.PIPES + ['Network', '_EquivalentNetwork']
    return (g + [f'{m},{b}' for m in scen.METHODS for b in scen.BCS])[::-1]


def run(job, root):
    res = Res()
    last = None
    seen = set()
    for en in scen.all_entries(root, only=[job]):
        if last is not None and en.e is not last.e:
            seen = set()
        check_entry(en, res, seen)
        last = en
    if last is not None:
        res.seen(last.e)
    return res


def selftest():
    res = Res()
    root = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'selftest')
    e = Engine(root, package='toy', attr_ty=model.ATTR_TY)
    for fi in scen.module_functions(e):
        if fi.module.name == 'toy.c17':
            check_entry(scen.call(e, fi.name, fi, scen.sy(e, fi, skip=('acc',))), res)
    c = scen.ctor(e, 'Store')
    f = e.classes['Store'].find('add')
    check_entry(scen.call(e, 'add', f, scen.sy(e, f), c.st, c.obj), res)
    n = {f['construct'].split('|')[0].split('.')[-1] for f in res.findings.values()}
    assert n == {'noisy', 'clocked', 'remembers', 'rebinds', 'default_grows', 'add', 'by_identity'}, n
    return res
