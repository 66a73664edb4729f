"""Gated value graph of Python source by abstract interpretation (nothing is executed).

The engine walks the syntax tree of the functions reachable from an entry point, flow-sensitively,
following calls into repository code, and represents every value as a node of a hash-consed graph:
 * branch joins are phi nodes gated by the branch condition, loops are mu nodes,
 * containers, instances and arrays have identity; views of arrays keep a link to their base,
 * calls of functions outside the repository are uninterpreted nodes with their arguments,
 * everything the engine does not understand becomes an opaque node over the values it mentions.
Side effects (writes to data with an owner, raises, calls and their argument bindings) are logged as
events together with the path condition under which they occur.
"""
import ast
import os
import sys

from .nodes import Graph, Node

sys.setrecursionlimit(20000)


class DeadPath(Exception):
    """Every path of the current expression raises."""


class V:
    """Abstract value."""
    _n = 0
    node = ty = cls = fn = selfv = env = name = owner = base = path = cond = a = b = items = soft = mod = None

    def __init__(self, kind, **kw):
        V._n += 1
        self.uid = V._n
        self.kind = kind
        if kw:
            self.__dict__.update(kw)

    def __repr__(self):
        return f'<V{self.uid} {self.kind} {self.name or self.ty or self.node or self.items}>'


class FuncInfo:
    def __init__(self, name, qual, node, module, cls=None, deco=()):
        self.name, self.qual, self.node, self.module, self.cls, self.deco = name, qual, node, module, cls, deco

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def __repr__(self):
        return f'<F {self.qual}>'


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []      # ClassInfo or dotted str
        self.methods = {}
        self.attrs = {}      # class attribute V

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def is_enum(self):
        return any(isinstance(b, str) and b.startswith('enum.') for c in self.mro() for b in c.bases)

    def __repr__(self):
        return f'<C {self.name}>'


class ModInfo:
    def __init__(self, name, file, tree, src):
        self.name, self.file, self.tree, self.src = name, file, tree, src
        self.env = {}
        self.done = False


class ListC:
    __slots__ = ('items', 'elem', 'ln')

    def __init__(self, items=None, elem=None, ln=None):
        self.items, self.elem, self.ln = items, elem, ln


class DictC:
    __slots__ = ('d', 'unknown', 'elem')

    def __init__(self, d, unknown=False, elem=None):
        self.d, self.unknown, self.elem = d, unknown, elem


class State:
    __slots__ = ('env', 'heap', 'pc', '_pcd')
    oracle = None       # decides conditions in one class of inputs
    sizes = None        # known lengths of arrays in one class of inputs
    ints = None         # known integers in one class of inputs

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc
        self._pcd = None

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)

    def truth(self, node):
        if node.op == 'const':
            return bool(node.data)
        pcd = self._pcd
        if pcd is None or pcd[0] is not self.pc:
            d = {}
            for c, v in self.pc:
                d.setdefault(c.id, v)
            pcd = self._pcd = (self.pc, d)
        return self._truth(node, pcd[1])

    @staticmethod
    def _truth(node, d):
        """d caches every verdict reached under this path condition."""
        if node.id in d:
            return d[node.id]
        op = node.op
        r = None
        if op == 'un' and node.data == 'not':
            t = State.truth_of(node.args[0], d)
            r = None if t is None else (not t)
        elif op == 'bool':
            a, b = State.truth_of(node.args[0], d), State.truth_of(node.args[1], d)
            if node.data == 'and':
                if a is False or b is False:
                    r = False
                elif a and b:
                    r = True
            else:
                if a or b:
                    r = True
                elif a is False and b is False:
                    r = False
        elif State.oracle is not None:
            r = State.oracle(node)
        d[node.id] = r
        return r

    @staticmethod
    def truth_of(node, d):
        if node.op == 'const':
            return bool(node.data)
        return State._truth(node, d)

    def assume(self, node, val):
        pc = list(self.pc)

        def add(n, v):
            if n.op == 'const':
                return
            if n.op == 'un' and n.data == 'not':
                add(n.args[0], not v)
                return
            pc.append((n, v))
            if n.op == 'bool' and ((n.data == 'and' and v) or (n.data == 'or' and not v)):
                add(n.args[0], v)
                add(n.args[1], v)
        add(node, val)
        self.pc = tuple(pc)


class Out:
    __slots__ = ('st', 'rets', 'brks', 'conts')

    def __init__(self, st, rets=None, brks=None, conts=None):
        self.st, self.rets, self.brks, self.conts = st, rets or [], brks or [], conts or []


class Event:
    __slots__ = ('kind', 'loc', 'stack', 'pc', 'd')

    def __init__(self, kind, loc, stack, pc, **d):
        self.kind, self.loc, self.stack, self.pc, self.d = kind, loc, stack, pc, d

    def where(self):
        return f'{self.loc[0]}:{self.loc[1]}'

    def __repr__(self):
        return f'<E {self.kind} {self.where()} {self.d}>'


VIEW_FUNCS = {'numpy.asarray', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.reshape',
              'numpy.ravel', 'numpy.transpose', 'numpy.broadcast_to', 'numpy.squeeze', 'numpy.expand_dims',
              'numpy.swapaxes', 'numpy.moveaxis', 'numpy.real', 'numpy.asanyarray', 'numpy.diagonal',
              'numpy.ascontiguousarray', 'numpy.asfarray', 'numpy.flip', 'numpy.rollaxis', 'numpy.diag',
              'numpy.split', 'numpy.array_split', 'numpy.hsplit', 'numpy.vsplit', 'numpy.rot90', 'numpy.fliplr',
              'numpy.flipud', 'numpy.imag', 'numpy.broadcast_arrays', 'numpy.asarray_chkfinite', 'numpy.meshgrid_nc',
              'numpy.lib.stride_tricks.as_strided'}
# results that are read-only or copies when input is 1d; numpy.diag of a 1-d array allocates
READONLY_VIEWS = {'numpy.broadcast_to'}
NOALIAS_DIAG = {'numpy.diag'}
ARRAY_RESULT = {'numpy.zeros', 'numpy.ones', 'numpy.empty', 'numpy.full', 'numpy.array', 'numpy.arange',
                'numpy.linspace', 'numpy.eye', 'numpy.zeros_like', 'numpy.ones_like', 'numpy.empty_like',
                'numpy.full_like', 'numpy.stack', 'numpy.hstack', 'numpy.vstack', 'numpy.concatenate',
                'numpy.tile', 'numpy.repeat', 'numpy.block', 'numpy.diag', 'numpy.atleast_1d', 'numpy.atleast_2d',
                'numpy.cumsum', 'numpy.loadtxt', 'scipy.linalg.block_diag', 'numpy.append', 'numpy.insert',
                'numpy.delete', 'numpy.flatnonzero', 'numpy.where', 'numpy.column_stack', 'numpy.asarray', 'numpy.copy',
                'numpy.ravel', 'numpy.broadcast_to', 'numpy.diff', 'numpy.reshape', 'numpy.expand_dims', 'numpy.identity',
                'numpy.logspace', 'numpy.geomspace', 'numpy.unique', 'numpy.sort', 'numpy.argsort', 'numpy.outer', 'numpy.triu', 'numpy.tril'}
MUT_ARRAY_METHODS = {'sort', 'fill', 'resize', 'put', 'partition', 'itemset', 'setflags', 'byteswap', 'setfield'}
VIEW_METHODS = {'reshape', 'ravel', 'transpose', 'squeeze', 'swapaxes', 'view', 'diagonal'}
MUT_LIST_METHODS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', '__setitem__', '__delitem__', 'popitem', 'update', 'setdefault', 'add', 'discard'}
MUT_FUNCS = {'numpy.fill_diagonal': 0, 'numpy.put': 0, 'numpy.copyto': 0, 'numpy.place': 0, 'numpy.putmask': 0,
             'numpy.put_along_axis': 0, 'random.shuffle': 0, 'numpy.random.shuffle': 0}
BUILTINS = {'len', 'abs', 'min', 'max', 'sum', 'range', 'zip', 'enumerate', 'list', 'tuple', 'dict', 'set', 'sorted',
            'isinstance', 'type', 'float', 'int', 'bool', 'str', 'round', 'print', 'hasattr', 'getattr', 'setattr',
            'any', 'all', 'map', 'filter', 'iter', 'next', 'reversed', 'super', 'id', 'hash', 'issubclass', 'callable',
            'open', 'repr', 'divmod', 'pow', 'slice', 'object', 'vars', 'frozenset', 'complex', 'bytes', 'delattr',
            'globals', 'locals', '__import__',  'format', 'input', 'property', 'classmethod', 'staticmethod', 'ord', 'chr', 'exec', 'eval',
            'Exception', 'ValueError', 'TypeError', 'NotImplementedError', 'KeyError', 'IndexError', 'AttributeError',
            'RuntimeError', 'DeprecationWarning', 'UserWarning', 'ImportError', 'AssertionError', 'StopIteration',
            'ZeroDivisionError', 'FileNotFoundError', 'OSError', 'ModuleNotFoundError', 'Warning', 'FutureWarning',
            'RuntimeWarning', 'ArithmeticError', 'LookupError', 'FloatingPointError', 'OverflowError', 'True', 'False'}
EXC = {b for b in BUILTINS if b.endswith(('Error', 'Warning', 'Exception')) or b == 'StopIteration'}
BINOP = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
         ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPOP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
         ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
MAXUNROLL = 16


class Engine:
    def __init__(self, root, package='pygfunction', attr_ty=None, class_attr_ty=None):
        self.root, self.package = root, package
        self.g = Graph()
        self.mods = {}
        self.classes = {}      # qual -> ClassInfo ; also bare name
        self.funcs = {}        # qual -> FuncInfo
        self.events = []
        self._evkeys = set()
        self.attr_ty = attr_ty or {}
        self.opaque = lambda fi, selfv: False
        self.on_call = None    # optional hook(fi, bound, st) -> V or None
        self.stack = []
        self.symmemo = {}
        self.errors = []
        self.analysed = {}     # qual -> times executed
        self.sites = set()     # (file, line, col) of resolved call sites
        self.cur_file = None
        self.cur_line = 0
        self.max_depth = 60
        self.ctr = 0
        self.quiet = 0
        self._caching = set()
        self.boundinfo = {}    # bound id -> (kind, seq node)
        self.collect = True
        self.node_V = {}       # node id -> representative V for sym objects
        self.base_heap = {}
        self.load()

    # ------------------------------------------------------------------ loading
    def load(self):
        pk = os.path.join(self.root, self.package)
        for d, dirs, files in os.walk(pk):
            dirs[:] = sorted(x for x in dirs if x != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    src = open(p, encoding='utf-8').read()
                    self.mods[name] = ModInfo(name, rel, ast.parse(src, p), src)
        for m in self.mods.values():
            for st in m.tree.body:
                self._declare(m, st)
        self.heap0 = {}
        for m in list(self.mods.values()):
            self.exec_module(m)
        self.base_heap = self.heap0

    def _declare(self, m, st):
        if isinstance(st, ast.FunctionDef):
            q = f'{m.name}.{st.name}'
            fi = FuncInfo(st.name, q, st, m)
            self.funcs[q] = fi
        elif isinstance(st, ast.ClassDef):
            ci = ClassInfo(st.name, m, st)
            self.classes[f'{m.name}.{st.name}'] = ci
            self.classes.setdefault(st.name, ci)
            for b in st.body:
                if isinstance(b, ast.FunctionDef):
                    deco = tuple(ast.unparse(d) for d in b.decorator_list)
                    q = f'{m.name}.{st.name}.{b.name}'
                    fi = FuncInfo(b.name, q, b, m, ci, deco)
                    ci.methods[b.name] = fi
                    self.funcs[q] = fi
        elif isinstance(st, (ast.If, ast.Try)):
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.stmt):
                    self._declare(m, x)

    def exec_module(self, m):
        if m.done:
            return
        m.done = True
        m.env['__name__'] = self.cv(m.name)
        m.env['__file__'] = self.cv(m.file)
        st = State(m.env, self.heap0, ())
        save = (self.cur_file, self.cur_line, self.stack)
        self.stack = [('<module>', m.name)]
        self.cur_file = m.file
        out = self.exec_block(m.tree.body, st, m)
        if out.st is not None:
            m.env = out.st.env
            self.heap0 = out.st.heap
            for k, v in m.env.items():
                if isinstance(v, V) and v.owner is None and v.kind in ('dct', 'lst', 'num', 'inst') and v.node is not None and (v.kind != 'num' or v.node.op != 'const'):
                    v.owner = f'global:{m.name}.{k}'
        self.cur_file, self.cur_line, self.stack = save

    # ------------------------------------------------------------------ values
    def cv(self, c):
        if c is None:
            return V('none', node=self.g.const(None))
        return V('num', node=self.g.const(c), ty={bool: 'bool', int: 'int', float: 'float', str: 'str'}.get(type(c)))

    def num(self, node, ty=None, owner=None, base=None, path=None, soft=False):
        return V('num', node=node, ty=ty, owner=owner, base=base, path=path, soft=soft)

    def fresh(self, tag):
        self.ctr += 1
        return f'{tag}#{self.ctr}'

    def unk(self, tag, *args):
        return self.g.mk('unk', self.fresh(tag), *args)

    def mk_list(self, st, items=None, elem=None, ln=None, kind='lst', owner=None):
        v = V(kind, owner=owner)
        v.node = self.g.mk('obj', (kind, v.uid))
        st.heap[('L', v.uid)] = ListC(tuple(items) if items is not None else None, elem, ln)
        return v

    def mk_tup(self, items):
        v = V('tup', items=tuple(items))
        return v

    def mk_dict(self, st, d=None, unknown=False, elem=None):
        v = V('dct')
        v.node = self.g.mk('obj', ('dct', v.uid))
        st.heap[('D', v.uid)] = DictC(dict(d or {}), unknown, elem)
        return v

    def sym(self, name, ty=None, owner=None, node=None):
        """Symbolic value of a declared type (see module docstring of types)."""
        node = node or self.g.mk('sym', name)
        return self._sym(node, ty, owner, name)

    def _sym(self, node, ty, owner, name):
        if ty and ty.endswith('?'):
            c = self.g.mk('cmp', 'is', node, self.g.const(None))
            return self.vphi(c, self.cv(None), self._sym(node, ty[:-1], owner, name))
        if ty and '|' in ty and not ty.startswith('list['):
            parts = ty.split('|')
            v = self._sym(node, parts[-1], owner, name)
            for p in reversed(parts[:-1]):
                c = self.g.mk('call', ('isinstance:' + p, ()), node)
                v = V('phi', cond=c, a=self._sym(node, p, owner, name), b=v, node=node)
            return v
        if ty and ty in self.classes:
            return V('sobj', node=node, cls=self.classes[ty], owner=owner, name=name, ty=ty)
        return V('num', node=node, ty=ty, owner=owner, name=name)

    def vphi(self, c, a, b):
        if a is b:
            return a
        if c.op == 'const':
            return a if c.data else b
        if c.op == 'un' and c.data == 'not':
            return self.vphi(c.args[0], b, a)
        if a.kind == 'phi' and a.cond is c:
            a = a.a
        if b.kind == 'phi' and b.cond is c:
            b = b.b
        if a is b:
            return a
        if a.kind == b.kind == 'none':
            return a
        if a.kind == b.kind == 'num':
            if a.node is b.node and a.base is b.base and a.owner == b.owner:
                return a
            if not (a.owner or b.owner or a.base or b.base) and not ((a.ty in ('array',) or b.ty in ('array',))):
                return V('num', node=self.g.phi(c, a.node, b.node), ty=a.ty if a.ty == b.ty else None)
        if a.kind == b.kind == 'sobj' and a.node is b.node:
            return a
        if a.kind == b.kind == 'tup' and len(a.items) == len(b.items) and a.items:
            return V('tup', items=tuple(self.vphi(c, x, y) for x, y in zip(a.items, b.items)))
        if a.kind == b.kind == 'tup' and not a.items and not b.items:
            return a
        if a.kind == b.kind == 'func' and a.fn is b.fn and a.selfv is b.selfv and a.env is b.env:
            return a
        if a.kind == b.kind and a.kind in ('cls', 'mod', 'ext') and a.name == b.name and a.cls is b.cls:
            return a
        return V('phi', cond=c, a=a, b=b)

    def resolve(self, v, st):
        """Drop phi alternatives excluded by the path condition."""
        while v.kind == 'phi':
            t = st.truth(v.cond)
            if t is None:
                return v
            v = v.a if t else v.b
        return v

    def node(self, v, st, memo=None):
        """Current content of a value as a graph node."""
        k = v.kind
        g = self.g
        if k == 'num':
            n = st.heap.get(('A', v.uid))
            if n is not None:
                return n
            if v.base is not None and self._dirty(v.base, st):
                return v.path(self.node(v.base, st))
            n = v.node
            if n.op == 'phi':
                t = st.truth(n.args[0])
                while n.op == 'phi' and t is not None:
                    n = n.args[1] if t else n.args[2]
                    if n.op == 'phi':
                        t = st.truth(n.args[0])
            return n
        if k == 'none':
            return v.node
        if k == 'phi':
            t = st.truth(v.cond)
            if t is not None:
                return self.node(v.a if t else v.b, st, memo)
            memo = {} if memo is None else memo
            if v.uid not in memo:
                memo[v.uid] = g.phi(v.cond, self.node(v.a, st, memo), self.node(v.b, st, memo))
            return memo[v.uid]
        if k == 'tup':
            return g.mk('tuple', None, *[self.node(x, st) for x in v.items])
        if k == 'lst':
            c = st.heap.get(('L', v.uid))
            if c is None:
                return v.node
            if c.items is not None:
                return g.mk('list', None, *[self.node(x, st) for x in c.items])
            en = self.node(c.elem, st) if c.elem is not None else g.const(None)
            return g.mk('lsum', None, en, c.ln if c.ln is not None else g.mk('sym', 'len?'))
        if k == 'dct':
            c = st.heap.get(('D', v.uid))
            if c is None:
                return v.node
            ks = sorted(c.d, key=repr)
            return g.mk('dict', tuple(map(repr, ks)), *[self.node(c.d[x], st) for x in ks])
        if k in ('sobj', 'inst'):
            return v.node
        if k == 'func':
            return self.func_node(v, st)
        if k == 'cls':
            return g.mk('sym', 'class:' + v.cls.name)
        if k in ('ext', 'mod'):
            return g.mk('sym', k + ':' + str(v.name))
        if k == 'extm':
            return g.mk('call', ('method:' + v.name, ()), self.node(v.selfv, st))
        if k == 'slice' or k == 'iter' and v.node is not None:
            return v.node
        return g.mk('unk', f'V{v.uid}')

    def func_node(self, v, st):
        key = ('fnode', v.uid)
        if key in self.symmemo:
            return self.symmemo[key]
        fi = v.fn
        if isinstance(fi, FuncInfo):
            self.symmemo[key] = self.g.mk('sym', 'func:' + fi.qual)
            if len(self.stack) > self.max_depth or fi.cls is not None or fi.qual.split('.')[-1] != '<lambda>' and not fi.qual.endswith('>') and v.env is None:
                return self.symmemo[key]
            ps = list(fi.params)
            if v.selfv is not None:
                ps = ps[1:]
            bound = []
            args = []
            na = len(fi.node.args.defaults)
            req = ps[:len(ps) - na] if na else ps
            for p in req:
                b = self.g.mk('bound', self.fresh(p))
                bound.append(b)
                args.append(V('num', node=b))
            try:
                r = self.call_func(v, args, {}, st.copy())
                body = self.node(r, st)
            except DeadPath:
                body = self.g.const(None)
            self.symmemo[key] = self.g.mk('lam', tuple(b.data for b in bound), body, *bound)
        return self.symmemo[key]

    def _dirty(self, v, st):
        while v is not None:
            if v.kind == 'num':
                if ('A', v.uid) in st.heap:
                    return True
                v = v.base
            elif v.kind == 'phi':
                return self._dirty(v.a, st) or self._dirty(v.b, st)
            else:
                return False
        return False

    # ------------------------------------------------------------------ events
    def ev(self, kind, st, **d):
        if not self.collect:
            return
        loc = (self.cur_file, self.cur_line)
        stack = tuple(q for q, *_ in self.stack)
        key = (kind, loc, stack, tuple((c.id, v) for c, v in st.pc), tuple(sorted((k, repr(x) if not isinstance(x, (Node, V)) else x.node.id if isinstance(x, V) and x.node is not None else getattr(x, 'id', 0)) for k, x in d.items() if not isinstance(x, dict))),
               tuple(sorted((k, getattr(x, 'id', 0)) for k, x in d.get('nodes', {}).items())))
        if key in self._evkeys:
            return
        self._evkeys.add(key)
        self.events.append(Event(kind, loc, stack, st.pc, **d))

    def roots(self, v, st, out=None):
        """Owners of the storage a value may alias."""
        if out is None:
            out = []
        seen = 0
        while v is not None and seen < 50:
            seen += 1
            if v.kind == 'phi':
                t = st.truth(v.cond)
                if t is not False:
                    self.roots(v.a, st, out)
                if t is not True:
                    self.roots(v.b, st, out)
                return out
            if v.owner:
                out.append(v.owner)
            if v.kind == 'num':
                v = v.base
            else:
                break
        return out

    def mutate(self, v, st, how, hard=True, keyed=False):
        for o in self.roots(v, st):
            self.ev('mutate', st, owner=o, how=how, hard=hard, sty=v.ty, keyed=keyed)
        if v.mod is not None:
            pass

    def store_content(self, v, st, fn):
        """content := fn(content), for a numeric value and everything it is a view of."""
        if v.kind == 'phi':
            t = st.truth(v.cond)
            if t is True:
                return self.store_content(v.a, st, fn)
            if t is False:
                return self.store_content(v.b, st, fn)
            g = self.g
            self.store_content(v.a, st, lambda n: g.phi(v.cond, fn(n), n))
            self.store_content(v.b, st, lambda n: g.phi(v.cond, n, fn(n)))
            return
        if v.kind != 'num':
            return
        if v.base is not None:
            path = v.path
            def up(n, path=path):
                old = path(n)
                new = fn(old)
                # store through a view: keep the key if the view was an index
                if old.op == 'idx':
                    return self.g.mk('store', None, n, old.args[1], new)
                return self.g.mk('vstore', None, n, new)
            self.store_content(v.base, st, up)
            return
        st.heap[('A', v.uid)] = fn(self.node(v, st))

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fi):
        rets, brks, conts = [], [], []
        for s in stmts:
            if st is None:
                break
            self.cur_line = getattr(s, 'lineno', self.cur_line)
            self.g.cur_loc = (self.cur_file, self.cur_line)
            try:
                o = self.exec_stmt(s, st, fi)
            except DeadPath:
                st = None
                break
            rets += o.rets
            brks += o.brks
            conts += o.conts
            st = o.st
        return Out(st, rets, brks, conts)

    def exec_stmt(self, s, st, fi):
        T = type(s)
        if T is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return Out(st)
            self.ev_expr(s.value, st)
            return Out(st)
        if T is ast.Assign:
            v = self.ev_expr(s.value, st)
            for t in s.targets:
                self.assign(t, v, st)
            return Out(st)
        if T is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev_expr(s.value, st), st)
            return Out(st)
        if T is ast.AugAssign:
            self.augassign(s, st)
            return Out(st)
        if T is ast.Return:
            v = self.ev_expr(s.value, st) if s.value is not None else self.cv(None)
            return Out(None, rets=[(st.pc, v, st)])
        if T is ast.If:
            return self.exec_if(s, st, fi)
        if T in (ast.For, ast.AsyncFor):
            return self.exec_for(s, st, fi)
        if T is ast.While:
            return self.exec_while(s, st, fi)
        if T is ast.Raise:
            name = None
            if s.exc is not None:
                e = s.exc
                f = e.func if isinstance(e, ast.Call) else e
                name = ast.unparse(f)
                save = self.collect
                try:
                    self.ev_expr(e, st)
                except DeadPath:
                    pass
                self.collect = save
            self.ev('raise', st, exc=name)
            return Out(None)
        if T is ast.Pass or T is ast.Global or T is ast.Nonlocal:
            if T is ast.Global:
                gl = st.env.get('$globals')
                names = set(gl.items if gl else ()) | set(s.names)
                st.env['$globals'] = V('names', items=tuple(names))
            return Out(st)
        if T is ast.Break:
            return Out(None, brks=[st])
        if T is ast.Continue:
            return Out(None, conts=[st])
        if T is ast.FunctionDef:
            mod = self.curmod()
            q = f'{self.stack[-1][0]}.<{s.name}>'
            if self.stack[-1][0] == '<module>':
                q = f'{mod.name}.{s.name}'
                f = self.funcs.get(q) or FuncInfo(s.name, q, s, mod)
                st.env[s.name] = V('func', fn=f, name=s.name)
            else:
                f = FuncInfo(s.name, q, s, mod)
                st.env[s.name] = V('func', fn=f, env=st.env, name=s.name)
            for d in reversed(s.decorator_list):
                dv = self.ev_expr(d, st)
                st.env[s.name] = self.decorated(dv, st.env[s.name], st)
            return Out(st)
        if T is ast.ClassDef:
            self.exec_class(s, st)
            return Out(st)
        if T in (ast.Import, ast.ImportFrom):
            self.exec_import(s, st)
            return Out(st)
        if T is ast.Try or T.__name__ == 'TryStar':
            return self.exec_try(s, st, fi)
        if T is ast.With:
            for it in s.items:
                v = self.ev_expr(it.context_expr, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, self.num(self.g.mk('call', ('enter', ()), self.node(v, st))), st)
            return self.exec_block(s.body, st, fi)
        if T is ast.Delete:
            for t in s.targets:
                if isinstance(t, ast.Name):
                    st.env.pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    tv = self.ev_expr(t.value, st)
                    self.mutate(tv, st, 'del item')
                    self.summarise_list(tv, st)
                elif isinstance(t, ast.Attribute):
                    tv = self.ev_expr(t.value, st)
                    self.ev('attrwrite', st, obj=tv, attr=t.attr, owners=tuple(self.roots(tv, st)))
            return Out(st)
        if T is ast.Assert:
            c = self.truth_node(self.ev_expr(s.test, st), st)
            t = st.truth(c)
            if t is False:
                self.ev('raise', st, exc='AssertionError')
                return Out(None)
            if t is True:
                return Out(st)
            s2 = st.copy()
            s2.assume(c, False)
            self.ev('raise', s2, exc='AssertionError')
            st.assume(c, True)
            return Out(st)
        if T.__name__ == 'Match':
            return self.exec_match(s, st, fi)
        self.errors.append(f'statement {T.__name__} at {self.cur_file}:{s.lineno}')
        return Out(st)

    def exec_match(self, s, st, fi):
        subj = self.ev_expr(s.subject, st)
        rets, brks, conts, live = [], [], [], []
        cur = st
        for case in s.cases:
            if cur is None:
                break
            c = None
            p = case.pattern
            pats = p.patterns if isinstance(p, ast.MatchOr) else [p]
            for q in pats:
                if isinstance(q, ast.MatchValue):
                    n = self.compare('==', subj, self.ev_expr(q.value, cur), cur)
                elif isinstance(q, ast.MatchSingleton):
                    n = self.compare('is', subj, self.cv(q.value), cur)
                elif isinstance(q, ast.MatchAs) and q.pattern is None:
                    if q.name:
                        cur.env[q.name] = subj
                    n = self.g.const(True)
                else:
                    n = self.unk('match', self.node(subj, cur))
                c = n if c is None else self.g.or_(c, n)
            if case.guard is not None:
                c = self.g.and_(c, self.truth_node(self.ev_expr(case.guard, cur), cur))
            t = cur.truth(c)
            if t is False:
                continue
            s1 = cur.copy() if t is None else cur
            s1.assume(c, True)
            o = self.exec_block(case.body, s1, fi)
            rets += o.rets; brks += o.brks; conts += o.conts
            if o.st is not None:
                live.append(o.st)
            if t is True:
                cur = None
            else:
                cur.assume(c, False)
        if cur is not None:
            live.append(cur)
        return Out(self.join_many(live, len(st.pc)) if live else None, rets, brks, conts)

    def decorated(self, dv, fv, st):
        return fv

    def curmod(self):
        for q, m in reversed(self.stack):
            if isinstance(m, ModInfo):
                return m
            if q == '<module>':
                return self.mods[m]
        return None

    def exec_class(self, s, st):
        m = self.curmod()
        ci = self.classes.get(f'{m.name}.{s.name}')
        if ci is None or ci.node is not s:
            ci = ClassInfo(s.name, m, s)
            for b in s.body:
                if isinstance(b, ast.FunctionDef):
                    ci.methods[b.name] = FuncInfo(b.name, f'{m.name}.{s.name}.{b.name}', b, m, ci, tuple(ast.unparse(d) for d in b.decorator_list))
        ci.bases = []
        for b in s.bases:
            bv = self.ev_expr(b, st)
            ci.bases.append(bv.cls if bv.kind == 'cls' else (bv.name or ast.unparse(b)))
        for b in s.body:
            if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name):
                nm = b.targets[0].id
                if ci.is_enum():
                    ci.attrs[nm] = self.cv(('enum', s.name, nm))
                else:
                    v = self.ev_expr(b.value, st)
                    if v.kind in ('lst', 'dct') or (v.kind == 'num' and v.node.op != 'const'):
                        v.owner = f'global:{m.name}.{s.name}.{nm}'
                    ci.attrs[nm] = v
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value is not None:
                if ci.is_enum():
                    ci.attrs[b.target.id] = self.cv(('enum', s.name, b.target.id))
                else:
                    v = self.ev_expr(b.value, st)
                    if v.kind in ('lst', 'dct') or (v.kind == 'num' and v.node.op != 'const'):
                        v.owner = f'global:{m.name}.{s.name}.{b.target.id}'
                    ci.attrs[b.target.id] = v
        st.env[s.name] = V('cls', cls=ci, name=s.name)

    def exec_import(self, s, st):
        if isinstance(s, ast.Import):
            for a in s.names:
                self.ev('import', st, mod=a.name)
                if a.asname:
                    st.env[a.asname] = self.modv(a.name)
                else:
                    top = a.name.split('.')[0]
                    st.env[top] = self.modv(top)
            return
        base = s.module or ''
        if s.level:
            m = self.curmod()
            pkg = m.name if m.file.endswith('__init__.py') else m.name.rsplit('.', 1)[0]
            for _ in range(s.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            base = pkg + ('.' + base if base else '')
        self.ev('import', st, mod=base, names=tuple(a.name for a in s.names))
        for a in s.names:
            if base in self.mods or base.split('.')[0] == self.package:
                if base in self.mods:
                    mm = self.mods[base]
                    self.exec_module(mm)
                    if a.name == '*':
                        st.env.update({k: v for k, v in mm.env.items() if not k.startswith('_')})
                        continue
                    if a.name in mm.env:
                        st.env[a.asname or a.name] = mm.env[a.name]
                        continue
                sub = f'{base}.{a.name}'
                if sub in self.mods:
                    self.exec_module(self.mods[sub])
                    st.env[a.asname or a.name] = self.modv(sub)
                    continue
                # circular import or declared later
                if f'{base}.{a.name}' in self.classes:
                    st.env[a.asname or a.name] = V('cls', cls=self.classes[f'{base}.{a.name}'], name=a.name)
                elif f'{base}.{a.name}' in self.funcs:
                    st.env[a.asname or a.name] = V('func', fn=self.funcs[f'{base}.{a.name}'], name=a.name)
                else:
                    st.env[a.asname or a.name] = V('ext', name=f'{base}.{a.name}')
            else:
                st.env[a.asname or a.name] = self.ext(f'{base}.{a.name}')

    def modv(self, name):
        if name in self.mods:
            self.exec_module(self.mods[name])
            return V('mod', name=name)
        return V('ext', name=name)

    def ext(self, dotted):
        if dotted in ('scipy.constants.pi', 'numpy.pi', 'math.pi'):
            return self.cv(3.141592653589793)
        if dotted in ('numpy.inf', 'math.inf', 'numpy.Inf'):
            return V('num', node=self.g.mk('const', ('inf',)), ty='float')
        if dotted in ('numpy.nan', 'math.nan', 'numpy.NaN'):
            return V('num', node=self.g.mk('const', ('nan',)), ty='float')
        if dotted == 'typing.TYPE_CHECKING':
            return self.cv(False)
        if dotted == 'numpy.newaxis':
            return self.cv(None)
        return V('ext', name=dotted)

    # -------------------------------------------------------------- control flow
    def exec_if(self, s, st, fi):
        c = self.truth_node(self.ev_expr(s.test, st), st)
        t = st.truth(c)
        if t is True:
            return self.exec_block(s.body, st, fi)
        if t is False:
            return self.exec_block(s.orelse, st, fi)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c, True)
        s2.assume(c, False)
        o1 = self.exec_block(s.body, s1, fi)
        o2 = self.exec_block(s.orelse, s2, fi)
        out = Out(None, o1.rets + o2.rets, o1.brks + o2.brks, o1.conts + o2.conts)
        if o1.st is None:
            out.st = o2.st
        elif o2.st is None:
            out.st = o1.st
        else:
            out.st = self.join(c, o1.st, o2.st, st.pc)
        return out

    def join(self, c, a, b, pc):
        g = self.g
        if c.op == 'un' and c.data == 'not':
            return self.join(c.args[0], b, a, pc)
        env = {}
        for k in list(a.env) + [k for k in b.env if k not in a.env]:
            va, vb = a.env.get(k), b.env.get(k)
            if va is vb:
                env[k] = va
            elif va is None or vb is None:
                env[k] = va or vb
            elif k == '$globals':
                env[k] = va
            else:
                env[k] = self.vphi(c, va, vb)
        heap = {}
        ha, hb = a.heap, b.heap
        for k, x in ha.items():
            y = hb.get(k)
            if x is y:
                heap[k] = x
            else:
                heap[k] = self.jheap(c, k, x, y, a, b)
        for k, y in hb.items():
            if k not in ha:
                heap[k] = self.jheap(c, k, None, y, a, b)
        # path condition common to both sides, beyond the split
        npc = list(pc)
        sa = {(n.id, v) for n, v in a.pc}
        for n, v in b.pc[len(pc):]:
            if (n.id, v) in sa and (n, v) not in npc:
                npc.append((n, v))
        return State(env, heap, tuple(npc))

    def jheap(self, c, k, x, y, a, b):
        g = self.g
        tag = k[0]
        if tag == 'A':
            nx = x if x is not None else self._orig(k[1])
            ny = y if y is not None else self._orig(k[1])
            if nx is None:
                return y
            if ny is None:
                return x
            return g.phi(c, nx, ny)
        if x is None or y is None:
            if tag in ('L', 'D'):
                return x or y
            # attribute present on one side only: other side keeps the symbolic initial value
            o = self.symmemo.get(('attr',) + k)
            if o is not None:
                return self.vphi(c, x if x is not None else o, y if y is not None else o)
            return x if x is not None else y
        if tag == 'L':
            if x.items is not None and y.items is not None and len(x.items) == len(y.items):
                return ListC(tuple(self.vphi(c, p, q) if p is not q else p for p, q in zip(x.items, y.items)))
            ex, ey = self.elem_of(x, c), self.elem_of(y, c)
            e = ey if ex is None else ex if ey is None else self.vphi(c, ex, ey)
            lx = x.ln if x.items is None else g.const(len(x.items))
            ly = y.ln if y.items is None else g.const(len(y.items))
            return ListC(None, e, g.phi(c, lx, ly) if lx is not None and ly is not None else None)
        if tag == 'D':
            d = {}
            for kk in list(x.d) + [q for q in y.d if q not in x.d]:
                p, q = x.d.get(kk), y.d.get(kk)
                d[kk] = (p or q) if p is None or q is None or p is q else self.vphi(c, p, q)
            return DictC(d, x.unknown or y.unknown or set(x.d) != set(y.d), x.elem or y.elem)
        return self.vphi(c, x, y)

    def _orig(self, uid):
        return self.symmemo.get(('orig', uid))

    def elem_of(self, lc, c=None):
        if lc.items is None:
            return lc.elem
        e = None
        for it in lc.items:
            if e is None:
                e = it
            else:
                e = self.vphi(self.g.mk('sym', 'which?'), e, it)
        return e

    def join_many(self, states, npc):
        """Join states by the path conditions they were reached under."""
        if len(states) == 1:
            return states[0]
        return self._tree([(s.pc[npc:], None, s) for s in states], states[0].pc[:npc])[1]

    def _tree(self, alts, pc):
        """Decision tree over [(pc suffix, V, State)] -> (V, State)."""
        if len(alts) == 1:
            return alts[0][1], alts[0][2]
        # first condition of the first alternative on which another alternative disagrees
        for i, (c, v) in enumerate(alts[0][0]):
            yes = [x for x in alts if (c, v) in x[0]]
            no = [x for x in alts if (c, not v) in x[0]]
            oth = [x for x in alts if x not in yes and x not in no]
            if no and not oth:
                va, sa = self._tree(yes, pc)
                vb, sb = self._tree(no, pc)
                if not v:
                    va, sa, vb, sb = vb, sb, va, sa
                s = self.join(c, sa, sb, pc) if sa is not sb else sa
                return (self.vphi(c, va, vb) if va is not None else None), s
        c = self.g.const(True)
        for n, v in alts[0][0]:
            c = self.g.and_(c, n if v else self.g.not_(n))
        if c.op == 'const':
            c = self.unk('choice')
        va, sa = alts[0][1], alts[0][2]
        vb, sb = self._tree(alts[1:], pc)
        s = self.join(c, sa, sb, pc) if sa is not sb else sa
        return (self.vphi(c, va, vb) if va is not None else None), s

    def exec_try(self, s, st, fi):
        pre = st.copy()
        o = self.exec_block(s.body, st, fi)
        rets, brks, conts = list(o.rets), list(o.brks), list(o.conts)
        live = []
        cur = o.st
        if cur is not None and s.orelse:
            oo = self.exec_block(s.orelse, cur, fi)
            rets += oo.rets; brks += oo.brks; conts += oo.conts
            cur = oo.st
        if cur is not None:
            live.append(cur)
        c = self.unk('noexc')
        hs = []
        for h in s.handlers:
            sh = pre.copy()
            sh.assume(c, False)
            if h.name:
                sh.env[h.name] = self.num(self.unk('exc'))
            oh = self.exec_block(h.body, sh, fi)
            rets += oh.rets; brks += oh.brks; conts += oh.conts
            if oh.st is not None:
                hs.append(oh.st)
        r = None
        for x in hs:
            r = x if r is None else self.join(self.unk('handler'), r, x, pre.pc)
        if live:
            r = live[0] if r is None else self.join(c, live[0], r, pre.pc)
        if r is not None and s.finalbody:
            of = self.exec_block(s.finalbody, r, fi)
            return Out(of.st, rets + of.rets, brks + of.brks, conts + of.conts)
        return Out(r, rets, brks, conts)

    # -- loops
    def iter_items(self, it, st):
        """Exact list of elements, or None."""
        it = self.resolve(it, st)
        if it.kind == 'tup':
            return list(it.items) if len(it.items) <= 64 else None
        if it.kind == 'lst':
            c = st.heap.get(('L', it.uid))
            if c is not None and c.items is not None and len(c.items) <= 64:
                return list(c.items)
            return None
        if it.kind == 'num' and it.node.op == 'call' and it.node.data == ('numpy.array', ()) and it.node.args[0].op == 'list' and all(a.op == 'const' for a in it.node.args[0].args):
            return [self.num(a) for a in it.node.args[0].args]
        if it.kind == 'num' and State.sizes is not None and it.ty not in ('float', 'int', 'str', 'bool'):
            x = self.node(it, st)
            n = State.sizes(x)
            if n is not None and n <= MAXUNROLL:
                return [self.num(self.g.mk('idx', None, x, self.g.const(i)), ty=None) for i in range(n)]
        if it.kind == 'iter':
            tag = it.name
            if tag == 'range':
                cs = [x.node.data if x.kind == 'num' and x.node.op == 'const' and isinstance(x.node.data, int) else None for x in it.items]
                if None in cs and State.ints is not None:
                    cs = [State.ints(self.node(x, st)) if c is None else c for c, x in zip(cs, it.items)]
                if None not in cs:
                    r = range(*cs)
                    if len(r) <= MAXUNROLL:
                        return [self.cv(i) for i in r]
                return None
            if tag == 'zip' and it.selfv is not None:
                rows = self.iter_items(it.selfv, st)
                subs = [self.iter_items(x, st) for x in rows] if rows else None
                if subs and all(x is not None for x in subs):
                    return [self.mk_tup(t) for t in zip(*subs)]
                return None
            if tag == 'zip':
                subs = [self.iter_items(x, st) for x in it.items]
                if subs and all(x is not None for x in subs):
                    return [self.mk_tup(t) for t in zip(*subs)]
                known = [x for x in subs if x is not None]
                if known and State.oracle is not None and all(x is not None or self.resolve(y, st).kind == 'num' for x, y in zip(subs, it.items)):
                    # arrays zipped with lists of known length have that length
                    n = min(len(x) for x in known)
                    subs = [x if x is not None else [self.num(self.g.mk('idx', None, self.node(y, st), self.g.const(i)), ty=None) for i in range(n)]
                            for x, y in zip(subs, it.items)]
                    return [self.mk_tup(t) for t in zip(*subs)]
                return None
            if tag == 'enumerate':
                sub = self.iter_items(it.items[0], st)
                if sub is not None:
                    if len(it.items) == 1:
                        return [self.mk_tup((self.cv(i), x)) for i, x in enumerate(sub)]
                    return [self.mk_tup((self.binop('+', self.cv(i), it.items[1], st), x)) for i, x in enumerate(sub)]
                return None
            if tag == 'reversed':
                sub = self.iter_items(it.items[0], st)
                return None if sub is None else sub[::-1]
        if it.kind == 'dct':
            c = st.heap.get(('D', it.uid))
            if c is not None and not c.unknown and len(c.d) <= 32:
                return [self.cv(k) for k in c.d]
        if it.kind == 'inst' and State.ints is not None:
            f = it.cls.find('__iter__')
            if f is not None:
                r = self.call_func(V('func', fn=f, selfv=it), [], {}, st)
                return None if r is None or self.resolve(r, st).kind == 'inst' else self.iter_items(r, st)
            gi, ln = it.cls.find('__getitem__'), it.cls.find('__len__')
            if gi is not None and ln is not None:
                n = State.ints(self.node(self.call_func(V('func', fn=ln, selfv=it), [], {}, st), st))
                if n is not None and 0 <= n <= MAXUNROLL:
                    return [self.call_func(V('func', fn=gi, selfv=it), [self.cv(i)], {}, st) for i in range(n)]
        return None

    def gen_elem(self, it, st, bid, memo=None):
        """Symbolic element of an iterable, indexed by the bound variable bid."""
        g = self.g
        it = self.resolve(it, st)
        b = g.mk('bound', bid)
        if it.kind == 'iter':
            if it.name == 'range':
                ns = [self.node(x, st) for x in it.items]
                self.boundinfo[bid] = ('range', tuple(ns))
                return V('num', node=b, ty='int')
            if it.name == 'zip':
                if it.selfv is not None:   # zip(*L)
                    return self.num(g.mk('elem', None, self.node(it.selfv, st), b))
                return self.mk_tup([self.gen_elem(x, st, bid) for x in it.items])
            if it.name == 'enumerate':
                i = V('num', node=b, ty='int')
                if len(it.items) > 1:
                    i = self.num(g.mk('bin', '+', self.node(it.items[1], st), b), ty='int')
                return self.mk_tup([i, self.gen_elem(it.items[0], st, bid)])
            if it.name == 'reversed':
                return self.gen_elem(it.items[0], st, bid)
            if it.name == 'items':
                c = st.heap.get(('D', it.items[0].uid)) if it.items[0].kind == 'dct' else None
                e = c.elem if c is not None and c.elem is not None else self.num(g.mk('elem', None, self.node(it.items[0], st), b))
                return self.mk_tup([self.num(g.mk('elem', 'key', self.node(it.items[0], st), b)), e])
            if it.name == 'map' or it.name == 'filter':
                return self.num(g.mk('elem', None, g.mk('call', (it.name, ()), *[self.node(x, st) for x in it.items]), b))
        if it.kind == 'phi':
            memo = {} if memo is None else memo
            if it.uid not in memo:
                memo[it.uid] = self.vphi(it.cond, self.gen_elem(it.a, st, bid, memo), self.gen_elem(it.b, st, bid, memo))
            return memo[it.uid]
        if it.kind in ('inst', 'sobj'):
            f = it.cls.find('__iter__')
            if f is None:
                gi = it.cls.find('__getitem__')
                if gi is not None:
                    self.boundinfo[bid] = ('range', ())
                    return self.call_func(V('func', fn=gi, selfv=it), [V('num', node=b, ty='int')], {}, st)
        self.boundinfo.setdefault(bid, ('index', ()))
        return self.getitem(it, V('num', node=b, ty='int'), st, iterating=True)

    def exec_for(self, s, st, fi):
        it = self.as_iter(self.ev_expr(s.iter, st), st)
        items = self.iter_items(it, st)
        if items is not None and not (len(items) > MAXUNROLL and self._big(s)):
            rets, exits, conts = [], [], []
            npc = len(st.pc)
            cur = st
            for x in items:
                self.assign(s.target, x, cur)
                o = self.exec_block(s.body, cur, fi)
                rets += o.rets
                exits += o.brks
                nx = [y for y in ([o.st] if o.st is not None else []) + o.conts]
                if not nx:
                    cur = None
                    break
                cur = self.join_many(nx, npc)
            live = []
            if cur is not None:
                if s.orelse:
                    oo = self.exec_block(s.orelse, cur, fi)
                    rets += oo.rets
                    cur = oo.st
                if cur is not None:
                    live.append(cur)
            live += exits
            return Out(self.join_many(live, npc) if live else None, rets)
        bid = self.fresh('i')
        itn = self.node(it, st) if it.kind != 'iter' else self.g.mk('call', ('iter:' + it.name, ()), *[self.node(x, st) for x in it.items])
        taken = self.g.mk('call', ('nonempty', ()), itn)

        def header(state):
            try:
                e = self.gen_elem(it, state, bid)
            except DeadPath:
                e = self.num(self.unk('elem'))
            self.assign(s.target, e, state)
        return self.loop(s, st, fi, header, taken, None)

    def _big(self, s):
        return sum(1 for _ in ast.walk(s)) > 400

    def exec_while(self, s, st, fi):
        rets, exits, cur, npc = [], [], st, len(st.pc)
        if State.ints is not None:
            # the condition is decided: the iterations are followed one by one
            for _ in range(64):
                r = State.truth_of(self.truth_node(self.ev_expr(s.test, cur.copy()), cur), {n.id: v for n, v in cur.pc})
                if r is None:
                    break
                self.ev_expr(s.test, cur)
                if not r:
                    if s.orelse:
                        oo = self.exec_block(s.orelse, cur, fi)
                        rets += oo.rets
                        cur = oo.st
                    live = ([cur] if cur is not None else []) + exits
                    return Out(self.join_many(live, npc) if live else None, rets)
                o = self.exec_block(s.body, cur, fi)
                rets += o.rets
                exits += o.brks
                nx = ([o.st] if o.st is not None else []) + o.conts
                if not nx:
                    return Out(self.join_many(exits, npc) if exits else None, rets)
                cur = self.join_many(nx, npc)
            if rets or exits:
                o = self.generic_while(s, cur, fi)
                live = ([o.st] if o.st is not None else []) + exits
                return Out(self.join_many(live, npc) if live else None, rets + o.rets)
        return self.generic_while(s, cur, fi)

    def generic_while(self, s, st, fi):
        def header(state):
            c = self.truth_node(self.ev_expr(s.test, state), state)
            state.assume(c, True)
        taken = self.g.mk('call', ('while', (self.cur_file, s.lineno)))
        return self.loop(s, st, fi, header, taken, s.test)

    def loop(self, s, st, fi, header, taken, test):
        g = self.g
        npc = len(st.pc)
        # discovery pass: which variables and cells change
        ev_save, col_save = None, self.collect
        self.collect = False
        mus = {}
        changed = set()
        carry = {}
        for _ in range(3):
            d = st.copy()
            self._apply_mus(d, st, changed, mus, final=False, line=s.lineno)
            self._carry(d, carry)
            d.pc = d.pc + ((taken, True),)
            try:
                header(d)
                o = self.exec_block(s.body, d, fi)
            except DeadPath:
                o = Out(None)
            ends = [x for x in [o.st] + o.conts + o.brks if x is not None]
            new = set()
            for e in ends:
                for k, v in e.env.items():
                    if st.env.get(k) is not v and k in st.env and k != '$globals':
                        if not self._same(st.env[k], v):
                            new.add(('env', k))
                for k, v in e.heap.items():
                    if st.heap.get(k) is not v:
                        new.add(('heap', k))
            more = self._carried(st, ends, carry)
            if new <= changed and not more:
                break
            changed |= new
        self.collect = col_save
        d = st.copy()
        mus = {}
        self._apply_mus(d, st, changed, mus, final=True, line=s.lineno)
        self._carry(d, carry)
        hdr = d.copy()
        d.pc = d.pc + ((taken, True),)
        try:
            header(d)
            o = self.exec_block(s.body, d, fi)
        except DeadPath:
            o = Out(None)
        nexts = [x for x in [o.st] + o.conts if x is not None]
        end = None
        if nexts:
            end = self.join_many(nexts, npc + 1) if len(nexts) > 1 else nexts[0]
            for (kind, k), mid in mus.items():
                if kind == 'env':
                    v = end.env.get(k)
                    nn = self.node(v, end) if v is not None else None
                else:
                    x = end.heap.get(k)
                    nn = x if isinstance(x, Node) else self.node(x, end) if isinstance(x, V) else None
                if mid is not None:
                    g.mus[mid][1] = nn
        rets = o.rets
        # exit state: header state, joined with the end-of-body state for containers/new names
        ex = hdr
        if end is not None:
            c = taken
            for k, v in end.env.items():
                if k not in ex.env:
                    ex.env[k] = v
                elif ('env', k) in changed and mus.get(('env', k)) is None:
                    ex.env[k] = self.vphi(c, v, ex.env[k])
            for k, v in end.heap.items():
                if k not in ex.heap:
                    ex.heap[k] = v
                elif k[0] in ('L', 'D') and ex.heap[k] is not v:
                    ex.heap[k] = self.jheap(c, k, v, ex.heap[k], end, ex)
                elif ('heap', k) in changed and mus.get(('heap', k)) is None and ex.heap[k] is not v:
                    ex.heap[k] = self.jheap(c, k, v, ex.heap[k], end, ex)
        ex.pc = st.pc
        # what decides how often the loop runs
        lc = [c for b in o.brks for c, _ in b.pc[npc + 1:]]
        if taken.op == 'call' and taken.data[0] == 'nonempty':
            lc += list(taken.args)
        if test is not None:
            t0 = hdr.copy()
            t0.pc = st.pc
            cs, self.collect = self.collect, False
            try:
                lc.append(self.truth_node(self.ev_expr(test, t0), t0))
            except DeadPath:
                pass
            finally:
                self.collect = cs
        lc = [c for c in lc if c.op != 'const']
        if lc:
            for mid in mus.values():
                if mid is not None:
                    g.loopc.setdefault(mid, []).extend(lc)
            for kind, k in changed:
                if kind == 'heap' and k[0] == 'L':
                    g.loopc.setdefault(f'len:{k[1]}', []).extend(lc)
        if test is not None:
            try:
                cn = self.truth_node(self.ev_expr(test, ex), ex)
                if ex.truth(cn) is None:
                    ex.assume(cn, False)
            except DeadPath:
                pass
        if getattr(s, 'orelse', None):
            oo = self.exec_block(s.orelse, ex, fi)
            rets = rets + oo.rets
            ex = oo.st
        for b in o.brks:
            b = State(b.env, b.heap, st.pc)
            ex = b if ex is None else self.join(self.unk('break', *[c for c in lc if c.op != 'const']), b, ex, st.pc)
        return Out(ex, rets)

    def _holder(self, v):
        """May the value be (or contain) a list or dictionary with identity?"""
        if v is None:
            return False
        if v.kind in ('lst', 'dct'):
            return True
        if v.kind in ('phi', 'tup'):
            r = v.__dict__.get('_hold')
            if r is None:
                v._hold = False
                r = v._hold = (self._holder(v.a) or self._holder(v.b)) if v.kind == 'phi' else any(self._holder(x) for x in v.items)
            return r
        return False

    def _carried(self, st, ends, carry):
        """Lists of containers that grow in a loop: what earlier iterations may have put into them."""
        more = False
        for e in ends:
            for k, c in e.heap.items():
                if k[0] == 'L' and k not in carry and k in st.heap and st.heap[k] is not c:
                    el = self.elem_of(c)
                    if self._holder(el):
                        carry[k] = ListC(None, el, self.g.mk('sym', f'len:{k[1]}'))
                        more = True
                        for k2, c2 in e.heap.items():
                            if k2[0] == 'L' and k2 not in st.heap and k2 not in carry:
                                carry[k2] = ListC(None, self.elem_of(c2), self.g.mk('sym', f'len:{k2[1]}'))
                            elif k2[0] == 'D' and k2 not in st.heap and k2 not in carry:
                                carry[k2] = c2
        return more

    def _carry(self, d, carry):
        d.heap.update(carry)

    def _same(self, a, b):
        if a is b:
            return True
        if a.kind != b.kind:
            return False
        if a.kind == 'num':
            return a.node is b.node and a.base is b.base
        if a.kind == 'tup':
            return len(a.items) == len(b.items) and all(self._same(x, y) for x, y in zip(a.items, b.items))
        if a.kind in ('sobj', 'none'):
            return a.node is b.node
        return False

    def _apply_mus(self, d, st, changed, mus, final, line):
        g = self.g
        for kind, k in sorted(changed, key=repr):
            if kind == 'env':
                v = st.env.get(k)
                if v is not None and v.kind in ('num', 'none') or (v is not None and v.kind == 'phi' and self._numphi(v)):
                    mid = self.fresh('mu')
                    g.mus[mid] = [self.node(v, st), None, line]
                    nv = V('num', node=g.mk('mu', mid), ty=v.ty if v.kind == 'num' and v.ty != 'int' else v.ty)
                    if v.kind == 'num':
                        nv.owner = None
                    d.env[k] = nv
                    mus[(kind, k)] = mid
                else:
                    mus[(kind, k)] = None
            else:
                x = st.heap.get(k)
                if isinstance(x, Node):
                    mid = self.fresh('mu')
                    g.mus[mid] = [x, None, line]
                    d.heap[k] = g.mk('mu', mid)
                    mus[(kind, k)] = mid
                elif k[0] == 'A':
                    o = self._orig(k[1])
                    if o is not None or final:
                        mid = self.fresh('mu')
                        o = o if o is not None else g.mk('sym', f'cell{k[1]}')
                        g.mus[mid] = [o, None, line]
                        d.heap[k] = g.mk('mu', mid)
                        mus[(kind, k)] = mid
                elif isinstance(x, V) and x.kind == 'num' and not (x.ty == 'array' and False):
                    mid = self.fresh('mu')
                    g.mus[mid] = [self.node(x, st), None, line]
                    d.heap[k] = V('num', node=g.mk('mu', mid), ty=x.ty)
                    mus[(kind, k)] = mid
                elif isinstance(x, ListC):
                    e = self.elem_of(x)
                    d.heap[k] = ListC(None, e, g.mk('sym', f'len:{k[1]}'))
                    mus[(kind, k)] = None
                else:
                    mus[(kind, k)] = None

    def _numphi(self, v):
        if v.kind == 'phi':
            r = v.__dict__.get('_np')
            if r is None:
                r = v._np = self._numphi(v.a) and self._numphi(v.b)
            return r
        return v.kind in ('num', 'none')

    # -------------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            gl = st.env.get('$globals')
            if gl is not None and t.id in gl.items:
                self.ev('globalwrite', st, name=t.id)
                self.curmod().env[t.id] = v
                return
            if v.kind == 'num' and ('orig', v.uid) not in self.symmemo and v.node is not None:
                self.symmemo[('orig', v.uid)] = v.node
            st.env[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, st)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, st)
            return
        if isinstance(t, ast.Attribute):
            o = self.ev_expr(t.value, st)
            self.setattr_(o, t.attr, v, st)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev_expr(t.value, st)
            k = self.ev_expr(t.slice, st)
            self.setitem(o, k, v, st)
            return
        self.errors.append(f'assign target {type(t).__name__}')

    def unpack(self, elts, v, st):
        v = self.resolve(v, st)
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.iter_items(v, st) if v.kind in ('tup', 'lst') else None
        if items is not None and not star and len(items) == n:
            for e, x in zip(elts, items):
                self.assign(e, x, st)
            return
        if items is not None and star:
            i = star[0]
            m = len(items) - (n - 1)
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, st)
            self.assign(elts[i].value, self.mk_list(st, items[i:i + m]), st)
            for e, x in zip(elts[i + 1:], items[i + m:]):
                self.assign(e, x, st)
            return
        if v.kind == 'phi':
            def parts(x):
                x = self.resolve(x, st)
                if x.kind == 'phi':
                    pa, pb = parts(x.a), parts(x.b)
                    return [self.vphi(x.cond, p, q) for p, q in zip(pa, pb)]
                its = self.iter_items(x, st) if x.kind in ('tup', 'lst') else None
                if its is not None and len(its) == n:
                    return its
                return [self.getitem(x, self.cv(i), st) for i in range(n)]
            for e, x in zip(elts, parts(v)):
                self.assign(e, x, st)
            return
        for i, e in enumerate(elts):
            self.assign(e, self.getitem(v, self.cv(i), st), st)

    def setattr_(self, o, attr, v, st):
        o = self.resolve(o, st)
        if o.kind == 'phi':
            pa, pb = st.copy(), st.copy()
            pa.assume(o.cond, True)
            pb.assume(o.cond, False)
            self.setattr_(o.a, attr, v, pa)
            self.setattr_(o.b, attr, v, pb)
            j = self.join(o.cond, pa, pb, st.pc)
            st.env, st.heap = j.env, j.heap
            return
        if v.kind == 'num' and ('orig', v.uid) not in self.symmemo and v.node is not None:
            self.symmemo[('orig', v.uid)] = v.node
        self.ev('attrwrite', st, obj=o, attr=attr, owners=tuple(self.roots(o, st)), val=v, nodes={'val': self.node(v, st)})
        if o.kind in ('inst', 'sobj'):
            # property setter
            f = o.cls.find(attr)
            if f is not None and any(d.endswith('.setter') for d in f.deco):
                self.call_func(V('func', fn=f, selfv=o), [v], {}, st)
                return
            key = self.okey(o)
            self.lazy_attr(o, attr)
            st.heap[(key, attr)] = v
        elif o.kind == 'cls':
            self.ev('globalwrite', st, name=f'{o.cls.name}.{attr}')
            o.cls.attrs[attr] = v
        elif o.kind in ('mod',):
            self.ev('globalwrite', st, name=f'{o.name}.{attr}')
        elif o.kind == 'ext':
            self.ev('globalwrite', st, name=f'{o.name}.{attr}')
        else:
            self.mutate(o, st, f'set attribute {attr}')

    def okey(self, o):
        return ('n', o.node.id)

    def lazy_attr(self, o, attr):
        """Initial symbolic value of an attribute of a symbolic object (memoised)."""
        if o.kind != 'sobj':
            return None
        key = ('attr', self.okey(o), attr)
        v = self.symmemo.get(key)
        if v is None:
            ty = None
            for c in o.cls.mro():
                ty = self.attr_ty.get((c.name, attr), ty)
                if ty:
                    break
            ty = ty or self.attr_ty.get(attr)
            owner = f'{o.owner}.{attr}' if o.owner else None
            v = self._sym(self.g.mk('attr', attr, o.node), ty, owner, attr)
            self.symmemo[key] = v
            if v.kind == 'num':
                self.symmemo[('orig', v.uid)] = v.node
        return v

    def setitem(self, o, k, v, st):
        o = self.resolve(o, st)
        g = self.g
        if o.kind == 'phi':
            pa, pb = st.copy(), st.copy()
            pa.assume(o.cond, True)
            pb.assume(o.cond, False)
            self.setitem(o.a, k, v, pa)
            self.setitem(o.b, k, v, pb)
            j = self.join(o.cond, pa, pb, st.pc)
            st.env, st.heap = j.env, j.heap
            return
        self.mutate(o, st, 'item assignment', keyed=o.kind == 'dct' and self.const_of(k) is None)
        if o.kind == 'lst':
            c = st.heap.get(('L', o.uid))
            ki = self.const_of(k)
            if c is not None and c.items is not None and isinstance(ki, int) and -len(c.items) <= ki < len(c.items):
                it = list(c.items)
                it[ki] = v
                st.heap[('L', o.uid)] = ListC(tuple(it))
            elif c is not None:
                e = self.elem_of(c)
                st.heap[('L', o.uid)] = ListC(None, self.vphi(self.g.mk('sym', 'which?'), v, e) if e is not None else v,
                                              c.ln if c.items is None else g.const(len(c.items)))
            return
        if o.kind == 'dct':
            c = st.heap.get(('D', o.uid)) or DictC({}, True)
            ki = self.const_of(k)
            if ki is not None:
                d = dict(c.d)
                d[ki] = v
                st.heap[('D', o.uid)] = DictC(d, c.unknown, c.elem)
            else:
                st.heap[('D', o.uid)] = DictC(dict(c.d), True, v if c.elem is None else self.vphi(g.mk('sym', 'which?'), v, c.elem))
            return
        if o.kind in ('inst', 'sobj'):
            f = o.cls.find('__setitem__')
            if f is not None:
                self.call_func(V('func', fn=f, selfv=o), [k, v], {}, st)
            return
        if o.kind == 'num':
            kn, vn = self.node(k, st), self.node(v, st)
            self.store_content(o, st, lambda n: g.mk('store', None, n, kn, vn))

    def augassign(self, s, st):
        op = BINOP[type(s.op)]
        t = s.target
        rv = self.ev_expr(s.value, st)
        if isinstance(t, ast.Name):
            old = self.ev_expr(ast.Name(id=t.id, ctx=ast.Load()), st)
            old = self.resolve(old, st)
            if old.kind == 'lst' and op == '+':
                self.list_extend(old, rv, st)
                return
            new = self.binop(op, old, rv, st)
            arr = self.is_arrayish(old, st)
            if arr:
                self.mutate(old, st, f'in-place {op}=', hard=(arr == 2))
                if arr == 2:
                    nn = self.node(new, st)
                    self.store_content(old, st, lambda n: nn)
                    return
            st.env[t.id] = new
            if new.kind == 'num':
                self.symmemo[('orig', new.uid)] = new.node
            return
        if isinstance(t, ast.Attribute):
            o = self.ev_expr(t.value, st)
            old = self.getattr_(o, t.attr, st)
            old = self.resolve(old, st)
            if old.kind == 'lst' and op == '+':
                self.list_extend(old, rv, st)
                return
            new = self.binop(op, old, rv, st)
            if self.is_arrayish(old, st):
                self.mutate(old, st, f'in-place {op}=', hard=self.is_arrayish(old, st) == 2)
            self.setattr_(o, t.attr, new, st)
            return
        if isinstance(t, ast.Subscript):
            o = self.ev_expr(t.value, st)
            k = self.ev_expr(t.slice, st)
            old = self.getitem(o, k, st)
            self.setitem(o, k, self.binop(op, old, rv, st), st)

    def is_arrayish(self, v, st):
        """2: an array for certain (or documented array-or-float argument), 1: maybe, 0: scalar."""
        v = self.resolve(v, st)
        if v.kind == 'phi':
            return max(self.is_arrayish(v.a, st), self.is_arrayish(v.b, st))
        if v.kind != 'num':
            return 0
        if v.ty == 'array' or (v.ty or '').startswith('list'):
            return 2
        if v.ty in ('float', 'int', 'str', 'bool'):
            return 0
        if v.ty == 'num':
            return 2
        return 1

    # -------------------------------------------------------------- expressions
    def const_of(self, v):
        if v.kind == 'num' and v.node.op == 'const' and v.base is None:
            return v.node.data
        if v.kind == 'tup':
            cs = [self.const_of(x) for x in v.items]
            if all(c is not None for c in cs):
                return tuple(cs)
        return None

    def truth_node(self, v, st):
        v = self.resolve(v, st)
        g = self.g
        if v.kind == 'none':
            return g.const(False)
        if v.kind == 'phi':
            return g.phi(v.cond, self.truth_node(v.a, st), self.truth_node(v.b, st))
        if v.kind == 'num':
            n = self.node(v, st)
            if n.op == 'const':
                return g.const(bool(n.data))
            return n
        if v.kind in ('func', 'cls', 'mod', 'ext'):
            return g.const(True)
        if v.kind == 'tup':
            return g.const(bool(v.items))
        if v.kind == 'lst':
            c = st.heap.get(('L', v.uid))
            if c is not None and c.items is not None:
                return g.const(bool(c.items))
        if v.kind == 'dct':
            c = st.heap.get(('D', v.uid))
            if c is not None and not c.unknown:
                return g.const(bool(c.d))
        return g.mk('call', ('truth', ()), self.node(v, st))

    def ev_expr(self, e, st):
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            self.errors.append(f'expression {type(e).__name__} at {self.cur_file}:{getattr(e, "lineno", 0)}')
            return self.num(self.unk(type(e).__name__))
        ln = getattr(e, 'lineno', None)
        if ln is not None:
            self.cur_line = ln
            self.g.cur_loc = (self.cur_file, ln)
        return m(e, st)

    def x_Constant(self, e, st):
        return self.cv(e.value)

    def x_Name(self, e, st):
        v = self.lookup(e.id, st)
        return self.resolve(v, st) if v.kind == 'phi' else v

    def lookup(self, name, st):
        v = st.env.get(name)
        if v is not None:
            return v
        cl = st.env.get('$closure')
        while cl is not None:
            v = cl.env.get(name)
            if v is not None:
                return v
            cl = cl.env.get('$closure')
        m = self.curmod()
        v = m.env.get(name)
        if v is not None:
            return v
        q = f'{m.name}.{name}'
        if q in self.funcs:
            return V('func', fn=self.funcs[q], name=name)
        if q in self.classes:
            return V('cls', cls=self.classes[q], name=name)
        if name in BUILTINS:
            return V('ext', name='builtins.' + name)
        return self.num(self.g.mk('sym', 'undef:' + name))

    def x_Tuple(self, e, st):
        return self.mk_tup(self.elts(e.elts, st))

    def elts(self, es, st):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev_expr(x.value, st)
                its = self.iter_items(self.as_iter(v, st), st)
                if its is None:
                    out.append(V('star', a=v, node=self.node(v, st)))
                else:
                    out += its
            else:
                out.append(self.ev_expr(x, st))
        return out

    def x_List(self, e, st):
        its = self.elts(e.elts, st)
        if any(x.kind == 'star' for x in its):
            el = None
            for x in its:
                y = self.getitem(x.a, self.num(self.unk('k')), st) if x.kind == 'star' else x
                el = y if el is None else self.vphi(self.g.mk('sym', 'which?'), el, y)
            return self.mk_list(st, None, el)
        return self.mk_list(st, its)

    def x_Set(self, e, st):
        its = self.elts(e.elts, st)
        return self.num(self.g.mk('call', ('set', ()), *[self.node(x, st) for x in its]), ty='set')

    def x_Dict(self, e, st):
        d, unknown, elem = {}, False, None
        for k, v in zip(e.keys, e.values):
            vv = self.ev_expr(v, st)
            if k is None:
                r = self.resolve(vv, st)
                c = st.heap.get(('D', r.uid)) if r.kind == 'dct' else None
                if c is not None:
                    d.update(c.d)
                    unknown |= c.unknown
                else:
                    unknown = True
                continue
            kc = self.const_of(self.ev_expr(k, st))
            if kc is None:
                unknown = True
                elem = vv
            else:
                d[kc] = vv
        return self.mk_dict(st, d, unknown, elem)

    def x_JoinedStr(self, e, st):
        ns = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                try:
                    ns.append(self.node(self.ev_expr(v.value, st), st))
                except DeadPath:
                    pass
        return self.num(self.g.mk('call', ('fstr', tuple(x.value if isinstance(x, ast.Constant) else None for x in e.values)), *ns), ty='str')

    def x_FormattedValue(self, e, st):
        return self.ev_expr(e.value, st)

    def x_Starred(self, e, st):
        return V('star', a=self.ev_expr(e.value, st))

    def x_Lambda(self, e, st):
        q = f'{self.stack[-1][0]}.<lambda>'
        f = FuncInfo('<lambda>', q, e, self.curmod())
        return V('func', fn=f, env=st.env)

    def x_NamedExpr(self, e, st):
        v = self.ev_expr(e.value, st)
        self.assign(e.target, v, st)
        return v

    def x_Slice(self, e, st):
        ps = [self.node(self.ev_expr(x, st), st) if x is not None else self.g.const(None) for x in (e.lower, e.upper, e.step)]
        return V('slice', node=self.g.mk('slice', None, *ps))

    def x_IfExp(self, e, st):
        c = self.truth_node(self.ev_expr(e.test, st), st)
        t = st.truth(c)
        if t is True:
            return self.ev_expr(e.body, st)
        if t is False:
            return self.ev_expr(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c, True)
        s2.assume(c, False)
        a = b = None
        try:
            a = self.ev_expr(e.body, s1)
        except DeadPath:
            pass
        try:
            b = self.ev_expr(e.orelse, s2)
        except DeadPath:
            pass
        if a is None and b is None:
            raise DeadPath()
        pc = st.pc
        if a is None or b is None:
            src = s2 if a is None else s1
            st.env, st.heap, st.pc = src.env, src.heap, src.pc
            return b if a is None else a
        j = self.join(c, s1, s2, pc)
        st.env, st.heap = j.env, j.heap
        return self.vphi(c, a, b)

    def x_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        g = self.g
        acc = None
        s = st
        first = True
        pc0 = st.pc
        vals = []
        for x in e.values:
            try:
                v = self.ev_expr(x, s)
            except DeadPath:
                if not vals:
                    raise
                break
            c = self.truth_node(v, s)
            vals.append((v, c))
            t = s.truth(c)
            if t is (False if isand else True):
                break
            if t is None:
                s2 = s.copy() if s is st else s
                if s is st:
                    s = s2
                s.assume(c, isand)
        if s is not st:
            # short-circuit side effects are kept (rare); path assumptions are not
            st.heap = s.heap
            for k, v in s.env.items():
                if k not in st.env:
                    st.env[k] = v
        # definite constants
        out = None
        for v, c in reversed(vals):
            if out is None:
                out = (v, c)
            else:
                ov, oc = out
                t = st.truth(c)
                if isand:
                    if t is True:
                        continue
                    if t is False:
                        out = (v, c)
                    else:
                        out = (None, g.and_(c, oc))
                else:
                    if t is False:
                        continue
                    if t is True:
                        out = (v, c)
                    else:
                        if not self._boolish(c) or not self._boolish(oc):
                            if ov is not None:
                                out = (self.vphi(c, v, ov), g.or_(c, oc))
                                continue
                        out = (None, g.or_(c, oc))
        v, c = out
        return v if v is not None else self.num(c, ty='bool')

    def _boolish(self, n):
        return n.op in ('cmp', 'bool', 'un', 'const') or (n.op == 'call')

    def x_UnaryOp(self, e, st):
        v = self.ev_expr(e.operand, st)
        if isinstance(e.op, ast.Not):
            c = self.truth_node(v, st)
            t = st.truth(c)
            if t is not None:
                return self.cv(not t)
            return self.num(self.g.not_(c), ty='bool')
        n = self.node(v, st)
        if n.op == 'const' and isinstance(n.data, (int, float)) and not isinstance(n.data, bool):
            if isinstance(e.op, ast.USub):
                return self.cv(-n.data)
            if isinstance(e.op, ast.UAdd):
                return self.cv(+n.data)
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        if op == '+':
            return self.num(n, ty=v.ty)
        return self.num(self.g.mk('un', op, n), ty=v.ty)

    def x_BinOp(self, e, st):
        a = self.ev_expr(e.left, st)
        b = self.ev_expr(e.right, st)
        return self.binop(BINOP[type(e.op)], a, b, st)

    def binop(self, op, a, b, st):
        g = self.g
        a, b = self.resolve(a, st), self.resolve(b, st)
        if a.kind in ('inst', 'sobj') and op == '+':
            f = a.cls.find('__add__')
            if f is not None:
                return self.call_func(V('func', fn=f, selfv=a), [b], {}, st)
        if b.kind in ('inst', 'sobj') and op == '+':
            f = b.cls.find('__radd__')
            if f is not None:
                return self.call_func(V('func', fn=f, selfv=b), [a], {}, st)
        # containers
        if op == '+' and a.kind == b.kind == 'tup':
            return self.mk_tup(a.items + b.items)
        if op == '*' and a.kind == 'tup':
            n = self.const_of(b)
            if n is None and State.ints is not None:
                n = State.ints(self.node(b, st))
            if isinstance(n, int) and 0 <= n <= 32:
                return self.mk_tup(a.items * n)
            return self.num(g.mk('bin', '*', self.node(a, st), self.node(b, st)), ty='tuple')
        if op == '+' and a.kind == 'tup' and b.kind != 'phi':
            return self.num(g.mk('bin', '+', self.node(a, st), self.node(b, st)), ty='tuple')
        if op == '*' and (a.kind == 'lst' or b.kind == 'lst'):
            if b.kind == 'lst':
                a, b = b, a
            c = st.heap.get(('L', a.uid))
            n = self.const_of(b)
            if n is None and State.ints is not None:
                n = State.ints(self.node(b, st))
            if c is not None and c.items is not None and isinstance(n, int) and len(c.items) * n <= 64:
                return self.mk_list(st, c.items * n)
            return self.mk_list(st, None, self.elem_of(c) if c else None, self.node(b, st))
        if op == '+' and (a.kind == 'lst' or b.kind == 'lst') and not (a.kind == 'num' and a.ty == 'array' or b.kind == 'num' and b.ty == 'array'):
            ca = st.heap.get(('L', a.uid)) if a.kind == 'lst' else None
            cb = st.heap.get(('L', b.uid)) if b.kind == 'lst' else None
            if ca is not None and cb is not None and ca.items is not None and cb.items is not None:
                return self.mk_list(st, ca.items + cb.items)
            ea = self.elem_of(ca) if ca else (self.getitem(a, self.num(self.unk('k')), st) if a.kind == 'num' else None)
            eb = self.elem_of(cb) if cb else (self.getitem(b, self.num(self.unk('k')), st) if b.kind == 'num' else None)
            e = ea if eb is None else eb if ea is None else self.vphi(g.mk('sym', 'which?'), ea, eb)
            return self.mk_list(st, None, e)
        if a.kind == 'phi' and not self._numphi(a):
            return self.vphi(a.cond, self.binop(op, a.a, b, st), self.binop(op, a.b, b, st))
        if b.kind == 'phi' and not self._numphi(b):
            return self.vphi(b.cond, self.binop(op, a, b.a, st), self.binop(op, a, b.b, st))
        na, nb = self.node(a, st), self.node(b, st)
        if na.op == 'const' and nb.op == 'const':
            x, y = na.data, nb.data
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool) and not isinstance(y, bool):
                try:
                    r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                         '//': lambda: x // y, '%': lambda: x % y, '**': lambda: x ** y, '&': lambda: x & y, '|': lambda: x | y,
                         '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                    if isinstance(r, (int, float)):
                        return self.cv(r)
                except Exception:
                    pass
            if isinstance(x, str) and isinstance(y, str) and op == '+':
                return self.cv(x + y)
        ta, tb = a.ty, b.ty
        ty = 'array' if 'array' in (ta, tb) else ('float' if ta in ('float', 'int', 'bool') and tb in ('float', 'int', 'bool') else None)
        if ta == tb == 'int' and op in '+-*//%':
            ty = 'int'
        if ta == tb == 'str':
            ty = 'str'
        if (ta or '').startswith('list') and op == '+':
            ty = ta
        return self.num(g.mk('bin', op, na, nb), ty=ty)

    def x_Compare(self, e, st):
        left = self.ev_expr(e.left, st)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev_expr(r, st)
            n = self.compare(CMPOP[type(op)], left, right, st)
            acc = n if acc is None else self.g.and_(acc, n)
            left = right
        t = st.truth(acc)
        if t is not None and acc.op != 'const' and False:
            return self.cv(t)
        return self.num(acc, ty='bool' if acc.op == 'const' else None)

    def compare(self, op, a, b, st):
        g = self.g
        a, b = self.resolve(a, st), self.resolve(b, st)
        if op in ('is not', 'not in'):
            return g.not_(self.compare('is' if op == 'is not' else 'in', a, b, st))
        if op == 'is' or (op in ('==', '!=') and (a.kind == 'none' or b.kind == 'none')):
            neg = op == '!='
            if b.kind != 'none' and a.kind == 'none':
                a, b = b, a
            if b.kind == 'none':
                r = self.is_none(a, st)
                return g.not_(r) if neg else r
            if op == 'is':
                if a is b:
                    return g.const(True)
                if a.kind in ('cls', 'ext') and b.kind in ('cls', 'ext'):
                    return g.const(a.name == b.name)
        if op in ('==', '!=') and a.kind in ('inst', 'sobj'):
            f = a.cls.find('__eq__' if op == '==' else '__ne__')
            if f is not None and b.kind != 'none':
                return self.truth_node(self.call_func(V('func', fn=f, selfv=a), [b], {}, st), st)
        if a.kind == 'phi' and not self._numphi(a):
            return g.phi(a.cond, self.compare(op, a.a, b, st), self.compare(op, a.b, b, st))
        if b.kind == 'phi' and not self._numphi(b):
            return g.phi(b.cond, self.compare(op, a, b.a, st), self.compare(op, a, b.b, st))
        if op == 'in':
            its = self.iter_items(b, st) if b.kind in ('tup', 'lst', 'dct') else None
            if its is not None:
                acc = g.const(False)
                for x in its:
                    acc = g.or_(acc, self.compare('==', a, x, st))
                return acc
            if b.kind == 'dct':
                c = st.heap.get(('D', b.uid))
                k = self.const_of(a)
                if c is not None and k is not None and k in c.d and not c.unknown:
                    return g.const(True)
        na, nb = self.node(a, st), self.node(b, st)
        if na.op == 'const' and nb.op == 'const':
            x, y = na.data, nb.data
            if x == ('nan',) or y == ('nan',):
                return g.const(op == '!=')
            try:
                r = {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
                     '>': lambda: x > y, '>=': lambda: x >= y, 'is': lambda: x is y or (isinstance(x, (bool, tuple)) and x == y), 'in': lambda: x in y}[op]()
                return g.const(bool(r))
            except Exception:
                pass
        if op == '!=':
            return g.not_(self.compare('==', a, b, st))
        if na is nb and op in ('==', 'is', '<=', '>='):
            pass
        # canonical orientation
        if op == '>':
            return g.mk('cmp', '<', nb, na)
        if op == '>=':
            return g.mk('cmp', '<=', nb, na)
        if op == '==' and na.id > nb.id:
            na, nb = nb, na
        return g.mk('cmp', op, na, nb)

    def is_none(self, a, st, memo=None):
        g = self.g
        a = self.resolve(a, st)
        if a.kind == 'none':
            return g.const(True)
        if a.kind == 'phi':
            memo = {} if memo is None else memo
            if a.uid not in memo:
                memo[a.uid] = g.phi(a.cond, self.is_none(a.a, st, memo), self.is_none(a.b, st, memo))
            return memo[a.uid]
        if a.kind == 'num':
            return self._none_node(a.node, a.ty, {})
        return g.const(False)

    def _none_node(self, n, ty, memo):
        g = self.g
        if n.op == 'const':
            return g.const(n.data is None)
        if n.op == 'phi':
            if n.id not in memo:
                memo[n.id] = g.phi(n.args[0], self._none_node(n.args[1], None, memo), self._none_node(n.args[2], None, memo))
            return memo[n.id]
        if ty or n.op in ('bin', 'un', 'cmp', 'bool', 'store', 'tuple', 'list'):
            return g.const(False)
        if n.op == 'call' and n.data[0].startswith(('numpy.', 'scipy.')):
            return g.const(False)
        return g.mk('cmp', 'is', n, g.const(None))

    def x_Attribute(self, e, st):
        o = self.ev_expr(e.value, st)
        return self.getattr_(o, e.attr, st)

    def getattr_(self, o, attr, st, memo=None):
        o = self.resolve(o, st)
        g = self.g
        k = o.kind
        if k == 'phi':
            memo = {} if memo is None else memo
            if o.uid not in memo:
                memo[o.uid] = self.vphi(o.cond, self.getattr_(o.a, attr, st, memo), self.getattr_(o.b, attr, st, memo))
            return memo[o.uid]
        if k in ('inst', 'sobj'):
            key = self.okey(o)
            v = st.heap.get((key, attr))
            if v is not None:
                return self.resolve(v, st)
            f = o.cls.find(attr)
            if f is not None:
                if any(d == 'staticmethod' for d in f.deco):
                    return V('func', fn=f, name=attr)
                if any(d == 'classmethod' for d in f.deco):
                    return V('func', fn=f, selfv=V('cls', cls=o.cls, name=o.cls.name), name=attr)
                if any(d in ('property', 'cached_property', 'functools.cached_property') for d in f.deco):
                    return self.call_func(V('func', fn=f, selfv=o), [], {}, st)
                return V('func', fn=f, selfv=o, name=attr)
            for c in o.cls.mro():
                if attr in c.attrs:
                    return c.attrs[attr]
            if k == 'sobj':
                return self.resolve(self.lazy_attr(o, attr), st)
            if attr == '__class__':
                return V('cls', cls=o.cls, name=o.cls.name)
            if attr == '__dict__':
                return self.num(g.mk('attr', '__dict__', o.node))
            return self.num(g.mk('attr', attr, o.node))
        if k == 'mod':
            m = self.mods[o.name]
            self.exec_module(m)
            if attr in m.env:
                return m.env[attr]
            sub = f'{o.name}.{attr}'
            if sub in self.mods:
                return self.modv(sub)
            if sub in self.funcs:
                return V('func', fn=self.funcs[sub], name=attr)
            return V('ext', name=sub)
        if k == 'ext':
            return self.ext(f'{o.name}.{attr}')
        if k == 'cls':
            for c in o.cls.mro():
                if attr in c.attrs:
                    return c.attrs[attr]
            f = o.cls.find(attr)
            if f is not None:
                if any(d == 'classmethod' for d in f.deco):
                    return V('func', fn=f, selfv=o, name=attr)
                return V('func', fn=f, name=attr)
            if attr == '__name__':
                return self.cv(o.cls.name)
            return self.num(g.mk('sym', f'class:{o.cls.name}.{attr}'))
        if k == 'super':
            for c in o.items:
                if attr in c.methods:
                    return V('func', fn=c.methods[attr], selfv=o.selfv, name=attr)
            return V('ext', name=f'object.{attr}')
        if k == 'num':
            if attr == 'T':
                return self.num(g.mk('call', ('numpy.transpose', ()), self.node(o, st)), ty=o.ty, base=o,
                                path=lambda n: g.mk('call', ('numpy.transpose', ()), n))
            if attr in ('shape', 'ndim', 'size', 'dtype'):
                return self.num(g.mk('call', ('numpy.' + attr, ()), self.node(o, st)), ty={'ndim': 'int', 'size': 'int'}.get(attr))
            if attr in ('real', 'imag', 'flat'):
                return self.num(g.mk('call', ('numpy.' + attr, ()), self.node(o, st)), base=o,
                                path=lambda n: g.mk('call', ('numpy.' + attr, ()), n))
            return V('extm', name=attr, selfv=o)
        if k in ('lst', 'dct', 'tup', 'iter', 'extm', 'none', 'func', 'slice', 'star', 'names'):
            return V('extm', name=attr, selfv=o)
        return self.num(g.mk('attr', attr, self.node(o, st)))

    def x_Subscript(self, e, st):
        o = self.ev_expr(e.value, st)
        if o.kind == 'ext':
            return V('ext', name=o.name + '[]')
        k = self.ev_expr(e.slice, st)
        return self.getitem(o, k, st)

    def getitem(self, o, k, st, iterating=False, memo=None):
        o, k = self.resolve(o, st), self.resolve(k, st)
        g = self.g
        kc = self.const_of(k)
        if o.kind == 'phi':
            memo = {} if memo is None else memo
            if o.uid not in memo:
                memo[o.uid] = self.vphi(o.cond, self.getitem(o.a, k, st, iterating, memo), self.getitem(o.b, k, st, iterating, memo))
            return memo[o.uid]
        if o.kind in ('tup', 'lst'):
            c = st.heap.get(('L', o.uid)) if o.kind == 'lst' else None
            items = o.items if o.kind == 'tup' else (c.items if c else None)
            if items is not None:
                if isinstance(kc, int) and not isinstance(kc, bool):
                    if -len(items) <= kc < len(items):
                        return items[kc]
                    if items:
                        return self.num(self.unk('oob'))
                    raise_dead = False
                    return self.num(self.unk('oob'))
                if k.kind == 'slice':
                    cs = [a.data if a.op == 'const' else State.ints(a) if State.ints is not None else None for a in k.node.args]
                    if all(a.op == 'const' or c is not None for a, c in zip(k.node.args, cs)):
                        r = items[slice(*cs)]
                        return self.mk_tup(r) if o.kind == 'tup' else self.mk_list(st, r)
                    if not all(x.kind in ('num', 'none') for x in items) and items:
                        e = items[-1]
                        for x in items[:-1]:
                            e = self.vphi(g.mk('sym', 'which?'), x, e)
                        return self.mk_list(st, None, e, None)
                if k.kind == 'phi' or (k.kind == 'num' and k.node.op == 'phi'):
                    if k.kind == 'phi':
                        return self.vphi(k.cond, self.getitem(o, k.a, st), self.getitem(o, k.b, st))
                    n = k.node
                    return self.vphi(n.args[0], self.getitem(o, self.num(n.args[1]), st), self.getitem(o, self.num(n.args[2]), st))
                if items:
                    if all(x.kind in ('num', 'none') for x in items):
                        return self.num(g.mk('idx', None, self.node(o, st), self.node(k, st)))
                    kn = self.node(k, st)
                    e = items[-1]
                    for i in range(len(items) - 2, -1, -1):
                        e = self.vphi(g.mk('cmp', '==', kn, g.const(i)), items[i], e)
                    return e
                return self.num(self.unk('empty'))
            if c is not None and c.elem is not None:
                if k.kind == 'slice':
                    return self.mk_list(st, None, c.elem, None)
                e = self.resolve(c.elem, st)
                if not iterating and e.kind == 'num':
                    kn, ln = self.node(k, st), c.ln if c.ln is not None else g.mk('sym', 'len?')
                    path = lambda n: g.mk('idx', None, g.mk('lsum', None, n, ln), kn)
                    return self.num(path(self.node(e, st)), ty=e.ty, base=e, path=path)
                return c.elem
            return self.num(g.mk('idx', None, self.node(o, st), self.node(k, st)))
        if o.kind == 'dct':
            c = st.heap.get(('D', o.uid))
            if c is not None and kc is not None and kc in c.d:
                return self.resolve(c.d[kc], st)
            if c is not None and c.elem is not None:
                return c.elem
            if c is not None and c.d and kc is None and all(x.kind in ('num', 'none', 'tup', 'lst') for x in c.d.values()):
                return self.num(g.mk('idx', None, self.node(o, st), self.node(k, st)), owner=o.owner)
            if c is not None and c.d and kc is None:
                e = None
                for x in c.d.values():
                    e = x if e is None else self.vphi(g.mk('sym', 'which?'), e, x)
                return e
            return self.num(g.mk('idx', None, self.node(o, st), self.node(k, st)))
        if o.kind in ('inst', 'sobj'):
            f = o.cls.find('__getitem__')
            if f is not None:
                return self.call_func(V('func', fn=f, selfv=o), [k], {}, st)
        if o.kind == 'cls' and o.cls.is_enum():
            if isinstance(kc, str):
                if kc in o.cls.attrs:
                    return o.cls.attrs[kc]
                self.ev('raise', st, exc='KeyError')
                raise DeadPath()
            s2 = st.copy()
            self.ev('raise', s2, exc='KeyError', enum=o.cls.name)
            return self.num(g.mk('call', ('enum:' + o.cls.name, ()), self.node(k, st)), ty='enum')
        if o.kind == 'cls':
            return o
        if o.kind == 'num':
            on, kn = self.node(o, st), self.node(k, st)
            ety = None
            if (o.ty or '').startswith('list[') and k.kind != 'slice':
                ety = o.ty[5:-1]
                return self._elem_sym(o, on, kn, ety, st)
            if (o.ty or '').startswith('list') and k.kind == 'slice':
                return self.num(g.mk('idx', None, on, kn), ty=o.ty, owner=o.owner)
            if on.op in ('tuple', 'list') and isinstance(kc, int) and -len(on.args) <= kc < len(on.args):
                return self.num(on.args[kc], base=o, path=lambda n: g.mk('idx', None, n, kn), soft=True)
            isarr = self.key_keeps_array(k)
            ty = None
            if o.ty in ('array', 'num') and isarr:
                ty = 'array'
            copies = k.kind in ('lst',) or (k.kind == 'num' and (k.ty == 'array' or k.node.op in ('cmp',) or (k.node.op == 'un' and k.node.data == '~') or (k.node.op == 'bool')))
            if k.kind == 'tup' and any(x.kind == 'lst' or (x.kind == 'num' and x.ty == 'array') for x in k.items):
                copies = True
            n = g.mk('idx', None, on, kn)
            if o.ty == 'str':
                return self.num(n, ty='str')
            if copies:
                return self.num(n, ty='array')
            return self.num(n, ty=ty, base=o, path=lambda x: g.mk('idx', None, x, kn), soft=not isarr)
        return self.num(g.mk('idx', None, self.node(o, st), self.node(k, st)))

    def _elem_sym(self, o, on, kn, ety, st):
        key = ('elem', on.id, kn.id, ety)
        v = self.symmemo.get(key)
        if v is None:
            v = self._sym(self.g.mk('idx', None, on, kn), ety, (o.owner + '[]') if o.owner else None, 'elem')
            self.symmemo[key] = v
        return v

    def key_keeps_array(self, k):
        if k.kind == 'slice':
            return True
        if k.kind == 'tup':
            return any(self.key_keeps_array(x) for x in k.items)
        if k.kind == 'none':
            return True
        if k.kind == 'num' and k.node.op == 'const' and k.node.data is Ellipsis:
            return True
        return False

    # -- comprehensions
    def x_ListComp(self, e, st):
        return self.comp(e, st, 'lst')

    def x_GeneratorExp(self, e, st):
        return self.comp(e, st, 'lst')

    def x_SetComp(self, e, st):
        v = self.comp(e, st, 'lst')
        return self.num(self.g.mk('call', ('set', ()), self.node(v, st)), ty='set')

    def x_DictComp(self, e, st):
        v = self.comp(e, st, 'dct')
        return v

    def comp(self, e, st, kind):
        saved = dict(st.env)
        isd = isinstance(e, ast.DictComp)

        def body(s):
            if isd:
                return (self.ev_expr(e.key, s), self.ev_expr(e.value, s))
            return self.ev_expr(e.elt, s)
        results = []
        exact = [True]
        lens = []

        def rec(i, s):
            if i == len(e.generators):
                try:
                    results.append(body(s))
                except DeadPath:
                    pass
                return
            gen = e.generators[i]
            it = self.as_iter(self.ev_expr(gen.iter, s), s)
            items = self.iter_items(it, s)
            if items is not None and len(items) <= 2 * MAXUNROLL:
                for x in items:
                    self.assign(gen.target, x, s)
                    conds = []
                    dead = False
                    for c in gen.ifs:
                        cn = self.truth_node(self.ev_expr(c, s), s)
                        t = s.truth(cn)
                        if t is False:
                            dead = True
                            break
                        if t is None:
                            exact[0] = False
                            conds.append(cn)
                    if dead:
                        continue
                    pc = s.pc
                    for cn in conds:
                        s.assume(cn, True)
                        lens.append(cn)
                    rec(i + 1, s)
                    s.pc = pc
                return
            exact[0] = False
            bid = self.fresh('c')
            lens.append(self.node(it, s) if it.kind != 'iter' else self.g.mk('call', ('iter:' + it.name, ()), *[self.node(x, s) for x in it.items]))
            el = self.gen_elem(it, s, bid)
            self.assign(gen.target, el, s)
            pc = s.pc
            for c in gen.ifs:
                cn = self.truth_node(self.ev_expr(c, s), s)
                if s.truth(cn) is None:
                    s.assume(cn, True)
                    lens.append(cn)
            rec(i + 1, s)
            s.pc = pc
        rec(0, st)
        for k in list(st.env):
            if k in saved:
                st.env[k] = saved[k]
            else:
                del st.env[k]
        if isd:
            if exact[0] and all(self.const_of(k) is not None for k, _ in results):
                return self.mk_dict(st, {self.const_of(k): v for k, v in results})
            el = None
            for k, v in results:
                el = v if el is None else self.vphi(self.g.mk('sym', 'which?'), el, v)
            return self.mk_dict(st, {}, True, el)
        if exact[0]:
            return self.mk_list(st, results)
        el = None
        for v in results:
            el = v if el is None else self.vphi(self.g.mk('sym', 'which?'), el, v)
        ln = self.g.mk('call', ('complen', ()), *lens)
        return self.mk_list(st, None, el, ln)

    def as_iter(self, v, st):
        return v

    # -------------------------------------------------------------- calls
    def x_Call(self, e, st):
        f = self.ev_expr(e.func, st)
        args, kwargs = [], {}
        starargs = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev_expr(a.value, st)
                its = self.iter_items(v, st)
                if its is None:
                    args.append(V('star', a=v, node=self.node(v, st)))
                else:
                    args += its
            else:
                args.append(self.ev_expr(a, st))
        unknown_kw = None
        for k in e.keywords:
            v = self.ev_expr(k.value, st)
            if k.arg is None:
                r = self.resolve(v, st)
                c = st.heap.get(('D', r.uid)) if r.kind == 'dct' else None
                if c is not None and not c.unknown and all(isinstance(x, str) for x in c.d):
                    kwargs.update(c.d)
                else:
                    if c is not None:
                        kwargs.update({x: y for x, y in c.d.items() if isinstance(x, str)})
                    unknown_kw = v
            else:
                kwargs[k.arg] = v
        self.cur_line = e.lineno
        self.g.cur_loc = (self.cur_file, e.lineno)
        return self.call(f, args, kwargs, st, e, unknown_kw)

    def call(self, f, args, kwargs, st, e=None, unknown_kw=None):
        f = self.resolve(f, st)
        g = self.g
        line = self.cur_line
        if f.kind == 'phi':
            s1, s2 = st.copy(), st.copy()
            s1.assume(f.cond, True)
            s2.assume(f.cond, False)
            a = b = None
            try:
                a = self.call(f.a, args, kwargs, s1, e, unknown_kw)
            except DeadPath:
                pass
            self.cur_line = line
            try:
                b = self.call(f.b, args, kwargs, s2, e, unknown_kw)
            except DeadPath:
                pass
            if a is None and b is None:
                raise DeadPath()
            if a is None or b is None:
                src = s2 if a is None else s1
                st.heap, st.pc, st.env = src.heap, src.pc, src.env
                return a or b
            j = self.join(f.cond, s1, s2, st.pc)
            st.env, st.heap = j.env, j.heap
            return self.vphi(f.cond, a, b)
        if f.kind == 'func':
            return self.call_func(f, args, kwargs, st, unknown_kw)
        if f.kind == 'cls':
            return self.instantiate(f.cls, args, kwargs, st, unknown_kw)
        if f.kind == 'ext':
            return self.call_ext(f.name, args, kwargs, st)
        if f.kind == 'extm':
            return self.call_method(f.selfv, f.name, args, kwargs, st)
        if f.kind == 'inst' or f.kind == 'sobj':
            m = f.cls.find('__call__')
            if m is not None:
                return self.call_func(V('func', fn=m, selfv=f), args, kwargs, st)
        ns = [self.node(f, st)] + [self.node(a, st) for a in args] + [self.node(kwargs[k], st) for k in sorted(kwargs)]
        self.ev('extcall', st, name='dyn', args=tuple(args), kwargs=kwargs)
        return self.num(g.mk('call', ('dyn', tuple(sorted(kwargs))), *ns))

    def instantiate(self, cls, args, kwargs, st, unknown_kw=None):
        if cls.is_enum():
            return self.num(self.g.mk('call', ('enumcall:' + cls.name, ()), *[self.node(a, st) for a in args]))
        init = cls.find('__init__')
        o = V('inst', cls=cls, ty=cls.name)
        o.node = self.g.mk('obj', (cls.name, o.uid))
        self.ev('new', st, cls=cls.name, obj=o)
        if init is not None:
            r = self.call_func(V('func', fn=init, selfv=o), args, kwargs, st, unknown_kw)
        return o

    def bind(self, fi, selfv, args, kwargs, st, unknown_kw=None, closure=None):
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        bound, explicit = {}, set()
        pos = list(args)
        if selfv is not None and ps:
            pos = [selfv] + pos
        star = [i for i, x in enumerate(pos) if x.kind == 'star']
        if star:
            i = star[0]
            sv = pos[i].a
            rest = pos[i + 1:]
            need = max(0, len(ps) - i - len(rest))
            pos = pos[:i] + [self.getitem(sv, self.cv(j), st) for j in range(need)] + rest
        extra = []
        for i, x in enumerate(pos):
            if i < len(ps):
                bound[ps[i]] = x
                explicit.add(ps[i])
            else:
                extra.append(x)
        kwonly = [x.arg for x in a.kwonlyargs]
        extrakw = {}
        for k, x in kwargs.items():
            if k in ps or k in kwonly:
                bound[k] = x
                explicit.add(k)
            else:
                extrakw[k] = x
        if a.vararg:
            bound[a.vararg.arg] = self.mk_tup(extra)
        if a.kwarg:
            bound[a.kwarg.arg] = self.mk_dict(st, extrakw, unknown_kw is not None)
        defaults = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        for k, d in zip(kwonly, a.kw_defaults):
            if d is not None:
                defaults[k] = d
        bad = None
        if extra and not a.vararg:
            bad = 'too many positional arguments'
        if extrakw and not a.kwarg:
            bad = f'unexpected keyword {sorted(extrakw)}'
        for p in ps + kwonly:
            if p not in bound:
                if unknown_kw is not None:
                    dflt = self.default_val(fi, p, defaults[p], st) if p in defaults else None
                    kv = self.num(self.g.mk('idx', None, self.node(unknown_kw, st), self.g.const(p)))
                    bound[p] = kv if dflt is None else self.vphi(self.g.mk('cmp', 'in', self.g.const(p), self.node(unknown_kw, st)), kv, dflt)
                elif p in defaults:
                    bound[p] = self.default_val(fi, p, defaults[p], st)
                else:
                    bad = bad or f'missing argument {p}'
                    bound[p] = self.num(self.unk('missing_' + p))
        return bound, explicit, bad

    def default_val(self, fi, p, d, st):
        """Default values are created once, at definition time: memoised and owned globally if mutable."""
        key = ('default', fi.qual, fi.node.lineno, p)
        if isinstance(d, ast.Constant):
            return self.cv(d.value)
        v = self.symmemo.get(key)
        if v is None:
            m = fi.module
            s = State(dict(m.env), st.heap, ())
            self.stack.append((fi.qual, m))
            cf = self.cur_file
            self.cur_file = m.file
            v = self.ev_expr(d, s)
            self.cur_file = cf
            self.stack.pop()
            if v.kind in ('lst', 'dct') or (v.kind == 'num' and v.node.op != 'const'):
                v.owner = f'global:default {p} of {fi.qual}'
            self.symmemo[key] = v
            if v.kind in ('lst', 'dct'):
                self.symmemo[key + ('c',)] = st.heap.get((('L' if v.kind == 'lst' else 'D'), v.uid))
        elif v.kind in ('lst', 'dct'):
            hk = (('L' if v.kind == 'lst' else 'D'), v.uid)
            if hk not in st.heap:
                st.heap[hk] = self.symmemo[key + ('c',)]
        return v

    def call_func(self, f, args, kwargs, st, unknown_kw=None):
        fi, selfv = f.fn, f.selfv
        g = self.g
        line, file = self.cur_line, self.cur_file
        if selfv is not None and any(d == 'staticmethod' for d in fi.deco):
            selfv = None
        bound, explicit, bad = self.bind(fi, selfv, args, kwargs, st, unknown_kw)
        nodes = {k: self.node(v, st) for k, v in bound.items() if v.kind != 'names'}
        self.ev('call', st, callee=fi.qual, bound=bound, nodes=nodes, explicit=tuple(sorted(explicit)), bad=bad, fi=fi)
        self.sites.add((file, line, fi.qual))
        if self.on_call is not None:
            r = self.on_call(fi, bound, st)
            if r is not None:
                return r
        rec = sum(1 for q, _ in self.stack if q == fi.qual)
        if self.opaque(fi, selfv) or len(self.stack) > self.max_depth or rec >= 2:
            names = [k for k in nodes]
            return self.num(g.mk('call', ('pg:' + fi.qual, tuple(names)), *[nodes[k] for k in names]))
        self.analysed[fi.qual] = self.analysed.get(fi.qual, 0) + 1
        if any(d.startswith(('lru_cache', 'cache', 'functools.lru_cache', 'functools.cache')) for d in (fi.deco or self.decos(fi))) and fi.qual not in self._caching:
            self._caching.add(fi.qual)
            try:
                r = self.call_func(f, args, kwargs, st, unknown_kw)
            finally:
                self._caching.discard(fi.qual)
            return self.shared(r, f'global:cache of {fi.qual}', st)
        env = dict(bound)
        for v in bound.values():
            if v.kind == 'num' and v.node is not None and ('orig', v.uid) not in self.symmemo:
                self.symmemo[('orig', v.uid)] = v.node
        if f.env is not None:
            env['$closure'] = V('closure', env=f.env)
        if fi.cls is not None:
            env['$class'] = V('cls', cls=fi.cls, name=fi.cls.name)
            env['$self'] = selfv if selfv is not None else (bound.get(fi.params[0]) if fi.params else None)
            if env['$self'] is None:
                del env['$self']
        saved = st.env
        npc = len(st.pc)
        s = State(env, st.heap, st.pc)
        self.stack.append((fi.qual, fi.module))
        self.cur_file = fi.module.file
        try:
            if isinstance(fi.node, ast.Lambda):
                r = self.ev_expr(fi.node.body, s)
                st.heap, st.pc = s.heap, s.pc
                return r
            out = self.exec_block(fi.node.body, s, fi)
        finally:
            self.stack.pop()
            self.cur_file, self.cur_line = file, line
            self.g.cur_loc = (file, line)
        alts = [(pc[npc:], v, s2) for pc, v, s2 in out.rets]
        if out.st is not None:
            alts.append((out.st.pc[npc:], self.cv(None), out.st))
        if not alts:
            raise DeadPath()
        v, s2 = self._tree(alts, st.pc)
        st.heap = s2.heap
        st.env = saved
        # keep facts every surviving path agrees on
        common = [x for x in alts[0][0] if all(x in a[0] for a in alts[1:])]
        st.pc = st.pc + tuple(common)
        return v

    def decos(self, fi):
        return tuple(ast.unparse(d) for d in getattr(fi.node, 'decorator_list', ()))

    def shared(self, v, owner, st):
        """The same storage is handed out on every call."""
        if v.kind == 'tup':
            return V('tup', items=tuple(self.shared(x, owner, st) for x in v.items))
        if v.kind == 'phi':
            return V('phi', cond=v.cond, a=self.shared(v.a, owner, st), b=self.shared(v.b, owner, st), node=v.node)
        if v.kind == 'num' and v.ty not in ('float', 'int', 'str', 'bool') and v.node.op != 'const':
            return V('num', node=self.node(v, st), ty=v.ty, owner=owner, base=v, path=lambda n: n)
        if v.kind in ('lst', 'dct') and v.owner is None:
            v.owner = owner
        return v

    # -- external calls
    def call_ext(self, name, args, kwargs, st):
        g = self.g
        short = name[9:] if name.startswith('builtins.') else None
        if short in EXC:
            return self.num(g.mk('call', (short, ()), *[self.node(a, st) for a in args]))
        h = getattr(self, 'b_' + short, None) if short else None
        if h is not None:
            r = h(args, kwargs, st)
            if r is not None:
                return r
        h = getattr(self, 'n_' + name.replace('.', '_'), None)
        if h is not None:
            r = h(args, kwargs, st)
            if r is not None:
                return r
        if any(a.kind == 'star' for a in args):
            args = [a.a if a.kind == 'star' and False else a for a in args]
        ns = []
        for a in args:
            ns.append(g.mk('star', None, a.node) if a.kind == 'star' else self.node(a, st))
        ks = sorted(kwargs)
        kn = [self.node(kwargs[k], st) for k in ks]
        self.ev('extcall', st, name=name, args=tuple(args), kwargs=dict(kwargs), nodes={str(i): n for i, n in enumerate(ns)})
        if name in MUT_FUNCS and args:
            self.mutate(args[0], st, name)
            self.store_content(args[0], st, lambda n: g.mk('vstore', None, n, *ns[1:]))
        if name.endswith('.at') and args:
            self.mutate(args[0], st, name)
        if 'out' in kwargs:
            o = kwargs['out']
            self.mutate(o, st, name + '(out=)')
        n = g.mk('call', (short or name, tuple(ks)), *(ns + kn))
        if 'out' in kwargs:
            self.store_content(kwargs['out'], st, lambda old: n)
        ty = 'array' if name in ARRAY_RESULT else None
        if name in VIEW_FUNCS and args:
            a0 = args[0]
            a0 = self.resolve(a0, st)
            if a0.kind in ('num', 'phi') and not (name in NOALIAS_DIAG):
                rest, kk, nm = ns[1:], kn, (name, tuple(ks))
                return self.num(n, ty=ty or self.ty_of(a0), base=a0, path=lambda x: g.mk('call', nm, x, *(rest + kk)))
        if name in ('numpy.array',) and args:
            cp = kwargs.get('copy')
            if cp is not None and self.const_of(cp) is not True:
                a0 = self.resolve(args[0], st)
                if a0.kind in ('num', 'phi'):
                    return self.num(n, ty='array', base=a0, path=lambda x: x)
        return self.num(n, ty=ty)

    def ty_of(self, v):
        return v.ty if v.kind == 'num' else None

    def call_method(self, o, name, args, kwargs, st):
        """Method of a builtin container or of an array / opaque value."""
        o = self.resolve(o, st)
        g = self.g
        if o.kind == 'phi':
            return self.call(self.vphi(o.cond, V('extm', name=name, selfv=o.a), V('extm', name=name, selfv=o.b)), args, kwargs, st)
        if o.kind == 'lst':
            c = st.heap.get(('L', o.uid)) or ListC(None)
            if name in MUT_LIST_METHODS:
                self.mutate(o, st, f'.{name}()')
            if name == 'append':
                if c.items is not None:
                    st.heap[('L', o.uid)] = ListC(c.items + (args[0],))
                else:
                    e = args[0] if c.elem is None else self.vphi(g.mk('sym', 'which?'), args[0], c.elem)
                    st.heap[('L', o.uid)] = ListC(None, e, c.ln)
                return self.cv(None)
            if name == 'extend':
                self.list_extend(o, args[0], st)
                return self.cv(None)
            if name == 'pop' and c.items:
                k = self.const_of(args[0]) if args else -1
                if isinstance(k, int) and -len(c.items) <= k < len(c.items):
                    it = list(c.items)
                    v = it.pop(k)
                    st.heap[('L', o.uid)] = ListC(tuple(it))
                    return v
            if name == 'copy':
                return self.mk_list(st, c.items, c.elem, c.ln)
            if name == 'insert' and len(args) == 2:
                k = self.const_of(args[0])
                if c.items is not None and isinstance(k, int):
                    it = list(c.items)
                    it.insert(k, args[1])
                    st.heap[('L', o.uid)] = ListC(tuple(it))
                    return self.cv(None)
            if name in MUT_LIST_METHODS:
                el = self.elem_of(c)
                for a in args:
                    if name in ('insert',):
                        el = a if el is None else self.vphi(g.mk('sym', 'which?'), a, el)
                st.heap[('L', o.uid)] = ListC(None, el, None)
                if name in ('pop',):
                    return el if el is not None else self.num(self.unk('pop'))
                return self.cv(None)
            if name in ('count', 'index'):
                return self.num(g.mk('call', ('list.' + name, ()), self.node(o, st), *[self.node(a, st) for a in args]), ty='int')
        if o.kind == 'dct':
            c = st.heap.get(('D', o.uid)) or DictC({}, True)
            kc = self.const_of(args[0]) if args else None
            if name == 'get' and args:
                d = args[1] if len(args) > 1 else kwargs.get('default', self.cv(None))
                if kc is not None and kc in c.d:
                    return c.d[kc]
                if not c.unknown and kc is not None:
                    return d
                v = c.elem or self.num(g.mk('idx', None, self.node(o, st), self.node(args[0], st)))
                return self.vphi(self.unk('haskey'), v, d)
            if name == 'copy':
                return self.mk_dict(st, c.d, c.unknown, c.elem)
            if name in ('update', 'setdefault', 'pop', 'popitem', 'clear'):
                self.mutate(o, st, f'.{name}()')
                d = dict(c.d)
                r = self.cv(None)
                unknown = c.unknown
                if name == 'update':
                    for a in args:
                        a = self.resolve(a, st)
                        ca = st.heap.get(('D', a.uid)) if a.kind == 'dct' else None
                        if ca is not None:
                            d.update(ca.d)
                            unknown |= ca.unknown
                        else:
                            unknown = True
                    d.update(kwargs)
                elif name == 'pop':
                    dflt = args[1] if len(args) > 1 else None
                    if kc in d:
                        r = d.pop(kc)
                    elif dflt is not None and not c.unknown:
                        r = dflt
                    else:
                        r = self.num(g.mk('idx', None, self.node(o, st), self.node(args[0], st)))
                        if dflt is not None:
                            r = self.vphi(self.unk('haskey'), r, dflt)
                elif name == 'setdefault':
                    if kc in d:
                        r = d[kc]
                    else:
                        r = args[1] if len(args) > 1 else self.cv(None)
                        if kc is not None:
                            d[kc] = r
                elif name == 'clear':
                    d = {}
                st.heap[('D', o.uid)] = DictC(d, unknown, c.elem)
                return r
            if name in ('items', 'keys', 'values'):
                if not c.unknown:
                    its = [self.mk_tup((self.cv(k), v)) if name == 'items' else self.cv(k) if name == 'keys' else v for k, v in c.d.items()]
                    return self.mk_list(st, its)
                return V('iter', name='items' if name == 'items' else 'map', items=(o,), node=g.mk('call', (name, ()), self.node(o, st)))
        if o.kind == 'tup' and name in ('count', 'index'):
            return self.num(g.mk('call', ('list.' + name, ()), self.node(o, st), *[self.node(a, st) for a in args]), ty='int')
        on = self.node(o, st)
        c0 = on.data if on.op == 'const' else None
        if isinstance(c0, str) and name in ('lower', 'upper', 'strip') and not args:
            return self.cv(getattr(c0, name)())
        ns = [g.mk('star', None, a.node) if a.kind == 'star' else self.node(a, st) for a in args]
        ks = sorted(kwargs)
        kn = [self.node(kwargs[k], st) for k in ks]
        self.ev('extcall', st, name='method:' + name, recv=o, args=tuple(args), kwargs=dict(kwargs))
        if o.kind == 'num':
            if name in MUT_ARRAY_METHODS or (name in MUT_LIST_METHODS and name not in ('add', 'update', 'pop', 'clear', 'setdefault', 'remove', 'discard', 'popitem') or ((o.ty or '').startswith(('list', 'dict', 'set')) and name in MUT_LIST_METHODS)):
                self.mutate(o, st, f'.{name}()')
                self.store_content(o, st, lambda n: g.mk('vstore', name, n, *ns))
                if name in ('pop', 'get'):
                    return self.num(g.mk('idx', None, on, *(ns[:1] or [g.const(-1)])))
                return self.cv(None)
            if name in ('lower', 'upper', 'strip', 'join', 'format', 'replace', 'split', 'startswith', 'endswith', 'title', 'capitalize'):
                return self.num(g.mk('call', ('str.' + name, tuple(ks)), on, *(ns + kn)), ty='str' if name in ('lower', 'upper', 'strip', 'join', 'format', 'replace', 'title', 'capitalize') else None)
            if name == 'copy' and (o.ty or '').startswith(('list', 'dict')):
                return self.num(on, ty=o.ty)
            if name in ('copy', 'astype', 'item', 'tolist', '__copy__'):
                return self.num(g.mk('call', ('numpy.' + name, tuple(ks)), on, *(ns + kn)) if name != 'copy' else on,
                                ty='float' if name == 'item' else (o.ty if name in ('copy',) else None) or ('array' if name in ('copy', 'astype') else None))
            if name == 'get' and (o.ty or '').startswith('dict'):
                v = self.num(g.mk('idx', None, on, ns[0]), owner=o.owner)
                d = args[1] if len(args) > 1 else self.cv(None)
                return self.vphi(g.mk('cmp', 'in', ns[0], on), v, d)
            if name == 'count' or name == 'index':
                return self.num(g.mk('call', ('list.' + name, ()), on, *ns), ty='int')
            n = g.mk('call', ('numpy.' + name, tuple(ks)), on, *(ns + kn))
            if name in VIEW_METHODS:
                nm = ('numpy.' + name, tuple(ks))
                return self.num(n, ty=o.ty, base=o, path=lambda x: g.mk('call', nm, x, *(ns + kn)))
            ty = 'array' if name in ('flatten', 'repeat', 'cumsum', 'astype', 'nonzero') else None
            return self.num(n, ty=ty)
        return self.num(g.mk('call', ('method:' + name, tuple(ks)), on, *(ns + kn)))

    def list_extend(self, o, x, st):
        self.mutate(o, st, 'extend')
        c = st.heap.get(('L', o.uid)) or ListC(None)
        its = self.iter_items(x, st)
        if c.items is not None and its is not None:
            st.heap[('L', o.uid)] = ListC(c.items + tuple(its))
            return
        e = self.elem_of(c)
        e2 = self.getitem(x, self.num(self.unk('k')), st)
        e = e2 if e is None else self.vphi(self.g.mk('sym', 'which?'), e2, e)
        st.heap[('L', o.uid)] = ListC(None, e, None)

    def summarise_list(self, o, st):
        if o.kind == 'lst' and ('L', o.uid) in st.heap:
            c = st.heap[('L', o.uid)]
            st.heap[('L', o.uid)] = ListC(None, self.elem_of(c), None)

    # -- builtins
    def b_len(self, args, kw, st):
        v = self.resolve(args[0], st)
        g = self.g
        if v.kind == 'phi':
            return self.vphi(v.cond, self.b_len([v.a], kw, st), self.b_len([v.b], kw, st))
        if v.kind == 'tup':
            return self.cv(len(v.items))
        if v.kind == 'lst':
            c = st.heap.get(('L', v.uid))
            if c is not None and c.items is not None:
                return self.cv(len(c.items))
            if c is not None and c.ln is not None:
                return self.num(g.mk('call', ('len', ()), c.ln), ty='int')
        if v.kind == 'dct':
            c = st.heap.get(('D', v.uid))
            if c is not None and not c.unknown:
                return self.cv(len(c.d))
        if v.kind in ('inst', 'sobj'):
            f = v.cls.find('__len__')
            if f is not None:
                return self.call_func(V('func', fn=f, selfv=v), [], {}, st)
        n = self.node(v, st)
        if n.op == 'const' and isinstance(n.data, str):
            return self.cv(len(n.data))
        return self.num(g.mk('call', ('len', ()), n), ty='int')

    def b_range(self, args, kw, st):
        return V('iter', name='range', items=tuple(args), node=self.g.mk('call', ('range', ()), *[self.node(a, st) for a in args]))

    def b_zip(self, args, kw, st):
        if len(args) == 1 and args[0].kind == 'star':
            src = self.resolve(args[0].a, st)
            if src.kind == 'lst':
                c = st.heap.get(('L', src.uid))
                if c is not None and c.elem is not None:
                    e = self.resolve(c.elem, st)
                    its = self.tup_parts(e, st)
                    if its is not None:
                        return self.mk_tup([self.mk_list(st, None, x, c.ln) for x in its])
            return V('iter', name='zip', items=(), selfv=args[0].a, node=self.g.mk('call', ('zip*', ()), self.node(args[0].a, st)))
        args = [a.a if a.kind == 'star' else a for a in args]
        return V('iter', name='zip', items=tuple(args), node=self.g.mk('call', ('zip', ()), *[self.node(a, st) for a in args]))

    def tup_parts(self, e, st):
        e = self.resolve(e, st)
        if e.kind == 'tup':
            return list(e.items)
        if e.kind == 'phi':
            a, b = self.tup_parts(e.a, st), self.tup_parts(e.b, st)
            if a is not None and b is not None and len(a) == len(b):
                return [self.vphi(e.cond, x, y) for x, y in zip(a, b)]
        return None

    def b_enumerate(self, args, kw, st):
        start = args[1] if len(args) > 1 else kw.get('start')
        if start is not None and start.kind == 'num' and start.node.op == 'const' and start.node.data == 0:
            start = None
        items = (args[0],) if start is None else (args[0], start)
        return V('iter', name='enumerate', items=items, node=self.g.mk('call', ('enumerate', ()), *[self.node(x, st) for x in items]))

    def b_reversed(self, args, kw, st):
        return V('iter', name='reversed', items=(args[0],), node=self.g.mk('call', ('reversed', ()), self.node(args[0], st)))

    def b_list(self, args, kw, st):
        if not args:
            return self.mk_list(st, [])
        v = self.resolve(args[0], st)
        its = self.iter_items(v, st)
        if its is not None:
            return self.mk_list(st, its)
        if v.kind in ('lst', 'iter', 'inst', 'sobj') or (v.kind == 'num' and (v.ty or '').startswith('list')):
            bid = self.fresh('l')
            e = self.gen_elem(v, st, bid)
            return self.mk_list(st, None, e, self.g.mk('call', ('complen', ()), self.node(v, st) if v.kind != 'iter' else v.node))
        if v.kind == 'phi':
            return self.vphi(v.cond, self.b_list([v.a], kw, st), self.b_list([v.b], kw, st))
        return self.num(self.g.mk('call', ('list', ()), self.node(v, st)), ty='list')

    def b_tuple(self, args, kw, st):
        if not args:
            return self.mk_tup([])
        its = self.iter_items(args[0], st)
        if its is not None:
            return self.mk_tup(its)
        return self.num(self.g.mk('call', ('tuple', ()), self.node(args[0], st)), ty='tuple')

    def b_dict(self, args, kw, st):
        d = dict(kw)
        unknown = False
        if args:
            a = self.resolve(args[0], st)
            c = st.heap.get(('D', a.uid)) if a.kind == 'dct' else None
            if c is not None:
                d = {**c.d, **d}
                unknown = c.unknown
            else:
                unknown = True
        return self.mk_dict(st, d, unknown)

    def b_super(self, args, kw, st):
        cls = st.env.get('$class')
        slf = st.env.get('$self')
        if cls is None or slf is None:
            return None
        start = slf.cls.mro() if slf.kind in ('inst', 'sobj', 'cls') else cls.cls.mro()
        i = start.index(cls.cls) + 1 if cls.cls in start else 1
        return V('super', items=tuple(start[i:]), selfv=slf, node=slf.node)

    def b_getattr(self, args, kw, st):
        k = self.const_of(args[1])
        if isinstance(k, str):
            return self.getattr_(args[0], k, st)
        return self.num(self.g.mk('call', ('getattr', ()), *[self.node(a, st) for a in args]))

    def b_setattr(self, args, kw, st):
        k = self.const_of(args[1])
        if isinstance(k, str):
            self.setattr_(args[0], k, args[2], st)
        else:
            self.ev('attrwrite', st, obj=args[0], attr='*', owners=tuple(self.roots(args[0], st)), val=args[2])
        return self.cv(None)

    def b_abs(self, args, kw, st):
        return self.num(self.g.mk('call', ('numpy.abs', ()), self.node(args[0], st)), ty=self.ty_of(args[0]))

    def b_callable(self, args, kw, st):
        v = self.resolve(args[0], st)
        if v.kind in ('lst', 'tup', 'dct', 'none') or v.kind == 'num' and v.node is not None and v.node.op == 'const':
            return self.cv(False)
        if v.kind in ('func', 'lambda', 'cls'):
            return self.cv(True)
        return None

    def b_isinstance(self, args, kw, st):
        return self.num(self.isinst(args[0], args[1], st), ty='bool')

    def isinst(self, v, t, st):
        g = self.g
        v = self.resolve(v, st)
        if v.kind == 'phi':
            if v.node is not None and t.kind == 'cls' and v.a.kind == 'sobj' and v.cond.op == 'call' and v.cond.data[0].startswith('isinstance:'):
                pass
            return g.phi(v.cond, self.isinst(v.a, t, st), self.isinst(v.b, t, st))
        if t.kind == 'tup':
            acc = g.const(False)
            for x in t.items:
                acc = g.or_(acc, self.isinst(v, x, st))
            return acc
        if t.kind == 'cls':
            if v.kind in ('inst', 'sobj'):
                if t.cls in v.cls.mro():
                    return g.const(True)
                if v.kind == 'inst' or v.cls not in t.cls.mro():
                    return g.const(False)
            elif v.kind != 'num' or v.ty:
                return g.const(False)
            return g.mk('call', ('isinstance:' + t.cls.name, ()), self.node(v, st))
        tn = (t.name or '?').replace('builtins.', '')
        kindmap = {'lst': ('list',), 'tup': ('tuple',), 'dct': ('dict',), 'none': ('NoneType',)}
        if v.kind in kindmap:
            return g.const(tn in kindmap[v.kind])
        if v.kind in ('inst', 'sobj', 'func', 'cls'):
            return g.const(tn == 'object')
        if v.kind == 'num':
            ty = v.ty
            if v.node.op == 'const' and not isinstance(v.node.data, tuple):
                d = v.node.data
                tt = {'int': int, 'float': float, 'str': str, 'bool': bool, 'list': list, 'tuple': tuple, 'dict': dict,
                      'numpy.ndarray': (), 'numpy.floating': (), 'numpy.integer': (), 'complex': complex}.get(tn)
                if tt is not None:
                    return g.const(isinstance(d, tt))
            if ty:
                if ty.startswith('list'):
                    return g.const(tn == 'list')
                if ty == 'array':
                    return g.const(tn == 'numpy.ndarray')
                if ty == 'str':
                    return g.const(tn == 'str')
                if ty == 'dict' or ty.startswith('dict'):
                    return g.const(tn == 'dict')
                if ty == 'tuple':
                    return g.const(tn == 'tuple')
                if ty == 'float' and tn in ('float', 'list', 'tuple', 'numpy.ndarray', 'str', 'dict'):
                    return g.const(tn == 'float')
                if ty == 'int' and tn in ('int', 'list', 'tuple', 'numpy.ndarray', 'str', 'dict', 'float'):
                    return g.const(tn == 'int')
                if ty == 'bool' and tn in ('list', 'tuple', 'numpy.ndarray', 'str', 'dict', 'float'):
                    return g.const(False)
        return g.mk('call', ('isinstance:' + tn, ()), self.node(v, st))

    def b_type(self, args, kw, st):
        v = self.resolve(args[0], st)
        if v.kind in ('inst', 'sobj') and len(args) == 1:
            return V('cls', cls=v.cls, name=v.cls.name)
        if v.kind == 'lst':
            return V('ext', name='builtins.list')
        if v.kind == 'num' and v.ty in ('float', 'int', 'str', 'bool'):
            return V('ext', name='builtins.' + v.ty)
        return self.num(self.g.mk('call', ('type', ()), self.node(v, st)))

    def b_min(self, args, kw, st):
        return self.num(self.g.mk('call', ('numpy.min' if len(args) == 1 else 'numpy.minimum', ()), *[self.node(a, st) for a in args]))

    def b_max(self, args, kw, st):
        return self.num(self.g.mk('call', ('numpy.max' if len(args) == 1 else 'numpy.maximum', ()), *[self.node(a, st) for a in args]))

    def b_sum(self, args, kw, st):
        return self.num(self.g.mk('call', ('numpy.sum', ()), self.node(args[0], st)))

    def b_float(self, args, kw, st):
        if args:
            return self.num(self.node(args[0], st), ty='float')

    def n_numpy_isscalar(self, args, kw, st):
        v = self.resolve(args[0], st)
        g = self.g
        if v.kind == 'phi':
            return self.num(g.phi(v.cond, self.node(self.n_numpy_isscalar([v.a], kw, st), st), self.node(self.n_numpy_isscalar([v.b], kw, st), st)))
        if v.kind in ('lst', 'tup', 'dct', 'none', 'inst', 'sobj'):
            return self.cv(False)
        if v.ty in ('float', 'int', 'str', 'bool'):
            return self.cv(True)
        if v.ty == 'array' or (v.ty or '').startswith('list'):
            return self.cv(False)
        return self.num(g.mk('call', ('numpy.isscalar', ()), self.node(v, st)), ty='bool')

    def n_copy_deepcopy(self, args, kw, st):
        return self.deep(args[0], st) if State.oracle is not None and len(args) == 1 and not kw else None

    def deep(self, v, st, d=0):
        """Copy that shares no storage with the original."""
        v = self.resolve(v, st)
        if v.kind == 'none':
            return v
        if v.kind == 'phi':
            if d > 3:
                return None
            a, b = self.deep(v.a, st, d + 1), self.deep(v.b, st, d + 1)
            return None if a is None or b is None else self.vphi(v.cond, a, b)
        if v.kind == 'num' and v.ty in ('array', 'float', 'int', 'bool', 'str', 'num', None):
            return self.num(self.node(v, st), ty=v.ty)
        if v.kind in ('tup', 'lst') and d < 6:
            if v.kind == 'tup':
                items = v.items
            else:
                c = st.heap.get(('L', v.uid))
                items = c.items if c is not None else None
            if items is None:
                return None
            out = [self.deep(x, st, d + 1) for x in items]
            if any(x is None for x in out):
                return None
            return self.mk_tup(out) if v.kind == 'tup' else self.mk_list(st, out)
        return None

    def n_numpy_array(self, args, kw, st):
        return None

    # ------------------------------------------------------------------ entry
    def new_state(self, pc=()):
        return State({}, dict(self.base_heap), tuple(pc))

    def run(self, qual, args=None, kwargs=None, st=None, selfv=None):
        """Analyse one function with abstract arguments; returns (V or None if every path raises, State)."""
        st = st or self.new_state()
        fi = self.funcs[qual]
        f = V('func', fn=fi, selfv=selfv)
        self.cur_file, self.cur_line = fi.module.file, fi.node.lineno
        self.stack.append(('<entry>', fi.module))
        try:
            r = self.call_func(f, args or [], kwargs or {}, st)
        except DeadPath:
            r = None
        finally:
            self.stack.pop()
        return r, st

    def construct(self, cls, args=None, kwargs=None, st=None):
        st = st or self.new_state()
        ci = self.classes[cls]
        self.cur_file, self.cur_line = ci.module.file, ci.node.lineno
        self.stack.append(('<entry>', ci.module))
        try:
            r = self.instantiate(ci, args or [], kwargs or {}, st)
        except DeadPath:
            r = None
        finally:
            self.stack.pop()
        return r, st

    def method(self, o, name, args=None, kwargs=None, st=None):
        self.stack.append(('<entry>', o.cls.module))
        try:
            f = self.getattr_(o, name, st)
            r = self.call(f, args or [], kwargs or {}, st)
        except DeadPath:
            r = None
        finally:
            self.stack.pop()
        return r
