"""State, heap objects, source loading and class table."""
import ast, os, sys, sysconfig
from .terms import *


class Abort(Exception):
    """The analysis of one entry point exceeded its budget."""


class Raise:
    __slots__ = ('exc',)
    def __init__(self, exc): self.exc = exc
    def __repr__(self): return f'Raise({self.exc})'


class GExit(Raise):
    """A consumer that leaves a generator where it stands: carries the flow."""
    __slots__ = ('fl',)
    def __init__(self, fl):
        self.fl = fl; self.exc = ('exc', 'GeneratorExit', 'gexit', None, '', None)


class Obj:
    __slots__ = ('cls', 'f', 'fresh', 'site')
    def __init__(self, cls, f, fresh=True, site=None):
        self.cls = cls; self.f = f; self.fresh = fresh; self.site = site
    def put(self, k, v):
        f = dict(self.f); f[k] = v
        return Obj(self.cls, f, self.fresh, self.site)
    def rem(self, k):
        f = dict(self.f); f.pop(k, None)
        return Obj(self.cls, f, self.fresh, self.site)


class State:
    __slots__ = ('heap', 'facts', 'cons', 'ev', 'nid', 'imp', 'types', 'stack', 'pc', 'x', 'lost')
    def __init__(self):
        self.heap = {}; self.facts = {}; self.cons = (); self.ev = (); self.nid = 1
        self.imp = (); self.types = {}; self.stack = (); self.pc = (); self.x = {}; self.lost = False
    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap); s.facts = dict(self.facts); s.cons = self.cons
        s.ev = self.ev; s.nid = self.nid; s.imp = self.imp; s.types = dict(self.types)
        s.stack = self.stack; s.pc = self.pc; s.x = dict(self.x); s.lost = self.lost
        return s
    def new(self, cls, f, site=None, fresh=True):
        i = self.nid; self.nid += 1
        self.heap[i] = Obj(cls, f, fresh, site)
        return ('r', i)
    def get(self, ref, k, d=None): return self.heap[ref[1]].f.get(k, d)
    def put(self, ref, k, v): self.heap[ref[1]] = self.heap[ref[1]].put(k, v)
    def rem(self, ref, k): self.heap[ref[1]] = self.heap[ref[1]].rem(k)
    def cls(self, ref): return self.heap[ref[1]].cls
    def event(self, *e):
        self.ev = self.ev + (e,)
    def imprecise(self, why):
        if why not in self.imp: self.imp = self.imp + (why,)
    def unknown(self, why):
        self.imprecise(why)
        i = self.nid; self.nid += 1
        return ('u', i)
    def sym(self, *name):
        i = self.nid; self.nid += 1
        return ('s',) + name + (i,)
    def add(self, e):
        """Assume e >= 0; False if that is impossible."""
        c, d = aff(e)
        if not d: return c >= 0
        if e in self.cons: return True
        if infeasible(relevant(self.cons, e) + [e]): return False
        self.cons = self.cons + (e,)
        return True
    def entails(self, e):
        return entails(self.cons, e)


class Fn:
    """A function definition in the source."""
    __slots__ = ('node', 'mod', 'qual', 'file', 'locals', 'globs', 'nonloc', 'isgen', 'cls', 'stdlib')


def local_names(node):
    """Names bound in a function body (not in nested scopes)."""
    names = set(); globs = set(); nonloc = set(); gen = [False]
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs: names.add(x.arg)
    if a.vararg: names.add(a.vararg.arg)
    if a.kwarg: names.add(a.kwarg.arg)
    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name); return
        if isinstance(n, ast.Lambda): return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr): names.add(m.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
        if isinstance(n, ast.Global): globs.update(n.names)
        if isinstance(n, ast.Nonlocal): nonloc.update(n.names)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names: names.add((al.asname or al.name).split('.')[0])
        if isinstance(n, ast.ExceptHandler) and n.name: names.add(n.name)
        if isinstance(n, (ast.Yield, ast.YieldFrom)): gen[0] = True
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name: names.add(n.name)
        for c in ast.iter_child_nodes(n): go(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body: go(s)
    return names - globs - nonloc, globs, nonloc, gen[0]


BUILTIN_EXC = {}
def _exc(c, base=None):
    BUILTIN_EXC[c.__name__] = [k.__name__ for k in c.__mro__]
for _n in dir(__builtins__ if isinstance(__builtins__, type(sys)) else sys.modules['builtins']):
    _c = getattr(sys.modules['builtins'], _n)
    if isinstance(_c, type) and issubclass(_c, BaseException): _exc(_c)
BUILTIN_EXC['UserError'] = ['UserError', 'Exception', 'BaseException', 'object']
BUILTIN_EXC['UserBaseError'] = ['UserBaseError', 'BaseException', 'object']

# abstract-class membership of the builtin types the analysis gives to inputs
PYTYPE_BASES = {
    'list': {'list', 'Sequence', 'MutableSequence', 'Reversible', 'Collection', 'Sized', 'Iterable', 'Container'},
    'tuple': {'tuple', 'Sequence', 'Reversible', 'Collection', 'Sized', 'Iterable', 'Container', 'Hashable'},
    'str': {'str', 'Sequence', 'Reversible', 'Collection', 'Sized', 'Iterable', 'Container', 'Hashable'},
    'range': {'range', 'Sequence', 'Reversible', 'Collection', 'Sized', 'Iterable', 'Container', 'Hashable'},
    'set': {'set', 'Set', 'MutableSet', 'Collection', 'Sized', 'Iterable', 'Container'},
    'frozenset': {'frozenset', 'Set', 'Collection', 'Sized', 'Iterable', 'Container', 'Hashable'},
    'oset': {'Set', 'Collection', 'Sized', 'Iterable', 'Container'},
    'dict': {'dict', 'Mapping', 'MutableMapping', 'Reversible', 'Collection', 'Sized', 'Iterable', 'Container'},
    'iter': {'Iterable', 'Iterator'}, 'gen': {'Iterable', 'Iterator', 'Generator'}, 'Lock': {'Lock'}, 'object': set(),
    'super': set(), 'NotImplementedType': set(), '$env': set(),
    'iterable': {'Iterable'},
    'int': {'int', 'Integral', 'Hashable', 'Number', 'Rational', 'Real', 'Complex'},
    'bool': {'bool', 'int', 'Integral', 'Hashable', 'Number', 'Rational', 'Real', 'Complex'},
    'float': {'float', 'Number', 'Real', 'Complex', 'Hashable'},
    'slice': {'slice'},
    'callable': {'Callable', 'Hashable'},
    'NoneType': {'NoneType', 'Hashable'},
    'ellipsis': {'ellipsis', 'Hashable'},
    'other': {'Hashable'}, 'elem': {'Hashable'},
    'aview': {'Set', 'MappingView', 'Collection', 'Sized', 'Iterable', 'Container', 'Reversible'},
    'partial': {'partial', 'Callable', 'Hashable'},
    'RLock': {'RLock'},
    'bytes': {'bytes', 'Sequence', 'Reversible', 'Collection', 'Sized', 'Iterable', 'Container', 'Hashable'},
    'PHAMT': {'PHAMT', 'Sized', 'Iterable', 'Container', 'Collection', 'Hashable', 'Mapping'},
    'THAMT': {'THAMT', 'Sized', 'Iterable', 'Container', 'Collection', 'Hashable', 'Mapping'},
    'type': {'type', 'Callable', 'Hashable'},
}
PYTYPE_BASES['PHAMT'] = {'PHAMT', 'Sized', 'Iterable', 'Container', 'Collection', 'Hashable'}
PYTYPE_BASES['THAMT'] = {'THAMT', 'Sized', 'Iterable', 'Container', 'Collection', 'Hashable'}
for _k in PYTYPE_BASES: PYTYPE_BASES[_k] = PYTYPE_BASES[_k] | {'object'}

STRUCT_ABC = {'Sized': '__len__', 'Iterable': '__iter__', 'Container': '__contains__',
              'Hashable': '__hash__', 'Callable': '__call__', 'Reversible': '__reversed__',
              'Iterator': '__next__'}

EXTERNAL_CLASSES = {'PHAMT', 'THAMT', 'partial', 'RLock', 'Lock', 'Integral', 'Number', 'Real', 'object', 'type',
                    'list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'int', 'bool', 'float', 'bytes', 'slice',
                    'map', 'zip', 'filter', 'enumerate', 'range', 'reversed', 'super', 'chain', 'islice',
                    'property', 'staticmethod', 'classmethod', 'complex', 'bytearray', 'memoryview', 'deque',
                    'starmap', 'repeat', 'takewhile', 'dropwhile', 'count', 'accumulate', 'NoneType', 'cached_property'}
BUILTIN_FUNCS = {'len', 'isinstance', 'issubclass', 'hash', 'iter', 'next', 'sorted', 'all', 'any', 'sum', 'min',
                 'max', 'repr', 'callable', 'getattr', 'hasattr', 'setattr', 'delattr', 'id', 'print', 'abs', 'divmod',
                 'ord', 'chr', 'format', 'vars', 'dir', 'pow', 'round', 'bin', 'hex', 'globals', 'locals', 'ascii',
                 '__import__', 'open', 'input', 'eval', 'exec', 'compile', 'aiter', 'anext', 'breakpoint', 'oct'}


class Cls:
    __slots__ = ('name', 'bases', 'mro', 'attrs', 'mod', 'node', 'stdlib', 'file')


class Program:
    """The parsed package, its class table and function table."""
    def __init__(self, root):
        self.root = root
        self.modules = {}       # modname -> dict of globals values
        self.trees = {}
        self.fns = {}           # id -> Fn
        self.classes = {}
        self.files = {}
        self.nfiles = 0
        self.problems = []

    def read(self, path):
        with open(path, encoding='utf-8') as f: return f.read()

    def find(self, mod):
        p = os.path.join(self.root, *mod.split('.'))
        if os.path.isdir(p): p = os.path.join(p, '__init__.py'); pkg = True
        else: p = p + '.py'; pkg = False
        return (p, pkg) if os.path.exists(p) else (None, False)

    def reg_fn(self, node, mod, qual, file, cls=None, stdlib=False):
        i = (file, node.lineno, node.col_offset, getattr(node, 'name', '<lambda>'))
        if i in self.fns: return i
        f = Fn(); f.node = node; f.mod = mod; f.qual = qual; f.file = file; f.cls = cls; f.stdlib = stdlib
        f.locals, f.globs, f.nonloc, f.isgen = local_names(node)
        self.fns[i] = f
        return i

    def c3(self, name, bases):
        seqs = [list(self.mro(b)) for b in bases] + [list(bases)]
        out = [name]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs: return out
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs): break
            else: raise ValueError('mro ' + name)
            out.append(h)
            for s in seqs:
                if s[0] == h: del s[0]

    def mro(self, name):
        c = self.classes.get(name)
        if c: return c.mro
        if name in BUILTIN_EXC: return BUILTIN_EXC[name]
        if name == 'object': return ['object']
        return [name, 'object']

    def lookup(self, cname, attr, after=None):
        """(owner class, value) of attr in the MRO of cname."""
        m = self.mro(cname)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else []
        for c in m:
            k = self.classes.get(c)
            if k and attr in k.attrs: return c, k.attrs[attr]
        return None, None

    def issub(self, c, d):
        if d == 'object': return True
        m = self.mro(c)
        if d in m: return True
        if d in STRUCT_ABC:
            o, v = self.lookup(c, STRUCT_ABC[d])
            return o is not None and v != NONE
        if d == 'Collection':
            return all(self.issub(c, x) for x in ('Sized', 'Iterable', 'Container'))
        return False
