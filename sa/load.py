"""Loading: parses the package and the standard ABCs and evaluates the module
top levels in the abstract domain to obtain the class table."""
import ast, importlib, os, sysconfig
from .terms import *
from .core import *

STDLIB = os.path.join(sysconfig.get_paths()['stdlib'], '_collections_abc.py')


class LoadError(Exception):
    pass


HELP = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pyhelp.py')


def load_help(p):
    p.help = {}
    for n in ast.parse(p.read(HELP)).body:
        if isinstance(n, ast.FunctionDef):
            fid = p.reg_fn(n, '_collections_abc', 'builtins.' + n.name, HELP, None, True)
            k = len(n.args.defaults)
            d = tuple((x.arg, const(v)) for x, v in zip(n.args.args[-k:], n.args.defaults)) if k else ()
            p.help[n.name] = ('fn', fid, None, d)


def load_stdlib(p):
    load_help(p)
    tree = ast.parse(p.read(STDLIB))
    for n in tree.body:
        if not isinstance(n, ast.ClassDef): continue
        c = Cls(); c.name = n.name; c.mod = '_collections_abc'; c.node = n; c.stdlib = True; c.file = STDLIB
        c.bases = [b.id for b in n.bases if isinstance(b, ast.Name) and b.id in p.classes]
        c.attrs = {}
        for s in n.body:
            if isinstance(s, ast.FunctionDef):
                fid = p.reg_fn(s, '_collections_abc', n.name + '.' + s.name, STDLIB, n.name, True)
                defaults = ()
                a = s.args
                if a.defaults:
                    names = [x.arg for x in (a.posonlyargs + a.args)[-len(a.defaults):]]
                    defaults = tuple((nm, const(d.value)) if isinstance(d, ast.Constant) else (nm, ('s', 'marker', n.name))
                                     for nm, d in zip(names, a.defaults))
                v = ('fn', fid, None, defaults)
                decs = [d.id for d in s.decorator_list if isinstance(d, ast.Name)]
                if 'classmethod' in decs: v = ('cm', v)
                elif 'staticmethod' in decs: v = ('sm', v)
                elif 'property' in decs: v = ('prop', v)
                c.attrs[s.name] = v
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                nm = s.targets[0].id
                if isinstance(s.value, ast.Constant): c.attrs[nm] = const(s.value.value)
                elif isinstance(s.value, ast.Tuple) and all(isinstance(e, ast.Constant) for e in s.value.elts):
                    c.attrs[nm] = ('tup', tuple(const(e.value) for e in s.value.elts))
                elif isinstance(s.value, ast.Name) and s.value.id in c.attrs: c.attrs[nm] = c.attrs[s.value.id]
                elif nm == '_MutableMapping__marker' or nm.endswith('marker'): c.attrs[nm] = ('s', 'marker', n.name)
        if '__eq__' in c.attrs: c.attrs.setdefault('__hash__', NONE)
        p.classes[n.name] = c
        c.mro = p.c3(n.name, c.bases) if c.bases else [n.name, 'object']
        if 'object' not in c.mro: c.mro.append('object')
    p.modules['_collections_abc'] = {n: ('cls', n) for n, c in p.classes.items()}
    p.modules['_collections_abc']['__name__'] = ('k', 'str', '_collections_abc')


def absmod(p, mod, node):
    if node.level == 0: return node.module or ''
    parts = mod.split('.')
    path, pkg = p.find(mod)
    if not pkg: parts = parts[:-1]
    parts = parts[:len(parts) - (node.level - 1)]
    return '.'.join(parts + ([node.module] if node.module else []))


def resolve_import(interp, mod, node, name):
    p = interp.p
    m = absmod(p, mod, node)
    if m in ('collections.abc', '_collections_abc', 'typing'):
        if name in p.classes and p.classes[name].stdlib: return ('cls', name)
    path, _ = p.find(m)
    if path:
        L = p.loader
        L.load(m)
        g = p.modules.get(m, {})
        if name in g: return g[name]
        if p.find(m + '.' + name)[0]:
            L.load(m + '.' + name)
            return ('mod', m + '.' + name)
        return None
    r = interp.ext_attr(m, name)
    if r is not None: return r
    if m == 'itertools' and name in ('chain', 'islice', 'starmap', 'repeat', 'takewhile', 'dropwhile', 'count', 'accumulate'):
        return ('cls', name)
    if m == 'collections' and name in ('deque', 'abc'):
        return ('mod', 'collections.abc') if name == 'abc' else ('cls', 'deque')
    return None


class Loader:
    def __init__(self, p, interp):
        self.p = p; self.i = interp; p.loader = self
        self.st = State()
        self.busy = set()

    def load(self, mod):
        p = self.p
        if mod in p.modules or mod in self.busy: return
        if '.' in mod: self.load(mod.rsplit('.', 1)[0])
        if mod in p.modules or mod in self.busy: return
        path, pkg = p.find(mod)
        if not path: raise LoadError('module not found: ' + mod)
        self.busy.add(mod)
        tree = ast.parse(p.read(path))
        p.trees[mod] = tree; p.files[mod] = path; p.nfiles += 1
        g = {'__name__': ('k', 'str', mod)}
        p.modules[mod] = g
        env = self.st.new('$env', {'$up': None, '$mod': mod, '$fn': None, '$file': path})
        self.run(tree.body, env, mod, path, g, None)
        self.busy.discard(mod)

    def run(self, body, env, mod, path, ns, cls):
        p = self.p
        for n in body:
            try:
                self.one(n, env, mod, path, ns, cls)
            except (Abort, LoadError) as e:
                p.problems.append((path, getattr(n, 'lineno', 0), str(e)))

    def ev(self, n, env):
        outs = self.i.ev(n, self.st, env)
        outs = [(s, v) for s, v in outs if not isinstance(v, Raise)] or outs
        s, v = outs[0]
        self.st = s
        self.apply()
        if isinstance(v, Raise): return None
        return v

    def apply(self):
        for e in self.st.ev:
            if e[0] == 'SETCLS' and e[2][1] in self.p.classes:
                self.p.classes[e[2][1]].attrs[e[3]] = e[4]
        self.st.ev = ()
        self.st.facts = {}; self.st.cons = (); self.st.pc = ()

    def bindname(self, name, v, env, ns, cls):
        ns[name] = v
        self.st.put(env, name, v)

    def one(self, n, env, mod, path, ns, cls):
        p, I_ = self.p, self.i
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant): return
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == '*':
                    m = absmod(p, mod, n)
                    if p.find(m)[0]:
                        self.load(m)
                        for k, v in p.modules[m].items():
                            if not k.startswith('_'): self.bindname(k, v, env, ns, cls)
                    elif m in ('itertools', 'functools', 'operator', 'collections', 'collections.abc', 'typing', 'threading'):
                        real = importlib.import_module(m)
                        for k in getattr(real, '__all__', None) or [k for k in dir(real) if not k.startswith('_')]:
                            v = resolve_import(I_, mod, n, k)
                            self.bindname(k, v if v is not None else ('s', 'import', m, k), env, ns, cls)
                    continue
                v = resolve_import(I_, mod, n, a.name)
                if v is None: v = ('s', 'import', n.module or '', a.name)
                self.bindname(a.asname or a.name, v, env, ns, cls)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                nm = a.asname or a.name.split('.')[0]
                if p.find(a.name)[0]: self.load(a.name)
                self.bindname(nm, ('mod', a.name if a.asname else a.name.split('.')[0]), env, ns, cls)
            return
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            v = self.func(n, env, mod, path, cls)
            self.bindname(n.name, v, env, ns, cls)
            return
        if isinstance(n, ast.ClassDef):
            self.klass(n, env, mod, path, ns)
            return
        if isinstance(n, ast.Assign) and cls is not None:
            v = self.ev(n.value, env)
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.bindname(t.id, self.wrap(v), env, ns, cls)
                    continue
                outs = I_.assign(t, v, self.st, env)
                self.st = outs[0][0]
                for k, x in self.st.heap[env[1]].f.items():
                    if not k.startswith('$'): ns[k] = x
            return
        # anything else: execute abstractly
        outs = I_.block([n], self.st, env)
        good = [(s, fl) for s, fl in outs if not isinstance(fl, Raise)]
        if not good:
            p.problems.append((path, n.lineno, f'module statement fails: {outs[0][1]}'))
            self.st = outs[0][0]; self.st.ev = ()
            return
        self.st = good[0][0]
        self.apply()
        for k, v in self.st.heap[env[1]].f.items():
            if not k.startswith('$'): ns[k] = v

    def wrap(self, v):
        if v is None: return ('u', 0)
        return v

    def func(self, n, env, mod, path, cls):
        p, I_ = self.p, self.i
        fid = p.reg_fn(n, mod, (cls + '.' if cls else '') + n.name, path, cls)
        a = n.args
        nodes = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        names = [x.arg for x in (a.posonlyargs + a.args)[-len(a.defaults):]] if a.defaults else []
        names += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        vals = [self.ev(d, env) for d in nodes]
        v = ('fn', fid, None, tuple((nm, x if x is not None else ('u', 0)) for nm, x in zip(names, vals)))
        for d in reversed(n.decorator_list):
            v = self.decorate(d, v, env, path)
        return v

    def decorate(self, d, v, env, path):
        p, I_ = self.p, self.i
        nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
        if nm == 'classmethod': return ('cm', v)
        if nm == 'staticmethod': return ('sm', v)
        if nm == 'property': return ('prop', v)
        if nm in ('abstractmethod', 'final', 'override', 'wraps', 'runtime_checkable', 'no_type_check'): return v
        f = self.ev(d, env)
        if f is not None and f[0] == 'fn':
            outs = I_.call(f, (v,), {}, self.st, d)
            outs = [(s, x) for s, x in outs if not isinstance(x, Raise)]
            if len(outs) == 1:
                self.st = outs[0][0]; self.apply()
                return outs[0][1]
        p.problems.append((path, d.lineno, 'decorator not understood'))
        return v if f is not None and f[0] == 'bi' else ('u', 0)

    def klass(self, n, env, mod, path, ns):
        p = self.p
        bases = []
        for b in n.bases:
            v = self.ev(b, env)
            if v is not None and v[0] == 'cls': bases.append(v[1])
            elif v is not None and v[0] == 't': pass
            else: p.problems.append((path, n.lineno, 'base class not understood'))
        if n.name in p.classes and p.classes[n.name].mod != mod:
            p.problems.append((path, n.lineno, f'second class named {n.name}'))
        c = Cls(); c.name = n.name; c.mod = mod; c.node = n; c.stdlib = False; c.file = path
        c.bases = [b for b in bases if b != 'object']
        c.attrs = {}
        p.classes[n.name] = c
        c.mro = p.c3(n.name, c.bases) if c.bases else [n.name, 'object']
        if 'object' not in c.mro: c.mro = c.mro + ['object']
        cenv = self.st.new('$env', {'$up': env, '$mod': mod, '$fn': None, '$file': path})
        self.run(n.body, cenv, mod, path, c.attrs, n.name)
        if '__eq__' in c.attrs and '__hash__' not in c.attrs: c.attrs['__hash__'] = NONE
        self.bindname(n.name, ('cls', n.name), env, ns, None)
        for d in reversed(n.decorator_list):
            nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else None
            if nm in ('final', 'runtime_checkable'): continue
            f = self.ev(d, env)
            outs = []
            if f is not None and f[0] in ('fn', 'r'):
                outs = [(s, x) for s, x in self.i.call(f, (('cls', n.name),), {}, self.st, d) if not isinstance(x, Raise)]
            if len(outs) == 1 and outs[0][1] == ('cls', n.name):
                self.st = outs[0][0]; self.apply()
            else: p.problems.append((path, n.lineno, 'class decorator'))


def load_program(root, package='pcollections', budget=400000):
    from .interp import Interp
    p = Program(root)
    load_stdlib(p)
    it = Interp(p, budget)
    L = Loader(p, it)
    L.load(package)
    base = os.path.join(root, package)
    # every module of the package, also those nothing imports
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in ('test', 'tests', '__pycache__'))
        for f in sorted(fs):
            if not f.endswith('.py'): continue
            rel = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
            if rel.endswith('.__init__'): rel = rel[:-9]
            L.load(rel)
    it.steps = 0
    it.cover = set()
    st = L.st
    st.ev = (); st.facts = {}; st.cons = (); st.pc = (); st.x = {}
    for oid, o in list(st.heap.items()):
        st.heap[oid] = Obj(o.cls, o.f, False, o.site)
    p.base = st
    return p, it
