"""The abstract interpreter: expressions, statements, calls, attributes.

Evaluation functions return a list of outcomes (state, value) or
(state, Raise); statements return (state, flow), flow being None (falls
through), ('ret', v), ('brk',), ('cnt',) or Raise.
"""
import ast, os, time
from .terms import *
from .core import *

BINOPS = {ast.Add: ('add', '+'), ast.Sub: ('sub', '-'), ast.Mult: ('mul', '*'), ast.FloorDiv: ('floordiv', '//'),
          ast.Mod: ('mod', '%'), ast.BitAnd: ('and', '&'), ast.BitOr: ('or', '|'), ast.BitXor: ('xor', '^'),
          ast.Div: ('truediv', '/'), ast.Pow: ('pow', '**'), ast.LShift: ('lshift', '<<'),
          ast.RShift: ('rshift', '>>'), ast.MatMult: ('matmul', '@')}
CMPOPS = {ast.Lt: ('lt', 'gt'), ast.LtE: ('le', 'ge'), ast.Gt: ('gt', 'lt'), ast.GtE: ('ge', 'le')}
NOTIMPL = ('k', 'NotImplementedType', 'NotImplemented')
MAX_DEPTH = 24


ABS_BUILTINS = ('set', 'frozenset', 'oset', 'dict', 'aview')


MUTATORS = {'add', 'discard', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'difference_update',
            'intersection_update', 'symmetric_difference_update'}
_mutated = {}


def mutated_names(fn):
    """Names whose dict or set a function changes in place."""
    k = id(fn)
    if k not in _mutated:
        out = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name): out.add(x.value.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript) and isinstance(x.target.value, ast.Name): out.add(x.target.value.id)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(x.func.value, ast.Name): out.add(x.func.value.id)
        _mutated[k] = (fn, out)
    return _mutated[k][1]


class Interp:
    def __init__(self, prog, budget=400000):
        self.walked = None
        self.p = prog
        self.budget = budget
        self.steps = 0; self.deadline = 0
        self.user_raises = False      # model exceptions out of user callbacks
        self.prims = None             # contract interception hook
        self.basecall = None          # contract of a base class method called directly
        self.base_raises = False      # ... also ones that are no Exception
        self.volatile = None          # reading fields that other threads may write
        self.onlock = None
        self.force_hook = None
        self.contract = None          # contract mode (element kinds)
        self.custom = {}              # iteration sources supplied by rules
        self.cover = set()            # functions analysed
        self.blocked_loop = False
        self.unroll = 1               # iterations of a while loop followed one by one
        from .models import Models
        from .loops import Loops
        self.m = Models(self)
        self.l = Loops(self)
        self.cbs = []          # consumers of the generators being run

    # ---------------------------------------------------------------- utils
    def tick(self, n=1):
        self.steps += n
        if self.steps > self.budget: raise Abort('step budget')
        if self.deadline and not self.steps & 63 and time.time() > self.deadline: raise Abort('time budget')

    def site(self, node, st):
        fid = st.stack[-1][0] if st.stack else None
        f = self.p.fns.get(fid)
        return (os.path.relpath(f.file, self.p.root) if f and not f.stdlib else (f.file if f else '?'),
                getattr(node, 'lineno', 0), f.qual if f else '<module>')

    def exc(self, st, cls, origin, node, detail='', val=None):
        return Raise(('exc', cls, origin, self.site(node, st) if node is not None else None, detail, val))

    def crash(self, st, cls, node, detail):
        """A definite internal failure."""
        if self.p.problems and cls in ('AttributeError', 'NameError', 'TypeError'): st.imprecise('the source is only partly understood')
        st.event('CRASH', cls, self.site(node, st), detail)
        return self.exc(st, cls, 'internal', node, detail)

    def bind(self, outs, f):
        r = []
        for st, v in outs:
            if isinstance(v, Raise): r.append((st, v))
            else: r.extend(f(st, v))
        return r

    def evals(self, nodes, st, env):
        """Evaluate several expressions in order -> (st, tuple) outcomes."""
        outs = [(st, ())]
        for n in nodes:
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Raise): nxt.append((s, acc)); continue
                if isinstance(n, ast.Starred):
                    for s2, v in self.ev(n.value, s, env):
                        if isinstance(v, Raise): nxt.append((s2, v)); continue
                        for s3, items in self.items_of(s2, v, n):
                            nxt.append((s3, items if isinstance(items, Raise) else acc + items))
                else:
                    for s2, v in self.ev(n, s, env):
                        nxt.append((s2, v if isinstance(v, Raise) else acc + (v,)))
            outs = nxt
        return outs

    def items_of(self, st, v, node):
        """The known finite items of a value, as a tuple."""
        if v[0] == 'tup': return [(st, v[1])]
        if v[0] == 'r' and st.cls(v) in ('list',):
            ls = st.get(v, 'ls')
            if all(p[0] == 'it' for p in ls): return [(st, tuple(p[1] for p in ls))]
        if v[0] == 't' and v[1] == 'sliceidx':
            sl, n = v[2:4]
            out = tuple(('t', 'sli', sl, n, i) for i in range(3))
            if sl[0] == 't' and sl[1] == 'slice' and sl[2] == NONE and sl[3] == NONE:
                if sl[4] == NONE or cint(sl[4]) == 1: out = (I(0), n, I(1))
                elif cint(sl[4]) == -1: out = (sub(n, I(1)), I(-1), I(-1))
            for x in out:
                if x[0] == 't': st.types[x] = 'int'
            return [(st, out)]
        return [(st, (st.unknown('star-argument of unknown length'),))]

    # ------------------------------------------------------------- conditions
    def ptype(self, st, v):
        """Python type name of an opaque value, or None."""
        if v[0] == 'i': return 'int'
        if v[0] == 'k': return v[1]
        if v[0] == 'tup': return 'tuple'
        if v[0] == 'ph': return 'PHAMT'
        if v[0] == 'r': return st.cls(v)
        if v[0] == 'cls': return 'type'
        if v[0] in ('fn', 'bm', 'bi', 'bim', 'ext'): return 'callable'
        if v[0] == 'S': return 'iter'
        if v in st.types: return st.types[v]
        if v[0] == 't':
            if v[1] in ('ge0', 'eqi', 'eq', 'is', 'null', 'inst', 'not', 'lt', 'truth', 'in', 'bool', 'anyof'): return 'bool'
            if v[1] in ('hash', 'len', 'fdiv', 'nd', 'mulop', 'bitop', 'mod', 'id'): return 'int'
            if v[1] in ('str', 'text', 'join', 'sop'): return 'str'
            if v[1] == 'bset': return v[2]
            if v[1] == 'bdict': return 'dict'
            if v[1] == 'exc': return v[2]
            if v[1] in ('ke', 'kv'): return 'elem'
            if v[1] == 'klz': return 'lazy'
            if v[1] == 'slice': return 'slice'
        return None

    def nonnull(self, st, v):
        if v == NONE: return False
        if v[0] in ('k', 'i', 'r', 'tup', 'cls', 'fn', 'bm', 'bi', 'bim', 'ph', 'S', 'exc'): return True
        t = self.ptype(st, v)
        if t is not None and t not in ('any', 'NoneType'): return True
        if t == 'NoneType': return False
        f = st.facts.get(('null', v))
        if f is not None: return not f
        if v[0] == 't' and v[1] in ('nd',): return True
        return None

    def fact(self, st, key):
        return st.facts.get(key)

    def assume(self, st, key, val):
        old = st.facts.get(key)
        if old is not None: return old == val
        st.facts[key] = val
        if key[0] == 'is' and val: st.facts.setdefault(('eq', key[1], key[2]), True)
        return True

    def note(self, st, node, text):
        if node is not None:
            st.pc = st.pc[-40:] + ((getattr(node, 'lineno', 0), text),)

    def split(self, st, v, node=None):
        """Truth value of v -> [(state, bool | Raise)]."""
        self.tick()
        t = v[0]
        if t == 'k':
            if v[1] == 'ellipsis' or v[1] == 'NotImplementedType': return [(st, True)]
            return [(st, bool(v[2]))]
        if t == 'i' or (t in ('s', 't', 'phi') and self.ptype(st, v) == 'int'):
            c = cint(v)
            if c is not None: return [(st, c != 0)]
            return [(s, not b) for s, b in self.split(st, ('t', 'eqi', v), node)]
        if t == 'tup': return [(st, len(v[1]) > 0)]
        if t == 'S' and v[1] in ('range', 'slicerange'):
            return self.bind2(self.m.builtin_len(st, v, node), lambda s, n: self.split(s, n, node))
        if t in ('cls', 'fn', 'bm', 'bi', 'bim', 'S', 'exc', 'ext'): return [(st, True)]
        if t == 'ph':
            return self.bind2(self.m.c_len(st, v[1]), lambda s, n: self.split(s, n, node))
        if t == 'r':
            c = st.cls(v)
            if c == 'list':
                return self.split(st, self.m.ls_len(st, st.get(v, 'ls')), node)
            if c == 'THAMT':
                return self.bind2(self.m.c_len(st, st.get(v, 'c')), lambda s, n: self.split(s, n, node))
            if c in self.p.classes:
                for meth in ('__bool__', '__len__'):
                    o, f = self.p.lookup(c, meth)
                    if o is not None:
                        return self.bind2(self.special(st, v, meth, (), node), lambda s, n: self.split(s, n, node))
            if c in ABS_BUILTINS and self.prims:
                r = self.prims(st, v, '__len__', (), {}, node)
                if r is not None: return self.bind2(r, lambda s, n: self.split(s, n, node))
            return [(st, True)]
        if t == 't':
            op = v[1]
            if op == 'not': return [(s, b if isinstance(b, Raise) else not b) for s, b in self.split(st, v[2], node)]
            if op == 'ge0': return self.split_ge0(st, v[2], node)
            if op == 'eqi': return self.split_eqi(st, v[2], node)
            if op == 'null':
                x = v[2]
                k = self.nonnull(st, x)
                if k is not None: return [(st, not k)]
                if x[0] == 'phi': st.imprecise('null test of a generalised value')
                return self.fork(st, ('null', x), node, f'{show(x)} is None')
            if op in ('eq', 'is', 'lt', 'inst', 'truth', 'in', 'hasattr'):
                return self.fork(st, v[1:], node, show(v))
            if op == 'anyof':   # a boolean known only to be one of two
                return self.fork(st, ('truth', v), node, show(v))
        if self.ptype(st, v) in ('list', 'tuple', 'dict', 'set', 'frozenset', 'str', 'oset'):
            n = self.m.len_of(st, v)
            return [(s, not b) for s, b in self.split(st, ('t', 'eqi', n), node)]
        if self.ptype(st, v) in ('slice', 'callable', 'other'): return [(st, True)]
        if v[0] in ('phi', 'u'): st.imprecise('branch on a generalised value')
        k = self.nonnull(st, v)
        if k is False: return [(st, False)]
        return self.fork(st, ('truth', v), node, show(v))

    def bind2(self, outs, f):
        r = []
        for st, v in outs:
            if isinstance(v, Raise): r.append((st, v))
            else: r.extend(f(st, v))
        return r

    def fork(self, st, key, node, text):
        f = st.facts.get(key)
        if f is not None: return [(st, f)]
        a = st; b = st.fork()
        r = []
        if self.assume(a, key, True): self.note(a, node, text); r.append((a, True))
        if self.assume(b, key, False): self.note(b, node, 'not ' + text); r.append((b, False))
        return r

    def split_ge0(self, st, e, node=None):
        if contains(e, lambda x: x[0] == 'u'): st.imprecise('comparison of an unknown value')
        if st.entails(e): return [(st, True)]
        ne = sub(I(-1), e)
        if st.entails(ne): return [(st, False)]
        b = st.fork(); r = []
        if st.add(e): self.note(st, node, f'{show(e)} >= 0'); r.append((st, True))
        if b.add(ne): self.note(b, node, f'{show(e)} < 0'); r.append((b, False))
        return r

    def split_eqi(self, st, e, node=None):
        c = cint(e)
        if c is not None: return [(st, c == 0)]
        if contains(e, lambda x: x[0] == 'u'): st.imprecise('comparison of an unknown value')
        nk = self.node_eq(st, e)
        if nk is not None: return [(st, nk)]
        ge = st.entails(e); le = st.entails(scale(e, -1))
        if ge and le: return [(st, True)]
        r = []
        a = st.fork()
        if (ge or a.add(e)) and (le or a.add(scale(e, -1))):
            self.note(a, node, f'{show(e)} == 0'); r.append((a, True))
        if not le:
            b = st.fork()
            if b.add(add(e, I(-1))): self.note(b, node, f'{show(e)} > 0'); r.append((b, False))
        if not ge:
            b = st.fork()
            if b.add(sub(I(-1), e)): self.note(b, node, f'{show(e)} < 0'); r.append((b, False))
        return r

    def node_eq(self, st, e):
        """Equality of two collision-chain nodes (difference e), if the
        representation invariant decides it."""
        c, d = aff(e)
        if c == 0 and len(d) == 2:
            (x, kx), (y, ky) = d.items()
            if kx + ky == 0 and abs(kx) == 1:
                r = self.nodes_equal(st, x, y)
                if r is not None: return r
        ns = [x for x in d if self.is_node(x)]
        if len(ns) != 1 or abs(d[ns[0]]) != 1: return None
        x = ns[0]
        # a node is an integer from 0 to top - 1
        y = sub(x, scale(e, d[x]))
        tops = [('s', x[2], 'top')] if x[0] == 't' else [t for t in d if t[0] == 's' and len(t) > 2 and t[2] == 'top']
        for t in tops:
            if st.entails(sub(y, t)): return False
        if st.entails(sub(I(-1), y)): return False
        return None

    def is_node(self, x):
        return x[0] == 't' and x[1] in ('head', 'next', 'nd') or (x[0] == 'phi' and self.l.isnode.get(x, False))

    def nodes_equal(self, st, x, y):
        if x == y: return True
        def base(z):
            k = 0
            while z[0] == 't' and z[1] == 'next': z = z[3]; k += 1
            return z, k
        def istop(z): return z[0] == 's' and len(z) > 2 and z[2] == 'top'
        if (self.is_node(x) and istop(y)) or (self.is_node(y) and istop(x)): return False
        if not (self.is_node(x) and self.is_node(y)): return None
        bx, i = base(x); by, j = base(y)
        if bx == by: return i == j
        # chains of different hashes are disjoint
        if bx[0] == by[0] == 't' and bx[1] == by[1] == 'head' and bx[2] == by[2]:
            d = sub(bx[3], by[3])
            if st.entails(sub(d, I(1))) or st.entails(sub(I(-1), d)): return False
        # head(h) is nobody's successor
        if bx[0] == 't' and bx[1] == 'head' and i == 0 and j > 0 and by[0] == 'phi': return False
        if by[0] == 't' and by[1] == 'head' and j == 0 and i > 0 and bx[0] == 'phi': return False
        # successors are unique: next(a)==next(b) iff a==b
        if i > 0 and j > 0:
            return self.nodes_equal(st, x[3], y[3])
        return None

    # ------------------------------------------------------------ comparisons
    def cmp_is(self, st, a, b, node):
        if a == b:
            if a[0] == 'S': pass
            return [(st, TRUE)]
        if self.contract is not None and (a[0] == 't' and a[1] in ('ke', 'kv') or b[0] == 't' and b[1] in ('ke', 'kv')):
            r = self.contract.ident(st, a, b)
            if r is not None: return r
        if b == NONE or a == NONE:
            x = a if b == NONE else b
            k = self.nonnull(st, x)
            if k is not None: return [(st, boolv(not k))]
            return [(st, ('t', 'null', x))]
        known = ('k', 'r', 'cls', 'tup', 'fn', 'bm', 'bi', 'ph')
        if a[0] == 'cls' or b[0] == 'cls':
            o = b if a[0] == 'cls' else a
            if o[0] == 't' and o[1] == 'type': return [(st, self.type_is(st, o[2], a if a[0] == 'cls' else b))]
        if a[0] == 'r' and b[0] == 'r': return [(st, FALSE)]
        if a[0] in known and b[0] in known:
            if a[0] == 'ph' and b[0] == 'ph': return [(st, self.isterm(a, b))]
            if a[0] == 'tup' or b[0] == 'tup':
                if a[0] == b[0]: return [(st, self.isterm(a, b))]
            return [(st, FALSE)]
        ta, tb = self.ptype(st, a), self.ptype(st, b)
        if ta == 'int' and tb == 'int':
            return [(st, ('t', 'eqi', sub(a, b)))]
        if (a[0] == 'r' and st.cls(a) in self.p.classes and tb is not None and tb not in ('any', 'iterable')) or \
           (b[0] == 'r' and st.cls(b) in self.p.classes and ta is not None and ta not in ('any', 'iterable')):
            return [(st, FALSE)]
        # a sentinel the program made for itself is nobody else's value
        if a[0] == 'r' and st.cls(a) == 'object' or b[0] == 'r' and st.cls(b) == 'object': return [(st, FALSE)]
        if (b[0] == 'r' and st.heap[b[1]].fresh) or (a[0] == 'r' and st.heap[a[1]].fresh): return [(st, FALSE)]
        if a[0] == 'k' and a[1] in ('ellipsis', 'NotImplementedType', 'bool') and tb not in (None, 'any', a[1]): return [(st, FALSE)]
        if b[0] == 'k' and b[1] in ('ellipsis', 'NotImplementedType', 'bool') and ta not in (None, 'any', b[1]): return [(st, FALSE)]
        return [(st, self.isterm(a, b))]

    def isterm(self, a, b):
        x, y = sorted((a, b), key=repr)
        return ('t', 'is', x, y)

    def eqterm(self, a, b):
        x, y = sorted((a, b), key=repr)
        return ('t', 'eq', x, y)

    def type_is(self, st, x, c):
        t = self.ptype(st, x)
        if c == ('cls', 'lazy') and '$lazy' in st.x and x[0] == 't' and x[1] in ('at', 'val'): return boolv(st.x['$lazy'])
        if t is None or t == 'any':
            return ('t', 'truth', ('t', 'typeis', x, c))
        return boolv(t == c[1])

    def cmp_eq(self, st, a, b, node):
        """a == b -> outcomes with a boolean value."""
        self.tick()
        repo = self.p.classes
        if a == b and a[0] not in ('r', 'u'): return [(st, TRUE)]
        if self.contract is not None and a[0] == b[0] == 't' and a[1] == b[1] == 'klz': st.event('LZEQ', self.site(node, st)); return [(st, FALSE)]
        if self.contract is not None and (a[0] == 't' and a[1] in ('ke', 'kv') or b[0] == 't' and b[1] in ('ke', 'kv')):
            r = self.contract.eq(st, a, b, node)
            if r is not None: return r
        for x, y in ((a, b), (b, a)):
            if x[0] == 'r' and st.cls(x) in ABS_BUILTINS and self.prims and '$a' in st.heap[x[1]].f and not (y[0] == 'r' and st.cls(y) in repo):
                if y[0] == 'r' and self.contract.con(st, y) is not None:
                    r = self.prims(st, x, '__eq__', (y,), {}, node)
                    if r is not None: return r
                elif y[0] != 'r': return [(st, FALSE)]
            if x[0] == 'r' and st.cls(x) in repo:
                if self.prims:
                    r = self.prims(st, x, '__eq__', (y,), {}, node)
                    if r is not None: return r
                o, f = self.p.lookup(st.cls(x), '__eq__')
                if o is not None and f[0] == 'fn':
                    def chk(s, v, x=x, y=y):
                        if v == NOTIMPL:
                            if y[0] == 'r' and st.cls(y) in repo and x is a:
                                o2, f2 = self.p.lookup(s.cls(y), '__eq__')
                                if o2 is not None:
                                    return self.bind(self.call(f2, (y, x), {}, s, node),
                                                     lambda s3, v3: [(s3, boolv(x == y) if v3 == NOTIMPL else v3)])
                            return [(s, boolv(x == y))]
                        return [(s, v)]
                    return self.bind(self.call(f, (x, y), {}, st, node), chk)
                if o is None:
                    if y[0] == 'r': return [(st, boolv(x == y))]
        ta, tb = self.ptype(st, a), self.ptype(st, b)
        if ta in ('int', 'bool') and tb in ('int', 'bool') and (self.isdec(a) or self.isdec(b)):
            return self.decided(st, (a, b), node, lambda s, v: self.cmp_eq(s, v[0], v[1], node))
        if ta in ('int', 'bool') and tb in ('int', 'bool') and a[0] != 'k' and b[0] != 'k':
            if ta == 'int' and tb == 'int': return [(st, ('t', 'eqi', sub(a, b)))]
        if is_const(a) and is_const(b):
            if a[0] == 'i' and b[0] == 'i': return [(st, boolv(a[1] == b[1]))]
            if a[0] == 'k' and b[0] == 'k': return [(st, boolv(a[1] == b[1] and a[2] == b[2]))]
            x, y = (a, b) if a[0] == 'i' else (b, a)
            if y[1] == 'bool': return [(st, boolv(x[1] == int(y[2])))]
            return [(st, FALSE)]
        if a[0] == 'cls' or b[0] == 'cls':
            if a[0] == b[0]: return [(st, boolv(a == b))]
            o = b if a[0] == 'cls' else a
            if o[0] == 't' and o[1] == 'type': return [(st, self.type_is(st, o[2], a if a[0] == 'cls' else b))]
        if a[0] == 'tup' and b[0] == 'tup':
            if len(a[1]) != len(b[1]): return [(st, FALSE)]
            outs = [(st, TRUE)]
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s, v in outs:
                    if isinstance(v, Raise) or v == FALSE: nxt.append((s, v)); continue
                    for s2, v2 in self.cmp_eq(s, x, y, node):
                        if isinstance(v2, Raise): nxt.append((s2, v2)); continue
                        for s3, bb in self.split(s2, v2, node):
                            nxt.append((s3, bb if isinstance(bb, Raise) else boolv(bb)))
                outs = nxt
            return outs
        for x, y in ((a, b), (b, a)):
            if x[0] == 'i' and x[2] and y[0] == 'k': return [(st, FALSE)] if y[1] != 'bool' else [(st, ('t', 'eqi', sub(x, y)))]
            if x[0] == 'k' and x[1] in ('NoneType', 'ellipsis', 'NotImplementedType'):
                ty = self.ptype(st, y)
                if ty is not None and ty not in ('any', x[1]): return [(st, FALSE)]
        if (ta == 'int') != (tb == 'int') and {ta, tb} & {'list', 'tuple', 'set', 'str', 'dict', 'NoneType', 'ellipsis'}:
            return [(st, FALSE)]
        if a[0] in ('ph',) or b[0] in ('ph',):
            return [(st, boolv(a == b))] if a[0] == b[0] else [(st, FALSE)]
        if self.contract is not None and self.istuple(a) and self.istuple(b):
            return self.call(self.p.help['list_eq'], (a, b), {}, st, node)
        if a[0] == 'r' and b[0] == 'r' and st.cls(a) == st.cls(b) == 'list':
            la, lb = st.get(a, 'ls'), st.get(b, 'ls')
            if self.contract is not None: return self.call(self.p.help['list_eq'], (a, b), {}, st, node)
            if all(p[0] == 'it' for p in la + lb): return self.cmp_eq(st, ('tup', tuple(p[1] for p in la)), ('tup', tuple(p[1] for p in lb)), node)
            return [(st, ('t', 'eq', ('t', 'list', la), ('t', 'list', lb)))]
        st.event('EQ', self.site(node, st), a, b)
        if a == b: return [(st, TRUE)]
        outs = [(st, self.eqterm(a, b))]
        return self.may_raise(outs, node)

    def isdec(self, v):
        """A decision not taken yet."""
        return v[0] == 't' and v[1] in ('ge0', 'eqi', 'eq', 'is', 'null', 'inst', 'not', 'lt', 'truth', 'in', 'bool', 'anyof')

    def decided(self, st, vs, node, f):
        """Take the decisions among vs; f on the results, as numbers."""
        outs = [(st, ())]
        for v in vs:
            nxt = []
            for s, got in outs:
                if isinstance(got, Raise): nxt.append((s, got)); continue
                if v in (TRUE, FALSE): nxt.append((s, got + (I(int(v == TRUE)),))); continue
                if not self.isdec(v): nxt.append((s, got + (v,))); continue
                for s2, b in self.split(s, v, node):
                    nxt.append((s2, b if isinstance(b, Raise) else got + (I(int(b)),)))
            outs = nxt
        return self.bind(outs, f)

    def istuple(self, v): return v[0] == 'tup' or v[0] == 't' and v[1] == 'tuple'

    def may_raise(self, outs, node):
        if not self.user_raises: return outs
        r = []
        for st, v in outs:
            s2 = st.fork()
            s2.event('UEXC', self.site(node, s2))
            r.append((s2, self.exc(s2, 'UserError', 'user', node)))
            if self.base_raises:
                s3 = st.fork()
                s3.event('UEXC', self.site(node, s3))
                r.append((s3, self.exc(s3, 'UserBaseError', 'user', node)))
            r.append((st, v))
        return r

    def cmp_ord(self, st, op, a, b, node):
        """a < b etc."""
        names = {'lt': '__lt__', 'le': '__le__', 'gt': '__gt__', 'ge': '__ge__'}
        refl = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}
        repo = self.p.classes
        if a[0] == 'r' and st.cls(a) in repo or b[0] == 'r' and st.cls(b) in repo:
            def second(s):
                if b[0] == 'r' and s.cls(b) in repo:
                    o, f = self.p.lookup(s.cls(b), names[refl[op]])
                    if o is not None:
                        return self.bind(self.call(f, (b, a), {}, s, node), lambda s2, v: fail(s2) if v == NOTIMPL else [(s2, v)])
                return fail(s)
            def fail(s):
                return [(s, self.crash(s, 'TypeError', node, f"'{op}' not supported between {self.tname(s, a)} and {self.tname(s, b)}"))]
            if a[0] == 'r' and st.cls(a) in repo:
                if self.prims:
                    r = self.prims(st, a, names[op], (b,), {}, node)
                    if r is not None: return r
                o, f = self.p.lookup(st.cls(a), names[op])
                if o is not None:
                    return self.bind(self.call(f, (a, b), {}, st, node), lambda s, v: second(s) if v == NOTIMPL else [(s, v)])
            return second(st)
        if a[0] == b[0] == 'tup' or self.contract is not None and (self.istuple(a) and self.istuple(b) or a[0] == 'r' and b[0] == 'r' and st.cls(a) == st.cls(b) == 'list'):
            return self.call(self.p.help['list_' + op], (a, b), {}, st, node)
        ta, tb = self.ptype(st, a), self.ptype(st, b)
        if (a == NONE or a == ELL or b == NONE or b == ELL or
                (a[0] == 'k' and a[1] == 'str' and tb == 'int') or (b[0] == 'k' and b[1] == 'str' and ta == 'int')):
            return [(st, self.crash(st, 'TypeError', node, f"'{op}' between {show(a)} and {show(b)}"))]
        intlike = ('int', 'bool')
        if ta in intlike and tb in intlike and (self.isdec(a) or self.isdec(b)):
            return self.decided(st, (a, b), node, lambda s, v: self.cmp_ord(s, op, v[0], v[1], node))
        def numeric(v, t): return t in intlike or v[0] == 'i'
        if (numeric(a, ta) or (ta is None and a[0] in ('phi', 's', 't', 'u') and numeric(b, tb))) and \
           (numeric(b, tb) or (tb is None and b[0] in ('phi', 's', 't', 'u') and numeric(a, ta))):
            if 'any' not in (ta, tb):
                e = {'lt': lambda: add(sub(b, a), I(-1)), 'le': lambda: sub(b, a),
                     'gt': lambda: add(sub(a, b), I(-1)), 'ge': lambda: sub(a, b)}[op]()
                c = cint(e)
                if c is not None: return [(st, boolv(c >= 0))]
                return [(st, ('t', 'ge0', e))]
        for x, tx in ((a, ta), (b, tb)):
            if tx == 'slice':
                return [(st, self.crash(st, 'TypeError', node, f"'{op}' between slice and int"))]
        if a[:2] == b[:2] == ('k', 'str'):
            return [(st, boolv({'lt': a[2] < b[2], 'le': a[2] <= b[2], 'gt': a[2] > b[2], 'ge': a[2] >= b[2]}[op]))]
        st.event('LT', self.site(node, st), a, b)
        if self.contract is not None and a[0] == 't' and b[0] == 't':
            x, y = (a, b) if op in ('lt', 'ge') else (b, a)
            r = self.contract.less(st, x, y, node)
            if r is not None: return [(s, self.neg(v)) for s, v in r] if op in ('le', 'ge') else r
        if op in ('lt', 'gt'):
            x, y = (a, b) if op == 'lt' else (b, a)
            v = FALSE if x == y else ('t', 'lt', x, y)
        else:
            x, y = (a, b) if op == 'le' else (b, a)
            v = ('t', 'truth', ('t', 'le', x, y))
        return self.may_raise([(st, v)], node)

    def tname(self, st, v):
        return self.ptype(st, v) or 'object'

    def cmp_in(self, st, x, y, node):
        if y[0] == 'tup':
            outs = [(st, FALSE)]
            for e in y[1]:
                nxt = []
                for s, v in outs:
                    if isinstance(v, Raise) or v == TRUE: nxt.append((s, v)); continue
                    for s1, w in self.cmp_is(s, x, e, node):
                        for s2, bb in self.split(s1, w, node):
                            if bb is True: nxt.append((s2, TRUE)); continue
                            for s3, v3 in self.cmp_eq(s2, x, e, node):
                                if isinstance(v3, Raise): nxt.append((s3, v3)); continue
                                for s4, b4 in self.split(s3, v3, node):
                                    nxt.append((s4, b4 if isinstance(b4, Raise) else boolv(b4)))
                outs = nxt
            return outs
        if y[0] == 'r':
            c = st.cls(y)
            if c in self.p.classes:
                if self.prims:
                    r = self.prims(st, y, '__contains__', (x,), {}, node)
                    if r is not None: return r
                o, f = self.p.lookup(c, '__contains__')
                if o is not None and f != NONE:
                    return self.bind(self.call(f, (y, x), {}, st, node),
                                     lambda s, v: [(s2, b if isinstance(b, Raise) else boolv(b)) for s2, b in self.split(s, v, node)])
                return self.l.any_eq(st, x, y, node)
            if c == 'THAMT':
                return self.bind2(self.m.c_get(st, st.get(y, 'c'), x, node), lambda s, v: [(s, boolv(v is not None))])
            if c == 'list':
                ls = st.get(y, 'ls')
                if not ls: return [(st, FALSE)]
                if all(p[0] == 'it' for p in ls): return self.cmp_in(st, x, ('tup', tuple(p[1] for p in ls)), node)
                if self.prims:
                    r = self.prims(st, y, '$list_contains', (x,), {}, node)
                    if r is not None: return r
                return self.l.any_eq(st, x, y, node)
        if y[0] == 'ph':
            return self.bind2(self.m.c_get(st, y[1], x, node), lambda s, v: [(s, boolv(v is not None))])
        if y[0] == 'S':
            if y[1] == 'range' and cint(y[4]) in (1, -1) and self.ptype(st, x) in ('int', 'bool'): return self.m.range_in(st, x, y, node)
            if y[1] in ('map', 'filter', 'zip', 'enumerate', 'chain', 'islice', 'rev'): return self.l.any_eq(st, x, y, node)
            if y[1] in ('range', 'slicerange'): return [(st, st.unknown('membership in a range'))]
        if y[:2] == ('k', 'str'):
            r = self.m.fold_str('__contains__', y, (x,))
            if r is not None: return [(st, r)]
        if self.prims:
            r = self.prims(st, y, '__contains__', (x,), {}, node)
            if r is not None: return r
        st.event('EQ', self.site(node, st), x, y)
        if self.ptype(st, y) in ('set', 'frozenset', 'dict', 'oset'): st.event('HASH', self.site(node, st), x)
        return self.may_raise([(st, ('t', 'in', x, y))], node)

    # -------------------------------------------------------------- isinstance
    def isa(self, st, v, c):
        """Is v an instance of class name c?  True / False / None."""
        if v[0] == 'S': return 'Iterable' == c or c == 'Iterator' or c == 'object'
        if c == 'lazy' and '$lazy' in st.x and v[0] == 't' and v[1] in ('at', 'val'): return st.x['$lazy']
        t = self.ptype(st, v)
        if v[0] == 'r' and t in self.p.classes: return self.p.issub(t, c)
        if t is not None and t != 'any':
            b = PYTYPE_BASES.get(t)
            if b is not None: return c in b
            if t in self.p.classes: return self.p.issub(t, c)
            if t in BUILTIN_EXC: return c in BUILTIN_EXC[t]
            return False if c in self.p.classes else None
        if c in self.p.classes and t == 'any':
            k = self.p.classes[c]
            if not k.stdlib and c != 'lazy': return False
        return None

    def isinstance_(self, st, v, cv, node):
        names = []
        def flat(x):
            if x[0] == 'tup':
                for y in x[1]: flat(y)
            elif x[0] == 'cls': names.append(x[1])
            elif x[0] in ('i', 'k', 'ph', 'S', 'exc') or x[0] == 'r' and st.cls(x) != 'object' or x[0] == 't' and x[1] in ('el', 'key', 'val', 'at', 'ke', 'kv', 'klz') or \
                    (x in st.types and st.types[x] not in ('any', 'type', 'callable', 'elem')): names.append(('bad', x))
            else: names.append(None)
        flat(cv)
        outs = [(st, FALSE)]
        for c in names:
            nxt = []
            for s, r in outs:
                if r == TRUE: nxt.append((s, r)); continue
                if isinstance(r, Raise): nxt.append((s, r)); continue
                if c is None: nxt.append((s, s.unknown('isinstance of an unknown class'))); continue
                if isinstance(c, tuple): nxt.append((s, self.crash(s, 'TypeError', node, f'isinstance() needs a class, not {show(c[1])}'))); continue
                k = self.isa(s, v, c)
                if k is None:
                    if v[0] == 'phi': 
                        pass
                    for s2, b in self.fork(s, ('inst', v, c), node, f'isinstance({show(v)}, {c})'):
                        if b is False and False: pass
                        nxt.append((s2, boolv(b)))
                else: nxt.append((s, boolv(k)))
            outs = nxt
        return outs

    # -------------------------------------------------------------- expressions
    def ev(self, n, st, env):
        self.tick()
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None: return [(st, st.unknown('expression ' + type(n).__name__))]
        return m(n, st, env)

    def x_Constant(self, n, st, env): return [(st, const(n.value))]

    def x_Name(self, n, st, env):
        return self.load(n.id, n, st, env)

    def load(self, name, n, st, env):
        e = env
        first = True
        while e is not None:
            f = st.heap[e[1]].f
            if name in f: return [(st, self.m.snapshot(st, f[name]))]
            fid = f.get('$fn')
            if fid is not None and name in self.p.fns[fid].locals and not f.get('$compr'):
                kind = 'UnboundLocalError' if first else 'NameError'
                return [(st, self.crash(st, kind, n, f"variable '{name}' has no value here"))]
            if not f.get('$compr'): first = False
            e = f.get('$up')
        mod = st.heap[env[1]].f.get('$mod')
        g = self.p.modules.get(mod, {})
        if name in g: return [(st, g[name])]
        v = self.builtin(name)
        if v is not None: return [(st, v)]
        return [(st, self.crash(st, 'NameError', n, f"name '{name}' is not defined"))]

    def raw(self, name, st, env):
        """The dict or set that a local variable holds, itself."""
        e = env
        while e is not None:
            f = st.heap[e[1]].f
            if name in f: return f[name] if f[name][0] == 'r' and st.cls(f[name]) in ('$dict', '$set') else None
            e = f.get('$up')
        return None

    def builtin(self, name):
        if name in ('None', 'True', 'False'): return const({'None': None, 'True': True, 'False': False}[name])
        if name == 'Ellipsis': return ELL
        if name == 'NotImplemented': return NOTIMPL
        if name in BUILTIN_EXC: return ('cls', name)
        if name in BUILTIN_FUNCS: return ('bi', name)
        if name in EXTERNAL_CLASSES and name not in ('PHAMT', 'THAMT', 'partial', 'RLock', 'Lock', 'Integral', 'chain', 'islice', 'deque',
                                                     'Number', 'Real', 'starmap', 'repeat', 'takewhile', 'dropwhile', 'count', 'accumulate', 'NoneType', 'cached_property'):
            return ('cls', name)
        if name in ('__name__', '__file__', '__doc__'): return ('k', 'str', name)
        return None

    def x_Tuple(self, n, st, env):
        return [(s, v if isinstance(v, Raise) else ('tup', v)) for s, v in self.evals(n.elts, st, env)]

    def x_List(self, n, st, env):
        r = []
        for s, v in self.evals(n.elts, st, env):
            if isinstance(v, Raise): r.append((s, v))
            else: r.append((s, s.new('list', {'ls': tuple(('it', x) for x in v)}, self.site(n, s))))
        return r

    def x_Set(self, n, st, env):
        return [(s, v if isinstance(v, Raise) else ('t', 'bset', 'set', tuple(('it', x) for x in v))) for s, v in self.evals(n.elts, st, env)]

    def x_Dict(self, n, st, env):
        if any(k is None for k in n.keys):
            return self.bind(self.evals([v for v in n.values], st, env), lambda s, v: [(s, s.unknown('dict display'))])
        nodes = [x for kv in zip(n.keys, n.values) for x in kv]
        r = []
        for s, v in self.evals(nodes, st, env):
            if isinstance(v, Raise): r.append((s, v)); continue
            r.append((s, ('t', 'bdict', tuple(('it', ('tup', (v[i], v[i + 1]))) for i in range(0, len(v), 2)))))
        return r

    def x_JoinedStr(self, n, st, env):
        outs = [(st, ())]
        for x in n.values:
            nxt = []
            for s, acc in outs:
                if isinstance(acc, Raise): nxt.append((s, acc)); continue
                if not isinstance(x, ast.FormattedValue): nxt.append((s, acc + (('k', 'str', str(x.value)),))); continue
                for s2, v in self.ev(x, s, env):
                    if isinstance(v, Raise): nxt.append((s2, v)); continue
                    for s3, w in self.m.to_str(s2, v, 'repr' if x.conversion in (114, 97) else 'str', n):
                        if not isinstance(w, Raise) and x.format_spec is not None: w = ('t', 'sop', 'format', w)
                        nxt.append((s3, w if isinstance(w, Raise) else acc + (w,)))
            outs = nxt
        return [(s, v if isinstance(v, Raise) else strcat(v)) for s, v in outs]

    def x_FormattedValue(self, n, st, env): return self.ev(n.value, st, env)

    def x_NamedExpr(self, n, st, env):
        def f(s, v):
            e = env
            while s.heap[e[1]].f.get('$compr') and s.heap[e[1]].f.get('$up'): e = s.heap[e[1]].f['$up']
            s.put(e, n.target.id, v)
            return [(s, v)]
        return self.bind(self.ev(n.value, st, env), f)

    def x_IfExp(self, n, st, env):
        def f(s, v):
            r = []
            for s2, b in self.split(s, v, n.test):
                if isinstance(b, Raise): r.append((s2, b))
                else: r.extend(self.ev(n.body if b else n.orelse, s2, env))
            return r
        return self.bind(self.ev(n.test, st, env), f)

    def x_BoolOp(self, n, st, env):
        isand = isinstance(n.op, ast.And)
        outs = self.ev(n.values[0], st, env)
        for nx in n.values[1:]:
            nxt = []
            for s, v in outs:
                if isinstance(v, Raise) or (isinstance(v, tuple) and v and v[0] == '$done'): nxt.append((s, v)); continue
                for s2, b in self.split(s, v, n):
                    if isinstance(b, Raise): nxt.append((s2, b))
                    elif b == isand: nxt.extend(self.ev(nx, s2, env))
                    else:
                        w = v if self.ptype(s2, v) != 'bool' else boolv(b)
                        nxt.append((s2, ('$done', w)))
            outs = nxt
        return [(s, v[1] if isinstance(v, tuple) and v and v[0] == '$done' else v) for s, v in outs]

    def x_UnaryOp(self, n, st, env):
        def f(s, v):
            if isinstance(n.op, ast.Not):
                return [(s2, b if isinstance(b, Raise) else boolv(not b)) for s2, b in self.split(s, v, n.operand)]
            if isinstance(n.op, ast.USub):
                if v[0] == 'k' and v[1] == 'float': return [(s, ('k', 'float', -v[2]))]
                if v[0] in ('i', 's', 't', 'phi', 'u') or v in (TRUE, FALSE): return [(s, scale(v, -1))]
            if isinstance(n.op, ast.UAdd): return [(s, v)]
            if isinstance(n.op, ast.Invert) and is_int(v): return [(s, sub(I(-1), v))]
            return [(s, s.unknown('unary operator'))]
        return self.bind(self.ev(n.operand, st, env), f)

    def x_BinOp(self, n, st, env):
        return self.bind(self.evals([n.left, n.right], st, env),
                         lambda s, v: self.binop(s, type(n.op), v[0], v[1], n))

    def binop(self, st, op, a, b, n, inplace=False):
        name, symb = BINOPS[op]
        repo = self.p.classes
        ra = a[0] == 'r' and st.cls(a) in repo
        rb = b[0] == 'r' and st.cls(b) in repo
        if ra or rb:
            tries = []
            if ra and inplace: tries.append((a, f'__i{name}__', b))
            if ra: tries.append((a, f'__{name}__', b))
            if rb and not (ra and st.cls(a) == st.cls(b)): tries.append((b, f'__r{name}__', a))
            if ra and rb and st.cls(a) != st.cls(b) and self.p.issub(st.cls(b), st.cls(a)):
                # the reflected method of a subclass goes first if it overrides it
                o1, _ = self.p.lookup(st.cls(b), f'__r{name}__'); o2, _ = self.p.lookup(st.cls(a), f'__r{name}__')
                if o1 != o2: tries = [t for t in tries if t[1].startswith('__i')] + [tries[-1]] + [t for t in tries[:-1] if not t[1].startswith('__i')]
            def attempt(s, i):
                while i < len(tries):
                    x, meth, y = tries[i]
                    if self.prims:
                        r = self.prims(s, x, meth, (y,), {}, n)
                        if r is not None: return r
                    o, f = self.p.lookup(s.cls(x), meth)
                    if o is not None and f != NONE:
                        return self.bind(self.call(f, (x, y), {}, s, n),
                                         lambda s2, v, i=i: attempt(s2, i + 1) if v == NOTIMPL else [(s2, v)])
                    i += 1
                other = b if ra else a
                if self.ptype(s, other) in (None, 'any', 'other', 'iterable'):
                    return [(s, self.exc(s, 'TypeError', 'raise', n, 'unsupported operand'))]
                return [(s, self.crash(s, 'TypeError', n, f'unsupported operand types for {symb}: {self.tname(s, a)} and {self.tname(s, b)}'))]
            return attempt(st, 0)
        ta, tb = self.ptype(st, a), self.ptype(st, b)
        if a[0] == 'r' and st.cls(a) == 'list' and b[0] == 'r' and st.cls(b) == 'list' and name == 'add':
            if inplace:
                st.put(a, 'ls', st.get(a, 'ls') + st.get(b, 'ls')); return [(st, a)]
            return [(st, st.new('list', {'ls': st.get(a, 'ls') + st.get(b, 'ls')}, self.site(n, st)))]
        if a[0] == 'r' and st.cls(a) == 'list' and inplace and name == 'add':
            return self.m.list_method(st, a, 'extend', (b,), {}, n, ret=a)
        if a[0] == 'tup' and b[0] == 'tup' and name == 'add': return [(st, ('tup', a[1] + b[1]))]
        if name == 'mul':
            x, y = (a, b) if a[0] == 'tup' else (b, a)
            if x[0] == 'tup' and cint(y) is not None and cint(y) * len(x[1]) < 64: return [(st, ('tup', x[1] * cint(y)))]
        if name in ('mul', 'mod', 'add') and a[0] == 'k' and a[1] == 'str':
            r = self.m.fold_str({'mul': '__mul__', 'mod': '__mod__', 'add': '__add__'}[name], a, (b,))
            if r is not None: return [(st, r)]
        if a == NONE or b == NONE:
            return [(st, self.crash(st, 'TypeError', n, f'unsupported operand None for {symb}'))]
        num = ('int', 'bool')
        ia = ta in num or (ta is None and a[0] in ('i', 's', 't', 'phi', 'u'))
        ib = tb in num or (tb is None and b[0] in ('i', 's', 't', 'phi', 'u'))
        if ia and ib and (ta in num or tb in num):
            if self.isdec(a) or self.isdec(b):
                return self.decided(st, (a, b), n, lambda s, v: self.binop(s, op, v[0], v[1], n))
            ca, cb = cint(a), cint(b)
            if name == 'add': return [(st, add(a, b))]
            if name == 'sub': return [(st, sub(a, b))]
            if name == 'mul':
                if ca is not None: return [(st, scale(b, ca))]
                if cb is not None: return [(st, scale(a, cb))]
                return [(st, ('t', 'mulop') + tuple(sorted((a, b), key=repr)))]
            if name == 'floordiv' and cb is not None and cb > 0:
                if ca is not None: return [(st, I(ca // cb))]
                q = ('t', 'fdiv', a, cb)
                st.add(sub(a, scale(q, cb))); st.add(sub(add(scale(q, cb), I(cb - 1)), a))
                return [(st, q)]
            if name == 'mod' and cb is not None and cb > 0:
                if ca is not None: return [(st, I(ca % cb))]
                q = ('t', 'fdiv', a, cb)
                st.add(sub(a, scale(q, cb))); st.add(sub(add(scale(q, cb), I(cb - 1)), a))
                return [(st, sub(a, scale(q, cb)))]
            if name in ('mod', 'floordiv') and cb is None: return self.divide(st, name, a, b, n)
            if name == 'rshift' and cb is not None and 0 <= cb < 30:
                return self.binop(st, ast.FloorDiv, a, I(2 ** cb), n)
            if ca is not None and cb is not None:
                try:
                    r = {'and': lambda: ca & cb, 'or': lambda: ca | cb, 'xor': lambda: ca ^ cb, 'lshift': lambda: ca << cb,
                         'pow': lambda: ca ** cb}[name]()
                    return [(st, I(r))]
                except Exception: pass
            if name == 'truediv':
                if cb == 0: return [(st, self.crash(st, 'ZeroDivisionError', n, 'division by zero'))]
                return [(st, st.unknown('true division'))]
            return [(st, ('t', 'bitop', name, a, b))]
        if ta == 'str' or tb == 'str':
            if name == 'add' and ta == tb: return [(st, strcat((a, b)))]
            return [(st, ('t', 'sop', name, a, b))]
        if self.prims:
            r = self.prims(st, a, '$bin_' + name, (b,), {}, n)
            if r is not None: return r
        st.event('UOP', self.site(n, st), name, a, b)
        return self.may_raise([(st, ('t', 'uop', name, a, b))], n)

    def divide(self, st, name, a, b, n):
        """a // b or a % b for a divisor that is not a constant."""
        r = []
        for s, pos in self.split_ge0(st, sub(b, I(1)), n):
            if not pos:
                for s2, z in self.split_eqi(s, b, n):
                    r.append((s2, self.crash(s2, 'ZeroDivisionError', n, 'division by zero') if z else ('t', 'bitop', name, a, b)))
                continue
            for s2, ge in self.split_ge0(s, a, n):
                for s3, near in self.split_ge0(s2, sub(sub(b, I(1)), a) if ge else add(a, b), n):
                    if near: r.append((s3, (a if ge else add(a, b)) if name == 'mod' else I(0 if ge else -1)))
                    else:
                        v = ('t', 'bitop', name, a, b)
                        if name == 'mod': s3.add(v); s3.add(sub(sub(b, I(1)), v))
                        r.append((s3, v))
        return r

    def x_Compare(self, n, st, env):
        def step(s, left, ops, comps):
            op, c = ops[0], comps[0]
            def got(s2, right):
                return self.bind(self.compare(s2, op, left, right, n), lambda s3, v: fin(s3, v, right))
            def fin(s3, v, right):
                if len(ops) == 1: return [(s3, v)]
                r = []
                for s4, b in self.split(s3, v, n):
                    if isinstance(b, Raise): r.append((s4, b))
                    elif not b: r.append((s4, FALSE))
                    else: r.extend(step(s4, right, ops[1:], comps[1:]))
                return r
            return self.bind(self.ev(c, s, env), got)
        return self.bind(self.ev(n.left, st, env), lambda s, v: step(s, v, n.ops, n.comparators))

    def compare(self, st, op, a, b, node):
        if isinstance(op, ast.Is): return self.cmp_is(st, a, b, node)
        if isinstance(op, ast.IsNot): return [(s, self.neg(v)) for s, v in self.cmp_is(st, a, b, node)]
        if isinstance(op, ast.Eq): return self.cmp_eq(st, a, b, node)
        if isinstance(op, ast.NotEq):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'r' and st.cls(x) in self.p.classes:
                    o, f = self.p.lookup(st.cls(x), '__ne__')
                    if o is not None and not (self.prims and self.prims_has(st, x, '__eq__')):
                        return self.call(f, (x, y), {}, st, node)
            return self.bind(self.cmp_eq(st, a, b, node),
                             lambda s, v: [(s2, bb if isinstance(bb, Raise) else boolv(not bb)) for s2, bb in self.split(s, v, node)]
                             if v[0] == 'r' else [(s, self.neg(v))])
        if isinstance(op, ast.In): return self.cmp_in(st, a, b, node)
        if isinstance(op, ast.NotIn):
            return [(s, v if isinstance(v, Raise) else self.neg(v)) for s, v in self.cmp_in(st, a, b, node)]
        return self.cmp_ord(st, CMPOPS[type(op)][0] if type(op) in (ast.Lt, ast.Gt) else {ast.LtE: 'le', ast.GtE: 'ge'}[type(op)], a, b, node)

    def prims_has(self, st, x, name): return getattr(self, 'prims_names', None) and self.prims_names(st, x, name)

    def neg(self, v):
        if v == TRUE: return FALSE
        if v == FALSE: return TRUE
        if v[0] == 't' and v[1] == 'not': return v[2]
        return ('t', 'not', v)

    def x_Lambda(self, n, st, env): return self.mkfn(n, st, env, '<lambda>')

    def mkfn(self, n, st, env, name):
        f = st.heap[env[1]].f
        mod = f.get('$mod')
        outer = self.p.fns.get(f.get('$fn'))
        e = env
        qual = (outer.qual + '.' if outer else '') + name
        fid = self.p.reg_fn(n, mod, qual, outer.file if outer else f.get('$file'), outer.cls if outer else None,
                            outer.stdlib if outer else False)
        a = n.args
        nodes = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        names = [x.arg for x in (a.posonlyargs + a.args)[len(a.posonlyargs + a.args) - len(a.defaults):]] if a.defaults else []
        names += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        r = []
        for s, v in self.evals(nodes, st, env):
            if isinstance(v, Raise): r.append((s, v))
            else: r.append((s, ('fn', fid, env, tuple(zip(names, v)))))
        return r

    def subenv(self, st, env, **kw):
        f = st.heap[env[1]].f
        d = {'$up': env, '$mod': f.get('$mod'), '$fn': f.get('$fn'), '$file': f.get('$file')}
        d.update(kw)
        return st.new('$env', d)

    def x_GeneratorExp(self, n, st, env):
        # the first iterable is evaluated now
        def f(s, v):
            def g(s2, it):
                return [(s2, s2.new('iter', {'src': ('S', 'gexp', (self.reg_node(n),), env, it)}, self.site(n, s2)))]
            return self.bind(self.l.get_iter(s, v, n), g)
        return self.bind(self.ev(n.generators[0].iter, st, env), f)

    nodes = {}
    def reg_node(self, n):
        k = (id(n),)
        Interp.nodes[k] = n
        return k

    def x_ListComp(self, n, st, env):
        def f(s, v):
            if isinstance(v, Raise): return [(s, v)]
            return [(s, s.new('list', {'ls': v}, self.site(n, s)))]
        return self.bind(self.l.run_compr(st, env, n, 'elt'), f)

    def x_SetComp(self, n, st, env):
        return self.bind(self.l.run_compr(st, env, n, 'elt'), lambda s, v: self.m.construct(s, 'set', (s.new('list', {'ls': v}, None),), {}, n))

    def x_DictComp(self, n, st, env):
        def f(s, v):
            if self.contract is None: return [(s, ('t', 'bdict', v))]
            return self.m.construct(s, 'dict', (s.new('list', {'ls': v}, None),), {}, n)
        return self.bind(self.l.run_compr(st, env, n, 'kv'), f)

    def x_Starred(self, n, st, env): return self.ev(n.value, st, env)

    def x_Slice(self, n, st, env):
        nodes = [x if x is not None else ast.Constant(value=None) for x in (n.lower, n.upper, n.step)]
        return [(s, v if isinstance(v, Raise) else ('t', 'slice') + v) for s, v in self.evals(nodes, st, env)]

    def x_Yield(self, n, st, env):
        def f(s, v):
            e = self.genenv(s, env)
            if e is None: return [(s, s.unknown('yield'))]
            cb = s.heap[e[1]].f.get('$cb')
            if cb is not None: return self.cbs[cb](s, v)
            ref = s.heap[e[1]].f['$yield']
            s.put(ref, 'ls', s.get(ref, 'ls') + (('it', v),))
            return [(s, NONE)]
        return self.bind(self.ev(n.value, st, env) if n.value else [(st, NONE)], f)

    def genenv(self, s, e):
        while e is not None and '$yield' not in s.heap[e[1]].f and '$cb' not in s.heap[e[1]].f: e = s.heap[e[1]].f.get('$up')
        return e

    def x_YieldFrom(self, n, st, env):
        def f(s, v):
            e = self.genenv(s, env)
            if e is None: return [(s, s.unknown('yield'))]
            cb = s.heap[e[1]].f.get('$cb')
            if cb is not None:
                def body(s3, w): return [(s4, x if isinstance(x, Raise) else None) for s4, x in self.cbs[cb](s3, w)]
                return self.bind(self.l.get_iter(s, v, n), lambda s2, src: [(s3, NONE if fl is None else fl) for s3, fl in self.l.run_src(s2, src, body, n)])
            ref = s.heap[e[1]].f['$yield']
            return self.bind(self.l.collect(s, v, n), lambda s2, ls: [self._yf(s2, ref, ls)])
        return self.bind(self.ev(n.value, st, env), f)

    def _yf(self, s, ref, ls):
        s.put(ref, 'ls', s.get(ref, 'ls') + ls)
        return (s, NONE)

    def x_Attribute(self, n, st, env):
        return self.bind(self.ev(n.value, st, env), lambda s, v: self.getattr(s, v, n.attr, n))

    def x_Subscript(self, n, st, env):
        def f(s, v):
            return self.getitem(s, v[0], v[1], n)
        return self.bind(self.evals([n.value, n.slice], st, env), f)

    def x_Call(self, n, st, env):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            e = env
            while e is not None and '$self' not in st.heap[e[1]].f: e = st.heap[e[1]].f.get('$up')
            if e is not None:
                fid = st.heap[e[1]].f.get('$fn')
                return [(st, ('super', self.p.fns[fid].cls, st.heap[e[1]].f['$self']))]
        own = None
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in MUTATORS:
            own = self.raw(n.func.value.id, st, env)
        def f(s, fn):
            if own is not None: fn = ('bim', 'opq.' + n.func.attr, own)
            def g(s2, args):
                # keywords
                outs = [(s2, ())]
                for kw in n.keywords:
                    nxt = []
                    for s3, acc in outs:
                        if isinstance(acc, Raise): nxt.append((s3, acc)); continue
                        for s4, v in self.ev(kw.value, s3, env):
                            nxt.append((s4, v if isinstance(v, Raise) else acc + ((kw.arg, v),)))
                    outs = nxt
                def h(s5, kws):
                    d = {}
                    for k, v in kws:
                        if k is None:
                            if v == ('t', 'bdict', ()): continue
                            if v[0] == 't' and v[1] == 'bdict' and all(p[0] == 'it' and p[1][1][0][0] == 'k' for p in v[2]):
                                for p in v[2]: d[p[1][1][0][2]] = p[1][1][1]
                            elif v == NONE:
                                return [(s5, self.crash(s5, 'TypeError', n, 'argument after ** must be a mapping, not NoneType'))]
                            else: d['**'] = v
                        else: d[k] = v
                    return self.call(fn, args, d, s5, n)
                return self.bind(outs, h)
            return self.bind(self.evals(n.args, s, env), g)
        return self.bind(self.ev(n.func, st, env), f)

    def x_Await(self, n, st, env): return [(st, st.unknown('await'))]

    # -------------------------------------------------------------- attributes
    def getattr(self, st, v, name, node, default=None):
        self.tick()
        t = v[0]
        if name == '__class__':
            ty = self.ptype(st, v)
            return [(st, ('cls', ty) if ty and ty != 'any' else ('t', 'type', v))]
        if t == 'r':
            o = st.heap[v[1]]
            c = o.cls
            if c in self.p.classes:
                if name in o.f and not name.startswith('$'):
                    if self.volatile is not None: return self.volatile(st, v, name, node)
                    return [(st, o.f[name])]
                own, a = self.p.lookup(c, name)
                if own is None:
                    g, ga = self.p.lookup(c, '__getattr__')
                    if g is not None: return self.call(ga, (v, ('k', 'str', name)), {}, st, node)
                    if name in ('__setattr__', '__getattribute__', '__delattr__', '__init__', '__hash__', '__eq__', '__ne__', '__reduce__', '__repr__', '__str__', '__dir__', '__sizeof__', '__format__'):
                        return [(st, ('bim', 'object.' + name, v))]
                    if name == '__dict__': return [(st, st.unknown('__dict__'))]
                    if default is not None: return [(st, default)]
                    if self.contract is not None:
                        x = self.contract.rep(st, v, name)
                        if x is not None: return [(st, x)]
                    if (not o.fresh or '$a' in o.f or '$ls' in o.f) and self.in_slots(c, name):
                        return [(st, st.unknown(f'field {name} of an input object'))]
                    return [(st, self.crash(st, 'AttributeError', node, f"'{c}' object has no attribute '{name}'"))]
                if name == '__new__' and a[0] == 'fn': return [(st, a)]
                return self.bindattr(st, v, a, node, own)
            return self.m.obj_attr(st, v, name, node, default)
        if t == 'cls':
            c = v[1]
            if name == '__name__' or name == '__qualname__': return [(st, ('k', 'str', c))]
            if name == '__mro__': return [(st, ('tup', tuple(('cls', x) for x in self.p.mro(c))))]
            if c in self.p.classes:
                own, a = self.p.lookup(c, name)
                if own is not None:
                    if a[0] == 'cm': return [(st, ('bm', a[1], v))]
                    if a[0] == 'sm': return [(st, a[1])]
                    if name == '__new__' and a[0] == 'fn': return [(st, a)]
                    return [(st, a)]
                if name in ('__new__', '__setattr__', '__init__', '__hash__', '__eq__', '__getattribute__', '__delattr__', '__ne__', '__repr__', '__str__', '__doc__', '__module__'):
                    return [(st, ('bi', 'object.' + name))]
                if default is not None: return [(st, default)]
                return [(st, self.crash(st, 'AttributeError', node, f"type object '{c}' has no attribute '{name}'"))]
            return self.m.cls_attr(st, v, name, node)
        if t == 'super':
            obj = v[2]
            cname = obj[1] if obj[0] == 'cls' else st.cls(obj) if obj[0] == 'r' else None
            if cname is None: return [(st, st.unknown('super of unknown'))]
            own, a = self.p.lookup(cname, name, after=v[1])
            if own is None: return [(st, ('bi', 'object.' + name) if obj[0] == 'cls' or name == '__new__' else ('bim', 'object.' + name, obj))]
            if a[0] == 'cm': return [(st, ('bm', a[1], obj if obj[0] == 'cls' else ('cls', cname)))]
            if a[0] == 'sm' or name == '__new__': return [(st, a[1] if a[0] == 'sm' else a)]
            if obj[0] == 'cls': return [(st, a)]
            return self.bindattr(st, obj, a, node, own)
        if t == 'mod':
            g = self.p.modules.get(v[1])
            if g is not None and name in g: return [(st, g[name])]
            r = self.ext_attr(v[1], name)
            if r is not None: return [(st, r)]
            if g is not None: return [(st, self.crash(st, 'AttributeError', node, f"module '{v[1]}' has no attribute '{name}'"))]
            return [(st, st.unknown(f'{v[1]}.{name}'))]
        if t == 'bm' or t == 'fn':
            if name == '__self__' and t == 'bm': return [(st, v[2])]
            if name == '__func__' and t == 'bm': return [(st, v[1])]
            if name in ('__name__', '__qualname__', '__doc__'): return [(st, ('t', 'text', 'str', v))]
            return [(st, st.unknown('function attribute'))]
        return self.m.val_attr(st, v, name, node, default)

    def in_slots(self, c, name):
        for k in self.p.mro(c):
            kc = self.p.classes.get(k)
            if kc and '__slots__' in kc.attrs:
                s = kc.attrs['__slots__']
                if s == ('k', 'str', name): return True
                if s[0] == 'tup' and ('k', 'str', name) in s[1]: return True
        return False

    def bindattr(self, st, obj, a, node, own=None):
        if a[0] == 'fn': return [(st, ('bm', a, obj))]
        if a[0] == 'cm': return [(st, ('bm', a[1], ('cls', st.cls(obj)) if obj[0] == 'r' else obj))]
        if a[0] == 'sm': return [(st, a[1])]
        if a[0] == 'prop': return self.call(a[1], (obj,), {}, st, node)
        return [(st, a)]

    def ext_attr(self, mod, name):
        if name in EXTERNAL_CLASSES: return ('cls', name)
        if mod in ('collections.abc', '_collections_abc'): return ('cls', name) if name in self.p.classes else None
        if mod == 'builtins': return self.builtin(name)
        if mod == 'itertools' and name in ('from_iterable',): return ('bi', name)
        if mod == 'operator': return ('bi', 'operator.' + name)
        if mod == 'json' and name in ('dumps', 'loads'): return ('bi', 'json.' + name)
        if mod == 'functools' and name in ('reduce', 'wraps', 'lru_cache'): return ('bi', 'functools.' + name)
        return None

    def setattr(self, st, v, name, val, node, raw=False):
        if v[0] == 'r':
            c = st.cls(v)
            if c in self.p.classes:
                if not raw:
                    o, f = self.p.lookup(c, '__setattr__')
                    if o is not None: return self.call(f, (v, ('k', 'str', name), val), {}, st, node)
                    o, a = self.p.lookup(c, name)
                    if o is not None and a[0] == 'prop':
                        return [(st, st.unknown('property setter'))]
                st.event('SET', self.site(node, st), v, name, val)
                st.put(v, name, val)
                return [(st, NONE)]
        if v[0] == 'cls':
            st.event('SETCLS', self.site(node, st), v, name, val)
            return [(st, NONE)]
        if v[0] in ('s', 't', 'phi', 'u') or v[0] == 'r':
            st.event('SETU', self.site(node, st), v, name)
            return [(st, NONE)]
        if v[0] in ('fn', 'cm', 'sm', 'prop') and name in ('__name__', '__qualname__', '__doc__', '__module__'): return [(st, NONE)]
        return [(st, st.unknown('setattr'))]

    def delattr(self, st, v, name, node, raw=False):
        if v[0] == 'r' and st.cls(v) in self.p.classes:
            if not raw:
                o, f = self.p.lookup(st.cls(v), '__delattr__')
                if o is not None: return self.call(f, (v, ('k', 'str', name)), {}, st, node)
            st.event('SET', self.site(node, st), v, name, None)
            if name in st.heap[v[1]].f: st.rem(v, name)
            return [(st, NONE)]
        return [(st, st.unknown('delattr'))]

    # --------------------------------------------------------------- subscripts
    def special(self, st, v, meth, args, node):
        """Call a special method of a repo object, or None if it has none."""
        if self.prims:
            r = self.prims(st, v, meth, args, {}, node)
            if r is not None: return r
        o, f = self.p.lookup(st.cls(v), meth)
        if o is None or f == NONE: return None
        return self.bind(self.bindattr(st, v, f, node), lambda s, b: self.call(b, args, {}, s, node))

    def getitem(self, st, v, k, node):
        if v[0] == 'r' and st.cls(v) in self.p.classes:
            r = self.special(st, v, '__getitem__', (k,), node)
            if r is not None: return r
            return [(st, self.crash(st, 'TypeError', node, f"'{st.cls(v)}' object is not subscriptable"))]
        return self.m.getitem(st, v, k, node)

    def setitem(self, st, v, k, val, node):
        if v[0] == 'r' and st.cls(v) in self.p.classes:
            r = self.special(st, v, '__setitem__', (k, val), node)
            if r is not None: return r
            return [(st, self.crash(st, 'TypeError', node, f"'{st.cls(v)}' object does not support item assignment"))]
        return self.m.setitem(st, v, k, val, node)

    def delitem(self, st, v, k, node):
        if v[0] == 'r' and st.cls(v) in self.p.classes:
            r = self.special(st, v, '__delitem__', (k,), node)
            if r is not None: return r
            return [(st, self.crash(st, 'TypeError', node, f"'{st.cls(v)}' object does not support item deletion"))]
        return self.m.delitem(st, v, k, node)

    # --------------------------------------------------------------------- calls
    def call(self, fn, args, kw, st, node):
        self.tick(2)
        t = fn[0]
        if t == 'bm':
            f = fn[1]
            obj = fn[2]
            if self.prims and obj[0] == 'r' and f[0] == 'fn':
                nm = self.p.fns[f[1]].node
                nm = getattr(nm, 'name', None)
                if nm:
                    r = self.prims(st, obj, nm, args, kw, node)
                    if r is not None: return r
            return self.call(f, (obj,) + tuple(args), kw, st, node)
        if t == 'fn':
            if self.basecall and len(args) == 1 and args[0][0] == 'r':
                r = self.basecall(st, fn, args[0], node)
                if r is not None: return r
            return self.call_fn(fn, args, kw, st, node)
        if t in ('cm', 'sm'): return self.call(fn[1], args, kw, st, node)
        if t == 'cls': return self.instantiate(fn, args, kw, st, node)
        if t == 'bi': return self.m.call_builtin(st, fn[1], args, kw, node)
        if t == 'bim': return self.m.call_method(st, fn[1], fn[2], args, kw, node)
        if t == 'ext': return self.m.call_ext(st, fn, args, kw, node)
        if t == 'r':
            c = st.cls(fn)
            if c in self.p.classes:
                r = self.special(st, fn, '__call__', args, node) if not kw else None
                if r is not None: return r
                o, f = self.p.lookup(c, '__call__')
                if o is not None: return self.call(f, (fn,) + tuple(args), kw, st, node)
                return [(st, self.crash(st, 'TypeError', node, f"'{c}' object is not callable"))]
            if c == 'partial':
                p = st.heap[fn[1]].f
                k2 = dict(p['kw']); k2.update(kw)
                return self.call(p['fn'], p['args'] + tuple(args), k2, st, node)
            return [(st, self.crash(st, 'TypeError', node, f"'{c}' object is not callable"))]
        if t == 'k' or t == 'i' or t == 'tup':
            return [(st, self.crash(st, 'TypeError', node, f'{show(fn)} is not callable'))]
        return self.m.call_opaque(st, fn, args, kw, node)

    def call_fn(self, fn, args, kw, st, node):
        _, fid, cenv, defaults = fn
        F = self.p.fns[fid]
        self.cover.add(fid)
        n = F.node
        a = n.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwonly = [x.arg for x in a.kwonlyargs]
        b = {}
        args = tuple(args)
        kw = dict(kw)
        if len(args) > len(pos) and not a.vararg:
            if args and args[-1][0] == 'u': return [(st, st.unknown('call with unknown arguments'))]
            return [(st, self.crash(st, 'TypeError', node, f'{F.qual}() takes {len(pos)} positional arguments but {len(args)} were given'))]
        for i, x in enumerate(pos):
            if i < len(args): b[x] = args[i]
        if a.vararg: b[a.vararg.arg] = ('tup', args[len(pos):])
        star = kw.pop('**', None)
        extra = {}
        byname = [x.arg for x in a.args] + kwonly
        for k, v in kw.items():
            if k in byname:
                if k in b:
                    return [(st, self.crash(st, 'TypeError', node, f"{F.qual}() got multiple values for argument '{k}'"))]
                b[k] = v
            elif a.kwarg: extra[k] = v
            else:
                return [(st, self.crash(st, 'TypeError', node, f"{F.qual}() got an unexpected keyword argument '{k}'"))]
        if a.kwarg:
            if star is not None and not extra: b[a.kwarg.arg] = star
            elif star is not None: b[a.kwarg.arg] = st.unknown('merged keywords')
            else: b[a.kwarg.arg] = ('t', 'bdict', tuple(('it', ('tup', (('k', 'str', k), v))) for k, v in extra.items()))
        elif star is not None:
            nn = self.m.len_of(st, star)
            # an opaque keyword dict: assume it is empty here (otherwise the user's call is wrong)
            st.add(scale(nn, -1))
        d = dict(defaults)
        for x in pos + kwonly:
            if x not in b:
                if x in d: b[x] = d[x]
                else:
                    return [(st, self.crash(st, 'TypeError', node, f"{F.qual}() missing required argument '{x}'"))]
        depth = len(st.stack)
        key = (fid, tuple(sorted(b.items(), key=lambda kv: kv[0])))
        for x in mutated_names(F.node):
            if x in b and b[x][0] == 't' and b[x][1] in ('bdict', 'bset'):
                if not (a.kwarg and a.kwarg.arg == x): st.imprecise('a dict or set argument is changed')
                b[x] = self.m.mutable(st, b[x])
        for fr in st.stack:
            if fr[0] == fid and fr[1] == key[1] and fr[2] == self.mutver(st):
                st.event('RECUR', 'RecursionError', self.site(node, st), f'{F.qual} calls itself with the same arguments without end')
                st.event('CRASH', 'RecursionError', self.site(node, st), f'{F.qual} calls itself with the same arguments without end')
                return [(st, self.exc(st, 'RecursionError', 'internal', node))]
        if depth > MAX_DEPTH: return [(st, st.unknown('call depth'))]
        f = dict(b)
        f['$up'] = cenv; f['$mod'] = F.mod; f['$fn'] = fid; f['$file'] = F.file
        if pos: f['$self'] = b[pos[0]]
        env = st.new('$env', f)
        if F.isgen:
            return [(st, st.new('gen', {'fid': fid, 'env': env}, self.site(node, st)))]
        saved = st.stack
        st.stack = saved + ((fid, key[1], self.mutver(st)),)
        if isinstance(n, ast.Lambda): outs = self.ev(n.body, st, env)
        else:
            outs = []
            for s, fl in self.block(n.body, st, env):
                if isinstance(fl, Raise): outs.append((s, fl))
                elif fl is None: outs.append((s, NONE))
                elif fl[0] == 'ret': outs.append((s, fl[1]))
                elif fl[0] == 'dead': pass
                else: outs.append((s, NONE))
        r = []
        simple = self.p_simple(F)
        for s, v in outs:
            s.stack = saved
            if simple: s.heap.pop(env[1], None)
            r.append((s, v))
        if len(r) > 200: raise Abort('too many paths')
        return r

    _simple = {}
    def p_simple(self, F):
        k = id(F.node)
        if k not in self._simple:
            self._simple[k] = not any(isinstance(x, (ast.Lambda, ast.FunctionDef, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp))
                                      for b in (F.node.body if isinstance(F.node.body, list) else [F.node.body]) for x in ast.walk(b))
        return self._simple[k]

    def mutver(self, st): return st.x.get('$mut', 0)

    def instantiate(self, cls, args, kw, st, node):
        c = cls[1]
        if c in self.p.classes and not (c in BUILTIN_EXC):
            o, f = self.p.lookup(c, '__new__')
            isexc = any(b in BUILTIN_EXC for b in self.p.mro(c))
            if self.prims:
                r = self.prims(st, cls, '$new', args, kw, node)
                if r is not None: return r
            if o is not None:
                outs = self.call(f, (cls,) + tuple(args), kw, st, node)
            else:
                outs = [(st, st.new(c, {'args': ('tup', tuple(args))} if isexc else {}, self.site(node, st)))]
            oi, fi = self.p.lookup(c, '__init__')
            if oi is None: return outs
            def init(s, v):
                if v[0] == 'r' and s.cls(v) in self.p.classes and self.p.issub(s.cls(v), c):
                    return self.bind(self.call(fi, (v,) + tuple(args), kw, s, node), lambda s2, _: [(s2, v)])
                return [(s, v)]
            return self.bind(outs, init)
        if c in BUILTIN_EXC:
            return [(st, ('exc', c, 'raise', self.site(node, st), '', tuple(args)))]
        return self.m.construct(st, c, args, kw, node)

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st, env):
        outs = [(st, None)]
        for s in stmts:
            nxt = []
            for s1, fl in outs:
                if fl is not None: nxt.append((s1, fl))
                else: nxt.extend(self.stmt(s, s1, env))
            outs = nxt
            if len(outs) > 300: raise Abort('too many paths')
        return outs

    def stmt(self, n, st, env):
        self.tick()
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            st.imprecise('statement ' + type(n).__name__)
            return [(st, None)]
        return m(n, st, env)

    def s_Expr(self, n, st, env):
        return [(s, v if isinstance(v, Raise) else None) for s, v in self.ev(n.value, st, env)]

    def s_Pass(self, n, st, env): return [(st, None)]
    def s_Global(self, n, st, env): return [(st, None)]
    def s_Nonlocal(self, n, st, env): return [(st, None)]

    def s_Return(self, n, st, env):
        if n.value is None: return [(st, ('ret', NONE))]
        return [(s, v if isinstance(v, Raise) else ('ret', v)) for s, v in self.ev(n.value, st, env)]

    def s_Break(self, n, st, env): return [(st, ('brk',))]
    def s_Continue(self, n, st, env): return [(st, ('cnt',))]

    def s_Assign(self, n, st, env):
        def f(s, v):
            outs = [(s, None)]
            for t in n.targets:
                nxt = []
                for s1, fl in outs:
                    if fl is not None: nxt.append((s1, fl))
                    else: nxt.extend(self.assign(t, v, s1, env))
                outs = nxt
            return outs
        return self.bind(self.ev(n.value, st, env), f)

    def s_AnnAssign(self, n, st, env):
        if n.value is None: return [(st, None)]
        return self.bind(self.ev(n.value, st, env), lambda s, v: self.assign(n.target, v, s, env))

    def assign(self, t, v, st, env):
        """Bind a value to a target; returns statement outcomes."""
        if isinstance(t, ast.Name):
            F = self.p.fns.get(st.heap[env[1]].f.get('$fn'))
            e = env
            compr = st.heap[env[1]].f.get('$compr')
            if F and not compr and t.id in F.globs:
                st.event('SETGLOBAL', self.site(t, st), t.id)
                return [(st, None)]
            if F and not compr and t.id in F.nonloc:
                e = st.heap[env[1]].f.get('$up')
                while e is not None and t.id not in st.heap[e[1]].f: e = st.heap[e[1]].f.get('$up')
                e = e or env
            if v[0] == 't' and v[1] in ('bdict', 'bset') and F and t.id in mutated_names(F.node): v = self.m.mutable(st, v)
            st.put(e, t.id, v)
            return [(st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.bind(self.unpack(st, v, t), lambda s, vs: self.assigns(t.elts, vs, s, env))
        if isinstance(t, ast.Starred): return self.assign(t.value, v, st, env)
        if isinstance(t, ast.Attribute):
            return [(s, x if isinstance(x, Raise) else None) for s, x in
                    self.bind(self.ev(t.value, st, env), lambda s, o: self.setattr(s, o, t.attr, v, t))]
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and self.raw(t.value.id, st, env):
            ref = self.raw(t.value.id, st, env)
            return [(s, x if isinstance(x, Raise) else None) for s, x in
                    self.bind(self.ev(t.slice, st, env), lambda s, k: self.m.setitem(s, ref, k, v, t))]
        if isinstance(t, ast.Subscript):
            return [(s, x if isinstance(x, Raise) else None) for s, x in
                    self.bind(self.evals([t.value, t.slice], st, env), lambda s, o: self.setitem(s, o[0], o[1], v, t))]
        st.imprecise('assignment target')
        return [(st, None)]

    def assigns(self, elts, vs, st, env):
        outs = [(st, None)]
        for t, v in zip(elts, vs):
            nxt = []
            for s, fl in outs:
                if fl is not None: nxt.append((s, fl))
                else: nxt.extend(self.assign(t, v, s, env))
            outs = nxt
        return outs

    def unpack(self, st, v, t):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        vs = None
        if v[0] == 'tup': vs = v[1]
        elif v[0] == 'r' and st.cls(v) == 'list' and all(p[0] == 'it' for p in st.get(v, 'ls')):
            vs = tuple(p[1] for p in st.get(v, 'ls'))
        if vs is not None:
            if star:
                i = star[0]
                if len(vs) < n - 1: return [(st, self.crash(st, 'ValueError', t, 'not enough values to unpack'))]
                k = len(vs) - (n - 1)
                ref = st.new('list', {'ls': tuple(('it', x) for x in vs[i:i + k])}, self.site(t, st))
                return [(st, vs[:i] + (ref,) + vs[i + k:])]
            if len(vs) != n: return [(st, self.crash(st, 'ValueError', t, f'cannot unpack {len(vs)} values into {n}'))]
            return [(st, vs)]
        if star: return [(st, tuple(st.unknown('starred unpack') for _ in t.elts))]
        if v == NONE or v[0] == 'i':
            return [(st, self.crash(st, 'TypeError', t, f'cannot unpack {show(v)}'))]
        if v[0] == 'u': return [(st, tuple(st.unknown('unpack') for _ in t.elts))]
        if v[0] == 'r' and (st.cls(v) in ('iter', 'gen', '$dict', '$set', 'list') or st.cls(v) in self.p.classes):
            def got(s, ls):
                if all(x[0] == 'it' for x in ls): return self.unpack(s, ('tup', tuple(x[1] for x in ls)), t)
                return [(s, tuple(s.unknown('unpack') for _ in t.elts))]
            return self.bind(self.l.collect(st, v, t), got)
        if v[0] == 'r': return [(st, tuple(st.unknown('unpack') for _ in t.elts))]
        # an opaque (user) value: e.g. an item of an iterable of pairs
        return [(st, tuple(self.m.unpk(v, i, n) for i in range(n)))]

    def s_AugAssign(self, n, st, env):
        def combine(s, old, val): return self.binop(s, type(n.op), old, val, n, inplace=True)
        t = n.target
        if isinstance(t, ast.Name):
            return self.bind(self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, env),
                lambda s, o: self.bind(self.ev(n.value, s, env),
                    lambda s2, v: self.bind(combine(s2, o, v), lambda s3, r: self.assign(t, r, s3, env))))
        if isinstance(t, ast.Attribute):
            return self.bind(self.ev(t.value, st, env), lambda s, ob:
                self.bind(self.getattr(s, ob, t.attr, t), lambda s1, o:
                    self.bind(self.ev(n.value, s1, env), lambda s2, v:
                        self.bind(combine(s2, o, v), lambda s3, r:
                            [(s4, x if isinstance(x, Raise) else None) for s4, x in self.setattr(s3, ob, t.attr, r, t)]))))
        if isinstance(t, ast.Subscript):
            own = self.raw(t.value.id, st, env) if isinstance(t.value, ast.Name) else None
            return self.bind(self.evals([t.value, t.slice], st, env), lambda s, ok:
                self.bind(self.getitem(s, ok[0], ok[1], t), lambda s1, o:
                    self.bind(self.ev(n.value, s1, env), lambda s2, v:
                        self.bind(combine(s2, o, v), lambda s3, r:
                            [(s4, x if isinstance(x, Raise) else None) for s4, x in self.setitem(s3, own or ok[0], ok[1], r, t)]))))
        st.imprecise('augmented assignment')
        return [(st, None)]

    def s_Delete(self, n, st, env):
        outs = [(st, None)]
        for t in n.targets:
            nxt = []
            for s, fl in outs:
                if fl is not None: nxt.append((s, fl)); continue
                if isinstance(t, ast.Name):
                    if t.id in s.heap[env[1]].f: s.rem(env, t.id)
                    else: fl = self.crash(s, 'NameError', t, f"name '{t.id}' is not defined")
                    nxt.append((s, fl if isinstance(fl, Raise) else None))
                elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and self.raw(t.value.id, s, env):
                    ref = self.raw(t.value.id, s, env)
                    nxt.extend((s2, x if isinstance(x, Raise) else None) for s2, x in
                               self.bind(self.ev(t.slice, s, env), lambda s1, o: self.m.delitem(s1, ref, o, t)))
                elif isinstance(t, ast.Subscript):
                    nxt.extend((s2, x if isinstance(x, Raise) else None) for s2, x in
                               self.bind(self.evals([t.value, t.slice], s, env), lambda s1, o: self.delitem(s1, o[0], o[1], t)))
                elif isinstance(t, ast.Attribute):
                    nxt.extend((s2, x if isinstance(x, Raise) else None) for s2, x in
                               self.bind(self.ev(t.value, s, env), lambda s1, o: self.delattr(s1, o, t.attr, t)))
                else: s.imprecise('del'); nxt.append((s, None))
            outs = nxt
        return outs

    def s_If(self, n, st, env):
        def f(s, v):
            r = []
            for s2, b in self.split(s, v, n.test):
                if isinstance(b, Raise): r.append((s2, b))
                else: r.extend(self.block(n.body if b else n.orelse, s2, env))
            return r
        return self.bind(self.ev(n.test, st, env), f)

    def s_While(self, n, st, env): return self.l.while_loop(n, st, env)

    def s_For(self, n, st, env): return self.l.for_stmt(n, st, env)

    def s_Raise(self, n, st, env):
        if n.exc is None:
            cur = st.x.get('$exc')
            if cur: return [(st, Raise(cur[-1]))]
            return [(st, self.crash(st, 'RuntimeError', n, 'no active exception to re-raise'))]
        def f(s, v):
            if v[0] == 'cls':
                return self.bind(self.instantiate(v, (), {}, s, n), lambda s2, w: f(s2, w))
            if v[0] == 'exc': return [(s, Raise(('exc', v[1], 'raise' if v[2] != 'internal' else v[2], self.site(n, s), v[4], v[5] if len(v) > 5 else None)))]
            if v[0] == 'r': return [(s, Raise(('exc', s.cls(v), 'raise', self.site(n, s), '', v)))]
            if v[0] in ('k', 'i', 'tup'): return [(s, self.crash(s, 'TypeError', n, 'exceptions must derive from BaseException'))]
            return [(s, Raise(('exc', 'UserError', 'user', self.site(n, s), '', v)))]
        outs = self.bind(self.ev(n.exc, st, env), f)
        if n.cause is not None:
            outs = [(s, v) for s, v in outs]
        return outs

    def exc_matches(self, st, exc, cv):
        if cv[0] == 'tup': return any(self.exc_matches(st, exc, x) for x in cv[1])
        if cv[0] != 'cls': return True
        return cv[1] in self.p.mro(exc[1])

    def s_Try(self, n, st, env):
        outs = []
        for s, fl in self.block(n.body, st, env):
            if isinstance(fl, Raise) and fl.exc[2] != 'gexit' and fl.exc[1] != 'InfiniteLoop':
                outs.extend(self.handlers(n, s, fl, env))
            elif fl is None and n.orelse:
                outs.extend(self.block(n.orelse, s, env))
            else: outs.append((s, fl))
        if not n.finalbody: return outs
        r = []
        for s, fl in outs:
            for s2, f2 in self.block(n.finalbody, s, env):
                r.append((s2, f2 if f2 is not None else fl))
        return r

    s_TryStar = s_Try

    def handlers(self, n, st, fl, env):
        for h in n.handlers:
            if h.type is None: hit = True
            else:
                res = self.ev(h.type, st, env)
                if len(res) != 1: st.imprecise('exception class'); hit = True
                else:
                    st, cv = res[0]
                    if isinstance(cv, Raise): return [(st, cv)]
                    hit = self.exc_matches(st, fl.exc, cv)
            if hit:
                st.event('CAUGHT', self.site(h, st), fl.exc[1], fl.exc[2])
                old = st.x.get('$exc', ())
                st.x['$exc'] = old + (fl.exc,)
                if h.name:
                    v = fl.exc[5] if len(fl.exc) > 5 and fl.exc[5] is not None and not isinstance(fl.exc[5], list) and fl.exc[5] and isinstance(fl.exc[5][0], str) else fl.exc
                    st.put(env, h.name, v)
                r = []
                for s, f2 in self.block(h.body, st, env):
                    s.x['$exc'] = old
                    if h.name and env[1] in s.heap and h.name in s.heap[env[1]].f: s.rem(env, h.name)
                    r.append((s, f2))
                return r
        return [(st, fl)]

    def s_With(self, n, st, env):
        def go(s, items):
            if not items: return self.block(n.body, s, env)
            it = items[0]
            def f(s2, cm):
                def entered(s3, v):
                    outs = [(s3, None)]
                    if it.optional_vars is not None: outs = self.assign(it.optional_vars, v, s3, env)
                    res = []
                    for s4, fl in outs:
                        res.extend(go(s4, items[1:]) if fl is None else [(s4, fl)])
                    fin = []
                    for s5, fl in res:
                        for s6, x in self.cm_call(s5, cm, '__exit__', (NONE, NONE, NONE), n):
                            fin.append((s6, x if isinstance(x, Raise) else fl))
                    return fin
                return self.bind(self.cm_call(s2, cm, '__enter__', (), n), entered)
            return self.bind(self.ev(it.context_expr, s, env), f)
        return go(st, n.items)

    def cm_call(self, st, cm, name, args, node):
        return self.bind(self.getattr(st, cm, name, node), lambda s, f: self.call(f, args, {}, s, node))

    def s_FunctionDef(self, n, st, env):
        def f(s, v):
            for d in n.decorator_list:
                s.imprecise('decorated local function')
            s.put(env, n.name, v)
            return [(s, None)]
        return self.bind(self.mkfn(n, st, env, n.name), f)

    def s_Assert(self, n, st, env):
        def f(s, v):
            return [(s2, (b if isinstance(b, Raise) else None if b else self.exc(s2, 'AssertionError', 'raise', n))) for s2, b in self.split(s, v, n)]
        return self.bind(self.ev(n.test, st, env), f)

    def s_Import(self, n, st, env):
        for a in n.names:
            st.put(env, (a.asname or a.name).split('.')[0], ('mod', a.name if a.asname else a.name.split('.')[0]))
        return [(st, None)]

    def s_ImportFrom(self, n, st, env):
        from .load import resolve_import
        mod = st.heap[env[1]].f.get('$mod')
        for a in n.names:
            v = resolve_import(self, mod, n, a.name)
            if v is None: v = st.unknown(f'import {n.module}.{a.name}')
            st.put(env, a.asname or a.name, v)
        return [(st, None)]

    def s_Match(self, n, st, env):
        st.imprecise('match statement')
        return [(st, None)]

    def s_ClassDef(self, n, st, env):
        st.put(env, n.name, st.unknown('local class'))
        return [(st, None)]
